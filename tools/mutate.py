#!/usr/bin/env python3
"""mutate.py prep|base|run|show - mutation campaign over the library (development tool, no check uses it).

Every mutation is switched on at run time by VM=<k>, so one build per harness carries all of them:
prep   copies /repo to /tmp/mut/repo, instruments it (dropping what does not compile), builds every harness
base   runs every property with no mutation on
run    runs each mutation against the properties mapped to its file until one of them objects
"""
import os, re, sys, json, subprocess, random, shutil, time
from concurrent.futures import ThreadPoolExecutor
W = "/tmp/mut"; R = W + "/repo"
os.environ["VERIF_REPO"] = R
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VMH = "#ifndef VMH\n#define VMH\nextern int vm_k;\nstatic inline bool vm(int k){return vm_k==k;}\n#endif\n"
VMC = "#include <cstdlib>\nint vm_k=0;\n__attribute__((constructor(101))) static void vmi(){const char*e=getenv(\"VM\");vm_k=e?atoi(e):0;}\n"
MAP = [
 ("tensor/tensorshape", "T01 O04 T02 O05 O03"), ("tensor/tensor_handler", "O07 O01 O05 V01 R01 M"), ("tensor/tensor.", "T02 T03 V01 S02 O01"),
 ("tensor/", "T02 O07"), ("memory/tensor_io", "S01 S02"), ("memory/", "T03 T02"), ("thread/", "C01 C02"),
 ("graph/react", "R03 R04 R01 R05"), ("graph/leaf", "V01 R05 S01 S02 T03 R04 O07 D01"), ("immutable/generator", "O07 R05 R04"), ("immutable/shape_dep", "R01 D02 R05 O05"),
 ("mutable_connector", ""), ("graph/connector", "R01 R02 R04 R05 R07 D01 D02 R06 G01 E01 R03"), ("operations/matmul", "O03 D02 R06"),
 ("operations/transform", "O04 O05 O06 R06 D02 R07 O02"), ("operations/elementary", "O01 O02 R06 D01 D02 O07 R07 O05"), ("operations/", "O01 O02 O05 R07"),
 ("graph/inode", "R05 R01 R04 R06"), ("graph/varptr", "R04 R01"), ("utils/gd_utils", "G01 G02 N02"), ("utils/", "S01 O01 T01 S02"),
 ("edgeinfo/grpc", ""), ("edgeinfo/", "E01"), ("rocnnet/", "N01 N02 N05 N03 N04"),
 ("graph/", "R01 R05"), ("", "R01 T01"),
]
EXTRA = {"dq_net": "N03 N05", "rbm": "N04 N05", "db_net": "N04 N05", "gd_net": "N02 N05", "layers": "N01 N05 N04", "compounds": "N01 N05 N04"}

def sites(path):
    """yield (line index, replacement function)"""
    out = []; lines = open(path).read().split("\n"); incomment = False
    depth_ok = False
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in l: incomment = True
        if "*/" in l: incomment = False; continue
        if incomment or s.startswith("//") or s.startswith("#") or not s or '"' in s and ("throw" in s or "<<" in s): continue
        if s.startswith(("template", "class ", "struct ", "using ", "typedef", "friend", "public", "private", "protected", "virtual", "assert", "namespace", "static_assert", "throw", "case ")): continue
        code = re.sub(r"\s*//.*$", "", l)
        st = code.strip()
        ind = code[:len(code) - len(code.lstrip())]
        prev = lines[i - 1].strip() if i else ""
        stmtpos = prev == "" or prev.endswith((";", "{", "}", ":", ")")) or prev.startswith(("//", "else")) 
        # statement deletion
        if stmtpos and st.endswith(";") and st.count("(") == st.count(")") and ind and not st.startswith(("return", "for", "if", "while", "delete this", "else", "const ", "auto ", "static ", "using ", "size_t ", "double ", "bool ", "int ", "T ", "break", "continue", "switch", "do", "}", "{", "default")):
            body = st[:-1]
            if re.match(r"^(delete\s+)?[\w\.\->\[\]\*:<>, &\(\)]*?[\w\]\)](\(.*\)|\s*[+\-*/]?=\s.*|\+\+|--)$", body) and not re.match(r"^[\w:<>\*&, ]+\s+[\*&]*\w+\s*(=|\(|;|$)", re.sub(r"^delete\s+", "", body)):
                out.append((i, "del", ind + "if (!vm(%d)) { " + st.replace("%", "%%") + " }"))
        if re.match(r"^(break|continue|return);$", st) and prev.endswith(("{", ";", "}")): out.append((i, "del", ind + "if (!vm(%d)) " + st))
        # conditions
        m = re.match(r"^(\}?\s*(?:else )?(?:if|while)\s*)\((.*)\)(\s*\{?)$", st)
        if m and balanced(m.group(2)):
            c = m.group(2); pre, post = m.group(1), m.group(3); E = lambda x: x.replace("%", "%%")
            if not re.match(r"^[\w:<>\*&]+[\s\*&]+\w+\s*=[^=]", c):
                out.append((i, "neg", ind + pre + "((vm(%d)) != bool(" + E(c) + "))" + post))
                for op, val in (("&&", "true"), ("||", "false")):
                    parts = split_top(c, op)
                    if len(parts) > 1 and not (op == "&&" and len(split_top(c, "||")) > 1):
                        for k in range(len(parts)):
                            q = [("(vm(%d) ? " + val + " : bool(" + E(p.strip()) + "))" if j == k else E(p.strip())) for j, p in enumerate(parts)]
                            out.append((i, "cond", ind + pre + "(" + (" %s " % op).join(q) + ")" + post))
        # relational boundary: operand + 1
        if ind:
            for m in re.finditer(r"(?<![<>\w])(<|<=|>|>=|==)\s(-?[\w]+(?:(?:\.|->)\w+(?:\(\))?)*(?:\[[\w]+\])?)(?=\s*(\)|;|&&|\|\||\?|$))", code):
                if "template" in code or "operator" in code or not re.search(r"if|for|while|return|=|\?|&&", code[:m.start()]): continue
                b = m.group(2)
                rel = m.group(1)
                if b in ("nullptr", "true", "false") or rel == "==" and not b.isdigit(): continue
                d = "+" if rel in ("<", ">=", "==") else "-"
                out.append((i, "rel", (code[:m.start(2)].replace("%", "%%")) + "(" + b + " " + d + " int(vm(%d)))" + code[m.end(2):].replace("%", "%%")))
            # integer literals
            for m in re.finditer(r"(?<![\w\.\"'\[<])([0-9]+(?:\.[0-9]+)?)(?![\w\.\"'>])", code):
                if "enum" in code or "'" in code or '"' in code: continue
                v = m.group(1)
                if not re.search(r"[=\(,+\-*/<>?:]|return", code[:m.start()]): continue
                out.append((i, "lit", (code[:m.start()].replace("%", "%%")) + "(vm(%d) ? " + (v + " + 1") + " : " + v + ")" + code[m.end():].replace("%", "%%")))
            # sign of the right operand
            for m in re.finditer(r"(?<=[\w\)\]])\s([+\-])\s((?:[A-Za-z_]\w*)(?:(?:\.|->)\w+(?:\(\))?)*(?:\[\w+\])?)(?=\s*(\)|;|,|<|>|\?|=|&&|\|\||$))", code):
                out.append((i, "sign", (code[:m.start(2)].replace("%", "%%")) + "(vm(%d) ? -(" + m.group(2) + ") : (" + m.group(2) + "))" + code[m.end(2):].replace("%", "%%")))
            for m in re.finditer(r"(?<=[\w\)\]])\s([*/])\s((?:[A-Za-z_]\w*)(?:(?:\.|->)\w+(?:\(\))?)*(?:\[\w+\])?)(?=\s*(\)|;|,|<|>|\?|=|&&|\|\||\+|$))", code):
                if re.match(r"^[\w:<>]+\s\*\s", st) and "=" not in code[:m.start()]: continue
                out.append((i, "unit", (code[:m.start(2)].replace("%", "%%")) + "(vm(%d) ? decltype(" + m.group(2) + ")(1) : (" + m.group(2) + "))" + code[m.end(2):].replace("%", "%%")))
            # booleans
            for m in re.finditer(r"(?<![\w])(true|false)(?![\w])", code):
                if re.match(r"^[\w:<>\*& ,~\(\)=]*\)?\s*(const)?\s*[:,]", st) and "(" in st and not st.endswith(";") and "if" not in st: pass
                v = m.group(1)
                if re.search(r"bool \w+ = $", code[:m.start()]) and not st.endswith(";"): continue
                out.append((i, "bool", (code[:m.start()].replace("%", "%%")) + "(vm(%d) ? " + ("false" if v == "true" else "true") + " : " + v + ")" + code[m.end():].replace("%", "%%")))
            # swapped arguments
            for m in re.finditer(r"(?<=[\w>])\((\w+), (\w+)\)(?=[;\),])", code):
                a, b = m.group(1), m.group(2)
                if a == b or a[0].isdigit() or b[0].isdigit() or a in ("true", "false", "nullptr") or b in ("true", "false", "nullptr"): continue
                out.append((i, "swap", code[:m.start()].replace("%", "%%") + "((vm(%d) ? " + b + " : " + a + "), (vm(%d) ? " + a + " : " + b + "))" + code[m.end():].replace("%", "%%")))
    return out

def balanced(s):
    d = 0
    for c in s:
        d += c == "("; d -= c == ")"
        if d < 0: return False
    return d == 0

def split_top(s, op):
    d = 0; parts = []; cur = ""; i = 0
    while i < len(s):
        if s[i] in "([": d += 1
        if s[i] in ")]": d -= 1
        if d == 0 and s.startswith(op, i): parts.append(cur); cur = ""; i += 2; continue
        cur += s[i]; i += 1
    return parts + [cur]

def prep(per_line=2):
    shutil.rmtree(R, ignore_errors=True); os.makedirs(R)
    subprocess.check_call("git -C /repo archive HEAD app | tar -x -C " + R, shell=True)
    open(W + "/vm.h", "w").write(VMH); open(W + "/vm.cpp", "w").write(VMC)
    rnd = random.Random(7)
    files = [f for f in subprocess.check_output("cd %s && git -C /repo ls-files app/tenncor/src app/tenncor/include app/rocnnet/src app/rocnnet/include" % R, shell=True, text=True).split() if f.endswith((".cpp", ".hpp", ".ipp"))]
    files = [f for f in files if "grpc" not in f and "mutable_connector" not in f]
    muts = {}; k = 0; chosen = {}
    for f in files:
        per = {}
        for (i, kind, rep) in sites(R + "/" + f): per.setdefault(i, []).append((kind, rep))
        for i, l in per.items():
            # one mutation per line and build: a line carries one switch
            chosen[(f, i)] = l
    k = 0; plan = {}
    for (f, i), l in chosen.items():
        kind, rep = rnd.choice(l); k += 1
        plan[(f, i)] = (k, kind, rep)
    bad = set()
    orig = {f: open(R + "/" + f).read().split("\n") for f in files}
    def write():
        for f in files:
            ls = list(orig[f])
            for i in range(len(ls)):
                if (f, i) in plan and (f, i) not in bad:
                    kk, kind, rep = plan[(f, i)]
                    ls[i] = (rep.replace("%d", str(kk))).replace("%%", "%")
            open(R + "/" + f, "w").write("\n".join(ls))
    import check
    from checks_conf import HARNESS
    hs = sorted({r["harness"] for p, c in check.CONF.items() for r in c["runs"] if p != "M01"})
    gen = W + "/gen"; os.makedirs(gen + "/proto", exist_ok=True)
    subprocess.check_call(["protoc", "--proto_path=%s/proto/serial" % check.TEN, "--cpp_out=" + gen + "/proto", check.TEN + "/proto/serial/tenncor.proto"])
    subprocess.check_call(["protoc", "--proto_path=%s/proto/grpc" % check.TEN, "--cpp_out=" + gen + "/proto", "--grpc_out=" + gen + "/proto", "--plugin=protoc-gen-grpc=" + shutil.which("grpc_cpp_plugin"), check.TEN + "/proto/grpc/grpc_gui.proto"])
    inc = ["-I%s/include" % check.TEN, "-I%s/include" % check.ROC, "-I" + gen, "-I%s/harness" % HERE, "-I" + check.TEN, "-I" + check.ROC]
    while True:
        write()
        jobs = []
        for h in hs:
            jobs.append((HERE + "/harness/" + HARNESS[h]["src"], HARNESS[h].get("cflags", [])))
        import glob
        for s in glob.glob(check.TEN + "/src/**/*.cpp", recursive=True) + glob.glob(check.ROC + "/src/**/*.cpp", recursive=True):
            if "grpc" not in s: jobs.append((s, []))
        def syn(j):
            p = subprocess.run(["nice", "-n", "19", "g++", "-std=c++14", "-w", "-DENABLE_STRASSEN", "-fsyntax-only", "-fmax-errors=0", "-include", W + "/vm.h"] + j[1] + inc + [j[0]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return p.returncode, p.stdout
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(syn, jobs))
        nb = set()
        for rc, o in res:
            if rc:
                for m in re.finditer(r"(/[^\s:]+):(\d+):\d+: error", o):
                    p = os.path.normpath(m.group(1))
                    if p.startswith(R):
                        f = p[len(R) + 1:]; i = int(m.group(2)) - 1
                        for d in (0, -1, 1):
                            if (f, i + d) in plan and (f, i + d) not in bad: nb.add((f, i + d)); break
        print("compile round:", sum(1 for rc, o in res if rc), "failing,", len(nb), "dropped", flush=True)
        if not any(rc for rc, o in res): break
        if not nb:
            print([o[:3000] for rc, o in res if rc][0]); sys.exit(1)
        bad |= nb
    muts = {kk: {"file": f, "line": i + 1, "kind": kind, "old": orig[f][i].strip(), "new": rep.strip()} for (f, i), (kk, kind, rep) in plan.items() if (f, i) not in bad}
    json.dump(muts, open(W + "/muts.json", "w"), indent=0)
    print(len(muts), "mutations", flush=True)
    # build
    for s in check.SAN.values(): s += ["-include", W + "/vm.h"]
    for h in hs:
        hh = check.HARNESS[h]; hh["extra"] = hh.get("extra", []) + [W + "/vm.cpp"]
        t = time.time(); exe = check.build(h, W + "/bin/" + h); print(h, exe, "%.0fs" % (time.time() - t), flush=True)

def props_of(f):
    if "rocnnet/" in f:
        for k, v in EXTRA.items():
            if k in f: return v.split()
    for k, v in MAP:
        if k in f: return [p for p in v.split() if p != "M"]

def attempt(k, prop, dl, seed=1, part=0, of=1):
    import check
    for r in check.CONF[prop]["runs"]:
        wd = "%s/run/%s_%s_%s_%d" % (W, k, prop, r["harness"], part); os.makedirs(wd, exist_ok=True)
        env = dict(os.environ); env.update(check.ENV); env["VH_SCRATCH"] = wd; env["VM"] = str(k)
        n = r["cases"][0]
        p = subprocess.Popen(["nice", "-n", "19", W + "/bin/%s/%s" % (r["harness"], r["harness"]), "--prop", prop, "--out", wd + "/out.json", "--state", wd + "/state", "--seed", str(seed), "--from", str(part), "--to", str(n), "--stride", str(of), "--deadline", str(dl)],
                             cwd=wd, env=env, stdout=subprocess.DEVNULL, stderr=open(wd + "/err", "wb"), preexec_fn=check.limits, start_new_session=True)
        try: p.wait(dl + 60); rc = p.returncode
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait(); rc = "hang"
        why = ""
        if rc:
            try: why = json.load(open(wd + "/out.json"))["violation"]["msg"][:150]
            except Exception: why = str(rc) + " " + (open(wd + "/err", errors="replace").read()[:150])
        shutil.rmtree(wd, ignore_errors=True)
        if rc: return why or str(rc)
    return None

def main():
    cmd = sys.argv[1]
    if cmd == "prep": prep()
    elif cmd == "build":   # rebuild harnesses over the instrumented copy
        import check
        for v in check.SAN.values(): v += ["-include", W + "/vm.h"]
        for h in sys.argv[2:]:
            hh = check.HARNESS[h]; hh["extra"] = hh.get("extra", []) + [W + "/vm.cpp"]
            print(check.build(h, W + "/bin/" + h))
    elif cmd == "base":
        import check
        with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
            for p, o in zip(check.CONF, ex.map(lambda p: p == "M01" or attempt(0, p, 20), list(check.CONF))): print(p, o, flush=True)
    elif cmd == "run":
        muts = json.load(open(W + "/muts.json"))
        res = {}
        if os.path.exists(W + "/res.json"): res = json.load(open(W + "/res.json"))
        todo = [k for k in muts if k not in res and (len(sys.argv) < 3 or re.search(sys.argv[2], muts[k]["file"]))]
        random.Random(3).shuffle(todo)
        dl = float(os.environ.get("DL", "10")); t0 = time.time(); lim = float(os.environ.get("LIM", "3600"))
        def one(k):
            if time.time() - t0 > lim: return
            for p in props_of(muts[k]["file"]):
                w = attempt(k, p, dl)
                if w: res[k] = [p, w]; break
            else: res[k] = None
            if res[k] is None: print("SURVIVED", k, muts[k]["file"], muts[k]["line"], muts[k]["kind"], "|", muts[k]["old"], "=>", muts[k]["new"], flush=True)
            if len(res) % 20 == 0: json.dump(dict(res), open(W + "/res.json", "w")); print("..", len(res), sum(1 for v in list(res.values()) if v), flush=True)
        with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex: list(ex.map(one, todo))
        json.dump(res, open(W + "/res.json", "w"))
    elif cmd == "retry":   # survivors against more properties and longer: retry <dl> <props...>
        muts = json.load(open(W + "/muts.json")); res = json.load(open(W + "/res.json")); dl = float(sys.argv[2])
        ks = [k for k in res if res[k] is None and (len(sys.argv) < 4 or re.search(sys.argv[3], muts[k]["file"]))]
        def one(k):
            for p in (sys.argv[4:] or props_of(muts[k]["file"])):
                w = attempt(k, p, dl, seed=2)
                if w: res[k] = [p, w]; print("KILLED", k, p, w.replace("\n", " "), flush=True); break
        with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex: list(ex.map(one, ks))
        json.dump(res, open(W + "/res.json", "w"))
    elif cmd == "show":
        muts = json.load(open(W + "/muts.json")); res = json.load(open(W + "/res.json"))
        print(len(res), "run,", sum(1 for v in res.values() if v), "killed")
        for k in sorted((k for k in res if res[k] is None), key=lambda k: (muts[k]["file"], muts[k]["line"])):
            print(k, muts[k]["file"].replace("app/", ""), muts[k]["line"], muts[k]["kind"], "|", muts[k]["old"], "=>", muts[k]["new"])
main()
