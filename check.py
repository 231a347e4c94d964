#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay file] [--cases N] [--jobs N]

Builds the harness of one property from /repo's current working tree, runs its cases in parallel worker processes
under sanitizers, confirms violations, writes /verif/evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1 with `VIOLATION property=<id> replay=<path>`: broken.
"""
import os, sys, json, time, hashlib, subprocess, glob, shutil, tempfile, signal, uuid
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks_conf import CONF, HARNESS

TEN = REPO + "/app/tenncor"; ROC = REPO + "/app/rocnnet"
NCPU = max(2, os.cpu_count() or 2)
SAN = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:free_fill_byte=238:max_free_fill_size=65536:"
                    "detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=41:abort_on_error=0:quarantine_size_mb=64:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=42",
    "TSAN_OPTIONS": "exitcode=43:halt_on_error=1:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0",
}

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class BuildError(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

def build(hname, bdir):
    """compile harness `hname`; returns the executable"""
    h = HARNESS[hname]
    san = SAN[h.get("san", "asan")] + h.get("cflags", [])
    os.makedirs(bdir, exist_ok=True)
    pdir = os.path.join(bdir, "gen", "proto"); os.makedirs(pdir, exist_ok=True)
    r = run(["protoc", f"--proto_path={TEN}/proto/serial", f"--cpp_out={pdir}", f"{TEN}/proto/serial/tenncor.proto"])
    if r.returncode: raise BuildError("protoc: " + r.stderr)
    if h.get("grpc"):
        # subject.cpp includes the visualisation service's headers when edges are recorded
        r = run(["protoc", f"--proto_path={TEN}/proto/grpc", f"--cpp_out={pdir}", f"--grpc_out={pdir}", "--plugin=protoc-gen-grpc=" + (shutil.which("grpc_cpp_plugin") or "grpc_cpp_plugin"), f"{TEN}/proto/grpc/grpc_gui.proto"])
        if r.returncode: raise BuildError("protoc: " + r.stderr)
    if h.get("grpc") == "fake": os.path.exists(f"{pdir}/grpc_gui.grpc.pb.h") and os.unlink(f"{pdir}/grpc_gui.grpc.pb.h")
    inc = ([f"-I{HERE}/harness/fakegrpc"] if h.get("grpc") == "fake" else []) + [f"-I{TEN}/include", f"-I{ROC}/include", f"-I{bdir}/gen", f"-I{HERE}/harness", f"-I{TEN}", f"-I{ROC}"]
    srcs = [(os.path.join(HERE, "harness", h["src"]), ["-DVH_MAIN"])]
    for extra in h.get("extra", []): srcs.append((os.path.join(HERE, "harness", extra), []))
    lib = sorted(glob.glob(TEN + "/src/**/*.cpp", recursive=True))
    lib = [s for s in lib if not any(x in s for x in h.get("exclude", ["grpc"]))]
    if h.get("rocnnet"): lib += sorted(glob.glob(ROC + "/src/**/*.cpp", recursive=True))
    if h.get("libs", True): srcs += [(s, []) for s in lib]
    else: srcs += [(s, []) for o in h.get("only", []) for s in sorted(glob.glob(REPO + "/" + o, recursive=True))]
    if h.get("proto", True): srcs.append((pdir + "/tenncor.pb.cc", ["-O0"]))
    if h.get("grpc") in ("real", "fake"): srcs.append((pdir + "/grpc_gui.pb.cc", ["-O0"]))
    if h.get("grpc") == "real": srcs.append((pdir + "/grpc_gui.grpc.pb.cc", ["-O0"]))
    cache = os.environ.get("VERIF_CACHE") or os.path.join(HERE, ".cache"); os.makedirs(cache, exist_ok=True)
    base = ["g++", "-std=c++14", "-w", "-DENABLE_STRASSEN"] + san + inc
    def comp(item):
        src, fl = item
        pp = subprocess.run(base + fl + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pp.returncode: raise BuildError(pp.stderr.decode(errors="replace")[-4000:])
        key = hashlib.sha256(pp.stdout.replace(bdir.encode(), b"") + repr(san + fl).encode()).hexdigest()[:40]
        obj = os.path.join(cache, key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%s.tmp" % uuid.uuid4().hex  # two harnesses may compile the same source at once
            i = os.path.join(bdir, key + ".ii")
            with open(i, "wb") as f: f.write(pp.stdout)
            c = subprocess.run(base + fl + ["-c", "-fpreprocessed", "-x", "c++-cpp-output", i, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            os.unlink(i)
            if c.returncode: raise BuildError(src + "\n" + c.stderr.decode(errors="replace")[-4000:])
            os.replace(tmp, obj)
        else:
            os.utime(obj)
        return obj
    # biggest first
    srcs.sort(key=lambda s: (0 if "/harness/" in s[0] else 1 if "models" in s[0] else 2 if "rocnnet" in s[0] or "utils" in s[0] else 3))
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(comp, srcs))
    exe = os.path.join(bdir, hname)
    l = run(["g++"] + san + objs + ["-o", exe] + h.get("ldlibs", []) + ["-lprotobuf", "-lpthread"])
    if l.returncode: raise BuildError("link: " + l.stderr[-4000:])
    if h.get("prefix"):
        with open(exe + ".prefix", "w") as f: json.dump(h["prefix"], f)
    # bound the cache
    fs = sorted(glob.glob(cache + "/*.o"), key=os.path.getmtime)
    while len(fs) > 600:
        try: os.unlink(fs.pop(0))
        except OSError: pass
    return exe

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def worker(exe, prop, args, wd, timeout, n):
    """run one worker process; returns dict(rc, out, err, state, timeout)"""
    os.makedirs(wd, exist_ok=True)
    out = os.path.join(wd, "out.json"); state = os.path.join(wd, "state")
    for f in (out, state):
        if os.path.exists(f): os.unlink(f)
    env = dict(os.environ); env.update(ENV); env["VH_SCRATCH"] = wd
    errf = open(os.path.join(wd, "err"), "wb")
    pre = []
    if os.path.exists(exe + ".prefix"): pre = json.load(open(exe + ".prefix"))
    p = subprocess.Popen(pre + [exe, "--prop", prop, "--out", out, "--state", state] + args, cwd=wd, env=env,
                         stdout=open(os.path.join(wd, "stdout"), "wb"), stderr=errf, preexec_fn=limits, start_new_session=True)
    to = False
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
    errf.close()
    r = {"rc": p.returncode, "timeout": to, "out": None, "case": None, "group": ""}
    try: r["out"] = json.load(open(out))
    except Exception: pass
    with open(os.path.join(wd, "err"), "rb") as f:
        f.seek(0, 2); f.seek(max(0, f.tell() - 60000)); r["err"] = f.read().decode(errors="replace")
    try:
        s = open(state).read()
        r["case"] = int(s[:20]); r["group"] = s[20:].strip()
    except Exception: pass
    return r

def crash_key(r):
    e = r["err"]
    for l in e.splitlines():
        if "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l or "runtime error:" in l or "Assertion" in l or "terminate called" in l or "FATAL" in l \
           or l.startswith("==") and ("uninitialised" in l or "Invalid " in l or "Mismatched " in l or "overlap" in l or "Process terminating" in l):
            return l.strip()[:300]
    return "process ended with status %s" % r["rc"]

def head(err):
    # sanitizer report: the first part matters
    for mark in ("=====", "runtime error:", "Assertion", "terminate called", "uninitialised", "Invalid read", "Invalid write", "Invalid free", "Mismatched", "Process terminating"):
        i = err.find(mark)
        if i >= 0: return err[max(0, i - 300):i + 8000]
    return err[-6000:]

def main():
    t0 = time.time()
    import argparse
    if "--selftest" in sys.argv:
        for tool in ("g++", "protoc", "valgrind", "grpc_cpp_plugin"):
            if not shutil.which(tool): log("missing", tool); sys.exit(1)
        sys.exit(0)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--cases", type=int); ap.add_argument("--jobs", type=int, default=NCPU)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--verbose", action="store_true"); ap.add_argument("--only", type=int)
    ap.add_argument("--group")
    a = ap.parse_args()
    prop, seed = a.prop, a.seed
    tier = "thorough" if a.tier == "thorough" else "quick"
    conf = CONF[prop]
    bdir = tempfile.mkdtemp(prefix="vb_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    rc = 2
    try:
        rc = go(a, prop, seed, tier, conf, bdir, t0)
    except BuildError as e:
        log("BUILD FAILED for", prop, "\n", e)
        rc = 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

def go(a, prop, seed, tier, conf, bdir, t0):
    runs = conf["runs"]
    jobs = a.jobs
    optional = {r["harness"] for r in runs if r.get("optional")}
    def make(h):
        try: return h, build(h, os.path.join(bdir, h))
        except BuildError as e:
            if h not in optional: raise
            log("left out:", h, "\n", e)
            return h, None
    with ThreadPoolExecutor(2) as ex:
        exes = dict(ex.map(make, sorted({r["harness"] for r in runs} | {e["harness"] for e in findings(prop)})))
    runs = [r for r in runs if exes[r["harness"]]]
    tb = time.time() - t0
    if a.replay:
        rep = json.load(open(a.replay))
        res = worker(exes[rep["harness"]], prop, ["--seed", str(rep["seed"]), "--only", str(rep["case"])] + (["--thorough"] if rep.get("tier") == "thorough" else []), os.path.join(bdir, "w"), 300, 0)
        log(head(res["err"]))
        bad = res["timeout"] or res["rc"] != 0
        if bad: print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
        return 1 if bad else 0
    tot = {"cases": 0, "events": 0, "skipped": 0}; counters = {}; samples = []; sigs = set(); violations = []
    inconclusive = ["%s could not be built and was left out" % h for h in exes if not exes[h]]
    # a slow machine still has to finish within the time a quick check gets
    sq = 1.0
    if tier == "quick":
        want = sum(r["deadline"][0] + 4 for r in runs)
        left = 720 - (time.time() - t0)
        if want > left: sq = max(0.25, left / want)
    for r in runs:
        exe = exes[r["harness"]]
        ncases = a.cases or r["cases"][1 if tier == "thorough" else 0]
        dl = r["deadline"][1 if tier == "thorough" else 0] * sq
        nj = min(jobs, r.get("jobs", jobs))
        if a.only is not None:
            res = worker(exe, prop, ["--seed", str(seed), "--only", str(a.only), "--verbose"], os.path.join(bdir, "w"), 300, 0)
            print(open(os.path.join(bdir, "w", "stdout")).read()[-20000:]); log(res["err"][-20000:]); log("rc", res["rc"])
            return 0
        # each worker takes every nj-th case; after a crash the slice goes on behind the crashing case
        def slice_run(w):
            got = []; start = w; tend = time.time() + dl
            for attempt in range(3):
                left = tend - time.time()
                if left < 1 or start >= ncases: break
                wd = os.path.join(bdir, "%s_w%d_%d" % (r["harness"], w, attempt))
                res = worker(exe, prop, ["--seed", str(seed), "--from", str(start), "--to", str(ncases), "--stride", str(nj), "--deadline", "%.1f" % left] + (["--thorough"] if tier == "thorough" else []), wd, left + r.get("grace", 60), w)
                got.append(res)
                break
            return got
        with ThreadPoolExecutor(nj) as ex:
            results = [x for l in ex.map(slice_run, range(nj)) for x in l]
        for k, res in enumerate(results):
            o = res["out"]
            if o:
                for f in tot: tot[f] += o[f]
                for c, v in o["counters"].items(): counters[c] = counters.get(c, 0) + v
                samples += o["samples"]; sigs.update(o["sigs"])
            if res["rc"] == 0 and not res["timeout"]: continue
            if o and o.get("violation"):
                v = o["violation"]; violations.append((r["harness"], v["case"], v["group"], v["key"], v["msg"] + "\n" + v["trace"]))
            elif res["timeout"]:
                violations.append((r["harness"], res["case"], res["group"], "hang", "the case did not finish"))
            else:
                if "failed to intercept" in res["err"] or (res["rc"] == -9):
                    inconclusive.append("worker killed")
                else:
                    violations.append((r["harness"], res["case"], res["group"], "crash", crash_key(res) + "\n" + head(res["err"])))
        if violations: break
    # confirm: the case alone, in a fresh process (a violation of a schedule is confirmed by its own log)
    confirmed = []
    for (hn, case, group, key, msg) in violations[:6]:
        if case is None: 
            inconclusive.append("no case recorded: " + msg[:200]); continue
        r = [x for x in runs if x["harness"] == hn][0]
        ok = False; detail = msg
        if r.get("confirm", True):
            for t in range(2 if key != "hang" else 1):
                res = worker(exes[hn], prop, ["--seed", str(seed), "--only", str(case)] + (["--thorough"] if tier == "thorough" else []), os.path.join(bdir, "c%d_%d" % (case, t)), 120, 0)
                if res["timeout"] or res["rc"] != 0:
                    ok = True
                    if res["out"] and res["out"].get("violation"): detail = res["out"]["violation"]["msg"] + "\n" + res["out"]["violation"]["trace"]
                    elif not res["timeout"]: detail = crash_key(res) + "\n" + head(res["err"])
                    break
            if not ok and key in ("crash", "value", "shape"):
                # state carried over from earlier cases of the process: replay the slice
                inconclusive.append("case %s of %s failed only in its sequence: %s" % (case, group, msg[:1500]))
                if r.get("sequence_counts", True): ok = True
        else: ok = True
        if ok: confirmed.append((hn, case, group, key, detail))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"),
          "coverage": {"evaluations": tot["cases"], "distinct_nontrivial": len(sigs),
                       "rule": conf["rule"], "samples": samples[:6] or ["(none)"],
                       "oracle_observations": tot["events"], "cases_without_effect": tot["skipped"], "counters": counters,
                       "build_s": round(tb, 1)},
          "assumptions": conf.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(confirmed)}
    if inconclusive: ev["coverage"]["inconclusive"] = inconclusive[:5]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for kf in known_lines(prop, conf, exes, bdir): print(kf)
    if confirmed:
        hn, case, group, key, detail = confirmed[0]
        rp = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
        with open(rp, "w") as f: json.dump({"property": prop, "harness": hn, "seed": seed, "case": case, "group": group, "key": key, "tier": tier, "detail": detail[:20000]}, f, indent=1)
        log("property %s violated: case %d [%s] %s\n%s" % (prop, case, group, key, detail[:6000]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if tot["cases"] == 0 or tot["events"] == 0 and not conf.get("no_events_ok"):
        log("nothing was explored:", inconclusive); return 2
    log("%s: %d cases, %d distinct, %d observations, build %.0fs, total %.0fs" % (prop, tot["cases"], len(sigs), tot["events"], tb, wall))
    return 0

def findings(prop):
    try: return [e for e in json.load(open(os.path.join(HERE, "known_findings.json"))).get("findings", []) if e["property"] == prop]
    except FileNotFoundError: return []

def known_lines(prop, conf, exes, bdir):
    """run the probes of the recorded findings of this property; a probe that still shows the recorded failure prints its line"""
    out = []
    for e in findings(prop):
        hn = e["harness"]
        res = worker(exes[hn], "KF_" + e["id"], ["--seed", "1", "--only", "0"], os.path.join(bdir, "kf_" + e["id"]), 120, 0)
        shown = False
        if res["out"] and res["out"].get("violation"):
            shown = e["signature"] in res["out"]["violation"]["key"]
        if shown: out.append("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    return out

if __name__ == "__main__":
    main()
