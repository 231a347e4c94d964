#!/usr/bin/env python3
"""cover.py - line coverage of the library by all checks' workloads (development tool); prints the lines nobody ran"""
import os, sys, json, subprocess, glob, gzip, collections
os.environ["VERIF_CACHE"] = "/tmp/cov/cache"; os.makedirs("/tmp/cov/cache", exist_ok=True)
sys.path.insert(0, "/verif")
import check
for k in check.SAN: check.SAN[k] = ["-O0", "-g1", "-DVH_COV", "--coverage", "-fprofile-update=atomic"]
def main():
    hs = sorted({r["harness"] for p, c in check.CONF.items() for r in c["runs"] if p != "M01" and r["harness"] != "graphT"})
    from concurrent.futures import ThreadPoolExecutor
    for h in hs:
        exe = check.build(h, "/tmp/cov/" + h)
        jobs = [(p, q) for p, c in check.CONF.items() for r in c["runs"] if p != "M01" and r["harness"] == h for q in range(2)]
        def go(j):
            wd = "/tmp/cov/w_%s_%s_%d" % (h, j[0], j[1]); os.makedirs(wd, exist_ok=True)
            subprocess.run(["nice", exe, "--prop", j[0], "--seed", "1", "--from", str(j[1]), "--to", "1000000", "--stride", "2", "--deadline", "25", "--out", wd + "/o", "--state", wd + "/s"], cwd=wd, env=dict(os.environ, VH_SCRATCH=wd), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex: list(ex.map(go, jobs))
        print("ran", h, flush=True)
    cov = collections.defaultdict(lambda: collections.defaultdict(int))
    os.chdir("/tmp/cov/cache")
    for g in glob.glob("*.gcda"):
        o = subprocess.run(["gcov", "--json-format", "--stdout", g], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
        for l in o.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            for f in d["files"]:
                if "/repo/app/" not in os.path.normpath(f["file"]): continue
                for x in f["lines"]: cov[os.path.normpath(f["file"])][x["line_number"]] += x["count"]
    json.dump(cov, open("/tmp/cov/cov.json", "w"))
    for f in sorted(cov):
        src = open(f).read().split("\n"); miss = [n for n in sorted(cov[f]) if not cov[f][n]]
        print("==", f.replace("/repo/app/", ""), "%d/%d" % (len(cov[f]) - len(miss), len(cov[f])))
        for n in miss: print("   %d: %s" % (n, src[n - 1].strip()))
main()
