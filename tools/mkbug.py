#!/usr/bin/env python3
"""mkbug.py ID PROP FILE...: turn the uncommitted edits of the scratch clone /tmp/seed/repo into seeded/ID/patch.diff.
Reports edited lines that do not stem from the original repository (fix commits)."""
import subprocess, sys, os, re, json
S = "/tmp/seed/repo"; BASE = "6c111f7"
def sh(*a, **k): return subprocess.run(a, cwd=S, stdout=subprocess.PIPE, text=True, check=True, **k).stdout
pid, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + pid
os.makedirs(d, exist_ok=True)
diff = sh("git", "diff")
assert diff.strip(), "no edit"
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
cur = None; orig = 0
for l in diff.splitlines():
    m = re.match(r"--- a/(.*)", l)
    if m: cur = m.group(1)
    m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
    if m: ln = int(m.group(1)); continue
    if cur is None or l.startswith(("+++", "---", "diff", "index")): continue
    if l.startswith("-"):
        b = sh("git", "blame", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", cur).split()[0]
        o = subprocess.run(["git", "merge-base", "--is-ancestor", b.lstrip("^"), BASE], cwd=S).returncode == 0
        print(("orig " if o else "OURS ") + l); orig += o
        ln += 1
    elif not l.startswith("+"): ln += 1
print("original lines changed:", orig)
sh("git", "checkout", "--", ".")
