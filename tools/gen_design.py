#!/usr/bin/env python3
# writes DESIGN.md: head + table from checks_conf.py + tail with the planted bugs of seeded/ (tools/caught.json says what catches them)
import sys, json, os, glob
sys.path.insert(0, "/verif")
from checks_conf import CONF, GEN, NT, SANNOTE
out = open("/verif/tools/design_head.md").read()
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]; c = CONF[p]
    r = c["rule"].replace(GEN, "").replace(NT.strip(), "").strip(); n = c["note"].replace(SANNOTE, "").strip()
    hs = ", ".join("%s %d s" % (x["harness"], x["deadline"][0]) for x in c["runs"]) if p != "M01" else "12 harnesses under ASan+UBSan and 10 under memcheck, 7 s each"
    out += "| %s | %s | %s | %s |\n" % (p, r, n, hs)
tail = open("/verif/tools/design_tail.md").read()
caught = json.load(open("/verif/tools/caught.json")) if os.path.exists("/verif/tools/caught.json") else {}
t = "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    t += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught.get(i, "?"))
out += tail.replace("@SEEDED@", t).replace("@MUTATION@", caught.get("_mutation", ""))
open("/verif/DESIGN.md", "w").write(out)
