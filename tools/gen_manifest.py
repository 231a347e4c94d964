#!/usr/bin/env python3
# writes MANIFEST.json from checks_conf.py and properties.jsonl
import json, os, sys
sys.path.insert(0, "/verif")
from checks_conf import CONF, NOT_APPLICABLE
TECH = {
 "C01": "runtime monitoring: offline checking of time-stamped histories of real threads under ThreadSanitizer and ASan+UBSan with injected delays",
 "C02": "runtime monitoring: offline checking of thread logs of real threads under ThreadSanitizer and ASan+UBSan with injected delays",
 "E01": "runtime monitoring: exported record compared with the live graph at every step of generated histories under ASan+UBSan",
 "R03": "runtime monitoring: online trace checker (model of every link, delivery and death) on generated histories under ASan+UBSan",
 "R04": "runtime monitoring: online model of reachability and handles, allocation balance, on generated histories under ASan+UBSan",
 "S01": "runtime monitoring: save/load histories of the real code against a model, bit for bit, under ASan+UBSan",
 "S02": "runtime monitoring: corrupted-input workloads with an independent parse as oracle under ASan+UBSan",
 "T02": "runtime monitoring: online model of every tensor compared after every operation under ASan+UBSan",
 "T03": "runtime monitoring: allocation ledgers (hooked allocators) over generated histories under ASan+UBSan",
 "V01": "runtime monitoring: online model of every leaf compared after every operation under ASan+UBSan",
 "O07": "runtime monitoring: reproducibility and statistical monitors of drawn data under ASan+UBSan",
 "M01": "sanitizers: ASan, UBSan, asserts, allocation balance and valgrind memcheck over the workloads of all harnesses",
}
checks = []
na = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in CONF:
        c = CONF[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(p) or c.get("technique", "runtime monitoring: differential oracle on generated executions of the real code under ASan+UBSan"),
            "level": c.get("level", "exploration"), "level_note": c["note"]})
    else: na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
  "notes": "No hooks: the harnesses observe the library through its public and protected interface, the sanitizers and interposed allocators. The EDGE_RCD/CSV_RCD and ENABLE_STRASSEN defines the harnesses build with are the repository's own. VERIF_SEED selects the cases, VERIF_TIER the depth."},
  open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
