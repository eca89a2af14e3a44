#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and the properties that cannot be claimed."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, here)
from checks import CHECKS
NA = {}
try: from checks import NOT_APPLICABLE as NA
except ImportError: pass
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks = []
for p in props:
    if p not in CHECKS: continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 run.py " + p, thorough_cmd="python3 run.py %s --tier thorough" % p,
        technique=c.get("technique", "runtime monitoring: the real code runs under AddressSanitizer+UBSan on generated workloads, an independent oracle judges every observed result"),
        level=c.get("level", "exploration"), level_note=c["rule"]))
na = [dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
