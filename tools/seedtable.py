#!/usr/bin/env python3
import json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
for x in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, x, "meta.json"))); c = lambda s: s.replace("|", "/").replace("\n", " ")
    print("| %s | %s | %s |" % (x, c(m["needs"]), c(m["what_it_breaks"])))
