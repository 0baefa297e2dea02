#!/usr/bin/env python3
"""tools/show.py P18 [n]: the obligations of the last run that are not discharged, grouped."""
import json, sys, re, collections
e = json.load(open("/verif/evidence/%s.json" % sys.argv[1]))
def find(x):
    if isinstance(x, list) and x and isinstance(x[0], dict) and "status" in x[0]: return x
    if isinstance(x, dict):
        for v in x.values():
            r = find(v)
            if r: return r
n = int(sys.argv[2]) if len(sys.argv) > 2 else 8
g = collections.OrderedDict()
for o in find(e) or []:
    if o["status"] in ("discharged", "ok"): continue
    k = (o["status"], " ".join(o.get("obligation", o.get("key", "")).split()[:3]))
    g.setdefault(k, []).append(o)
for k, os in list(g.items())[:n]: print(k, len(os)); [print("    ", str({a: b for a, b in o.items() if a != "status"})[:230]) for o in os[:1]]
