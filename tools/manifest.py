#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "exhaustive bounded enumeration on the real code against a reference model"
BFS = "explicit-state breadth-first search over operation histories of the real objects, compared with a reference model"
C = {
 "C01": (EX, "exploration", "every string up to the length bound over a special-character alphabet, every output grammar; trusts the enumeration and equality oracle"),
 "C02": (EX, "exploration", "every nested shape, loop shape and placement up to the bounds"),
 "C03": (EX, "exploration", "every boundary length around every wrap/max setting of the grid"),
 "C04": (EX, "exploration", "every text up to the length bound, every small wrap range, several prefixes"),
 "C09": (EX, "exploration", "every token sequence up to the depth whose proper prefixes are completable, decided by a reference recogniser written from the CIF rules"),
}
import sys
sys.path.insert(0, os.path.join(V, "tools"))
try:
    from manifest_more import C as M
    C.update(M)
except ImportError:
    pass
pids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in pids:
    if p in C and os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        t, l, n = C[p]
        m["checks"].append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p, evidence_file="evidence/%s.json" % p,
                                technique="model checking: " + t, level=l, level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
