#!/usr/bin/env python3
"""Regenerates proofs/skeleton.json (the loop headers, and the number of closures, the contracts were written for)."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from vp import extract
out = {}
for p in sorted(glob.glob(os.path.join(ROOT, "proofs", "*.rs"))):
    _, infos = extract.expand(p)
    out[os.path.basename(p)[:-3]] = {i["item"]: i["loops"] for i in infos if i["loops"]}
    for i in infos:
        if i["closures"]:
            c = out.setdefault("closures", {}).setdefault(os.path.basename(p)[:-3], {})
            c[i["item"]] = max(i["closures"], c.get(i["item"], 0))
json.dump(out, open(os.path.join(ROOT, "proofs", "skeleton.json"), "w"), indent=1, sort_keys=True)
