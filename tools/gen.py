#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/vp/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from vp.props import PROPS, NOT_APPLICABLE
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for pid in sorted({**PROPS, **NOT_APPLICABLE}):
        p = PROPS.get(pid) or NOT_APPLICABLE[pid]
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged (the crate's own `testing`/`bench` features expose what the drivers use)", "source_commits": []},
    "checks": [], "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "See DESIGN.md. check.py runs the proof units (Verus on source extracted from /repo on every run) and the contract driver (real code) of one property.",
}
for pid, p in sorted(PROPS.items()):
    c = {"property": pid, "quick_cmd": f"python3 tools/check.py {pid}", "thorough_cmd": f"python3 tools/check.py {pid} --tier thorough",
         "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
    if p["theorems"] and p["level"] == "proof":
        c["theorems"] = p["theorems"]
    m["checks"].append(c)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

d = os.path.join(ROOT, "DESIGN.md")
t = open(d).read()
a, b = t.index("<!-- generated by tools/gen.py -->"), t.index("<!-- end -->")
out = ["<!-- generated by tools/gen.py -->"]
for pid, p in sorted(PROPS.items()):
    out.append(f"### {pid} {p['title']}")
    out.append(f"Level: {p['level']}. Units: {', '.join(p['units']) or 'none'}. Driver: {p['driver']}.")
    out.append(f"{p['note']}")
    if p["theorems"]:
        out.append("States the property: " + "; ".join(p["theorems"]) + ".")
    if p["assumptions"]:
        out.append("Assumes: " + "; ".join(p["assumptions"]) + ".")
    out.append(f"Why tests cannot: {p['why']}")
    out.append("")
for pid, p in sorted(NOT_APPLICABLE.items()):
    out.append(f"### {pid} {p['title']} - not applicable")
    out.append(p["reason"])
    out.append("")
open(d, "w").write(t[:a] + "\n".join(out) + "\n" + t[b:])
