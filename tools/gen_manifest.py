#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (single source)."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import props  # noqa: E402

root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")

checks = []
for p in props.PROPS:
    if p.get("na"):
        continue
    assert os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py")), p["id"]
    checks.append({
        "property": p["id"],
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["note"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
    })
m = {"version": 1, "setup_cmd": "python3 lib/kbuild.py dbg rel asan mad dbgf asanf",
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if p.get("na")]}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md
head = open(os.path.join(here, "design_head.md")).read()
out = [head, "## Properties\n"]
for p in props.PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    if p.get("na"):
        out.append("Not applicable: " + p["na"] + "\n")
        continue
    out.append("* Method: %s.  %s." % (p["technique"], p["note"].rstrip(".")))
    for k, v in p.get("design", ()):
        out.append("* %s: %s" % (k, v))
    out.append("* Why tests cannot settle it: %s.\n" % p["why"])
tail = os.path.join(here, "design_tail.md")
if os.path.exists(tail):
    out.append(open(tail).read())
out.append("\n## Genuine defects found\n")
for line in open(os.path.join(root, "known_findings.txt")):
    if line.startswith(("fixed:", "known:")):
        out.append("* " + line.strip())
sr = os.path.join(here, "seed_results.json")
if os.path.exists(sr):
    out.append("\n## Planted bugs (`seeded/`) and the checks which catch them\n")
    out.append("| planted bug | property | needs | caught by | missed by |\n|---|---|---|---|---|")
    r = json.load(open(sr))
    for k in sorted(r):
        mp = os.path.join(root, "seeded", k, "meta.json")
        if os.path.exists(mp):
            meta = json.load(open(mp))
            out.append("| %s | %s | %s | %s | %s |" % (k, meta["property"], meta["needs"].replace("|", "\\|"),
                       ", ".join(x for x in sorted(r[k]) if r[k][x] == 1), ", ".join(x for x in sorted(r[k]) if r[k][x] == 0)))
    out.append("")
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
