"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single description of what is claimed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    cmd = "python3 sa/run.py %s" % p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
for p in NOT_APPLICABLE:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "claimed,", len(NOT_APPLICABLE), "not applicable")

txt = open(os.path.join(HERE, "tools", "design.head.md")).read()
rows = []
for p in PROPS:
    rows.append("### %s %s\n%s\n\n* Quantifier: %s.\n* Decided by: %s.\n* Anchors: %s.\n* Notes: %s %s\n* Tests cannot: %s\n" % (
        p["id"], p["title"], p["statement"], p["quant"], p["technique"], "; ".join("%s (%s)" % (n, w) for n, w in p["mech"]), p["note"], p.get("cost", ""), p["why"]))
na = ["* %s %s: %s" % (p["id"], p["title"], p["reason"]) for p in NOT_APPLICABLE]
mt = []
mpath = os.path.join(HERE, "tools", "matrix.json")
caught = json.load(open(mpath)) if os.path.exists(mpath) else {}
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    mt.append("* %s (%s) %s Needs %s. Caught by: %s." % (b, meta["property"], meta["what_it_breaks"][:1].upper() + meta["what_it_breaks"][1:] + ".", meta["needs"], ", ".join(caught.get(b, [])) or "none"))
open(os.path.join(HERE, "DESIGN.md"), "w").write(txt.replace("@@PROPS@@", "\n".join(rows)).replace("@@NA@@", "\n".join(na)).replace("@@MATRIX@@", "\n".join(mt)))
