#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from design import ORACLE, COST
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for pid, p in PROPS.items():
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mechanism"]))) + "\n")
checks = [dict(property=pid, quick_cmd="python3 mc/run.py %s --tier quick" % pid, thorough_cmd="python3 mc/run.py %s --tier thorough" % pid,
               evidence_file="evidence/%s.json" % pid, technique=p["technique"], level="model_checking", level_note=p["note"]) for pid, p in PROPS.items()]
json.dump(dict(version=1, setup_cmd="python3 mc/setup.py", hooks=dict(guard="none", enable="no hooks were needed: the harnesses use only strf's public API", source_commits=[]),
               checks=checks, not_applicable=[], notes="See DESIGN.md. Every check compiles its harnesses against /repo/include (and /repo/src) as they are now."),
          open(V + "/MANIFEST.json", "w"), indent=1)

# DESIGN.md = mc/design_head.md + one section per property + mc/design_tail.md + the table of planted bugs
H = os.path.join(V, "mc")
out = [open(H + "/design_head.md").read(), "## The properties\n"]
for pid, p in PROPS.items():
    out.append("### %s %s\n\n*Specified:* %s\n\n*Enumerated:* %s.\n\n*Oracle and monitors:* %s\n\n*Bounds:* %s.\n\n*Cost:* %s. *Harness:* %s.\n\n*Why tests cannot settle it:* %s.%s\n" % (
        pid, p["title"], p["statement"], p["text"], ORACLE[pid], p["bounds"], COST.get(pid, "quick under a minute"),
        ", ".join(sorted({"`mc/h/%s`" % j["src"] for j in p["jobs"]})), p["why"],
        ("\n\n*Assumed:* " + "; ".join(p["assumptions"]) + ".") if p["assumptions"] else ""))
out.append("Not applicable: none. Every property listed is decided by enumeration.\n\n")
out.append(open(H + "/design_tail.md").read())
import glob
sd = sorted(glob.glob(V + "/seeded/*/meta.json"))
M = {}
f = H + "/caught.json"
if os.path.exists(f): M = json.load(open(f))
out.append("## Planted bugs\n\nEach was written from the property's text and the code, confirmed in a scratch copy (builds, the 115 tests pass, the demonstration passes without and fails with it), and then run against the checks. `tools/plant.sh seeded/<id> check Cnn` repeats this.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n")
for m in sd:
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s |\n" % (i, j["property"], j["needs"].replace("|", "/"), M.get(i, "")))
open(V + "/DESIGN.md", "w").write("\n".join(out[:-len(sd)]) + "".join(out[-len(sd):]))
