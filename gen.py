#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from props.py, design_head.md and design_tail.md."""
import json, os
from props import PROPS, NA
V = os.path.dirname(os.path.abspath(__file__))
lines = []
for d in (PROPS, NA):
    for k in sorted(d):
        p = d[k]
        lines.append((k, json.dumps(dict(id=k, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["forall"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                 observe_at=p["observe"], hook_needed=p["hook"])), ensure_ascii=False)))
        assert len(p["title"]) <= 80, (k, len(p["title"]))
for k, d in PROPS.items():
    for f in d["files"]:
        assert os.path.exists("/repo/" + f), (k, f)
    assert len({o.name for o in d["obs"]}) == len(d["obs"]), k
open(V + "/properties.jsonl", "w").write("\n".join(l for _, l in sorted(lines)) + "\n")
m = dict(version=1, setup_cmd="true", hooks=dict(guard="", enable="", source_commits=[]),
         checks=[dict(property=k, quick_cmd="python3 vp.py check %s --tier quick" % k, thorough_cmd="python3 vp.py check %s --tier thorough" % k,
                      evidence_file="/verif/evidence/%s.json" % k, technique=PROPS[k]["tech"], level=PROPS[k]["level"], level_note=PROPS[k]["explain"][:600], theorems=[])
                 for k in sorted(PROPS)],
         not_applicable=[dict(property=k, reason=NA[k]["reason"]) for k in sorted(NA)],
         notes="One engine per kind of code: CBMC on the C sources of runtime, compiler and linker; z3 on the machine code the compiler emits. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
out = open(V + "/design_head.md").read() + "\n## Properties and how each is decided\n\n"
for k in sorted(PROPS):
    p = PROPS[k]
    out += "### %s %s\n\n%s\n\n*Decided by*: %s %s\n\n*Why tests cannot*: %s\n\n*Obligations and bounds*:\n" % (k, p["title"], p["statement"], p["explain"], "", p["why"])
    for o in p["obs"]:
        out += "- `%s`: %s%s\n" % (o.name, getattr(o, "bounds", ""), " (thorough: %s)" % o.thorough if getattr(o, "thorough", None) else "" + (" (thorough only)" if getattr(o, "tier", "both") == "thorough" else ""))
    if p["assume"]:
        out += "\n*Assumed*: " + "; ".join(p["assume"]) + "\n"
    out += "\n"
out += "## Not applicable\n\n" + "".join("- **%s %s**: %s\n" % (k, NA[k]["title"], NA[k]["reason"]) for k in sorted(NA)) + "\n"
out += open(V + "/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(out)
print(len(PROPS), "claimed", len(NA), "not applicable")
