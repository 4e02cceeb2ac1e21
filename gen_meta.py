#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_table.py."""
import json, os
from props_table import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))


def line(i, d):
    assert len(d["title"]) <= 80, i
    assert d["statement"].count(". ") <= 2, (i, d["statement"].count(". "))
    return {"id": i, "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["q"]}, "why_tests_cant": d["why"],
            "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]], "observe_at": d.get("observe", []), "hook_needed": None}}


with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in sorted(PROPS):
        f.write(json.dumps(line(i, PROPS[i])) + "\n")
    for d in NOT_APPLICABLE:
        f.write(json.dumps(line(d["id"], d)) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator interposes the libc boundary at link time and compiles /repo's sources unchanged", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": "deterministic simulation with fault injection: seeded search over histories, faults%s against a reference model" % (" and schedules" if "schedules" in d["over"] else ""),
                 "level": "exploration",
                 "level_note": d.get("level_note", "Sampled, not exhaustive: no violation in the seeded runs the evidence counts. Real code under a simulated %s; trusts the reference model in sim/%s.cpp and the simulator in sim/rt." % (d.get("env", "disk and process"), d["harness"].replace("h_", "h/h_")))}
                for i, d in sorted(PROPS.items())],
     "not_applicable": [{"property": d["id"], "reason": d["reason"]} for d in NOT_APPLICABLE],
     "notes": "See DESIGN.md. check.py builds all of /repo's working tree into .build and runs one harness; replay files are plain text plans."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
