#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); sys.path.insert(0, HERE)
from checks import CHECKS
from props import PROPS, PENDING
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        m = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("observe", []), hook_needed=None))
        assert len(m["title"]) <= 80, m["title"]
        f.write(json.dumps(m) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    c = CHECKS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 bin/check %s quick" % p["id"], thorough_cmd="python3 bin/check %s thorough" % p["id"],
                       technique=c.get("technique", "stateless model checking of the real code: exhaustive bounded enumeration of executions, independent oracle on each"), level=c["level"],
                       level_note=c.get("note", "Exhaustive within the stated bounds on the real, unmodified code compiled from /repo; trusts the compiler, the explorer in lib/mc.hpp and the independent checkers in lib/; says nothing outside the bounds.")))
na = [dict(property=p["id"], reason=PENDING.get(p["id"], "not built yet")) for p in PROPS if p["id"] not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", hooks=dict(guard="MMG_VERIF_HOOKS", enable="no hook is needed: the checks compile /repo/src unmodified, with objects and executables under /verif/build", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not claimed")
