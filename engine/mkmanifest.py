#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        an = {"files": p["files"], "mechanism": p["mech"]}
        if p["state"]:
            an["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": an}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'engine'); import build; build.irdump_path()\"",
     "checks": [], "not_applicable": [],
     "notes": "All checks are static: they compile /repo's sources to LLVM IR with clang in every build configuration and analyse the IR; nothing of the library is executed."}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(HERE, "rules", p["id"] + ".py")), p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 engine/check.py %s --tier quick" % p["id"],
                        "thorough_cmd": "python3 engine/check.py %s --tier thorough" % p["id"],
                        "technique": p["tech"], "level": "other", "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
