#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bin/setup",
         checks=[dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="bin/check %s" % i,
                      technique=props.PROPS[i]["technique"], level="model_checking", level_note=props.PROPS[i]["note"])
                 for i in ids if i in props.PROPS],
         not_applicable=[dict(property=i, reason=props.NOT_APPLICABLE.get(i, "not built yet"))
                         for i in ids if i not in props.PROPS],
         notes="TLA+ checked with TLC; see DESIGN.md. Checks compile /repo's working tree against ros_stub/; no hooks in /repo are needed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
