#!/usr/bin/env python3
"""generates properties.jsonl and MANIFEST.json from props.py"""
import json
from props import PROPS, NOT_APPLICABLE

def row(p):
    return dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))

allp = dict(PROPS); allp.update(NOT_APPLICABLE)
with open("properties.jsonl", "w") as f:
    for k in sorted(allp):
        p = allp[k]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(row(p)) + "\n")
m = dict(version=1, setup_cmd="python3 run.py --setup",
         checks=[dict(property=k, quick_cmd="python3 run.py %s --tier quick" % k, thorough_cmd="python3 run.py %s --tier thorough" % k,
                      technique=p["technique"], level=p["level"], level_note=p["note"]) for k, p in sorted(PROPS.items())],
         not_applicable=[dict(property=k, reason=p["reason"]) for k, p in sorted(NOT_APPLICABLE.items())],
         notes="Runtime monitoring + sanitizers; no hooks in /repo. See DESIGN.md. The seed comes from VERIF_SEED.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    for l in open("properties.jsonl"):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok", len(PROPS), "claimed", len(NOT_APPLICABLE), "not applicable")
except ImportError:
    print("no jsonschema here; use python3-vt mk.py to validate")
