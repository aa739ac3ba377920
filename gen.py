#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py and spec.py"""
import json, os
from meta import M, NA
from spec import PROPS
ROOT = os.path.dirname(os.path.abspath(__file__))
ids = [m["id"] for m in M]
assert len(set(ids)) == len(ids)
na = {x["property"] for x in NA}
assert set(PROPS) | na == set(ids), (set(PROPS) ^ set(ids))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for m in M:
        f.write(json.dumps({"id": m["id"], "title": m["title"], "statement": m["statement"], "quantifier": {"over": m["over"], "text": m["text"]}, "why_tests_cant": m["why"], "anchors": {"files": m["files"], "mechanism": [{"name": m["mech"], "where": m["files"][0]}]}}) + "\n")
        for x in m["files"]:
            assert os.path.exists("/repo/" + x), x
checks = []
for m in M:
    if m["id"] in PROPS:
        checks.append({"property": m["id"], "quick_cmd": "python3 run.py %s quick" % m["id"], "thorough_cmd": "python3 run.py %s thorough" % m["id"],
                       "technique": "symbolic execution of the LLVM bitcode rustc emits for the real code, path conditions and assertions decided by z3, counterexamples replayed natively",
                       "level": "model_checking", "level_note": "holds for every value within the bounds: " + m["note"]})
man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": NA}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
