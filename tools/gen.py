#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(props, "NOT_APPLICABLE", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        for file in p["files"]:
            assert os.path.exists("/repo/" + file), file
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"], "thorough_cmd": "bash run.sh %s thorough" % p["id"],
           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking",
           "level_note": p["note"]} for p in sorted(props.P, key=lambda p: p["id"])
          if os.path.exists(os.path.join(V, "mc/checks/%s.py" % p["id"].lower()))]
json.dump({"version": 1,
           "setup_cmd": "bash run.sh --setup",
           "checks": checks, "not_applicable": NA,
           "notes": "Every check copies /repo's working tree to a scratch directory, compiles its Cython modules there and explores the "
                    "real code. No hooks in /repo are needed: the C random generator of the samplers is replaced at compile time in "
                    "the scratch copy only (-Drand=...)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
