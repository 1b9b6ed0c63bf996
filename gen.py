#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from ndm/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from ndm import props  # noqa: E402

lines, checks, na = [], [], []
for p in props.PROPS.values():
    d = {"id": p.pid, "title": p.title, "statement": p.statement, "quantifier": {"over": p.over, "text": p.qtext}, "why_tests_cant": p.why,
         "anchors": {"files": p.files, "mechanism": [{"name": n, "where": w} for n, w in p.mech]}}
    if p.state:
        d["anchors"]["state"] = list(p.state)
    lines.append(d)
    c = "python3 check.py --property %s" % p.pid
    checks.append({"property": p.pid, "quick_cmd": c, "thorough_cmd": c + " --tier thorough", "technique": "static analysis: " + p.technique,
                   "level": "other", "level_note": (p.note + " " if p.note else "") + props.NOTE})
for d, reason in props.NA:
    lines.append(d)
    na.append({"property": d["id"], "reason": reason})
with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for d in lines:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 10)\"", "checks": checks, "not_applicable": na,
               "notes": "All checks interpret /repo's current source over abstract values (static analysis); nothing of /repo is executed. "
                        "properties.jsonl and this file are generated by gen.py from ndm/props.py. Repaired defects: known_findings.txt."},
              f, indent=1, ensure_ascii=False)
    f.write("\n")
