#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run from anywhere)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
import props
from vp import registry

ids = [p["id"] for p in props.P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
na = {i for i, _ in props.NA}
checks = []
for p in props.P:
    if p["id"] in na:
        continue
    if p["id"] not in registry.CHECKS:
        print("no check for", p["id"])
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
nal = [{"property": i, "reason": r} for i, r in props.NA]
nal += [{"property": p["id"], "reason": "check under construction"} for p in props.P if p["id"] not in na and p["id"] not in registry.CHECKS]
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
       "checks": checks, "not_applicable": nal,
       "notes": "Specification language: TLA+ checked with TLC. See DESIGN.md. Genuine defects: KNOWN_FINDINGS.txt."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for i in registry.CHECKS:
    assert i in ids, i
print(len(checks), "checks,", len(nal), "not applicable")
