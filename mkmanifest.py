#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json
import os
from props import PROPS

DIR = os.path.dirname(os.path.abspath(__file__))
titles = {}
for line in open(os.path.join(DIR, "properties.jsonl")):
    d = json.loads(line)
    titles[d["id"]] = d["title"]
checks = []
for pid in sorted(PROPS):
    s = PROPS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"python3 check.py {pid} --thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": s.get("technique", "runtime monitoring: generated workload on sanitized and optimised builds, "
                           "each result judged online by an independent extended-precision oracle"),
        "level": "exploration",
        "level_note": s.get("level_note", "Held on the executions explored; inputs come from a seeded generator biased to "
                            "special, degenerate and extreme values, over many dimensions and element types. Trusts the oracle, "
                            "the compilers and the sanitizer runtimes."),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in sorted(titles) if p not in PROPS],
    "notes": "vmmlib is header-only and needs no hooks: each check compiles its harness against /repo/vmmlib in the "
             "working tree. fix: commits in /repo are listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(DIR, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(DIR, "MANIFEST.json"), "a").write("\n")
