#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table below."""
import json, subprocess
NOTE = {}
CHECKS = open("checks.txt").read().split()
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "cfg(dumpster_verif)"],
                      capture_output=True, text=True).stdout.split()
checks = []
for p in CHECKS:
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "TLA+ specification: TLC generates programs, validates recorded executions of the real code",
                   "level": "model_checking",
                   "level_note": "Exhaustive over the bounds in DESIGN.md on the specification; the implementation is covered on the executions generated (enumerated small graphs, sampled larger programs, controlled schedules). Assumes sequential consistency and trusts TLC, the harness and the recorded events."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "hooks": {"guard": "cfg(dumpster_verif)", "enable": "RUSTFLAGS=\"--cfg dumpster_verif\"", "source_commits": hook},
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in ("C14", "C15") if p not in CHECKS], "notes": "See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
