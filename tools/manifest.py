#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NOTE = ("Every judged session of the real code is checked event by event against the TLA+ specification by TLC; "
        "sessions beyond those are screened by a mirror of the specification that only selects what TLC judges. "
        "Bounded: the values, lengths and operation sequences of the sessions are generated, not exhausted, unless DESIGN.md says so.")
checks = [{"property": p["id"],
           "quick_cmd": "./check %s" % p["id"],
           "thorough_cmd": "./check %s --thorough" % p["id"],
           "technique": "TLA+ specification: TLC model checking and TLC trace validation of the real code",
           "level": "model_checking",
           "level_note": NOTE} for p in props]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the harness uses the public API only. Known findings and repairs: known_findings.txt."},
          open(root + "/MANIFEST.json", "w"), indent=1)
