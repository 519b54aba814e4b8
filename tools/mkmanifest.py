#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")):
        m = importlib.import_module("checks." + p.lower())
        checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": getattr(m, "TECHNIQUE", "property-based testing: structured random DBC generation through the real CLI and compiled drivers against a reference model, with shrinking"),
                       "level": "exploration",
                       "level_note": getattr(m, "LEVEL_NOTE", "Randomised exploration with an explicit oracle; absence of a violation holds for the cases explored only. Trusts the C/C++ compilers and the reference model. Assumptions: " + "; ".join(getattr(m, "ASSUMPTIONS", []) or ["none"]))})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks drive the unmodified program", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "All checks build coderdbc from /repo's working tree into /verif/.build (git-ignored), generate DBC files, run the real CLI and compile and run what it generates. known-findings.txt lists recorded defects."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
