#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": CHECKS[p]["technique"],
            "level": CHECKS[p]["level"],
            "level_note": CHECKS[p]["note"],
        }
        for p in props if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": "No check built yet."} for p in props if p not in CHECKS],
}
if hooks:
    m["hooks"] = {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (check.py sets it when building the harness)", "source_commits": hooks}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
