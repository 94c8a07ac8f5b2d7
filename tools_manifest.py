#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of checks."""

import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import table  # noqa: E402

NA = {
    "N01": "whitening is a pure function of its inputs: no schedule, clock, fault or interleaving to simulate",
    "N02": "a fixed-point condition on a pure function; only input generation would remain",
    "N03": "conversions are pure functions of a coordinate list",
    "N04": "a derivative identity of pure functions",
    "N05": "a derivative identity of pure functions",
}
checks = []
for pid, info in table.TABLE.items():
    checks.append(
        {
            "property": pid,
            "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": info["note"],
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "python3 -c 'import sim.table'",
    "hooks": {"guard": "none", "enable": "no hooks: /repo is used as it is", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "Checks: python3 check.py ID. Replay: python3 check.py --replay FILE. See DESIGN.md and KNOWN_FINDINGS.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
