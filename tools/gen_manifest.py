#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the areas that tools/check.py decides."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

ids = [json.loads(l)["id"] for l in open(os.path.join(check.VERIF, "properties.jsonl"))]
NOTE = ("Bounded model checking plus conformance: TLC explores the area's models exhaustively within the constants of their "
        ".cfg files and checks the property's clauses on every transition; the clauses are then the oracle for executions "
        "of the real code (replayed model histories and seeded random programs), each step of which TLC validates. "
        "Trusts TLC, the harness's observations through the public API, and Python/NumPy/pandas themselves; numbers are "
        "compared as rationals of denominator up to 20000 with a tolerance of 1e-9.")
m = dict(
    version=1, setup_cmd="bash tools/setup.sh",
    checks=[dict(property=i, quick_cmd=f"python3 tools/check.py {i} quick", thorough_cmd=f"python3 tools/check.py {i} thorough",
                 evidence_file=f"evidence/{i}.json",
                 technique="TLA+ specification checked with TLC; model histories and random programs replayed on the code; "
                           "recorded traces validated by TLC",
                 level="model_checking", level_note=NOTE) for i in ids if i in check.AREA_OF],
    not_applicable=[dict(property=i, reason="specification not written yet") for i in ids if i not in check.AREA_OF],
    notes="No hooks in /repo: the checks use the public API. Language: TLA+ with TLC (see DESIGN.md).")
json.dump(m, open(os.path.join(check.VERIF, "MANIFEST.json"), "w"), indent=1)
