#!/usr/bin/env python3
"""replay.py FILE: executes the program of a violation again on /repo and prints the clauses violated, step by step."""
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

r = json.load(open(sys.argv[1]))
with tempfile.TemporaryDirectory(prefix="vp_replay_") as wd:
    job = dict(prop=r["property"], tier="quick", seed=1, shard=0, count=0, budget=600, programs=[r["program"]])
    d = check.work(r["area"], job, wd, "r")
    for k, op in enumerate(r["program"]["ops"]):
        print(k, json.dumps(op))
    mine = 0
    for line, names in d["fails"]:
        print("step", d["index"][line - 1][1], "violates", ", ".join(names))
        mine += any(n.startswith(r["property"] + ".") or n.startswith("ANY.") for n in names)
    print("reproduced" if mine else "not reproduced")
    sys.exit(1 if mine else 0)
