"""worker.py AREA JOB.json OUT: executes programs on the code under test and records them.

JOB: {"prop", "tier", "seed", "shard", "count" (random programs), "budget" (seconds), "programs" (given programs)}
OUT.ndjson: the trace, OUT.json: {"programs": [...], "index": [[program, step], ...], "events": n}
"""
import importlib
import json
import logging
import os
import random
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    area, job, out = sys.argv[1], json.load(open(sys.argv[2])), sys.argv[3]
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(area)
    from common import Rec, limit, watch

    rec = Rec(out + ".ndjson")
    programs = []
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="vp_") as scratch:
        run = mod.Run(os.path.join(scratch, "w"))
        rng = random.Random(f"{job['seed']}/{area}/{job['prop']}/{job['shard']}")

        def source():
            for p in job.get("programs", []):
                if "abstract" in p:
                    yield mod.concretize(rng, p["abstract"], job["prop"])
                else:
                    yield p
            for k in range(job.get("count", 0)):
                yield mod.gen(rng, job["prop"], job["tier"], k)

        for p in source():
            if time.time() - t0 > job["budget"] or limit.hangs > 2:
                break
            programs.append(p)
            try:
                with watch():
                    run.run(p, rec, len(programs) - 1)
            except Exception as e:  # the code under test could not even be observed
                traceback.print_exc()
                rec.write(dict(run.blank("crash"), out=type(e).__name__), len(programs) - 1, len(p["ops"]) - 1)
    rec.close()
    json.dump({"programs": programs, "index": rec.index, "events": rec.n, "cover": rec.cover, "wall": time.time() - t0},
              open(out + ".json", "w"))


main()
