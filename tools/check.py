#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property.

1. TLC explores the models of the property's area exhaustively (small constants) and checks its invariants and the
   transition relation on them; the models marked `emit` print their transitions as histories.
2. Worker processes execute those histories, concretised, and seeded random programs on the code in /repo, and record
   what they observe.
3. TLC validates every recorded execution against the specification (Trace_* modules); a step that the transition
   relation does not allow is reported with the names of the violated clauses.

Exit 0: no violated clause of this property. Exit 1: VIOLATION line(s). Exit 2: the check could not be carried out.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))

# models: (module, configuration, prints histories); refuted: a configuration that TLC must find an error in
AREAS = {
    "act": dict(trace="Trace_Act",
                models={"quick": [("MC_Vec", "MC_Vec.cfg", False), ("MC_Act", "MC_Act.cfg", True)],
                        "thorough": [("MC_Vec", "MC_Vec_T.cfg", False), ("MC_Act", "MC_Act_T.cfg", True)]},
                refuted=[("MC_Act", "MC_Act_Bad.cfg")]),
    "cond": dict(trace="Trace_Cond",
                 models={"quick": [("MC_Cond", "MC_Cond.cfg", True)], "thorough": [("MC_Cond", "MC_Cond_T.cfg", True)]},
                 refuted=[("MC_Cond", "MC_Cond_Bad_sort.cfg"), ("MC_Cond", "MC_Cond_Bad_and.cfg")]),
    "face": dict(trace="Trace_Cond", harness="cond",
                 models={"quick": [("MC_Cond", "MC_Cond_face.cfg", True), ("MC_Cond", "MC_Cond_face_T.cfg", True)],
                         "thorough": [("MC_Cond", "MC_Cond_face.cfg", True), ("MC_Cond", "MC_Cond_face_T.cfg", True)]},
                 refuted=[("MC_Cond", "MC_Cond_Bad_face.cfg")]),
    # (..., walks): random walks instead of all behaviours, for depth
    "rules": dict(trace="Trace_Rules",
                  models={"quick": [("MC_Rules", f"MC_Rules_{t}_fit.cfg", True) for t in ("reg", "cls")]
                                   + [("MC_Rules", f"MC_Rules_{t}_sim.cfg", True, 30) for t in ("reg", "cls")],
                          "thorough": [("MC_Rules", f"MC_Rules_{t}_{z}.cfg", True) for t in ("reg", "cls") for z in ("T", "more")]
                                      + [("MC_Rules", f"MC_Rules_{t}_sim.cfg", True, 300) for t in ("reg", "cls")]},
                  refuted=[("MC_Rules", f"MC_Rules_Bad_{b}.cfg") for b in ("iadd", "drop", "sort", "vote", "calc", "and", "one", "sone")]),
    "trees": dict(trace="Trace_Tree",
                  models={"quick": [("MC_Tree", f"MC_Tree_{t}.cfg", True) for t in ("reg", "cls")],
                          "thorough": [("MC_Tree", f"MC_Tree_{t}_T.cfg", True) for t in ("reg", "cls")]},
                  refuted=[("MC_Tree", "MC_Tree_Bad_wide.cfg"), ("MC_Tree", "MC_Tree_Bad_parent.cfg")],
                  budget={"quick": dict(hist=3000)}),
}
# of the models, those that matter to a property
ONLY = {"C10": "reg", "C19": "reg", "C25": "reg", "C11": "cls", "C20": "cls"}
AREA_OF = {"C01": "act", "C02": "act", "C03": "act", "C04": "act", "C05": "act", "C06": "cond", "C07": "cond", "C08": "cond",
           "C09": "cond"}
AREA_OF.update(C23="trees", C27="face")
AREA_OF.update({f"C{i}": "rules" for i in (10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 25, 26, 28)})
# random programs per worker, seconds a worker may spend, histories of the models replayed in all
BUDGET = {"quick": dict(count=170, budget=60, hist=900), "thorough": dict(count=6000, budget=420, hist=12000)}


class Trouble(Exception):
    pass


def tlc(module, cfg, wd, workers, env=None, timeout=800, heap="3g", more=()):
    meta = os.path.join(wd, "states")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg, *more, module + ".tla"]
    p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def twice(f):
    """A tool that fails for reasons of its own (memory, a signal) gets a second try"""
    try:
        return f()
    except (Trouble, subprocess.TimeoutExpired, OSError):
        time.sleep(1)
        return f()


def model(module, cfg, emit, wd, workers, walks=0, seed=1):
    def go():
        d = tempfile.mkdtemp(dir=wd)
        more = ["-simulate", f"num={walks}", "-depth", "14", "-seed", str(seed)] if walks else []
        rc, out = tlc(module, cfg, d, 1 if walks else workers, {"HIST": "1"} if emit else {}, more=more)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
        if walks and rc == 0 and re.search(r"[ :]%d traces generated" % walks, out):
            m = re.search(r"number of states generated: ([\d,]+)()", out)
            out += "No error has been found" if m and "Error" not in out else ""
        if rc != 0 or "No error has been found" not in out or not m:
            raise Trouble(f"{module} {cfg}: rc {rc}\n{out[-3000:]}")
        gen, dist = (int(g.replace(",", "") or 0) for g in m.groups())
        hist = [json.loads(json.loads('"' + h + '"')) for h in re.findall(r'<<"HIST", "(.*)">>', out)]
        return dict(module=module, cfg=cfg, states=dist, transitions=gen, hist=hist)
    return twice(go)


def refuted(module, cfg, wd):
    def go():
        rc, out = tlc(module, cfg, tempfile.mkdtemp(dir=wd), 1)
        if rc == 0 or not re.search(r"is violated|property .* violated", out):
            raise Trouble(f"{module} {cfg} should be refuted: rc {rc}\n{out[-2000:]}")
    twice(go)
    return f"{module}/{cfg}"


def maximal(hists):
    """The histories that are no proper prefix of another one"""
    keys = sorted({json.dumps(h, sort_keys=True)[:-1]: h for h in hists}.items())
    return [h for n, (k, h) in enumerate(keys) if n + 1 == len(keys) or not keys[n + 1][0].startswith(k + ",")]


def work(area, job, wd, name):
    """One worker and the validation of what it recorded; returns (failures, data)"""
    out = os.path.join(wd, name)
    json.dump(job, open(out + ".job", "w"))
    env = dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", TMPDIR=wd)
    p = subprocess.run([PY, os.path.join(VERIF, "harness", "worker.py"), AREAS[area].get("harness", area), out + ".job", out], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=job["budget"] + 240)
    if p.returncode != 0:
        raise Trouble(f"worker {name}: rc {p.returncode}\n{p.stdout.decode()[-3000:]}")
    data = json.load(open(out + ".json"))
    data["fails"] = validate(AREAS[area]["trace"], out + ".ndjson", data["events"], wd)
    data["trace"] = out + ".ndjson"
    return data


def validate(module, trace, n, wd):
    def go():
        rc, out = tlc(module, module + ".cfg", tempfile.mkdtemp(dir=wd), 1, {"TRACE": trace})
        done = re.search(r'<<"DONE", (\d+), (\d+)>>', out)
        if rc != 0 or not done or int(done[1]) != n or int(done[2]) != n:
            raise Trouble(f"{module}: rc {rc}, {done and done.groups()}, expected {n}\n{out[-3000:]}")
        return [(int(m[1]), re.findall(r'"([^"]+)"', m[2]))
                for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*\{([^}]*)\}\s*>>', out)]
    if n == 0:
        return []
    return twice(go)


def known_findings():
    try:
        return json.load(open(os.path.join(VERIF, "KNOWN_FINDINGS.json")))["findings"]
    except FileNotFoundError:
        return []


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    tier = tier if tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    area = AREA_OF[prop]
    A, B = AREAS[area], dict(BUDGET[tier])
    B.update(A.get("budget", {}).get(tier, {}))
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="vp_check_")
    rng = random.Random(f"{seed}/{prop}")
    try:
        # 1. the models
        mods = [m for m in A["models"][tier] if f"_{ONLY.get(prop, '')}" in m[1]]
        with cf.ThreadPoolExecutor(len(mods) + 2) as ex:
            fm = [ex.submit(model, *m[:3], wd, max(2, CORES // max(1, len(mods))), *m[3:4] or [0], seed) for m in mods]
            fr = [ex.submit(refuted, m, c, wd) for m, c in A["refuted"][: 1 if tier == "quick" else None]]
            models = [f.result() for f in fm]
            refs = [f.result() for f in fr]
        hists = maximal([h for m in models for h in m["hist"]])
        nh = len(hists)
        if nh > B["hist"]:
            hists = rng.sample(hists, B["hist"])
        # 2. and 3. executions and their validation
        shards = CORES
        jobs = [dict(prop=prop, tier=tier, seed=seed, shard=s, count=B["count"], budget=B["budget"],
                     programs=[{"abstract": h} for h in hists[s::shards]]) for s in range(shards)]
        with cf.ThreadPoolExecutor(shards) as ex:
            res = [f.result() for f in [ex.submit(work, area, j, wd, f"s{k}") for k, j in enumerate(jobs)]]
        bad, others = [], {}
        for r in res:
            for line, names in r["fails"]:
                h, step = r["index"][line - 1]
                mine = sorted(n for n in names if n.startswith(prop + ".") or n.startswith("ANY."))
                for n in names:
                    others[n] = others.get(n, 0) + 1
                if mine:
                    bad.append((mine, r["programs"][h], step, r["trace"], line))
        known = known_findings()
        fresh = 0
        shown = set()
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        for mine, prog, step, trace, line in bad:
            cut = dict(prog, ops=prog["ops"][: step + 1])
            kf = [k for k in known if k["property"] == prop and k["program"] == cut and set(mine) <= set(k["clauses"])]
            if kf:
                print(f"KNOWN-FINDING: property={prop} {kf[0]['what']}")
                continue
            fresh += 1
            if tuple(mine) in shown or len(shown) >= 5:
                continue
            shown.add(tuple(mine))
            text = json.dumps(dict(property=prop, area=area, clauses=mine, step=step, program=cut,
                                   event=json.loads(open(trace).read().split("\n")[line - 1])), indent=1)
            path = os.path.join(VERIF, "evidence", "replays",
                                f"{prop}_{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
            open(path, "w").write(text + "\n")
            print(f"clauses violated: {', '.join(mine)} at step {step}: {json.dumps(cut['ops'][-1:])[:300]}")
            print(f"VIOLATION property={prop} replay={path}")
        progs = sum(len(r["programs"]) for r in res)
        events = sum(r["events"] for r in res)
        cover = {}
        for r in res:
            for k, v in r.get("cover", {}).items():
                cover[k] = cover.get(k, 0) + v
        sample = [r["programs"][0] for r in res[:1] if r["programs"]] + [r["programs"][-1] for r in res[:2] if r["programs"]]
        ev = dict(
            property=prop, tier=tier, seed=seed, level="model_checking",
            coverage=dict(
                states=sum(m["states"] for m in models), transitions=sum(m["transitions"] for m in models),
                models=[dict(module=m["module"], cfg=m["cfg"], states=m["states"], transitions=m["transitions"],
                             histories=len(m["hist"])) for m in models],
                mutated_models_refuted=refs,
                traces_validated_against_impl=progs, events_validated=events, model_histories=nh,
                model_histories_replayed=len(hists), random_programs=progs - len(hists), event_kinds=cover,
                clauses_failing={k: v for k, v in sorted(others.items())}, samples=sample),
            assumptions=["the observations made by the harness through the public API are faithful",
                         "the models are bounded by the constants in their .cfg files; executions are those of the "
                         "replayed model histories and of the seeded random programs"],
            wall_s=round(time.time() - t0, 2), violations=fresh)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print(f"{prop} {tier}: {ev['coverage']['states']} model states, {progs} executions, {events} events, "
              f"{fresh} violations, {ev['wall_s']} s")
        return 1 if fresh else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except (Trouble, subprocess.TimeoutExpired) as e:
        print("ERROR", e)
        rc = 2
    sys.exit(rc)
