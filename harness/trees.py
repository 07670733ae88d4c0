"""Driver for the extraction of rules from decision trees: events of Trees.tla."""
import copy
import math

import numpy as np
import pandas as pd

from common import exc, limit

AREA = "trees"
PROPS = ["C23"]
CLASSES = [["a", "b", "c", "d"], [0, 1, 2, 3], [5, 7, 9, 11], ["no", "yes", "zero", "zz"], [-1, 0, 1, 3]]
NAMES = ["A", "B", "C", "D", "E", "F", "long name", "x 1", "X_0", "X_1", "é", "b", "a"]


class Run:
    def __init__(self, scratch):
        from ruleskit import extract_rules_from_tree
        from ruleskit.rule import ClassificationRule, RegressionRule
        from sklearn import tree
        from sklearn.tree._tree import Tree

        self.extract, self.types = extract_rules_from_tree, {"reg": RegressionRule, "cls": ClassificationRule}
        self.sk, self.Tree = tree, Tree

    @staticmethod
    def blank(k):
        return {"k": k, "out": "ok", "N": [], "ty": "reg", "names": [], "mins": [], "maxs": [], "leaf": True, "rules": [],
                "same": True, "shared": False, "rows": [], "act": [], "tpred": [], "rpred": []}

    # ------------------------------------------------------------------ the estimator
    def estimator(self, c):
        if c["how"] == "fit":
            cls = {"dec": {"reg": self.sk.DecisionTreeRegressor, "cls": self.sk.DecisionTreeClassifier},
                   "extra": {"reg": self.sk.ExtraTreeRegressor, "cls": self.sk.ExtraTreeClassifier}}[c["kind"]][c["ty"]]
            t = cls(random_state=c["seed"], **c["params"])
            X = np.array(c["X"], dtype=float)
            if c["frame"]:
                X = pd.DataFrame(X, columns=c["names"])
            y = np.array([c["classes"][k] for k in c["y"]]) if c["ty"] == "cls" else np.array(c["y"], dtype=float)
            t.fit(X, y, sample_weight=None if c["sw"] is None else np.array(c["sw"], dtype=float))
            return t
        # a tree made by hand: fitted on anything, then its nodes are replaced
        nodes, vals = c["nodes"], c["vals"]
        nf, nc = c["nf"], len(vals[0])
        t = (self.sk.DecisionTreeRegressor if c["ty"] == "reg" else self.sk.DecisionTreeClassifier)()
        X = np.zeros((max(2, nc), nf))
        y = np.arange(max(2, nc), dtype=float) if c["ty"] == "reg" else np.array(c["classes"][:nc])[np.arange(max(2, nc)) % nc]
        t.fit(X, y)
        s = t.tree_.__getstate__()
        old = s["nodes"]
        arr = np.zeros(len(nodes), dtype=old.dtype)
        for k, n in enumerate(nodes):
            arr[k]["left_child"], arr[k]["right_child"] = (n[0], n[1]) if n[0] >= 0 else (-1, -1)
            arr[k]["feature"], arr[k]["threshold"] = (n[2], n[3]) if n[0] >= 0 else (-2, -2.0)
            arr[k]["n_node_samples"] = arr[k]["weighted_n_node_samples"] = 1

        def depth(n):
            return 0 if nodes[n][0] < 0 else 1 + max(depth(nodes[n][0]), depth(nodes[n][1]))
        u = self.Tree(nf, np.array([nc if c["ty"] == "cls" else 1], dtype=np.intp), 1)
        u.__setstate__({"max_depth": depth(0), "node_count": len(nodes), "nodes": arr,
                        "values": np.array(vals, dtype=float).reshape(len(nodes), 1, nc)})
        t.tree_ = u
        return t

    @staticmethod
    def state(t):
        s = t.tree_.__getstate__()
        return (s["nodes"].tobytes(), s["values"].tobytes(), s["node_count"])

    # ------------------------------------------------------------------ execution
    def run(self, prog, rec, hist):
        c = prog["setup"]
        t = self.estimator(c)
        T = t.tree_
        nf = T.n_features
        split = [k for k in range(T.node_count) if T.children_left[k] >= 0]
        if not split:
            return  # without a split there is no region to describe
        thr = {f: [float(T.threshold[k]) for k in split if T.feature[k] == f] for f in range(nf)}
        mins, maxs = [], []
        for f in range(nf):
            lo, hi = c["ranges"][f]
            mins.append(min([lo] + thr[f]))
            maxs.append(max([hi] + thr[f]))
        rows = [[x if x is not None else c["ranges"][f][0] for f, x in enumerate(r)] for r in c["rows"]]
        ty = c["ty"]
        names = c["names"] if c["names"] else [f"X_{f}" for f in range(nf)]
        nid = {n: k + 1 for k, n in enumerate(sorted(names))}
        labels = [int(k) for k in range(T.value.shape[2])] if ty == "cls" else []
        shown = c["cnames"][:len(labels)] if c["cnames"] and ty == "cls" else None
        bounds = sorted({*mins, *maxs, *(float(T.threshold[k]) for k in split), *(x for r in rows for x in r)})
        brank = {x: k + 1 for k, x in enumerate(bounds)}
        vals = sorted({float(x) for x in T.value.ravel()})
        vrank = {x: k + 1 for k, x in enumerate(vals)}

        def rank(x):
            try:
                return brank.get(float(x), 9999)
            except Exception:
                return 9999

        def pred(x):
            try:
                if ty == "cls":
                    if isinstance(x, float) and math.isnan(x):
                        return 0
                    return (shown or labels).index(x) + 1
                x = float(x)
                if math.isnan(x):
                    return 0
                near = min(vals, key=lambda v: abs(v - x))
                return vrank[near] if abs(near - x) <= 1e-9 * max(1.0, abs(x)) else 9999
            except Exception:
                return 9999
        a_min = list(mins) if c["lists"] else np.array(mins)
        a_max = list(maxs) if c["lists"] else np.array(maxs)
        X = np.array(rows, dtype=float)
        with_names = pd.DataFrame(X, columns=names) if c["asframe"] else X
        for step, op in enumerate(prog["ops"]):
            ev = self.blank("tree")
            ev.update(ty=ty, leaf=op["leaf"], names=[nid[n] for n in names], mins=[brank[x] for x in mins],
                      maxs=[brank[x] for x in maxs], rows=[[brank[x] for x in r] for r in rows],
                      N=[{"l": int(T.children_left[k]) + 1 if k in split else 0, "r": int(T.children_right[k]) + 1 if k in split else 0,
                          "f": max(0, int(T.feature[k])), "t": brank[float(T.threshold[k])] if k in split else 0,
                          "v": [vrank[float(x)] for x in T.value[k][0]]} for k in range(T.node_count)])
            tp = t.predict(pd.DataFrame(X, columns=c["names"]) if c.get("frame") else X).tolist()
            ev["tpred"] = [list(t.classes_).index(x) + 1 for x in tp] if ty == "cls" else [pred(x) for x in tp]
            kw = {}
            if c["names"]:
                kw["features_names"] = list(c["names"])
            if shown:
                kw["classes_names"] = list(shown)
            if op["leaf"]:
                kw["get_leaf"] = True
            elif op.get("explicit"):
                kw["get_leaf"] = False
            if op.get("stack"):
                kw["stack_activation"] = True
            if op.get("nocomp"):
                kw["compute_activation"] = False
            before = (self.state(t), copy.deepcopy(a_min), copy.deepcopy(a_max), copy.deepcopy(kw))
            try:
                with limit():
                    rs = self.extract(t, a_min, a_max, **kw)
                rules = list(rs.rules)
            except Exception as e:
                ev["out"], rules = exc(e), []
            ev["same"] = bool(before[0] == self.state(t) and np.array_equal(before[1], a_min) and np.array_equal(before[2], a_max)
                              and before[3] == kw)
            ids = []
            for r in rules:
                try:
                    q = r.condition
                    nm, ix, lo, hi = list(q.features_names), list(q.features_indexes), list(q.bmins), list(q.bmaxs)
                    if not len(nm) == len(ix) == len(lo) == len(hi):
                        raise ValueError
                    fs = [{"nm": nid.get(nm[k], 99), "ix": int(ix[k]), "lo": rank(lo[k]), "hi": rank(hi[k])} for k in range(len(nm))]
                    ids += [id(q), id(q.bmins), id(q.bmaxs)]
                except Exception:
                    fs = [{"nm": 98, "ix": 98, "lo": 9998, "hi": 9998}]
                kind = [k for k, x in self.types.items() if type(r) is x]
                ev["rules"].append({"ty": kind[0] if kind else "none", "fs": fs, "pred": pred(getattr(r, "prediction", None))})
            ev["shared"] = len(set(ids)) < len(ids)
            if ev["out"] == "ok" and rows:
                try:
                    acts = [r.evaluate_activation(with_names).raw for r in rules]
                    ev["act"] = [[int(a[k]) for a in acts] for k in range(len(rows))]
                except Exception as e:
                    ev["act"] = [[9] * len(rules) for _ in rows]
                if op["leaf"] and any(1 in a for a in ev["act"]):
                    try:
                        ev["rpred"] = [pred(x) for x in np.asarray(rs.predict(with_names)).tolist()]
                    except Exception as e:
                        ev["rpred"] = [9998] * len(rows)
                    if len(ev["rpred"]) != len(rows):
                        ev["rpred"] = [9997] * len(rows)
            rec.write(ev, hist, step)


# ---------------------------------------------------------------------- generation
def gen_ops(rng):
    ops = [{"leaf": True}, {"leaf": False, "explicit": rng.random() < 0.5}]
    for o in ops:
        o["stack"], o["nocomp"] = rng.random() < 0.3, rng.random() < 0.3
    rng.shuffle(ops)
    return ops[: rng.choice([1, 2, 2])] + ([dict(ops[0])] if rng.random() < 0.1 else [])


def cell(rng):
    return rng.randint(-8, 8) / 4


def gen(rng, prop, tier, k):
    ty = rng.choice(["reg", "cls"])
    nf, n = rng.choice([1, 1, 2, 3, 4, 5]), rng.choice([3, 5, 8, 12, 20, 40])
    X = [[cell(rng) for _ in range(nf)] for _ in range(n)]
    nc = rng.choice([2, 2, 3, 4])
    y = [rng.randrange(nc) for _ in range(n)] if ty == "cls" else [rng.randint(-9, 9) / rng.choice([1, 2]) for _ in range(n)]
    params = {}
    if rng.random() < 0.6:
        params["max_depth"] = rng.choice([1, 2, 3, 4, 6])
    if rng.random() < 0.35:
        params["max_leaf_nodes"] = rng.choice([2, 3, 5, 8])
    if rng.random() < 0.2:
        params["min_samples_leaf"] = rng.choice([2, 3])
    if rng.random() < 0.15:
        params["ccp_alpha"] = rng.choice([0.01, 0.1])
    names = rng.sample(NAMES, nf) if rng.random() < 0.6 else None
    classes = rng.choice(CLASSES)
    frame = names is not None and rng.random() < 0.3
    wide = rng.random()
    ranges = []
    for f in range(nf):
        col = [r[f] for r in X]
        lo, hi = min(col), max(col)
        if wide < 0.2:
            lo, hi = lo - rng.choice([0, 1, 100]), hi + rng.choice([0, 1, 100])
        elif wide < 0.3:
            lo, hi = -math.inf, math.inf
        ranges.append([lo, hi])
    rows = [list(r) for r in rng.sample(X, min(n, 6))] + [[cell(rng) for _ in range(nf)] for _ in range(8)]
    return {"setup": {"how": "fit", "ty": ty, "kind": rng.choice(["dec", "dec", "extra"]), "seed": rng.randrange(1000), "params": params,
                      "X": X, "y": y, "frame": frame, "names": names, "classes": classes,
                      "cnames": rng.choice([None, ["k1", "k2", "k3", "k4"], [10, 20, 30, 40], ["z", "y", "x", "w"]]),
                      "sw": [rng.choice([1, 1, 2, 0.5]) for _ in range(n)] if rng.random() < 0.2 else None,
                      "ranges": ranges, "rows": rows, "lists": rng.random() < 0.4,
                      "asframe": names is not None and rng.random() < 0.5}, "ops": gen_ops(rng)}


def concretize(rng, abstract, prop):
    """A tree of MC_Tree: ranks become numbers, nodes may be renumbered"""
    a = abstract[0]
    nf, ty, N = a["feats"], a["ty"], a["N"]
    step, off = rng.choice([0.25, 0.5, 1, 4]), rng.choice([0, -2, -1, 10])
    val = lambda r: off + step * r
    order = list(range(1, len(N)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    pos = {old: new for new, old in enumerate([0] + order)}
    nodes, vals = [None] * len(N), [None] * len(N)
    for k, n in enumerate(N):
        nodes[pos[k]] = [pos[n["l"] - 1], pos[n["r"] - 1], n["f"], val(n["t"])] if n["l"] else [-1, -1, -2, -2.0]
        vals[pos[k]] = [x / 4 for x in n["v"]]
    pool = sorted(rng.sample(NAMES, nf))
    names = [pool[x - 1] for x in sorted(a["names"])] if rng.random() < 0.2 else [pool[sorted(a["names"]).index(x)] for x in a["names"]]
    grid = [[val(x) for x in row] for row in _grid(nf, a["top"])]
    return {"setup": {"how": "nodes", "ty": ty, "nodes": nodes, "vals": vals, "nf": nf, "names": names if rng.random() < 0.7 else None,
                      "classes": rng.choice(CLASSES), "cnames": rng.choice([None, ["k1", "k2"], [10, 20], ["z", "y"]]),
                      "ranges": [[val(1), val(a["top"])]] * nf, "rows": rng.sample(grid, min(len(grid), 16)),
                      "lists": rng.random() < 0.4, "asframe": False},
            "ops": [{"leaf": a["leaf"]}]}


def _grid(nf, top):
    if nf == 0:
        return [[]]
    return [[x] + r for x in range(1, top + 1, 2) for r in _grid(nf - 1, top)]
