"""Driver for conditions: programs are executed on the real code and recorded as events of Conditions.tla."""
import copy
import json
import math
import zlib
from numbers import Number

import numpy as np
import pandas as pd

from common import exc, limit

AREA = "cond"
PROPS = ["C06", "C07", "C08", "C09", "C27"]

TABLE = sorted({
    -math.inf, -1e300, -1e17, -2.0 ** 53, -1000.5, -3.0, -2.0, -1.5, np.nextafter(-1, -2), -1.0, -0.5, -0.3, -5e-324, 0.0,
    5e-324, 0.1, 0.25, 0.3, 0.1 + 0.2, 0.5, np.nextafter(1, 0), 1.0, np.nextafter(1, 2), 1.5, 2.0, 2.5, 3.0, 10.0, 255.0,
    256.0, 1000.5, 2.0 ** 31, 2.0 ** 53, 2.0 ** 53 + 2, 1e17, 1e300, math.inf,
})
# the last ones are no floats: conditions may have them as bounds, tables do not
TABLE = sorted([float(x) for x in TABLE] + [2 ** 53 + 1, -2 ** 53 - 1, 2 ** 60, 2 ** 60 + 1])
RANK = {x: k + 1 for k, x in enumerate(TABLE)}
LO_INF, HI_INF = RANK[-math.inf], RANK[math.inf]
FLOATS = [k + 1 for k, x in enumerate(TABLE) if isinstance(x, float)]
NPOS = 13
POOL = sorted({f"X_{i}" for i in range(NPOS)} | {"A", "B", "C", "a", "b", "x 1", "x10", "x2", "", "é", "X", "Z_0", "x,y", "[q]"})
NRANK = {n: k + 1 for k, n in enumerate(POOL)}


def rank(x):
    try:
        if isinstance(x, (bool, np.bool_)) or not isinstance(x, Number):
            return 9999
        return RANK.get(x, 9999) if not math.isnan(x) else 0
    except Exception:
        return 9999


def nrank(n):
    return NRANK.get(n, 9999) if isinstance(n, str) else 9999


def value(r, asint=False):
    if r == 0:
        return math.nan
    x = TABLE[r - 1]
    if isinstance(x, int):
        return x
    if asint and math.isfinite(x) and x == int(x):
        return int(x)
    return x


class Run:
    def __init__(self, scratch):
        from ruleskit import HyperrectangleCondition, RuleSet
        from ruleskit.rule import ClassificationRule, RegressionRule

        self.H, self.RS, self.RR, self.CR = HyperrectangleCondition, RuleSet, RegressionRule, ClassificationRule

    @staticmethod
    def blank(k):
        return {"k": k, "out": "ok", "a": 0, "b": 0, "res": 0, "w": "", "hasi": False, "hasn": False, "haslo": True,
                "hashi": True, "nms": [], "ixs": [], "los": [], "his": [], "sort": True, "val": [], "at": 1, "hs": [],
                "hs2": [], "tab": {"kind": "none", "cols": [], "nc": 0, "rows": []}, "act": [], "same": True,
                "eq": False, "ne": False, "heq": False, "n": 0, "look": False, "cs": [], "mode": "index",
                "xn": [], "inf": {"lo": LO_INF, "hi": HI_INF}, "via": "", "fs": [], "items": [], "imp": False, "len": 0}

    @staticmethod
    def feature(nm, ix, lo, hi):
        return [nrank(nm), int(ix) if isinstance(ix, (int, np.integer)) else 9999, rank(lo), rank(hi)]

    def features(self, c):
        """What a condition, or a rule, says about its features"""
        try:
            nm, ix, lo, hi = c.features_names, c.features_indexes, c.bmins, c.bmaxs
            n = len(nm)
            if len(ix) == len(lo) == len(hi) == n == len(c):
                fs = [self.feature(nm[k], ix[k], lo[k], hi[k]) for k in range(n)]
            else:
                fs = [[9998, 9998, 9998, 9998]]
            return fs, bool(c.impossible)
        except Exception:
            return [[9997, 9997, 9997, 9997]], True

    def observe(self):
        cs = self.c
        if self.far:  # look at copies, so that looking does not touch what the program works on
            try:
                cs = copy.deepcopy(cs)
            except Exception:
                pass
        return [[h, *self.features(c)] for h, c in sorted(cs.items())]

    def face(self, h, kind=0):
        """The rule of the condition h (which it shares)"""
        if h not in self.rules:
            self.rules[h] = (self.RR if kind == 0 else self.CR)(condition=self.c[h])
        return self.rules[h]

    def show(self, ev, op):
        """What the rule of a condition shows of itself, before or after it got an activation or a prediction"""
        c, r = self.c[op["a"]], self.face(op["a"], op["kind"])
        if op.get("tab"):
            ev["tab"] = self.logged(op["tab"])
            x = self.table(op["tab"])
            if op["fit"]:
                r.fit(np.array([k % 2 for k in range(len(x))]), x)
            else:
                r.calc_activation(x)
            ev["act"] = self.bits(r.activation)
            ev["n"], ev["len"] = int(r.nones), int(r.length)
            s = self.RS([r])
            ev["hs"] = [int(s.nones), int(s.length), len(s)]
        ev["fs"], ev["imp"] = self.features(r)
        ev["items"] = [self.feature(*c[k]) for k in range(len(c))]
        text = str(r)
        parts = [str(c)] + [str(v) for l in (c.features_names, c.bmins, c.bmaxs) for v in l]
        if r.prediction is None:
            parts.append("unset")
        elif isinstance(r, self.RR):
            parts.append(str(r.prediction))
        ev["look"] = all(t in text for t in parts) and ("unset" in text) == (r.prediction is None)

    def mode(self):
        m = self.H.SORT_ACCORDING_TO
        return m if isinstance(m, str) else "?"

    def run(self, prog, rec, hist):
        self.c, self.rules = {}, {}
        self.held = None
        self.far = zlib.crc32(json.dumps(prog["ops"]).encode()) % 2
        self.H.SORT_ACCORDING_TO = "index"
        rec.write(dict(self.blank("begin"), mode=self.mode(), xn=[NRANK[f"X_{i}"] for i in range(NPOS)]), hist, -1)
        try:
            for step, op in enumerate(prog["ops"]):
                ev = self.step(op)
                if ev is None:
                    continue
                ev["cs"], ev["mode"] = self.observe(), self.mode()
                rec.write(ev, hist, step)
        finally:
            self.H.SORT_ACCORDING_TO = "index"

    # ------------------------------------------------------------------ pieces
    def table(self, t):
        rows = [[value(r, t.get("ints")) for r in row] for row in t["rows"]]
        n = len(rows)
        if t["kind"] == "array":
            a = np.array(rows, dtype=float).reshape(n, t["nc"])
            if t.get("ints") and np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.all(abs(a) < 2.0 ** 53):
                a = a.astype(np.int64)
            if t.get("fort"):
                a = np.asfortranarray(a)
            return a
        idx = t.get("index")
        index = {"dup": [0] * n, "str": [f"r{k}" for k in range(n)], "rev": list(range(n))[::-1]}.get(idx, None)
        cols = [POOL[c - 1] if c else f"extra{k}" for k, c in enumerate(t["cols"])]
        df = pd.DataFrame({k: pd.Series([r[k] for r in rows], dtype=object if n == 0 else None) for k in range(len(cols))})
        for k in df.columns:
            try:
                df[k] = pd.to_numeric(df[k])
            except Exception:
                pass
        df.columns = cols
        if index is not None:
            df.index = index
        return df

    def refill(self, t):
        """The table, in the object of the previous one where that is asked for and possible"""
        x = self.table(t)
        o = self.held
        if t.get("inplace") and o is not None and type(o) is type(x) and o.shape == x.shape:
            try:
                if isinstance(x, np.ndarray) and o.dtype == x.dtype:
                    o[...] = x
                    x = o
                elif isinstance(x, pd.DataFrame) and list(o.columns) == list(x.columns) and list(o.index) == list(x.index):
                    for j in range(x.shape[1]):
                        o.iloc[:, j] = x.iloc[:, j].values
                    if list(o.dtypes) == list(x.dtypes) and o.equals(x):
                        x = o
            except Exception:
                pass
        self.held = x
        return x

    @staticmethod
    def logged(t):
        return {f: t[f] for f in ("kind", "cols", "nc", "rows")}

    def rule(self, h, kind, fitted):
        """A rule on the condition h, possibly fitted, so that it carries more than its condition"""
        c = copy.deepcopy(self.c[h])
        r = (self.RR if kind == 0 else self.CR)(condition=c)
        if fitted:
            n = fitted + 2
            xs = np.array([[((i * 7 + j * 3 + fitted) % 5) / 2 for j in range(NPOS)] for i in range(n)])
            y = np.array([(i * fitted) % 3 for i in range(n)])
            try:
                r.fit(y, xs)
            except Exception:
                pass
        return r

    def step(self, op):
        k = op["op"]
        need = [op[x] for x in ("a", "b") if op.get(x)] + list(op.get("hs", [])) + list(op.get("hs2", []))
        if any(h not in self.c for h in need):
            return None
        ev = self.blank(k)
        ev["a"], ev["b"] = op.get("a", 0), op.get("b", 0)
        res = None
        try:
            with limit():
                if k == "mode":
                    self.H.SORT_ACCORDING_TO = op["w"]
                elif k == "new":
                    for f in ("hasi", "hasn", "haslo", "hashi", "nms", "ixs", "los", "his", "sort"):
                        ev[f] = op[f]
                    kw = {}
                    np_ = op.get("np")
                    if op["hasi"]:
                        kw["features_indexes"] = [(np.int64(i) if np_ else i) if i >= 0 else [1.5, "2", None][op["bad"]]
                                                  for i in op["ixs"]]
                    if op["hasn"]:
                        kw["features_names"] = [POOL[n - 1] if n >= 0 else [3, None, b"A"][op["bad"]] for n in op["nms"]]
                    for nm, key in (("bmins", "los"), ("bmaxs", "his")):
                        if op["has" + key[:2]]:
                            kw[nm] = [(np.float64(value(r)) if np_ and r in FLOATS else value(r, op["ints"])) if r >= 0
                                      else ["1", None, [2]][op["bad"]] for r in op[key]]
                    if not op["sort"]:
                        kw["sort"] = False
                    res = self.H(**kw)
                elif k == "sort":
                    self.c[op["a"]].sort()
                elif k == "set":
                    ev["w"], ev["val"] = op["w"], op["val"]
                    bad = ["z", None, [1]][op.get("bad", 0)]
                    if op["w"] == "nm":
                        v = [POOL[x - 1] if x >= 0 else [3, None, b"A"][op.get("bad", 0)] for x in op["val"]]
                    elif op["w"] == "ix":
                        v = [x if x >= 0 else [1.5, "2", None][op.get("bad", 0)] for x in op["val"]]
                    else:
                        v = [value(x, op["ints"]) if x >= 0 else bad for x in op["val"]]
                    if op["text"]:
                        v = str(v) if op["text"] == 1 else str([str(x) for x in v])
                    ev["via"] = op.get("via", "")
                    setattr(self.face(op["a"]) if ev["via"] == "rule" else self.c[op["a"]],
                            {"nm": "features_names", "ix": "features_indexes", "lo": "bmins", "hi": "bmaxs"}[op["w"]], v)
                elif k == "poke":
                    c = self.c[op["a"]]
                    ev["w"], ev["val"] = op["w"], op["val"]
                    ev["at"] = op["at"] % len(c) + 1
                    name = {"lo": "bmins", "hi": "bmaxs"}[op["w"]]
                    ev["via"] = op.get("via", "")
                    if ev["via"] == "rule":
                        c = self.face(op["a"])
                    lst = getattr(c, name)
                    lst[ev["at"] - 1] = value(op["val"][0])
                    setattr(c, name, lst)
                elif k == "and":
                    ev["tab"] = self.logged(op["tab"]) if op.get("tab") else ev["tab"]
                    res = self.c[op["a"]] & self.c[op["b"]]
                    if op.get("tab"):
                        try:
                            ev["act"] = self.bits(res.evaluate(self.table(op["tab"])))
                        except Exception:
                            ev["act"] = [9]
                elif k == "eval":
                    ev["tab"] = self.logged(op["tab"])
                    x = self.refill(op["tab"])
                    y = x.copy()
                    try:
                        if op.get("via") == "rule" and len(x):
                            ev["via"] = "rule"
                            r = self.rules.get(op["a"]) or self.RR(condition=copy.deepcopy(self.c[op["a"]]))
                            ev["act"] = self.bits(r.evaluate_activation(x).raw)
                        else:
                            ev["act"] = self.bits(self.c[op["a"]].evaluate(x))
                    finally:
                        if isinstance(x, pd.DataFrame):
                            ev["same"] = bool(list(x.columns) == list(y.columns) and list(x.index) == list(y.index)
                                              and x.equals(y) and list(x.dtypes) == list(y.dtypes))
                        else:
                            ev["same"] = bool(x.shape == y.shape and x.dtype == y.dtype
                                              and np.array_equal(x, y, equal_nan=x.dtype.kind == "f"))
                elif k == "show":
                    self.show(ev, op)
                elif k == "junk":
                    r = self.face(op["a"])
                    try:
                        setattr(r, op["w"], 3)
                    finally:
                        ev["look"] = not hasattr(r, op["w"])
                elif k == "cmp":
                    ev["w"] = op["w"]
                    if op["w"] == "set":
                        ev["hs"], ev["hs2"] = op["hs"], op["hs2"]
                        l1 = [self.rule(h, op["kind"], (j * op["fit"]) % 4) for j, h in enumerate(op["hs"])]
                        l2 = [self.rule(h, op["kind"], ((j + 1) * op["fit"]) % 4) for j, h in enumerate(op["hs2"])]
                        s1, s2 = self.RS(l1, compute_activation=False), self.RS(l2, compute_activation=False)
                        ev["eq"], ev["ne"] = (s1 == s2) is True, (s1 != s2) is True
                        ev["heq"] = hash(s1) == hash(s2)
                        ev["n"] = len(set(s1.rules))
                    else:
                        if op["w"] == "cond":
                            x, y = self.c[op["a"]], self.c[op["b"]]
                        elif op["w"] == "face":
                            x, y = self.face(op["a"]), self.face(op["b"])
                        else:
                            x = self.rule(op["a"], op["kind"] % 2, op["fit"] % 4)
                            y = self.rule(op["b"], op["kind"] // 2, op["fit"] // 4)
                        ev["eq"], ev["ne"] = (x == y) is True, (x != y) is True
                        ev["heq"] = hash(x) == hash(y)
                        ev["n"] = len({x, y})
                        ev["look"] = {x: 1}.get(y) == 1 and y in [x]
        except Exception as e:
            ev["out"] = exc(e)
        if res is not None:
            self.c[op["r"]] = res
            ev["res"] = op["r"]
        return ev

    @staticmethod
    def bits(a):
        try:
            a = np.asarray(a)
            if a.ndim != 1:
                return [9]
            return [1 if x == 1 else 0 if x == 0 else 9 for x in a.tolist()]
        except Exception:
            return [9]


# ---------------------------------------------------------------------- generation
WEIGHTS = {
    "C06": dict(new=4, mode=0.7, sort=0.5, set=3, poke=0.3, and_=1.5, eval=10, cmp=0.3),
    "C07": dict(new=5, mode=0.8, sort=0.5, set=2, poke=2, and_=9, eval=1, cmp=0.5),
    "C08": dict(new=5, mode=0.8, sort=1, set=3, poke=0.5, and_=1, eval=0.3, cmp=12),
    "C27": dict(new=5, mode=0.5, sort=0.7, set=9, poke=1.5, and_=0.7, eval=4, cmp=2, show=8, junk=0.7),
    "C09": dict(new=8, mode=1.5, sort=2, set=10, poke=1.5, and_=1, eval=0.5, cmp=0.3),
}


def some_ranks(rng, prop):
    """A small palette, so that bounds coincide, touch and invert often"""
    if prop == "C08" and rng.random() < 0.08:
        return [RANK[x] for x in (2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, 2 ** 60, 2 ** 60 + 1, -2 ** 53, -2 ** 53 - 1)]
    return [r for r in small_ranks(rng) if r in FLOATS]


def small_ranks(rng):
    lo = rng.randrange(1, len(TABLE) - 3)
    k = rng.random()
    if k < 0.4:
        return list(range(lo, min(lo + rng.randint(2, 5), len(TABLE)) + 1))
    if k < 0.6:
        return [RANK[x] for x in (-2.0, -1.0, 0.0, 1.0, 2.0)]
    return rng.sample(range(1, len(TABLE) + 1), 5)


def gen_bounds(rng, pal, n):
    lo, hi = [], []
    for _ in range(n):
        a, b = rng.choice(pal), rng.choice(pal)
        if rng.random() < 0.8:
            a, b = min(a, b), max(a, b)
        if rng.random() < 0.08:
            a = LO_INF
        if rng.random() < 0.08:
            b = HI_INF
        lo.append(a)
        hi.append(b)
    return lo, hi


def gen_table(rng, pal, feats, width):
    """feats: name rank -> position"""
    near = sorted({max(1, min(len(TABLE), r + d)) for r in pal for d in (-1, 0, 0, 1)} & set(FLOATS)) or FLOATS[:3]
    n = rng.choice([1, 2, 3, 5, 8])
    z = rng.random()
    if z < 0.02:
        n = 0
    elif z < 0.05:
        n = rng.choice([33, 65, 130, 257])

    def val():
        k = rng.random()
        return 0 if k < 0.08 else rng.choice([LO_INF, HI_INF]) if k < 0.13 else rng.choice(near)

    if rng.random() < 0.5:
        nc = max(1, width + rng.choice([0, 0, 0, 1, -1]))
        return {"kind": "array", "cols": [], "nc": nc, "rows": [[val() for _ in range(nc)] for _ in range(n)],
                "ints": rng.random() < 0.3, "fort": rng.random() < 0.3}
    cols = list(feats)
    if rng.random() < 0.1 and cols:
        cols.remove(rng.choice(cols))
    for c in rng.sample(range(1, len(POOL) + 1), rng.randint(0, 3)):
        if c not in cols:
            cols.append(c)
    rng.shuffle(cols)
    if not cols:
        cols = [1]
    return {"kind": "frame", "cols": cols, "nc": len(cols), "rows": [[val() for _ in cols] for _ in range(n)],
            "ints": rng.random() < 0.3, "index": rng.choice([None, "dup", "str", "rev"])}


def gen(rng, prop, tier, k):
    w = WEIGHTS[prop]
    kinds = list(w)
    pal = some_ranks(rng, prop)
    nf = rng.randint(1, 5) if rng.random() < 0.95 else rng.randint(6, NPOS)
    names = rng.sample(range(1, len(POOL) + 1), nf)
    pos = rng.sample(range(NPOS), nf)
    if rng.random() < 0.3:  # default names
        names = [NRANK[f"X_{p}"] for p in pos]
    feats = dict(zip(names, pos))
    width = max(pos) + 1
    ops, live, nxt = [], {}, 1
    length = rng.randint(5, 22)
    while len(ops) < length:
        kk = rng.choices(kinds, [w[x] for x in kinds])[0]
        ids = list(live)
        if not ids or (kk == "new" and len(ids) < 6):
            n = rng.randint(1, nf)
            fs = rng.sample(list(feats.items()), n)
            src = None
            if ids and rng.random() < 0.35:  # near an existing one: same, permuted, one bound changed
                src = live[rng.choice(ids)]
            if src is not None:
                fs = list(zip(src["nms"], src["ixs"]))
                los, his = list(src["los"]), list(src["his"])
                order = list(range(len(fs)))
                rng.shuffle(order)
                fs, los, his = [fs[j] for j in order], [los[j] for j in order], [his[j] for j in order]
                n = len(fs)
                z = rng.random()
                if z < 0.3:
                    j = rng.randrange(n)
                    (los if rng.random() < 0.5 else his)[j] = rng.choice(pal)
                elif z < 0.45 and n > 1:  # bounds exchanged between two features
                    los[0], los[1] = los[1], los[0]
                elif z < 0.6 and n > 1:
                    his[0], his[1] = his[1], his[0]
                elif z < 0.7:
                    fs = [(f[0], p) for f, p in zip(fs, rng.sample(range(NPOS), n))]
            else:
                los, his = gen_bounds(rng, pal, n)
                if rng.random() < 0.1:
                    fs = list(zip([f[0] for f in fs], rng.sample(range(NPOS), n)))
            op = {"op": "new", "r": nxt, "hasi": True, "hasn": True, "haslo": True, "hashi": True,
                  "nms": [f[0] for f in fs], "ixs": [f[1] for f in fs], "los": los, "his": his,
                  "sort": rng.random() < 0.7, "ints": rng.random() < 0.4, "np": rng.random() < 0.2 and set(pal) <= set(FLOATS), "bad": rng.randrange(3)}
            z = rng.random()
            if z < 0.1:
                op["hasi"], op["ixs"] = False, []
            elif z < 0.2:
                op["hasn"], op["nms"] = False, []
            if rng.random() < (0.25 if prop == "C09" else 0.03):
                b = rng.choice(["los", "his", "nms", "ixs", "duplos", "dupn", "dupi", "count", "nolo", "nohi", "none"])
                if b in ("los", "his", "nms", "ixs") and op[b]:
                    op[b] = list(op[b])
                    op[b][rng.randrange(len(op[b]))] = -1
                elif b == "dupn" and len(op["nms"]) > 1:
                    op["nms"][1] = op["nms"][0]
                elif b == "dupi" and len(op["ixs"]) > 1:
                    op["ixs"][0] = op["ixs"][-1]
                elif b == "count":
                    f = rng.choice(["los", "his", "nms", "ixs"])
                    if op[f]:
                        op[f] = op[f] + [rng.choice(pal)] if rng.random() < 0.5 and f in ("los", "his") else op[f][:-1]
                elif b == "nolo":
                    op["haslo"], op["los"] = False, []
                elif b == "nohi":
                    op["hashi"], op["his"] = False, []
                elif b == "none":
                    op["hasi"] = op["hasn"] = False
                    op["ixs"] = op["nms"] = []
            ops.append(op)
            if not op["hasn"] and op["hasi"]:
                full = dict(op, nms=[NRANK[f"X_{p}"] if p >= 0 else 1 for p in op["ixs"]])
            elif op["hasn"] and not op["hasi"]:
                full = dict(op, ixs=list(range(len(op["nms"]))))
            else:
                full = op
            ok = (op["hasi"] or op["hasn"]) and op["haslo"] and op["hashi"] and len({len(full[f]) for f in (
                "nms", "ixs", "los", "his")}) == 1 and all(x >= 0 for f in ("nms", "ixs", "los", "his") for x in full[f]) \
                and len(set(full["nms"])) == len(full["nms"]) == len(set(full["ixs"])) and len(full["nms"]) > 0
            if ok:
                live[nxt] = {f: list(full[f]) for f in ("nms", "ixs", "los", "his")}
                nxt += 1
            continue
        if kk == "new":
            continue
        a, b = rng.choice(ids), rng.choice(ids)
        n = len(live[a]["nms"])
        if kk == "mode":
            ops.append({"op": "mode", "w": rng.choice(["index", "name"])})
        elif kk == "sort":
            ops.append({"op": "sort", "a": a})
        elif kk == "poke":
            ops.append({"op": "poke", "a": a, "w": rng.choice(["lo", "hi"]), "val": [rng.choice(pal)], "at": rng.randrange(5),
                        "via": "rule" if prop == "C27" and rng.random() < 0.6 else ""})
        elif kk == "set":
            f = rng.choice(["lo", "hi", "lo", "hi", "nm", "ix"])
            m = n
            if rng.random() < 0.1:
                m = max(1, n + rng.choice([-1, 1]))
            if f in ("lo", "hi"):
                v = [rng.choice(pal) for _ in range(m)]
            elif f == "nm":
                v = rng.sample(range(1, len(POOL) + 1), m)
            else:
                v = rng.sample(range(NPOS), m)
            if rng.random() < 0.1 and m > 1 and f in ("nm", "ix"):
                v[0] = v[1]
            text = rng.choice([0, 0, 1, 2]) if f in ("lo", "hi") else rng.choice([0, 0, 1])
            if text == 1 and f in ("lo", "hi") and any(x in (LO_INF, HI_INF) for x in v):
                text = 2  # inf is no literal
            if text == 2 and not set(v) <= set(FLOATS):
                text = 1
            if rng.random() < 0.08 and not text:
                v[rng.randrange(m)] = -1
            ops.append({"op": "set", "a": a, "w": f, "val": v, "text": text, "ints": rng.random() < 0.4,
                        "bad": rng.randrange(3), "via": "rule" if prop == "C27" and rng.random() < 0.75 else ""})
        elif kk == "and_":
            if len(live) >= 7:
                continue
            op = {"op": "and", "a": a, "b": b, "r": nxt}
            if rng.random() < 0.6 and set(pal) <= set(FLOATS):
                op["tab"] = gen_table(rng, pal, feats, width)
            ops.append(op)
            live[nxt] = {f: list(live[a][f]) for f in live[a]}  # a guess; only used to generate
            nxt += 1
        elif kk == "eval" and set(pal) <= set(FLOATS):
            t = gen_table(rng, pal, feats, width)
            before = [o for o in ops if o["op"] == "eval"]
            if before and before[-1]["tab"]["rows"] and rng.random() < 0.3:
                t0 = before[-1]["tab"]  # the same table, changed in place
                cells = [c for row in t0["rows"] for c in row] + pal
                t = dict(t0, inplace=True, rows=[[c if rng.random() < 0.6 else rng.choice(cells) for c in row] for row in t0["rows"]])
                t["rows"] = [[c if c == 0 or c in FLOATS else FLOATS[3] for c in row] for row in t["rows"]]
                a = rng.choice([a, before[-1]["a"]])
            ops.append({"op": "eval", "a": a, "tab": t, "via": rng.choice(["cond", "cond", "rule"])})
        elif kk == "show":
            op = {"op": "show", "a": a, "kind": rng.randrange(2), "fit": rng.random() < 0.5}
            if rng.random() < 0.7 and set(pal) <= set(FLOATS):
                t = gen_table(rng, pal, feats, width)
                op.update({"tab": t} if t["rows"] else {})
            ops.append(op)
        elif kk == "junk":
            ops.append({"op": "junk", "a": a, "w": rng.choice(["nonsense", "bmin", "features_name", "x"])})
        elif kk == "cmp":
            z = rng.choice(["face", "face", "cond"] if prop == "C27" else ["cond", "rule", "set", "cond", "rule"])
            op = {"op": "cmp", "w": z, "kind": rng.randrange(4), "fit": rng.randrange(16)}
            if z == "set":
                h1 = [rng.choice(ids) for _ in range(rng.randint(0, 4))]
                h2 = list(h1)
                rng.shuffle(h2)
                if rng.random() < 0.5 and h2:
                    h2[0] = rng.choice(ids)
                if rng.random() < 0.2:
                    h2.append(rng.choice(ids))
                op.update(hs=h1, hs2=h2, kind=rng.randrange(2))
            else:
                op.update(a=a, b=b)
            ops.append(op)
    return {"seed": 0, "ops": ops}


def concretize(rng, abstract, prop):
    """A history of MC_Cond: its names, positions and bounds become other ones in the same order"""
    nb = sorted(rng.sample(FLOATS, 4))
    if rng.random() < 0.5:
        k = rng.randrange(len(FLOATS) - 3)
        nb = FLOATS[k:k + 4]
    names = sorted(rng.sample(range(1, len(POOL) + 1), 3))
    pos = sorted(rng.sample(range(NPOS), 3))
    b = lambda l: [nb[x - 1] for x in l]
    ops = []
    feats = dict(zip(names, pos))
    for a in abstract:
        op = dict(a)
        if op["op"] == "new":
            op.update(nms=[names[x - 1] for x in op["nms"]], ixs=[pos[x] for x in op["ixs"]], los=b(op["los"]), his=b(op["his"]),
                      hasi=True, hasn=True, haslo=True, hashi=True, ints=rng.random() < 0.3, np=rng.random() < 0.2, bad=0)
        elif op["op"] == "set":
            w = op["w"]
            op["val"] = ([names[x - 1] for x in op["val"]] if w == "nm" else [pos[x] for x in op["val"]] if w == "ix"
                         else b(op["val"]))
            op.update(text=rng.choice([0, 0, 1, 2]) if w in ("lo", "hi") else rng.choice([0, 1]), ints=rng.random() < 0.3, bad=0)
            if op["text"] == 1 and any(x in (LO_INF, HI_INF) for x in op["val"]) and w in ("lo", "hi"):
                op["text"] = 2
        elif op["op"] == "poke":
            op["val"], op["at"] = b(op["val"]), op["at"] - 1
        elif op["op"] in ("and", "eval"):
            op["tab"] = gen_table(rng, nb, feats, pos[-1] + 1)
        elif op["op"] == "cmp":
            op.update(kind=rng.randrange(4), fit=rng.randrange(16))
        if prop == "C27" and op["op"] in ("new", "set", "sort") and rng.random() < 0.5:
            ops += [op, {"op": "show", "a": op.get("a", op.get("r"))}]
        else:
            ops.append(op)
        if ops[-1]["op"] == "show":
            ops[-1].update(kind=rng.randrange(2), fit=rng.random() < 0.5)
            t = gen_table(rng, nb, feats, pos[-1] + 1)
            if t["rows"] and rng.random() < 0.7:
                ops[-1]["tab"] = t
    return {"seed": 0, "ops": ops}
