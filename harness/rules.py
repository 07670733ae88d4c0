"""Driver for rules and rule sets: programs are executed on the real code and recorded as events of RuleSets.tla."""
import copy
import json
import math
import os
import shutil
import sys
from pathlib import Path

import numpy as np
import pandas as pd

from common import NAN, NULL, OPQ, exc, limit, num

AREA = "rules"
PROPS = ["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C25", "C26", "C28"]

TABLE = [-math.inf, -1e300, -1000.5, -3.0, -2.0, -1.0, -0.5, 0.0, 5e-324, 1e-9, 0.1, 0.3, 0.1 + 0.2, 0.5, 1.0, 1.0 + 2.0 ** -52,
         1.5, 2.0, 3.0, 4.0, 5.0, 12.0, 1e15, 2.0 ** 53, 2.0 ** 53 + 2, 1e300, math.inf]
RANK = {x: k + 1 for k, x in enumerate(TABLE)}
LO_INF, HI_INF = 1, len(TABLE)
POOL = ["A", "B", "C", "D", "E", "F"]
NRANK = {n: k + 1 for k, n in enumerate(POOL)}
LABELS = [[0, 1, 2], [-1, 0, 1], [1, 2, 7], ["a", "b", "c"], ["no", "yes", "zero"], ["x" * 33 + "1", "x" * 33 + "2", "y"],
          ["", " ", "b"], [0, 5, 300]]
LABELS_SAVE = [[0, 1, 2], [-1, 0, 1], ["a", "b", "c"], ["no", "yes", "zero"], ["x" * 33 + "1", "x" * 33 + "2", "y"],
               ['cl"1', "cl,2", "cl;3"], ["NA", "NaN", "null"], ["low risk", "mid-risk", "top"]]
METHODS = ["", "mse", "mae", "mse_norm", "mae_norm", "aae"]


class Mem:
    def __init__(self, available):
        self.available = available


def rank(x):
    try:
        return RANK.get(float(x), 9999)
    except Exception:
        return 9999


def value(r):
    return math.nan if r == 0 else TABLE[r - 1]


def bits(a):
    """An activation as a list of 0/1; [] when there is none"""
    try:
        if a is None:
            return []
        a = np.asarray(a)
        if a.ndim != 1:
            return [9]
        return [1 if x == 1 else 0 if x == 0 else 9 for x in a.tolist()]
    except Exception:
        return [9]


def square(x):
    try:
        if x is None:
            return NULL
        x = float(x)
        if math.isnan(x):
            return NAN
        if x < 0:
            return OPQ
        return num(x * x)
    except Exception:
        return OPQ


class World:
    """The objects of one execution; two of them run side by side for C21"""

    def __init__(self, stacked):
        self.stacked = stacked
        self.r, self.s, self.nxt = {}, {}, 900

    def handle(self, rule):
        for h, x in self.r.items():
            if x is rule:
                return h
        self.nxt += 1
        self.r[self.nxt] = rule
        return self.nxt

    def clone(self):
        """A copy to look at, so that looking does not touch what the program works on"""
        try:
            for s in self.s.values():
                for r in list(s.rules):
                    self.handle(r)
            v, memo, todo = World(self.stacked), {}, []
            v.nxt = self.nxt
            for mine, its in ((self.r, v.r), (self.s, v.s)):
                for h, o in mine.items():
                    if id(o) not in memo:
                        memo[id(o)] = object.__new__(type(o))
                        todo.append(o)
                    its[h] = memo[id(o)]
            for o in todo:
                memo[id(o)].__dict__.update({k: copy.deepcopy(x, memo) for k, x in vars(o).items()})
            return v
        except Exception:
            return self


class Store:
    """A path of a kind of its own, that reads and writes tables"""
    def __init__(self, path):
        self.path = path

    def write(self, df):
        df.to_csv(self.path)

    def read(self, **kw):
        return pd.read_csv(self.path, **kw)


class Run:
    def __init__(self, scratch):
        import psutil
        from ruleskit import Activation, HyperrectangleCondition, RuleSet
        from ruleskit.rule import ClassificationRule, RegressionRule, Rule

        self.A, self.H, self.RS, self.R = Activation, HyperrectangleCondition, RuleSet, Rule
        self.types = {"reg": RegressionRule, "cls": ClassificationRule}
        # kinds of rules of the user's own, that learn more from a test set
        test = [["criterion", "test_set_size"], ["criterion", "zscore", "test_set_size"]]
        self.custom = [self.types] + [{ty: type("My" + c.__name__, (c,), {"attributes_from_test_set": [
            a for a in t if ty == "reg" or a != "zscore"]}) for ty, c in self.types.items()} for t in test]
        self.psutil = psutil
        self.root = Path(scratch)

    @staticmethod
    def blank(k):
        return {"k": k, "out": "ok", "w": "", "a": 0, "b": 0, "res": 0, "x": 0, "y": 0, "hz": 1, "force": False, "keep": False,
                "meth": "", "wt": {"kind": "none", "at": "", "ws": []}, "vals": [], "vals2": [], "cont": "", "idx": True,
                "val": OPQ, "drop": [], "hs": [], "stack": False, "comp": True, "at": [], "crit": "", "rev": False,
                "cnt": [], "exact": True, "names": True, "again": True, "same": True, "cfg": {"stacked": False, "local": False},
                "two": False, "o": {"r": [], "s": [], "out": "ok", "drop": [], "vals": []}, "id": 0, "act": [], "stk": [],
                "ms": [], "r": [], "s": [], "cf": {"stacked": False, "local": False}, "tabs": [], "ys": [], "ths": [], "av": [], "files": True,
                "cust": 0, "chk": False, "map": [], "txt": [], "parts": [], "frame": True,
                "inf": {"lo": LO_INF, "hi": HI_INF}}

    # ------------------------------------------------------------------ observation
    def cf(self):
        return {"stacked": self.RS.STACKED_FIT is True, "local": self.R.LOCAL_ACTIVATION is True}

    def label(self, x):
        if x is None:
            return NULL
        try:
            if isinstance(x, str):
                if x in self.index:
                    return [self.index[x], 1]
                return NAN if x == "nan" else OPQ
            if isinstance(x, (bool, np.bool_)):
                return OPQ
            if math.isnan(x):
                return NAN
            return [self.index[x], 1] if x in self.index else OPQ
        except Exception:
            return OPQ

    def val(self, ty, x):
        return num(x) if ty == "reg" else self.label(x)

    def ob_rule(self, h, r):
        g = lambda n: getattr(r, n, None)
        ty = "reg" if isinstance(r, self.types["reg"]) else "cls" if isinstance(r, self.types["cls"]) else "none"
        try:
            c = r.condition
            nm, ix, lo, hi = c.features_names, c.features_indexes, c.bmins, c.bmaxs
            fs = [{"nm": NRANK.get(nm[k], 99), "ix": int(ix[k]), "lo": rank(lo[k]), "hi": rank(hi[k])} for k in range(len(nm))]
            if not len(nm) == len(ix) == len(lo) == len(hi):
                raise ValueError
            imp = bool(c.impossible)
        except Exception:
            fs, imp = [{"nm": 98, "ix": 98, "lo": 9998, "hi": 9998}], True

        def safe(f):
            try:
                return f()
            except Exception:
                return OPQ
        sign = getattr(r, "sign", 0) if ty == "reg" else None
        return {"h": h, "ty": ty, "fs": fs, "imp": imp, "act": bits(g("activation")), "cov": safe(lambda: num(r.coverage)),
                "pred": safe(lambda: self.val(ty, r.prediction)), "std2": safe(lambda: square(r.std)) if ty == "reg" else NULL,
                "sign": sign if isinstance(sign, str) else "None" if sign is None else "nan" if sign != sign else "?",
                "z2": safe(lambda: square(r.zscore)) if ty == "reg" else NULL, "crit": safe(lambda: num(r.criterion)),
                "tr": safe(lambda: num(r.train_set_size)), "te": safe(lambda: num(r.test_set_size)), "good": g("good") is True,
                "why": g("bad_because") if isinstance(g("bad_because"), str) else ""}

    def ob_set(self, w, h, s):
        rules = list(s.rules)
        try:
            ty = s.rule_type
            ty = "reg" if issubclass(ty, self.types["reg"]) else "cls" if issubclass(ty, self.types["cls"]) else "other"
        except ValueError:
            ty = "none"
        stk = []
        sa = s.stacked_activations
        if sa is not None:
            try:
                for k, c in enumerate(sa.columns):
                    stk.append({"ok": k < len(rules) and c == str(rules[k].condition) and list(sa.index) == list(range(len(sa))),
                                "act": bits(sa.iloc[:, k].values)})
            except Exception:
                stk = [{"ok": False, "act": [9]}]
        return {"h": h, "rules": [w.handle(r) for r in rules], "act": bits(s.activation), "cov": num(s.ruleset_coverage),
                "crit": num(s.criterion), "tr": num(s.train_set_size), "te": num(s.test_set_size),
                "fn": [NRANK.get(n, 99) for n in s.features_names], "fi": [int(i) for i in s.features_indexes],
                "sfl": s.stack_activation is True, "hasstk": sa is not None, "stk": stk, "ty": ty}

    def type_of(self, s):
        return next((ty for ty, c in self.types.items() for r in s.rules if isinstance(r, c)), "none")

    def observe(self, w):
        sets = [self.ob_set(w, h, s) for h, s in sorted(w.s.items())]
        return [self.ob_rule(h, r) for h, r in sorted(w.r.items())], sets

    # ------------------------------------------------------------------ inputs
    def table(self, t):
        rows = [[value(r) for r in row] for row in t["rows"]]
        n = len(rows)
        if t["kind"] == "array":
            a = np.array(rows, dtype=float).reshape(n, t["nc"])
            return np.asfortranarray(a) if t.get("alt") else a
        df = pd.DataFrame(np.array(rows, dtype=float).reshape(n, t["nc"]), columns=[POOL[c - 1] for c in t["cols"]])
        df.index = self.index_of(t.get("index"), n)
        return df

    @staticmethod
    def index_of(kind, n):
        return {"dup": [0] * n, "str": [f"r{k}" for k in range(n)], "rev": list(range(n))[::-1],
                "shift": list(range(3, n + 3)), "date": pd.date_range("2020-01-01", periods=n)}.get(kind, pd.RangeIndex(n))

    def target(self, t):
        if t["ty"] == "cls":
            v = [self.labels[k - 1] for k in t["v"]]
            a = np.array(v)
            if isinstance(self.labels[0], str) and t.get("alt"):
                a = np.array(v, dtype=object)
        else:
            v = [math.nan if x is None else x / t.get("den", 1) for x in t["v"]]
            a = np.array(v, dtype=float)
            if t.get("alt") and np.all(np.isfinite(a)) and np.all(a == np.round(a)):
                a = a.astype(np.int64)
        if t["cont"] == "array":
            return a
        return pd.Series(a, index=self.index_of(t["cont"], len(v)), name=t.get("name"))

    def target_log(self, t):
        if t["ty"] == "cls":
            return [[k, 1] for k in t["v"]]
        out = []
        for x in t["v"]:
            out.append(NAN if x is None else num(x / t.get("den", 1)))
        return out

    def th_file(self, k, t):
        p = self.root / f"th{k}.json"
        if t["file"]:
            d = {}
            for l in t["lims"]:
                e = d.setdefault(l["at"], {})
                if l["arg"]:
                    e["arg"] = l["arg"]
                v = l["v"][0] / l["v"][1] if l["v"][1] != 1 else l["v"][0]
                e[l["lim"]] = l["ref"] if l["ref"] else v
            p.write_text(json.dumps(d))
        return p

    @staticmethod
    def unchanged(a, b):
        if a is None:
            return b is None
        if isinstance(a, (pd.DataFrame, pd.Series)):
            if type(a) is not type(b) or a.shape != b.shape or list(a.index) != list(b.index) or not a.equals(b):
                return False
            if isinstance(a, pd.DataFrame):
                return list(a.columns) == list(b.columns) and list(a.dtypes) == list(b.dtypes)
            return a.dtype == b.dtype and a.name == b.name
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == "f":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.all(a == b))

    # ------------------------------------------------------------------ execution
    def run(self, prog, rec, hist):
        c = prog["setup"]
        if self.root.exists():
            shutil.rmtree(self.root)
        (self.root / "acts").mkdir(parents=True)
        A = self.A
        saved = (self.RS.STACKED_FIT, self.R.LOCAL_ACTIVATION, self.R.THRESHOLDS, A.DTYPE, A.WILL_COMPARE, A.STORE_RAW,
                 A.DEFAULT_TEMPDIR, A.FORCE_STAT, self.R.COMPUTE_SUBATTRIBUTES)
        try:
            A.DTYPE, A.WILL_COMPARE, A.STORE_RAW = (np.ndarray if c["arr"] else str), c["wc"], c["sr"]
            A.DEFAULT_TEMPDIR = self.root / "acts"
            self.R.COMPUTE_SUBATTRIBUTES = c.get("sub", False)
            self.R.LOCAL_ACTIVATION, self.RS.STACKED_FIT = c["local"], c["stacked"]
            self.R.SET_THRESHOLDS(None)
            self.make = self.custom[c.get("cust", 0)]
            self.labels = c["labels"]
            self.index = {l: k + 1 for k, l in enumerate(self.labels)}
            self.setup = c
            self.rows = [[list(row) for row in t["rows"]] for t in c["tabs"]]
            self.vals = [self.target_log(t) for t in c["ys"]]
            self.tabs = [self.table(t) for t in c["tabs"]]
            self.ys = [self.target(t) for t in c["ys"]]
            self.paths = [self.th_file(k, t) for k, t in enumerate(c["ths"])]
            self.worlds = [World(c["stacked"])] + ([World(not c["stacked"])] if c["two"] else [])
            rec.write(dict(self.blank("begin"), tabs=[{f: t[f] for f in ("kind", "cols", "nc", "rows")} for t in c["tabs"]],
                           ys=[self.target_log(t) for t in c["ys"]],
                           ths=[{"file": t["file"], "lims": t["lims"]} for t in c["ths"]], cf=self.cf(), cust=c.get("cust", 0)),
                      hist, -1)
            views = self.worlds
            for step, op in enumerate(prog["ops"]):
                evs = []
                if not all(self.able(w, op) for w in views):
                    continue
                given = self.mutate(op) if op["op"] == "mut" else None
                for w in self.worlds:
                    if len(self.worlds) > 1:
                        self.RS.STACKED_FIT = w.stacked
                    ev = dict(given) if given else self.step(w, op)
                    views = [w.clone() if c.get("far") else w for w in self.worlds]
                    view = views[len(evs)]
                    ev["cf"] = self.cf()
                    if c.get("far"):
                        ev["av"] = self.available(view)
                    ev["r"], ev["s"] = self.observe(view)
                    if not c.get("far"):
                        ev["av"] = self.available(view)
                    evs.append(ev)
                    self.root.mkdir(exist_ok=True)
                ev = evs[0]
                if len(evs) > 1:
                    ev["two"] = True
                    ev["o"] = {f: evs[1][f] for f in ("r", "s", "out", "drop", "vals")}
                    self.RS.STACKED_FIT = self.worlds[0].stacked
                rec.write(ev, hist, step)
                if len(evs) > 1 and (evs[0]["out"] == "ok") != (evs[1]["out"] == "ok"):
                    break  # the worlds may differ from here on
        finally:
            (self.RS.STACKED_FIT, self.R.LOCAL_ACTIVATION, self.R.THRESHOLDS, A.DTYPE, A.WILL_COMPARE, A.STORE_RAW,
             A.DEFAULT_TEMPDIR, A.FORCE_STAT, self.R.COMPUTE_SUBATTRIBUTES) = saved

    @staticmethod
    def available(w):
        """What the objects say about the presence of their activations; k: the stacked ones"""
        out = [{"w": n, "h": h, "v": o.activation_available is True} for n, d in (("r", w.r), ("s", w.s))
               for h, o in sorted(d.items())]
        for h, o in sorted(w.s.items()):
            try:
                out.append({"w": "k", "h": h, "v": o.stacked_activations_available is True})
            except Exception:
                out.append({"w": "x", "h": h, "v": True})
        return out

    def mutate(self, op):
        """The caller changes a table or targets in place"""
        ev = self.blank("mut")
        ev["x"], ev["y"] = op.get("x", 0), op.get("y", 0)
        if ev["x"]:
            rows, t = self.rows[op["x"] - 1], self.setup["tabs"][op["x"] - 1]
            rows[:] = [rows[i] for i in op["perm"]]
            for i, c, r in op["cells"]:
                rows[i][c] = r
            new = np.array([[value(r) for r in row] for row in rows], dtype=float).reshape(len(rows), t["nc"])
            x = self.tabs[op["x"] - 1]
            if isinstance(x, pd.DataFrame):
                x.iloc[:, :] = new
            else:
                x[...] = new
            ev["tabs"] = [dict({f: t[f] for f in ("kind", "cols", "nc")}, rows=rows)]
        else:
            v = self.vals[op["y"] - 1]
            v[:] = [v[i] for i in op["perm"]]
            y = self.ys[op["y"] - 1]
            if isinstance(y, pd.Series):
                y.iloc[:] = y.values[op["perm"]]
            else:
                y[:] = y[op["perm"]]
            ev["ys"] = [v]
        return json.loads(json.dumps(ev))

    def able(self, w, op):
        """Is the operation one that the specification speaks about, in the present state"""
        k = op["op"]
        if op.get("w") == "r" and k in ("fit", "eval", "calc", "pred", "del", "void", "bad", "one"):
            objs, sets = [op["a"]], []
        elif k in ("and", "in", "corr"):
            objs, sets = [op["a"], op["b"]], []
        elif k in ("rs", "rules"):
            objs, sets = list(op["hs"]), [op["a"]] if k == "rules" else []
        elif k in ("iadd", "add"):
            objs, sets = ([op["b"]], [op["a"]]) if op["w"] == "r" else ([], [op["a"], op["b"]])
        elif k in ("app", "has"):
            objs, sets = [op["b"]], [op["a"]]
        elif k == "own":
            objs, sets = [op["a"]], []
        elif k in ("rule", "th", "cfg", "bulk", "mut", "bare"):
            objs, sets = [], []
        else:
            objs, sets = [], [op["a"]]
        if any(h not in w.r for h in objs) or any(h not in w.s for h in sets):
            return False
        mem = list(w.s[op["a"]].rules) if sets else [w.r[op["a"]]] if op.get("w") == "r" else []
        if k in ("fit", "eval"):
            t = self.setup["ys"][op["y"] - 1]
            n = len(t["v"])
            for r in mem:
                if isinstance(r, self.types[t["ty"]]) is False:
                    return False
                if op["x"] == 0 and r.activation is not None and len(r.activation) != n:
                    return False
                if k == "eval" and r.prediction is None:
                    return False
            if op["x"] and len(self.setup["tabs"][op["x"] - 1]["rows"]) != n:
                return False
            if op.get("w") == "s":
                s = w.s[op["a"]]
                if self.RS.STACKED_FIT and len({str(r.condition) for r in mem}) < len(mem):
                    return False
                if op["x"] == 0 and s.stacked_activations is not None and len(s.stacked_activations.index) != n:
                    return False
                if self.worlds[1:] and op["x"] == 0 and k == "fit":
                    f = [r.prediction is None for r in mem]
                    if any(f) and not all(f):
                        return False
        if k == "sone":
            t = self.setup["ys"][op["y"] - 1]
            if not mem or len({str(r.condition) for r in mem}) < len(mem) or len(self.setup["tabs"][op["x"] - 1]["rows"]) != len(t["v"]) or \
                    not all(isinstance(r, self.types[t["ty"]]) and r.prediction is not None for r in mem):
                return False
        if k in ("pred", "eval", "sone") and op.get("w") == "s" and op["wt"]["kind"] == "attr":
            for r in mem:
                v = getattr(r, op["wt"]["at"], None)
                if op["wt"]["at"] == "criterion" and k == "eval":
                    continue  # set by the evaluation itself
                if v is None or (isinstance(v, float) and (math.isinf(v) or (v < 0 and op["wt"]["at"] != "prediction"))):
                    return False
        if self.worlds[1:] and op.get("w") == "r" and k in ("fit", "eval", "calc"):
            # a set whose rules were changed behind its back is not compared between the modes
            # (unless it has no activation yet)
            if any(r is w.r[op["a"]] for s in w.s.values() for r in s.rules
                   if k == "eval" or s._activation is not None or s.stacked_activations is not None):
                return False
        if self.worlds[1:] and k == "eval" and op["w"] == "s" and op["x"] and not op["keep"] and w.s[op["a"]]._activation is None:
            return False  # unstacked, the set gets its missing activation on this occasion; stacked it does not
        if self.worlds[1:] and k == "pred" and op.get("w") == "s" and op["x"] == 0:
            if len({len(r.activation) for r in mem if r.activation is not None}) > 1:
                return False
        if self.worlds[1:] and k in ("iadd", "app", "add", "rules", "rs"):
            # sets holding two equal rules are not compared between the modes
            hs = [str(w.r[h].condition) for h in op.get("hs", [])]
            if k in ("iadd", "app", "add"):
                hs = [str(r.condition) for r in mem] + [str(r.condition) for r in (
                    list(w.s[op["b"]].rules) if op.get("w") == "s" else [w.r[op["b"]]])]
            if len(set(hs)) < len(hs):
                return False
            # nor are the values of bad rules, which need not be computed
            add = [w.r[h] for h in op.get("hs", [])]
            if k in ("iadd", "app", "add"):
                add = list(w.s[op["b"]].rules) if op.get("w") == "s" else [w.r[op["b"]]]
            if not all(r.good for r in add) or (k == "app" and not op["comp"]):
                return False
            # nor are sets sharing rules, each of which changes rules behind the back of the other
            if any(r is q for h, s in w.s.items() if k == "rs" or h != op["a"] for q in s.rules for r in add):
                return False
        if k == "sort" and op["crit"]:
            for r in mem:
                v = getattr(r, op["crit"], None)
                if v is None or v != v:
                    return False
        if k == "save" and "" in self.labels and any(isinstance(r, self.types["cls"]) for r in mem):
            return False  # an empty label can not be told from a missing one in the file
        if k == "bad":
            if op["w"] == "s" and len({str(r.condition) for r in mem}) < len(mem):
                return False
            t = self.setup["ys"][op["y"] - 1]
            return all(isinstance(r, self.types[t["ty"]]) and (op["meth"] in ("fit", "calc") or r.prediction is not None)
                       and (op["x"] or r.activation is not None) for r in mem)
        if k == "one":
            t = self.setup["ys"][op["y"] - 1]
            r = mem[0]
            if not isinstance(r, self.types[t["ty"]]) or r.prediction is None:
                return False
            n = len(self.setup["tabs"][op["x"] - 1]["rows"]) if op["x"] else -1 if r.activation is None else len(r.activation)
            return n in (-1, len(t["v"]))
        if k == "ask":
            t = self.setup["ys"][op["y"] - 1]
            if not mem or len({str(r.condition) for r in mem}) < len(mem) or not all(isinstance(r, self.types[t["ty"]]) for r in mem):
                return False
            if op["given"] and any(r.prediction is None for r in mem):
                return False
            s = w.s[op["a"]]
            n = len(self.setup["tabs"][op["x"] - 1]["rows"]) if op["x"] else -1 if s.stacked_activations is None else len(s.stacked_activations)
            return n in (-1, len(t["v"]))
        if k == "void":
            return bool(mem) and all(r.good for r in mem)
        if k == "slice" and not mem and op.get("nonempty"):
            return False
        return True

    def weights(self, w, op, rules):
        wt = op["wt"]
        if wt["kind"] == "none":
            return None, wt
        if wt["kind"] == "attr":
            return wt["at"], {"kind": "attr", "at": wt["at"], "ws": []}
        d, log = {}, []
        for h, x in wt["ws"]:
            if h in w.r and w.r[h] in rules:
                key = str(w.r[h].condition)
                if key not in d:
                    d[key] = math.nan if x is None else x / 16
                    log += [{"h": w.handle(r), "w": NAN if x is None else num(x / 16)} for r in rules if str(r.condition) == key]
        if wt.get("extra"):
            d["unknown in [0, 1]"] = 3.0
        return pd.Series(d, dtype=float), {"kind": "ser", "at": "", "ws": log}

    def preds(self, ty, p):
        if p is None:
            return [[9, 0]]
        if isinstance(p, pd.DataFrame):
            return [[8, 0]]
        return [self.val(ty, x) for x in (p.values if isinstance(p, pd.Series) else p).tolist()]

    def step(self, w, op):
        k = op["op"]
        ev = self.blank(k)
        for f in ("a", "b", "w", "x", "y", "hz", "force", "keep", "meth", "stack", "comp", "crit", "rev", "id"):
            if f in op:
                ev[f] = op[f]
        ev["hs"] = list(op.get("hs", []))
        x = self.tabs[op["x"] - 1] if op.get("x") else None
        y = self.ys[op["y"] - 1] if op.get("y") else None
        x0, y0 = copy.deepcopy(x), copy.deepcopy(y)
        ws = ws0 = None
        a = (w.r if ev["w"] == "r" and k in ("fit", "eval", "calc", "pred", "del", "void", "bad", "one") or k in ("and", "in", "corr", "own") else w.s).get(
            op.get("a"))
        b = (w.s if k in ("iadd", "add") and ev["w"] == "s" else w.r).get(op.get("b"))
        saved = self.psutil.virtual_memory, np.vstack
        self.faults(op.get("mem"))
        try:
            with limit():
                if k == "rule":
                    ev["res"] = op["r"]
                    cond = self.H(features_names=[POOL[f[0] - 1] for f in op["fs"]], features_indexes=[f[1] for f in op["fs"]],
                                  bmins=[value(f[2]) for f in op["fs"]], bmaxs=[value(f[3]) for f in op["fs"]],
                                  sort=op.get("sort", True))
                    w.r[op["r"]] = self.make[op["ty"]](cond)
                elif k == "fit":
                    kw = {"horizon": op["hz"]} if op["hz"] != 1 else {}
                    if op["w"] == "r":
                        a.fit(y, x, force_if_not_good=True, **kw) if op["force"] else a.fit(y, x, **kw)
                    else:
                        if op.get("force"):
                            kw["force_if_not_good"] = True
                        d = a.fit(y, x, **kw) if not op.get("kwargs") else a.fit(y=y, xs=x, **kw)
                        ev["drop"] = [w.handle(r) for r in d]
                elif k == "eval":
                    kw = {"criterion_method": op["meth"]} if op["meth"] else {}
                    if op["w"] == "r":
                        a.eval(y, x, recompute_activation=op["keep"], force_if_not_good=op["force"], **kw)
                    else:
                        ws, ev["wt"] = self.weights(w, op, list(a.rules))
                        ws0 = copy.deepcopy(ws)
                        if op.get("force"):
                            kw["force_if_not_good"] = True
                        d = a.eval(y, x, keep_new_activations=op["keep"], weights=ws, **kw)
                        ev["drop"] = [w.handle(r) for r in d]
                elif k == "calc":
                    a.calc_activation(x)
                elif k == "one":
                    at = op["crit"]
                    kw = {"activation": a.evaluate_activation(x)} if x is not None else {}
                    if at == "vector":
                        p = a.calc_prediction_vector(kw["activation"].raw) if kw else a.calc_prediction_vector()
                        ev["vals"] = [[6, 0]] if p is None else self.preds("reg" if isinstance(a, self.types["reg"]) else "cls", p)
                    elif at == "sign":
                        a.calc_sign()
                    elif at in ("train_set_size", "test_set_size"):
                        getattr(a, "calc_" + at)(y)
                    elif at == "criterion":
                        a.calc_criterion(y, criterion_method=op["meth"], **kw) if op["meth"] else a.calc_criterion(y, **kw)
                    elif at == "zscore":
                        a.calc_zscore(y, horizon=op["hz"], **kw)
                    else:
                        getattr(a, "calc_" + at)(y, **kw)
                elif k == "sone":
                    if op["crit"] == "criterion":
                        ws, ev["wt"] = self.weights(w, op, list(a.rules))
                        ws0 = copy.deepcopy(ws)
                        kw = {"criterion_method": op["meth"]} if op["meth"] else {}
                        if op["comp"]:
                            a.calc_criterion(y, xs=x, predictions=a.predict(x, ws), **kw)
                        else:
                            a.calc_criterion(y, xs=x, weights=ws, **kw)
                    else:
                        getattr(a, "calc_" + op["crit"])(y)
                elif k == "pred" and op["w"] == "r":
                    p = a.predict(x) if x is not None else a.predict()
                    ty = "reg" if isinstance(a, self.types["reg"]) else "cls"
                    ev["cont"] = "series" if isinstance(p, pd.Series) else "array" if isinstance(p, np.ndarray) else "other"
                    if isinstance(p, pd.Series) and isinstance(x, pd.DataFrame):
                        ev["idx"] = list(p.index) == list(x.index)
                    ev["vals"] = self.preds(ty, p) if ev["cont"] != "other" else [[9, 0]]
                elif k == "pred":
                    ws, ev["wt"] = self.weights(w, op, list(a.rules))
                    ws0 = copy.deepcopy(ws)
                    p = a.predict(x, ws)
                    ev["vals"] = self.preds(self.type_of(a), p)
                    ev["idx"] = not isinstance(p, pd.Series) or list(p.index) == list(range(len(p)))
                elif k == "look":
                    if op["w"] == "evaluate":
                        ev["act"] = bits(a.evaluate(x).raw)
                    elif op["w"] == "self":
                        ev["act"] = bits(a.evaluate_self_activation(x).raw)
                    else:
                        sa = a.evaluate_stacked_activations(x)
                        ev["stk"] = [{"ok": j < len(a) and c == str(a.rules[j].condition), "act": bits(sa.iloc[:, j].values)}
                                     for j, c in enumerate(sa.columns)]
                elif k == "and":
                    r = a & b
                    w.r[op["r"]] = r
                    ev["res"] = op["r"]
                elif k == "in":
                    ev["val"] = num(int((b in a) is True))
                elif k == "corr":
                    ev["val"] = num(a.get_correlation(b))
                elif k == "rs":
                    lst = [w.r[h] for h in op["hs"]]
                    if op.get("none"):
                        lst.insert(len(lst) // 2, None)
                    ev["chk"], ev["map"] = op.get("chk", False), op.get("map", [])
                    self.RS.CHECK_DUPLICATED, self.RS.all_features_indexes = ev["chk"], {POOL[n - 1]: i for n, i in ev["map"]}
                    if ev["chk"]:
                        for kw in ({}, {"name_or_index": "index"}, {"name_or_index": "name"}):
                            try:
                                self.RS.check_duplicated_rules([r for r in lst if r is not None], **kw)
                                ev["txt"].append(0)
                            except ValueError:
                                ev["txt"].append(1)
                    try:
                        w.s[op["r"]] = self.RS(lst, compute_activation=op["comp"], stack_activation=op["stack"])
                    finally:
                        self.RS.CHECK_DUPLICATED, self.RS.all_features_indexes = False, {}
                    ev["res"] = op["r"]
                elif k == "void":
                    self.void(op, ev, a)
                elif k == "bad":
                    self.bad(op, ev, a)
                elif k == "ask":
                    self.ask(op, ev, a, x, y)
                elif k == "text":
                    self.text(op, ev, a)
                elif k == "bare":
                    self.bare(op, ev)
                elif k == "iadd":
                    a += b
                    if a is not w.s[op["a"]]:
                        ev["out"] = "NotInPlace"
                elif k == "app":
                    a.append(b) if op["comp"] else a.append(b, update_activation=False)
                elif k == "junk":
                    j = [3, None, "rule", object()][op["b"] % 4]
                    if op["w"] == "iadd":
                        a += j
                    elif op["w"] == "app":
                        a.append(j)
                    elif op["w"] == "rules":
                        a.rules = list(a.rules) + [3]
                    else:
                        self.RS(list(a.rules) + [3])
                elif k == "add":
                    w.s[op["r"]] = a + b
                    ev["res"] = op["r"]
                elif k == "slice":
                    sl = slice(*op["sl"])
                    ev["at"] = [i + 1 for i in range(*sl.indices(len(a.rules)))]
                    w.s[op["r"]] = a[sl]
                    ev["res"] = op["r"]
                elif k == "get":
                    n = len(a.rules)
                    ev["val"] = num(len(a))
                    if op["i"] is None:
                        ev["at"] = list(range(1, n + 1))
                        ev["hs"] = [w.handle(r) for r in a]
                    elif n:
                        i = op["i"] % (2 * n) - n
                        ev["at"] = [i % n + 1]
                        ev["hs"] = [w.handle(a[i])]
                elif k == "rules":
                    a.rules = [w.r[h] for h in op["hs"]]
                elif k == "sort":
                    if op["crit"] or op["rev"]:
                        a.sort(op["crit"] or None, op["rev"])
                    else:
                        a.sort()
                elif k == "has":
                    ev["val"] = num(int((b in a) is True))
                elif k == "count":
                    ev["cnt"] = [[NRANK.get(n, 99), int(c)] for n, c in a.get_features_count()]
                elif k == "save":
                    self.save(w, op, ev, a, x)
                elif k == "th":
                    kw = {"show": True} if op.get("show") else {}
                    self.R.SET_THRESHOLDS(None if not op["id"] else self.th_arg(op), **kw)
                elif k == "own":
                    a.set_thresholds(None if not op["id"] else self.th_arg(op))
                elif k == "del":
                    acts = [o._activation for o in ([a] if op["w"] in "rs" else list(a.rules) if op["w"] == "rules" else [])]
                    own = {Path(v.data).name for v in acts if v is not None and v.data_format == "file"}
                    before = {p.name: p.read_bytes() for p in (self.root / "acts").iterdir()}
                    getattr(a, {"r": "del_activation", "s": "del_activation", "rules": "del_activations",
                                "stk": "del_stacked_activations"}[op["w"]])()
                    after = {p.name: p.read_bytes() for p in (self.root / "acts").iterdir()}
                    ev["files"] = after == {n: c for n, c in before.items() if n not in own}
                elif k == "cfg":
                    ev["cfg"] = op["cfg"]
                    self.RS.STACKED_FIT, self.R.LOCAL_ACTIVATION = op["cfg"]["stacked"], op["cfg"]["local"]
                elif k == "bulk":
                    self.bulk(w, op, ev, x, y)
        except Exception as e:
            ev["out"] = exc(e)
            if os.environ.get("VP_TRACE"):
                import traceback
                ev["tb"] = traceback.format_exc()
        finally:
            self.psutil.virtual_memory, np.vstack = saved
        ev["same"] = self.unchanged(x, x0) and self.unchanged(y, y0) and (ws is None or isinstance(ws, str)
                                                                          or self.unchanged(ws, ws0))
        # what was changed by mistake is put back, so that the log describes the inputs of later steps
        if not ev["same"]:
            if x is not None:
                self.tabs[op["x"] - 1] = x0
            if y is not None:
                self.ys[op["y"] - 1] = y0
        return ev

    def void(self, op, ev, a):
        """Data without rows"""
        t = self.setup["tabs"][0]
        x = np.zeros((0, t["nc"])) if t["kind"] == "array" else pd.DataFrame(columns=[POOL[c - 1] for c in t["cols"]], dtype=float)
        y = np.array([]) if op["cont"] == "array" else pd.Series([], dtype=float)
        if op["meth"] == "calc":
            a.calc_activation(x)
        else:
            d = getattr(a, op["meth"])(y, x)
            if op["w"] == "s" and d:
                ev["out"] = "Dropped"

    def bad(self, op, ev, a):
        """Data that do not fit: targets of another length, or a table that lacks columns"""
        ev["crit"] = op["why"]
        t = dict(self.setup["tabs"][op["x"] - 1]) if op["x"] else None
        n = len(t["rows"]) if t else len(a.activation)
        x = self.tabs[op["x"] - 1] if t else None
        target = self.setup["ys"][op["y"] - 1]
        m = max(n - 1, 1) if op["why"] == "len" and op["d"] % 2 and n > 1 else n + (op["why"] == "len")
        y = self.target(dict(target, v=[target["v"][k % len(target["v"])] for k in range(m)]))
        if op["why"] == "cols":
            c = op["d"] % t["nc"]
            if t["kind"] == "array":
                x, t["nc"] = x[:, :c], c
            else:
                x = x.drop(columns=POOL[t["cols"][c] - 1])
                t["cols"] = t["cols"][:c] + t["cols"][c + 1:]
        ev["tabs"] = [{"kind": t["kind"] if t else "array", "cols": t["cols"] if t else [], "nc": t["nc"] if t else 99, "rows": []}]
        x0, y0 = copy.deepcopy(x), copy.deepcopy(y)
        try:
            if op["meth"] == "calc":
                a.calc_activation(x)
            elif op["meth"] == "pred":
                a.predict(x)
            elif op["meth"] == "fit":
                a.fit(y, x)
            elif op["meth"] == "eval":
                a.eval(y, x)
            elif op["w"] == "r":
                a.eval(y, x, recompute_activation=True)
            else:
                a.eval(y, x, keep_new_activations=True)
        finally:
            ev["frame"] = self.unchanged(x, x0) and self.unchanged(y, y0)

    def ask(self, op, ev, a, x, y):
        """What a rule set computes for all its rules at once, from its stacked activations or those of a table"""
        rules = list(a.rules)
        ty = self.type_of(a)
        if isinstance(y, pd.Series) and not op["raw"]:
            y = pd.Series(y.values)
        else:
            y = np.array(y)
        stk = None if x is None else a.evaluate_stacked_activations(x)
        keys = [str(r.condition) for r in rules]
        given = pd.Series({k: r.prediction for k, r in zip(keys, rules)}) if op["given"] else None
        kw = {} if stk is None else {"stacked_activations": stk}
        ev["comp"] = given is not None
        out = {"pred": a.calc_predictions(y, **kw)}
        if ty == "reg":
            out["std2"] = a.calc_stds(y, **kw)
            out["sign"] = a.calc_signs(out["pred"]) if given is None else a.calc_signs()
            zk = {"nones": stk.sum()} if stk is not None else {}
            if op["hz"] != 1:
                zk["horizon"] = op["hz"]
            p = given if given is not None else out["pred"] if stk is not None or op["raw"] else None
            out["z2"] = a.calc_zscores(y, p, **zk)
        mk = {"criterion_method": op["meth"]} if op["meth"] else {}
        p = given if given is not None else out["pred"] if stk is not None or op["raw"] else None
        out["crit"] = a.calc_criterions(y, p, **kw, **mk)
        out["tr"], out["te"] = a.calc_train_set_sizes(y), a.calc_test_set_sizes(y)
        ev["names"] = all(isinstance(v, pd.Series) and list(v.index) == keys for v in out.values())
        if ev["names"]:
            enc = {"pred": lambda v: self.val(ty, v), "std2": square, "z2": square,
                   "sign": lambda v: v if isinstance(v, str) else "None" if v is None else "nan"}
            none = {"sign": "None"}
            ev["ms"] = [{f: enc.get(f, num)(out[f].iloc[j]) if f in out else none.get(f, NULL)
                         for f in ("pred", "std2", "sign", "z2", "crit", "tr", "te")} for j in range(len(rules))]

    def text(self, op, ev, a):
        """The text of a rule set, as numbers of different pieces: texts of rules, and 0 for an ellipsis"""
        saved = self.RS.NLINES
        self.RS.NLINES = op["n"]
        try:
            t = str(a)
        finally:
            self.RS.NLINES = saved
        pieces = [str(r) for r in a.rules]
        ids = {p: k for k, p in enumerate(dict.fromkeys(["..."] + pieces))}
        ev["x"], ev["parts"] = op["n"], [ids[p] for p in pieces]
        known = sorted(ids, key=len, reverse=True)
        while t:
            p = next((p for p in known if t == p or t.startswith(p + "\n")), None)
            if p is None:
                ev["txt"].append(99)
                break
            ev["txt"].append(ids[p])
            t = t[len(p) + 1:]

    def bare(self, op, ev):
        """A rule set of rules whose conditions know positions only"""
        from ruleskit.condition import Condition

        class Positive(Condition):
            def evaluate(self, xs):
                return (np.asarray(xs)[:, self._features_indexes] > 0).all(axis=1).astype("int8")

            def __str__(self):
                return f"positive: {self._features_indexes}"

            def __eq__(self, other):
                return isinstance(other, Positive) and sorted(self._features_indexes) == sorted(other._features_indexes)

            __hash__ = Condition.__hash__

        self.R.COMPUTE_SUBATTRIBUTES = False  # these would include the names
        rules = [self.types[op["ty"]](Positive(list(ix))) for ix in op["ixs"]]
        n, ys = 8, [k % 3 for k in range(8)]
        xs = np.array([[1 if (7 * k + 3 * j) % 5 > 1 else -1 for j in range(4)] for k in range(n)], dtype=float)
        if op["fit"]:
            [r.fit(np.array(ys), xs) for r in rules]
        if op["w"] == "new":
            s = self.RS(rules, stack_activation=op["stack"])
        else:
            s = self.RS(stack_activation=op["stack"])
            for r in rules:
                if op["w"] == "app":
                    s.append(r)
                else:
                    s += r
        if not op["fit"]:
            s.fit(np.array(ys), xs)
        ev["parts"], ev["txt"] = [list(ix) for ix in op["ixs"]], [int(i) for i in s.features_indexes]
        ev["frame"] = len(s) == len(rules) and all(r is q for r, q in zip(s, rules)) and list(s.features_names) == []
        s.sort()
        ev["frame"] = ev["frame"] and all(r is q for r, q in zip(s, rules))
        ev["cnt"] = [[int(i), int(c)] for i, c in s.get_features_count()]
        ev["ms"] = [bits(r.activation) for r in rules]
        ev["act"] = bits(s.activation)

    def th_arg(self, op):
        p = self.paths[op["id"] - 1]
        return str(p) if op.get("text") else p

    def faults(self, mem):
        if mem == "fault":
            state = {"n": 0}
            real = np.vstack

            def vstack(arrs, *a, **kw):
                if "ruleskit" in sys._getframe(1).f_globals.get("__name__", ""):
                    state["n"] += 1
                    if state["n"] == 1:
                        raise MemoryError("injected")
                return real(arrs, *a, **kw)

            np.vstack = vstack
        elif mem in ("low", "none"):
            state = {"n": 0}
            d = 400 if mem == "low" else 900

            def vm():
                state["n"] += 1
                return Mem(1000 if state["n"] % 2 else 1000 - d)

            self.psutil.virtual_memory = vm

    def save(self, w, op, ev, a, x):
        p1, p2 = self.root / "one.csv", self.root / "two.csv"
        for p in (p1, p2):
            if p.exists():
                p.unlink()
        try:
            before = a.predict(x)
            before = self.preds(self.type_of(a), before)
        except Exception as e:
            before = [[7, 0]]
        unnamed = all(r._name is None for r in a.rules)
        how, kw = op.get("how", "path"), {}
        given = p1
        if how == "str":
            given = str(p1)
        elif how == "object":
            given, kw = Store(p1), {"dtype": str, "keep_default_na": False, "na_values": ["", "nan"]}
        a.save(given)
        old = []
        if op.get("over") and a.rules:  # loading replaces what the set held
            old = [type(a.rules[-1])(a.rules[-1].condition)]
            old[0].calc_activation(x)
        c = self.RS(old, stack_activation=op["stack"])
        if old:
            c.criterion, c.train_set_size, c.test_set_size = 0.5, 3, 4
        c.load(given, **kw)
        w.s[op["r"]] = c
        ev["res"] = op["r"]
        ev["vals"] = before
        try:
            ev["vals2"] = self.preds(self.type_of(c), c.predict(x))
        except Exception as e:
            ev["vals2"] = [[7, 0]]

        def eq(u, v):
            if isinstance(u, float) and math.isnan(u):
                return (isinstance(v, float) and math.isnan(v))
            return u == v or (u is None and isinstance(v, float) and math.isnan(v))
        ra, rc = list(a.rules), list(c.rules)
        attrs = ["prediction", "coverage", "criterion"]
        ev["exact"] = bool(len(ra) == len(rc) and all(
            sorted(zip(u.condition.features_names, u.condition.bmins, u.condition.bmaxs))
            == sorted(zip(v.condition.features_names, v.condition.bmins, v.condition.bmaxs))
            and all(eq(getattr(u, f), getattr(v, f)) for f in attrs + (["std", "zscore"] if isinstance(u, self.types["reg"])
                                                                       else []))
            for u, v in zip(ra, rc)) and eq(a.ruleset_coverage, c.ruleset_coverage) and eq(a.criterion, c.criterion))
        d1 = pd.read_csv(p1, dtype=str)
        ev["names"] = [r._name for r in rc] == list(d1.iloc[:len(rc), 0]) and (
            len(set(d1.iloc[:, 0])) == len(d1) or not unnamed or len({id(r) for r in ra}) < len(ra))
        c.save(p2)
        if any(list(u.condition.features_names) != list(v.condition.features_names) for u, v in zip(ra, rc)):
            c = self.RS()  # loading sorts the features of conditions: compare from there on
            c.load(p2)
            c.save(p1)
        ev["again"] = p1.read_bytes() == p2.read_bytes()
        # the table without the attributes of the rule set, and made by a function of the caller
        df, n = a.to_df(), len(ra)
        ser = lambda index: [a.rule_to_series((i, r), index) for i, r in enumerate(a.rules)]
        ev["frame"] = all(df.iloc[:n].equals(d) for d in (a.to_df(ruleset_attributes=False), a.to_df(ser, False))) and (
            a.to_df(ser).astype(str).equals(df.astype(str)))
        if n:
            a.to_df(ruleset_attributes=False).to_csv(p2)
            c = self.RS()
            c.load(p2)
            ev["frame"] = ev["frame"] and [r.condition for r in c.rules] == [r.condition for r in ra] and all(
                eq(u.prediction, v.prediction) for u, v in zip(ra, c.rules)) and (
                (c.ruleset_coverage, c.criterion, c.train_set_size, c.test_set_size) == (None,) * 4)

    def bulk(self, w, op, ev, x, y):
        """Many rules of few kinds: each group has n rules of different conditions that activate alike"""
        rules, ms, d = [], [], {}
        ty = op["ty"]
        for g in op["groups"]:
            first = None
            for j in range(g["n"]):
                eps = (j + 1) / 1024 / 1024
                c = self.H(features_names=["A"], features_indexes=[0], bmins=[g["lo"] - eps], bmaxs=[g["hi"] + eps])
                r = self.types[ty](c)
                first = first or r
                rules.append(r)
                d[str(c)] = g["w"] / 16
            ms.append({"n": g["n"], "w": num(g["w"] / 16), "lo": g["lo"], "hi": g["hi"], "rule": first})
        order = np.random.RandomState(op["seed"]).permutation(len(rules))
        s = self.RS([rules[i] for i in order], compute_activation=False, stack_activation=op["stack"])
        n = op["rows"]
        xs = np.arange(1, n + 1, dtype=float).reshape(n, 1)
        ys = self.target({"ty": ty, "v": op["v"], "cont": "array"})
        s.fit(ys, xs)
        self_ty = ty
        ev["act"] = bits(s.activation)
        ev["ms"] = [{"act": bits(m["rule"].activation), "pred": self.val(self_ty, m["rule"].prediction), "n": m["n"],
                     "w": m["w"] if op["weighted"] else [1, 1], "lo": m["lo"], "hi": m["hi"]} for m in ms]
        ev["w"], ev["comp"], ev["stack"] = ty, op["weighted"], s.stacked_activations is not None
        ev["vals2"] = self.target_log({"ty": ty, "v": op["v"]})
        p = s.predict(xs if op["fresh"] else None, pd.Series(d) if op["weighted"] else None)
        ev["vals"] = self.preds(ty, p)
        ev["val"] = num(len(s))


# ---------------------------------------------------------------------- generation
# relative frequencies of operations; fr, er, pr: on one rule; fs, es, ps: on a rule set
W = {
    "C10": dict(one=2, fr=8, fs=5, er=1, es=1, calc=0.5, pr=0.5, ps=0.3, cfg=0.7, th=0.2, and_=0.3, rule=1),
    "C11": dict(one=2, fr=8, fs=5, er=1, es=1, calc=0.5, pr=0.5, ps=0.3, cfg=0.7, th=0.2, rule=1),
    "C12": dict(one=2, fr=2, fs=3, er=8, es=6, calc=0.3, ps=0.3, cfg=0.7, th=0.2),
    "C13": dict(one=1.5, fr=2, fs=2, er=4, es=5, calc=0.5, pr=3, ps=4, look=1, and_=1.5, in_=1, corr=1, cfg=0.7, th=0.3, sort=0.5, has=0.5,
                add=0.5, save=0.3, count=0.3),
    "C14": dict(one=2, fr=3, fs=1.5, er=0.6, es=0.4, calc=1, pr=10, cfg=0.5, and_=0.6, th=0.2),
    "C15": dict(one=2, fr=6, fs=4, er=5, es=3, calc=2, cfg=0.5, th=3, own=2, and_=0.6),
    "C16": dict(fs=4, es=4, fr=1, calc=2, rs=2, iadd=3, app=2, add=2, slice=1.5, rules=1.5, sort=2, look=1, th=0.8, cfg=0.7,
                save=0.2),
    "C17": dict(fs=1, fr=1, rs=2, iadd=4, app=3, junk=1.5, add=3, slice=2.5, get=2, rules=2, sort=4, has=2.5, count=2, cfg=0.3,
                text=1.2, bare=0.5),
    "C18": dict(fs=7, es=6, fr=0.5, th=3, own=0.7, cfg=0.7, iadd=1, rs=1, calc=0.5),
    "C19": dict(fs=3, ps=10, es=1, fr=1, cfg=1, sort=0.7, iadd=0.5, slice=0.5, calc=0.5),
    "C20": dict(fs=3, ps=10, es=1, fr=1, cfg=1, sort=0.7, iadd=0.5, slice=0.5, calc=0.5),
    "C21": dict(fs=6, es=6, ps=5, calc=0.7, th=1.2, own=0.3, iadd=0.5, sort=0.7, fr=0.7, er=0.5),
    "C22": dict(fs=3, es=3, save=8, ps=0.3, fr=0.7, sort=0.5, iadd=0.5, th=0.2, slice=0.4),
    "C24": dict(fs=4, es=9, ps=0.7, th=1.2, cfg=0.8, calc=0.3, iadd=0.5, sort=0.4),
    "C26": dict(fr=2, fs=4, er=1.5, es=3, calc=1, pr=2, ps=3, del_=8, iadd=2, app=0.7, add=0.7, slice=0.5, sort=1, rules=0.5, look=0.5,
                save=0.4, cfg=0.7, th=0.3, and_=0.5, in_=0.3, corr=0.3),
    "C28": dict(fs=4, es=1, fr=0.5, calc=1, ask=9, sort=1, iadd=1, rules=0.7, rs=0.5, slice=0.5, cfg=0.7, th=0.3, ps=0.3, app=0.3),
    "C25": dict(fr=3, and_=8, in_=5, corr=5, calc=2, pr=0.5, th=0.5, rule=1, fs=0.4),
}


def gen_lims(rng, ty):
    ats = ["coverage", "criterion", "train_set_size"] + (["prediction", "std", "zscore"] if ty == "reg" else [])
    order = ["coverage", "train_set_size", "prediction", "std", "zscore", "criterion"]
    lims = []
    for at in rng.sample(ats, rng.randint(0, 3)):
        args = [""] * 6 + ["abs"]
        if at in ("coverage", "train_set_size", "criterion"):
            args.append("sqrt")
        if at in ("coverage", "train_set_size"):
            args.append("int")
        if at == "train_set_size":
            args.append("log")
        if at == "prediction":
            args.append("exp")
        arg = rng.choice(args)
        for lim in rng.sample(["min", "max", "equal", "different"], rng.choice([1, 1, 1, 2])):
            if lim == "equal" and rng.random() < 0.5:
                continue
            ref = ""
            v = {"coverage": [[0, 1], [1, 8], [1, 4], [1, 2], [1, 1], [1, 20], [3, 8], [1, 3]],
                 "criterion": [[0, 1], [1, 2], [1, 1], [2, 1], [1, 3]],
                 "train_set_size": [[2, 1], [4, 1], [5, 1], [6, 1], [8, 1]],
                 "prediction": [[-1, 1], [0, 1], [1, 1], [1, 2], [-1, 2], [2, 1]],
                 "std": [[0, 1], [1, 1], [1, 2], [2, 1]], "zscore": [[0, 1], [1, 2], [1, 1], [2, 1]]}[at]
            v = rng.choice(v)
            if arg == "log":
                v = [0, 1]
            elif arg == "exp":
                v = [1, 1]
            elif rng.random() < 0.2 and order.index(at) > 0:
                refs = [a for a in order[:order.index(at)] if a in ats]
                ref = rng.choice(refs)
            lims.append({"at": at, "arg": arg, "lim": lim, "v": v, "ref": ref})
    return lims


def gen_cond(rng, pal, feats):
    n = min(len(feats), rng.choice([1, 1, 2, 2, 3]))
    fs = []
    for nm, ix in rng.sample(feats, n):
        lo, hi = rng.choice(pal), rng.choice(pal)
        if lo > hi and rng.random() < 0.93:
            lo, hi = hi, lo
        if rng.random() < 0.3:
            lo = pal[0]
        elif rng.random() < 0.3:
            hi = pal[-1]
        if rng.random() < 0.06:
            lo = LO_INF
        if rng.random() < 0.06:
            hi = HI_INF
        fs.append([nm, ix, lo, hi])
    return fs


def gen_setup(rng, prop, types, two):
    nf = rng.choice([1, 2, 2, 3, 4] if rng.random() < 0.96 else [5, 6])
    names = sorted(rng.sample(range(1, len(POOL) + 1), nf))
    pos = rng.sample(range(nf + rng.choice([0, 0, 2])), nf)
    if rng.random() < 0.6:
        pos.sort()
    feats = list(zip(names, pos))
    k = rng.randrange(2, len(TABLE) - 6)
    pal = list(range(k, k + rng.randint(3, 6)))
    width = max(6 if prop == "C25" else 0, max(pos) + 1)
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 8, 8])
    z = rng.random()
    if z < 0.1:
        n = rng.choice([20, 21, 40])
    elif z < 0.14 and prop in ("C11", "C12", "C20", "C10"):
        n = rng.choice([257, 300])
    elif z < 0.13:
        n = rng.choice([64, 65, 100, 128, 257])
    m = rng.choice([1, 2, 3, 5, 7])
    tabs, ys = [], []
    nanp = rng.choice([0, 0, 0.1])

    def cell():
        return 0 if rng.random() < nanp else rng.choice(pal)
    for rows in (n, n, m):
        t = {"rows": None}
        if rng.random() < 0.5:
            nc = width + rng.choice([0, 0, 1])
            t.update(kind="array", cols=[], nc=nc, alt=rng.random() < 0.2)
        else:
            cols = list(names)
            rest = [c for c in range(1, len(POOL) + 1) if c not in names]
            cols += rng.sample(rest, min(len(rest), rng.choice([0, 0, 1])))
            rng.shuffle(cols)
            t.update(kind="frame", cols=cols, nc=len(cols), index=rng.choice([None, None, "dup", "str", "rev", "shift", "date"]))
        t["rows"] = [[cell() for _ in range(t["nc"])] for _ in range(rows)]
        tabs.append(t)
    labels = rng.choice(LABELS_SAVE if prop == "C22" else LABELS)
    for ty in types:
        mul = rng.choice([1, 1, 12])
        nul = rng.choice([0, 0, 0, 0.2] if prop in ("C10", "C12", "C13", "C21") else [0] * 7 + [0.2])
        few = rng.random() < 0.15
        for rows in (n, n, m):
            if ty == "cls":
                ks = [1] if few else [1, 2, 3] if rng.random() < 0.6 else [1, 2]
                if rows > 100:
                    v = [rng.choice([1, 1, 1, 1, 1, 1, 1, 1, 1, 2]) for _ in range(rows)]
                    if rng.random() < 0.5:
                        v = [4 - x for x in v]
                else:
                    v = [rng.choice(ks) for _ in range(rows)]
            else:
                vs = [rng.randint(-3, 3)] * 2 if few else [-3, -2, -1, 0, 0, 1, 2, 3]
                if rows > 100:
                    vs = [-1, 0, 1, 1, 2]
                v = [None if rng.random() < nul else rng.choice(vs) * mul for _ in range(rows)]
            ys.append({"ty": ty, "v": v, "den": 1, "alt": rng.random() < 0.3, "name": rng.choice([None, "y", "A"]),
                       "cont": rng.choice(["array", "array", "plain", "dup", "str", "rev", "shift", "date"])})
    ths = []
    for _ in range(3):
        ths.append({"file": rng.random() < 0.95, "lims": gen_lims(rng, types[0] if len(types) == 1 else "cls")})
    cust = rng.choice([0, 0, 0, 1, 2]) if prop in ("C12", "C21", "C24") else 0
    if cust:
        for t in ths:
            t["lims"] = [l for l in t["lims"] if not l["ref"]]
    return feats, pal, {"cust": cust, "tabs": tabs, "ys": ys, "ths": ths, "labels": labels, "arr": rng.random() < 0.5,
                        "wc": rng.random() < 0.3, "sr": rng.random() < 0.3, "local": rng.random() < 0.25,
                        "stacked": rng.random() < 0.5, "two": two, "sub": rng.random() < 0.15, "far": rng.random() < 0.5}


def gen_wt(rng, p, hs, ty, n):
    z = rng.random()
    if z > p:
        return {"kind": "none", "at": "", "ws": []}
    if z < p * 0.35:
        ats = ["coverage", "criterion", "coverage", "train_set_size"] + (["prediction"] if ty == "reg" else [])
        return {"kind": "attr", "at": rng.choice(ats), "ws": []}
    ws = []
    signs = [-16, -8, -24] if ty == "reg" and rng.random() < 0.2 else []
    for h in hs:
        x = rng.choice([16, 16, 32, 8, 48, 4, 0, None, "absent", 16] + signs)
        if x != "absent":
            ws.append([h, x])
    return {"kind": "ser", "at": "", "ws": ws, "extra": rng.random() < 0.15}


def gen_bulk(rng, prop):
    ty = "cls" if prop in ("C11", "C20") or (prop not in ("C10", "C19") and rng.random() < 0.5) else "reg"
    rows = rng.choice([2, 3, 4])
    groups = []
    for _ in range(rng.randint(2, 4)):
        a, b = sorted((rng.randint(1, rows), rng.randint(1, rows)))
        groups.append({"n": rng.choice([1, 2, 100, 127, 128, 200, 255, 256, 257, 300]), "lo": a - 0.25 * len(groups) / 4,
                       "hi": b + 0.1, "w": rng.choice([16, 16, 8, 32])})
    for j, g in enumerate(groups):  # different conditions in different groups
        g["lo"] = float(math.ceil(g["lo"])) - 0.1 * (j + 1)
    v = [rng.randint(1, 3) for _ in range(rows)] if ty == "cls" else [rng.randint(-3, 3) for _ in range(rows)]
    return {"op": "bulk", "ty": ty, "groups": groups, "rows": rows, "v": v, "weighted": rng.random() < 0.4,
            "stack": rng.random() < 0.5, "fresh": rng.random() < 0.5, "seed": rng.randrange(1000)}


def gen(rng, prop, tier, k):
    w = dict(W[prop])
    two = prop == "C21"
    if prop in ("C10", "C19"):
        types = ["reg"]
    elif prop in ("C11", "C20"):
        types = ["cls"]
    elif prop == "C25":
        types = ["reg"] if rng.random() < 0.85 else ["cls"]
    elif prop == "C17" and rng.random() < 0.4:
        types = ["reg", "cls"]
    else:
        types = [rng.choice(["reg", "reg", "cls"])]
    feats, pal, setup = gen_setup(rng, prop, types, two)
    if prop in ("C10", "C11", "C19", "C20", "C16") and rng.random() < 0.012:
        return {"setup": setup, "ops": [gen_bulk(rng, prop)]}
    ops, rules, sets, seen = [], {}, {}, set()
    nxt = [1]
    ny = {ty: 3 * j for j, ty in enumerate(types)}

    def new():
        nxt[0] += 1
        return nxt[0] - 1

    def rule(ty=None):
        h = new()
        ty = ty or rng.choice(types)
        for _ in range(20):
            fs = gen_cond(rng, pal, feats)
            key = tuple(sorted((f[0], f[2], f[3]) for f in fs))
            if key not in seen or rng.random() < 0.06:
                break
        seen.add(key)
        if prop == "C25" and rng.random() < 0.05 and all(f[1] != 5 for f in fs[1:]):
            fs[0][1] = 5  # a position that conflicts with other rules
        rules[h] = ty
        ops.append({"op": "rule", "r": h, "ty": ty, "fs": fs, "sort": rng.random() < 0.85})
        return h

    def mkset(ty=None, n=None):
        ty = ty or rng.choice(types)
        hs = [h for h in rules if rules[h] == ty]
        n = rng.randint(0 if rng.random() < 0.15 or not hs else 1, min(5, len(hs))) if n is None else min(n, len(hs))
        pick = rng.sample(hs, n)
        if rng.random() < 0.04 and len(types) == 2:
            pick = rng.sample(list(rules), min(3, len(rules)))
        h = new()
        sets[h] = (ty, list(pick))
        ops.append({"op": "rs", "r": h, "hs": pick, "stack": rng.random() < {"C17": 0.3, "C28": 0.85}.get(prop, 0.5),
                    "comp": rng.random() < 0.85, "none": rng.random() < 0.05, "mem": mem(),
                    "chk": prop == "C17" and rng.random() < 0.3})
        if ops[-1]["chk"] and len(pick) > 0 and rng.random() < 0.3:
            pick.insert(rng.randrange(len(pick) + 1), rng.choice(pick))
        return h

    def mem():
        return rng.choice(["fault", "low", "none"]) if rng.random() < (0.08 if prop == "C16" else 0.015) else None

    def xy(ty, train):
        """table and targets: the training data, or others"""
        z = rng.random()
        j = 0 if z < (0.7 if train else 0.3) else 1 if z < 0.85 else 2
        x = j + 1
        if rng.random() < 0.15:
            x = 0
        elif j < 2 and rng.random() < 0.1:
            x = 3 - x
        return x, ny[ty] + j + 1

    for _ in range(rng.randint(1, 5)):
        rule()
    if prop in ("C15", "C18") or rng.random() < w.get("th", 0) / 10:
        ops.insert(rng.randrange(len(ops) + 1), {"op": "th", "id": rng.randint(1, 3), "text": rng.random() < 0.5})
    setty = any(x in w for x in ("fs", "rs"))
    if setty:
        mkset(n=rng.choice([None, 2, 3, 5]))
    if prop not in ("C17", "C16", "C25", "C10", "C11") or rng.random() < 0.6:
        # learn something first
        for h, ty in list(rules.items()):
            if not sets or rng.random() < 0.1:
                ops.append({"op": "fit", "w": "r", "a": h, "x": 1, "y": ny[ty] + 1, "hz": 1, "force": False})
        for h, (ty, hs) in list(sets.items()):
            ops.append({"op": "fit", "w": "s", "a": h, "x": 1, "y": ny[ty] + 1, "hz": 1})
    w.setdefault("mut", sum(w.values()) * 0.03)
    w.setdefault("each", sum(w.values()) * (0.06 if prop in ("C16", "C21", "C24", "C18") else 0.02))
    if not two and prop in ("C24", "C13", "C19", "C20"):
        w.setdefault("sone", sum(w.values()) * (0.1 if prop == "C24" else 0.02))
    w.setdefault("void", sum(w.values()) * 0.015)
    w.setdefault("late", sum(w.values()) * (0.06 if prop in ("C16", "C17") else 0.01 if any(x in w for x in ("fs", "rs")) else 0))
    w.setdefault("bad", sum(w.values()) * 0.03)
    if not two:
        w.setdefault("del_", sum(w.values()) * 0.02)
    kinds = list(w)
    length = len(ops) + rng.randint(3, 13)
    tries = 0
    while len(ops) < length and tries < 80:
        tries += 1
        kk = rng.choices(kinds, [w[x] for x in kinds])[0]
        r = rng.choice(list(rules))
        s = rng.choice(list(sets)) if sets else None
        if kk in ("fs", "es", "ps", "iadd", "app", "add", "slice", "rules", "sort", "look", "has", "count", "save", "junk",
                  "get", "text", "ask", "each", "sone") and s is None:
            continue
        st, shs = sets[s] if s else (None, [])
        if kk == "rule":
            if len(rules) < 7:
                rule()
        elif kk == "fr":
            x, y = xy(rules[r], True)
            ops.append({"op": "fit", "w": "r", "a": r, "x": x, "y": y, "hz": rng.choice([1, 1, 1, 2, 4]) if rules[r] == "reg" else 1,
                        "force": rng.random() < 0.2})
        elif kk == "fs":
            x, y = xy(st, True)
            ops.append({"op": "fit", "w": "s", "a": s, "x": x, "y": y, "hz": rng.choice([1, 1, 1, 2]) if st == "reg" else 1,
                        "kwargs": rng.random() < 0.3, "mem": mem(), "force": rng.random() < 0.15})
        elif kk == "er":
            x, y = xy(rules[r], False)
            ops.append({"op": "eval", "w": "r", "a": r, "x": x, "y": y, "keep": x != 0 and rng.random() < 0.3,
                        "force": rng.random() < 0.2, "meth": rng.choice(METHODS) if rules[r] == "reg" else ""})
        elif kk == "es":
            x, y = xy(st, False)
            ops.append({"op": "eval", "w": "s", "a": s, "x": x, "y": y, "keep": x != 0 and rng.random() < 0.35,
                        "meth": rng.choice(METHODS) if st == "reg" else "", "mem": mem(), "force": rng.random() < 0.15,
                        "wt": gen_wt(rng, 0.35 if prop == "C24" else 0.1, shs, st, 0)})
            if prop in ("C19", "C20") and rng.random() < 0.3:
                ops.append({"op": "pred", "w": "s", "a": s, "x": 0, "wt": gen_wt(rng, 0.3, shs, st, 0)})
        elif kk == "calc":
            j = rng.choice([1, 1, 2, 3])
            if s and rng.random() < 0.6 and prop != "C14":
                ops.append({"op": "calc", "w": "s", "a": s, "x": j, "mem": mem()})
            else:
                ops.append({"op": "calc", "w": "r", "a": r, "x": j})
        elif kk == "one":
            x, y = xy(rules[r], False)
            if rng.random() < 0.5:
                x = 0
            reg = rules[r] == "reg"
            at = rng.choice(["prediction", "criterion", "vector", "train_set_size", "test_set_size"] + ["std", "zscore", "sign", "std", "zscore"] * reg)
            if prop == "C12":
                at = rng.choice([at, "criterion", "criterion"])
            elif prop == "C14":
                at = rng.choice([at, "vector", "vector"])
            if at == "prediction" and not reg:
                x = 0
            ops.append({"op": "one", "w": "r", "a": r, "x": x, "y": y, "crit": at, "hz": rng.choice([1, 1, 2, 4]) if at == "zscore" else 1,
                        "meth": rng.choice(METHODS) if reg else ""})
        elif kk == "sone":
            j = rng.choice([1, 2, 2, 3])
            ops.append({"op": "sone", "w": "s", "a": s, "x": j, "y": ny[st] + j, "comp": rng.random() < 0.4,
                        "crit": rng.choice(["criterion", "criterion", "criterion", "train_set_size", "test_set_size"]),
                        "meth": rng.choice(METHODS) if st == "reg" else "", "wt": gen_wt(rng, 0.3, shs, st, 0)})
        elif kk == "pr":
            ops.append({"op": "pred", "w": "r", "a": r, "x": rng.choice([0, 1, 2, 3])})
        elif kk == "ps":
            ops.append({"op": "pred", "w": "s", "a": s, "x": rng.choice([0, 1, 2, 3]),
                        "wt": gen_wt(rng, 0.6 if prop in ("C19", "C20") else 0.25, shs, st, 0)})
        elif kk == "look":
            ops.append({"op": "look", "w": rng.choice(["evaluate", "self", "stack"]), "a": s, "x": rng.choice([1, 2, 3])})
        elif kk in ("and_", "in_", "corr"):
            op = {"op": kk.strip("_"), "a": r, "b": rng.choice(list(rules))}
            if kk == "and_":
                if len(rules) >= 9:
                    continue
                op["r"] = new()
                rules[op["r"]] = rules[r]
            ops.append(op)
        elif kk == "rs":
            if len(sets) < 4:
                mkset()
        elif kk == "iadd" or kk == "add":
            other = rng.choice(list(sets)) if rng.random() < 0.5 else None
            if rng.random() < 0.4 and len(rules) < 8:
                r = rule(st if rng.random() < 0.9 else None)
                if rng.random() < 0.6:
                    ops.append({"op": "fit", "w": "r", "a": r, "x": 1, "y": ny[rules[r]] + 1, "hz": 1, "force": False})
            op = {"op": kk, "w": "s" if other else "r", "a": s, "b": other or r}
            more = sets[other][1] if other else [r]
            if kk == "add":
                if len(sets) >= 5:
                    continue
                op["r"] = new()
                sets[op["r"]] = (st, shs + more)
            else:
                if len(shs) + len(more) > 8:
                    continue
                sets[s] = (st, shs + more)
            ops.append(op)
        elif kk == "app":
            if len(shs) > 7:
                continue
            ops.append({"op": "app", "a": s, "b": r, "comp": rng.random() < 0.75})
            sets[s] = (st, shs + [r])
        elif kk == "junk":
            ops.append({"op": "junk", "w": rng.choice(["iadd", "app", "rules", "new"]), "a": s, "b": rng.randrange(4)})
        elif kk == "slice":
            if len(sets) >= 5:
                continue
            h = new()
            sl = [rng.choice([None, 0, 1, 2, -1, -2]), rng.choice([None, 1, 2, 3, 4, -1]), rng.choice([None, None, 1, 2, -1])]
            sets[h] = (st, shs[slice(*sl)])
            ops.append({"op": "slice", "a": s, "r": h, "sl": sl})
        elif kk == "get":
            ops.append({"op": "get", "a": s, "i": rng.choice([None, rng.randrange(10)])})
        elif kk == "rules":
            pick = rng.sample(list(rules), rng.randint(0, min(4, len(rules))))
            if rng.random() < 0.85:
                pick = [h for h in pick if rules[h] == st]
            sets[s] = (st, pick)
            ops.append({"op": "rules", "a": s, "hs": pick})
        elif kk == "sort":
            crit = rng.choice(["", "", "coverage", "prediction", "criterion", "nones", "train_set_size"]
                              + (["std", "zscore"] if st == "reg" else []))
            if crit == "prediction" and st == "cls":
                crit = "coverage"
            ops.append({"op": "sort", "a": s, "crit": crit, "rev": rng.random() < 0.4})
        elif kk == "has":
            ops.append({"op": "has", "a": s, "b": r})
        elif kk == "count":
            ops.append({"op": "count", "a": s})
        elif kk == "save":
            if len(sets) >= 5:
                continue
            h = new()
            sets[h] = (st, list(shs))
            ops.append({"op": "save", "a": s, "r": h, "x": rng.choice([1, 2, 3]), "stack": rng.random() < 0.3,
                        "how": rng.choice(["path", "path", "str", "object"]), "over": rng.random() < 0.25})
        elif kk == "th":
            ops.append({"op": "th", "id": rng.choice([0, 1, 2, 3]), "text": rng.random() < 0.5, "show": rng.random() < 0.1})
        elif kk == "own":
            ops.append({"op": "own", "a": r, "id": rng.choice([0, 1, 2, 3]), "text": rng.random() < 0.5})
        elif kk == "del_":
            z = rng.choice(["r", "s", "s", "rules", "stk"])
            if z != "r" and s is None:
                continue
            ops.append({"op": "del", "w": z, "a": r if z == "r" else s})
        elif kk == "mut":
            if rng.random() < 0.7:
                j = rng.choice([1, 1, 2, 3])
                t = setup["tabs"][j - 1]
                m = len(t["rows"])
                ops.append({"op": "mut", "x": j, "perm": rng.sample(range(m), m), "cells": [
                    [rng.randrange(m), rng.randrange(t["nc"]), rng.choice(pal)] for _ in range(rng.randint(0, 4))]})
            else:
                j = rng.randrange(len(setup["ys"]))
                m = len(setup["ys"][j]["v"])
                ops.append({"op": "mut", "y": j + 1, "perm": rng.sample(range(m), m)})
        elif kk == "void":
            z = "s" if s and rng.random() < 0.5 else "r"
            ops.append({"op": "void", "w": z, "a": s if z == "s" else r, "meth": rng.choice(["fit", "eval", "calc"]),
                        "cont": rng.choice(["array", "series"])})
        elif kk == "bad":
            z = "s" if s and rng.random() < 0.5 else "r"
            ty = st if z == "s" else rules[r]
            op = {"op": "bad", "w": z, "a": s if z == "s" else r, "why": "len" if two or rng.random() < 0.5 else "cols", "x": rng.randint(1, 3),
                  "y": ny[ty] + rng.randint(1, 3), "d": rng.randrange(12),
                  "meth": rng.choice(["fit", "eval", "keep"] + ([] if two else ["calc", "pred"]))}
            if op["why"] == "len":
                op["meth"] = {"calc": "fit", "pred": "eval"}.get(op["meth"], op["meth"])
                if z == "r" and op["meth"] == "eval" and rng.random() < 0.4:
                    op["x"] = 0
            ops.append(op)
        elif kk == "each":
            # the rules of a set learn one by one, then the set from what they know
            hs = list(dict.fromkeys(shs))
            if rng.random() < 0.5 and len(sets) < 4:
                s, hs = new(), [rule(st) for _ in range(rng.randint(1, 3))]
                sets[s] = (st, hs)
                ops.append({"op": "rs", "r": s, "hs": list(hs), "stack": rng.random() < 0.5, "comp": rng.random() < 0.85, "mem": None})
                shs = hs
            if not hs:
                continue
            j, how = rng.choice([1, 1, 2]), rng.choice(["calc", "fit", "mix"])
            for h in hs:
                z = how if how != "mix" else rng.choice(["calc", "fit"])
                ops.append({"op": "calc", "w": "r", "a": h, "x": j} if z == "calc" else
                           {"op": "fit", "w": "r", "a": h, "x": j, "y": ny[st] + j, "hz": 1, "force": False})
            if rng.random() < 0.7:
                ops.append({"op": "fit", "w": "s", "a": s, "x": 0, "y": ny[st] + j, "hz": 1, "mem": mem()})
            if rng.random() < 0.5:
                ops.append({"op": "eval", "w": "s", "a": s, "x": 0, "y": ny[st] + j, "keep": False, "mem": mem(),
                            "meth": rng.choice(METHODS) if st == "reg" else "", "wt": gen_wt(rng, 0.1, shs, st, 0)})
            length += len(hs)
        elif kk == "late":
            # a set that was not asked for its activation grows by rules, or a set, that have one
            if len(sets) >= 4 or len(rules) > 7:
                continue
            ty, j, hs = rng.choice(types), rng.choice([1, 1, 2]), []
            for _ in range(rng.randint(2, 4)):
                h = rule(ty)
                hs.append(h)
                ops.append({"op": "calc", "w": "r", "a": h, "x": j})
            cut = rng.randint(1, len(hs) - 1)
            s, stack = new(), rng.random() < 0.5
            ops.append({"op": "rs", "r": s, "hs": hs[:cut], "stack": stack, "comp": rng.random() < 0.2, "mem": None})
            if not two and rng.random() < 0.3:
                ops.append({"op": "del", "w": "s", "a": s})
            if rng.random() < 0.3:
                o = new()
                sets[o] = (ty, hs[cut:])
                ops.append({"op": "rs", "r": o, "hs": hs[cut:], "stack": stack or rng.random() < 0.5, "comp": True, "mem": None})
                ops.append({"op": "iadd", "w": "s", "a": s, "b": o})
            else:
                for h in hs[cut:]:
                    ops.append({"op": "iadd", "w": "r", "a": s, "b": h} if rng.random() < 0.5 else
                               {"op": "app", "a": s, "b": h, "comp": True})
            sets[s] = (ty, hs)
            length += len(hs) + 1
        elif kk == "ask":
            j = rng.choice([0, 0, 0, 1, 2])
            ops.append({"op": "ask", "a": s, "x": rng.choice([0, 0, j + 1]), "y": ny[st] + j + 1, "hz": rng.choice([1, 1, 1, 2, 4]),
                        "meth": rng.choice(METHODS) if st == "reg" else "", "given": rng.random() < 0.4, "raw": rng.random() < 0.6})
        elif kk == "text":
            ops.append({"op": "text", "a": s, "n": rng.choice([1, 1, 2, 3, 5])})
        elif kk == "bare":
            ixs = []
            for _ in range(rng.randint(1, 4)):
                ix = sorted(rng.sample(range(4), rng.randint(1, 3)))
                if ix not in ixs:
                    ixs.append(ix)
            ops.append({"op": "bare", "ty": rng.choice(types), "ixs": ixs, "fit": rng.random() < 0.5, "stack": rng.random() < 0.4,
                        "w": rng.choice(["new", "app", "iadd"])})
        elif kk == "cfg":
            ops.append({"op": "cfg", "cfg": {"stacked": rng.random() < 0.5, "local": rng.random() < 0.25}})
    if "cls" in types and rng.random() < {"C20": 0.2, "C21": 0.08, "C24": 0.08}.get(prop, 0):
        # wide rules that have learned different classes vote on the same rows
        first = len(setup["ys"])
        n = len(setup["tabs"][0]["rows"])
        for c in (1, 2, 3):
            setup["ys"].append({"ty": "cls", "v": [c] * n, "den": 1, "alt": False, "name": None, "cont": "array"})
        keys = [(f, lo, hi) for f in feats for lo in pal[:2] for hi in pal[-2:]]
        hs, s = [], new()
        for j, (f, lo, hi) in enumerate(rng.sample(keys, rng.randint(3, min(6, len(keys))) if len(keys) > 3 else len(keys))):
            h = new()
            rules[h] = "cls"
            hs.append(h)
            ops.append({"op": "rule", "r": h, "ty": "cls", "fs": [[f[0], f[1], lo, hi]], "sort": True})
            ops.append({"op": "fit", "w": "r", "a": h, "x": 1, "y": first + 1 + (j % 3 if rng.random() < 0.8 else rng.randrange(3)),
                        "hz": 1, "force": False})
        ops.append({"op": "rs", "r": s, "hs": list(hs), "stack": rng.random() < 0.5, "comp": True, "mem": None})
        for x in rng.sample([0, 1, 2, 3], 2):
            ops.append({"op": "pred", "w": "s", "a": s, "x": x, "wt": gen_wt(rng, 0.4, hs, "cls", 0)})
        ops.append({"op": "eval", "w": "s", "a": s, "x": 2, "y": ny["cls"] + 2, "keep": False, "mem": None, "force": False,
                    "meth": "", "wt": gen_wt(rng, 0.2, hs, "cls", 0)})
    if prop == "C17" and rng.random() < 0.06:
        # positions of features declared for all rule sets
        mkset()
        pos = [ix for _, ix in feats]
        rng.shuffle(pos)
        ops[-1]["chk"] = False
        ops[-1]["map"] = [[nm, ix] for (nm, _), ix in zip(feats, pos)]
    return {"setup": setup, "ops": ops}


def concretize(rng, abstract, prop):
    """A history of MC_Rules as a program: values, names, labels, containers and settings are chosen here"""
    b, ops = abstract[0], [dict(o) for o in abstract[1:]]
    two, ty = prop == "C21", b["ty"]
    names = sorted(rng.sample(range(1, len(POOL) + 1), 2))
    base = rng.randrange(2, len(TABLE) - 3)
    up = lambda r: r + base
    tabs = []
    for t in b["tabs"]:
        rows = [[up(c) for c in row] for row in t["rows"]]
        if rng.random() < 0.5:
            tabs.append({"kind": "array", "cols": [], "nc": 2, "rows": rows, "alt": rng.random() < 0.2})
        else:
            order = rng.sample([0, 1], 2)
            tabs.append({"kind": "frame", "cols": [names[j] for j in order], "nc": 2, "rows": [[row[j] for j in order] for row in rows],
                         "index": rng.choice([None, None, "dup", "str", "rev", "shift", "date"])})
    # thresholds speak about the values of the targets: these are not scaled
    ys = [{"ty": ty, "v": [x[0] for x in y], "den": 1, "alt": rng.random() < 0.3, "name": rng.choice([None, "y", "A"]),
           "cont": rng.choice(["array", "array", "plain", "dup", "str", "rev", "shift", "date"])} for y in b["ys"]]
    setup = {"tabs": tabs, "ys": ys, "ths": b["ths"], "labels": rng.choice(LABELS_SAVE if prop == "C22" else LABELS),
             "arr": rng.random() < 0.5, "wc": rng.random() < 0.3, "sr": rng.random() < 0.3, "local": rng.random() < 0.25,
             "stacked": b["stacked"], "two": two, "sub": rng.random() < 0.15, "far": rng.random() < 0.5}
    out = []
    for k, fs in enumerate(b["conds"]):
        out.append({"op": "rule", "r": k + 1, "ty": ty, "fs": [[names[f["nm"] - 1], f["ix"], up(f["lo"]), up(f["hi"])] for f in fs],
                    "sort": True})
    out.append({"op": "rs", "r": 11, "hs": b["start"], "stack": b["sfl"], "comp": rng.random() < 0.5})
    out.append({"op": "rs", "r": 12, "hs": [3], "stack": False, "comp": rng.random() < 0.5})
    for o in ops:
        if two and o["op"] in ("cfg", "del"):
            continue
        if o["op"] == "cfg":
            o["cfg"] = dict(o["cfg"], local=setup["local"])
        if o["op"] in ("fit", "eval") and o["w"] == "r":
            o["force"] = False
        if two and o["op"] in ("one", "sone"):
            continue
        if o["op"] in ("eval", "ask", "one", "sone") and ty == "cls":
            o["meth"] = ""
        if o["op"] == "th":
            o["text"] = rng.random() < 0.5
        out.append(o)
    # and what the property is about at the end
    end = {"C22": {"op": "save", "a": 11, "r": 50, "x": 1, "stack": False}, "C17": {"op": "count", "a": 11},
           "C14": {"op": "pred", "w": "r", "a": rng.randint(1, 3), "x": rng.choice([0, 1, 2])},
           "C25": {"op": "and", "a": rng.randint(1, 3), "b": rng.randint(1, 3), "r": 60},
           "C28": {"op": "ask", "a": 11, "x": rng.choice([0, 1]), "y": 1, "hz": 1, "meth": "", "given": rng.random() < 0.5, "raw": True}}.get(prop)
    for a in (11, 12):
        out.append({"op": "pred", "w": "s", "a": a, "x": rng.choice([0, 1, 2]), "wt": {"kind": "none", "at": "", "ws": []}})
    return {"setup": setup, "ops": out + ([end] if end else [])}
