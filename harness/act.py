"""Driver for activation vectors: programs (lists of operations) are executed on the real code and recorded
as events of ActivationStore.tla."""
import copy
import fnmatch
import os
import random
import shutil
from pathlib import Path

import numpy as np
from bitarray import bitarray

from common import BADVEC, NAN, NULL, OPQ, crc, exc, ints, limit, num, rle, unrle, vec_of_array

AREA = "act"
PROPS = ["C01", "C02", "C03", "C04", "C05"]

VIEWS = {
    "raw": "raw", "bits": "as_bitarray", "int": "as_integer", "cstr": "as_compressed_str",
    "carr": "as_compressed_array", "comp": "as_compressed",
}
STATS = {"ones": "ones", "nones": "nones", "cov": "coverage", "ent": "entropy", "rent": "rel_entropy", "len": "length",
         "lenf": None}
PROF_VALUES = [
    "sizeof_path", "sizeof_file", "sizeof_raw", "sizeof_bitarray", "sizeof_integer", "sizeof_compressed_array",
    "sizeof_compressed_str", "time_write", "time_read", "time_raw_to_compressed", "time_raw_to_integer",
    "time_raw_to_bitarray", "time_compressed_to_raw", "time_bitarray_to_raw", "time_integer_to_raw",
    "time_compressed_to_bitarray", "time_bitarray_to_compressed", "time_integer_to_compressed",
    "time_bitarray_to_integer", "time_integer_to_bitarray", "time_compressed_to_integer",
]
PROF_COUNTS = [
    "n_written", "n_read", "n_raw_to_compressed", "n_compressed_to_raw", "n_raw_to_bitarray", "n_raw_to_integer",
    "n_bitarray_to_raw", "n_integer_to_raw", "n_bitarray_to_compressed", "n_integer_to_compressed",
    "n_compressed_to_bitarray", "n_compressed_to_integer", "n_bitarray_to_integer", "n_integer_to_bitarray",
]
RAW_DTYPES = ["uint8", "int64", "float64", "bool", "int8", "float32", "int32", "uint16"]
FORMS = ["raw:" + d for d in RAW_DTYPES] + ["raw:strided", "bits", "int", "cstr", "cstr_sp", "carr:int32", "carr:int64",
                                           "bstr", "path"]


class Mem:
    def __init__(self, available):
        self.available = available


class Run:
    """Executes one program"""

    def __init__(self, scratch):
        from ruleskit import Activation

        self.A = Activation
        self.root = Path(scratch)
        self.rec = None

    # ------------------------------------------------------------------ environment
    def begin(self, seed):
        A = self.A
        self.seed = seed
        if self.root.exists():
            shutil.rmtree(self.root)
        self.dirs = [self.root / "d1", self.root / "d2", self.root / "user"]
        for d in self.dirs:
            d.mkdir(parents=True)
        (self.dirs[0] / "sub").mkdir()
        for p, c in [
            (self.dirs[0] / "ACTIVATION_VECTOR_notes.csv", b"a,b"),
            (self.dirs[0] / "other.txt", b"keep"),
            (self.dirs[0] / "ACTIVATION_VECTOR_7.txt.bak", b"backup"),
            (self.dirs[0] / "sub" / "ACTIVATION_VECTOR_3.txt", b"elsewhere"),
            (self.dirs[1] / "my_ACTIVATION_VECTOR_3.txt", b"foreign"),
            (self.dirs[2] / "ACTIVATION_VECTOR_1.txt", b"user"),
        ]:
            p.write_bytes(c)
        A.DTYPE, A.FORCE_STAT, A.WILL_COMPARE, A.STORE_RAW, A.NCPUS = str, False, False, False, 1
        A.DEFAULT_TEMPDIR = self.dirs[0]
        self.h = {}
        self.ids = {}
        self.nuser = 0
        return dict(self.blank("begin"), fl=self.listing(), cfg=self.cfg())

    def pid(self, p):
        p = str(p)
        if p not in self.ids:
            self.ids[p] = len(self.ids) + 1
        return self.ids[p]

    def listing(self):
        out = []
        for k, d in enumerate(self.dirs):
            for p in sorted(d.rglob("*")):
                if p.is_dir():
                    continue
                try:
                    data = p.read_bytes()
                except OSError:
                    data = b"?"
                lib = int(k < 2 and p.parent == d and fnmatch.fnmatch(p.name, "ACTIVATION_VECTOR_*.txt"))
                v = BADVEC
                if data[:6] == b"\x93NUMPY":
                    try:
                        import io

                        v = vec_of_array(np.load(io.BytesIO(data)))
                    except Exception:
                        v = BADVEC
                out.append([self.pid(p), lib, k + 1 if p.parent == d else 9, v, crc(data)])
        return out

    def cfg(self):
        A = self.A
        try:
            td = [str(d) for d in self.dirs].index(str(A.DEFAULT_TEMPDIR)) + 1
        except ValueError:
            td = 0
        return {
            "dt": 1 if A.DTYPE is str else 2 if A.DTYPE is np.ndarray else 0,
            "fs": int(A.FORCE_STAT is True), "wc": int(A.WILL_COMPARE is True), "sr": int(A.STORE_RAW is True),
            "nc": A.NCPUS if isinstance(A.NCPUS, int) else 0, "td": td,
        }

    @staticmethod
    def blank(k):
        return {"k": k, "out": "ok", "a": 0, "b": 0, "hs": [], "op": "", "w": "", "form": "", "v": BADVEC, "res": 0,
                "rv": BADVEC, "rn": OPQ, "rb": False, "mem": "ok", "lasy": False, "chk": [], "fl": [], "cfg": {}}

    def files(self):
        return {p for d in self.dirs for p in d.rglob("*") if p.is_file()}

    def observe(self):
        """The value of every live vector, read from deep copies so that nothing is cached in the real objects;
        files that loading such a copy may have made are removed"""
        out = []
        before = None
        for i, a in sorted(self.h.items()):
            lazy = i in self.lazies
            if lazy and before is None:
                before = self.files()
            try:
                v = vec_of_array(copy.deepcopy(a).raw)
            except Exception:
                v = BADVEC
            p = 0
            if getattr(a, "data_format", None) == "file":
                p = self.pid(getattr(a, "data", None))
            out.append([i, v, p])
        if before is not None:
            for p in self.files() - before:
                p.unlink()
        return out

    # ------------------------------------------------------------------ operations
    def make_input(self, op):
        v = op["v"]
        bits = unrle(v)
        form = op["form"]
        kw = {}
        if form == "raw:strided":
            big = np.zeros(2 * len(bits), dtype=np.int64)
            big[::2] = bits
            x = big[::2]
        elif form.startswith("raw:"):
            x = bits.astype(form[4:])
        elif form == "bits":
            x = bitarray(bits.tolist())
        elif form == "int":
            x = int("".join(map(str, bits.tolist())), 2)
            kw["length"] = len(bits)
        elif form == "cstr":
            x = ",".join(map(str, v))
        elif form == "bstr":
            x = "".join(map(str, bits.tolist()))
        elif form == "cstr_sp":
            x = ", ".join(map(str, v))
        elif form.startswith("carr:"):
            x = np.array(v, dtype=form[5:])
        elif form == "path":
            src = self.h.get(op.get("src"))
            if src is not None and getattr(src, "data_format", "") == "file" and not op["lasy"]:
                x = src.data
            else:
                self.nuser += 1
                x = self.dirs[2] / f"saved_{self.nuser}.npy"
                with open(x, "wb") as f:
                    np.save(f, bits)
            if op.get("text"):
                x = str(x)
        elif form == "bad-int":
            x = 5
        elif form == "bad-type":
            x = [0, 1, 0]
        return x, kw

    def run(self, prog, rec, hist):
        """prog: {"seed": int, "ops": [...]}"""
        self.lazies = set()
        rec.write(self.begin(prog["seed"]), hist, -1)
        n = 0
        for step, op in enumerate(prog["ops"]):
            self.pending = None
            ev = self.step(step, op)
            if ev is None:
                continue
            if self.pending is not None:
                rec.write(self.pending, hist, step)
            n += 1
            rec.write(ev, hist, step)
        return n

    def step(self, step, op):
        A = self.A
        k = op["op"]
        need = [op[x] for x in ("a", "b") if op.get(x)] + list(op.get("hs", []))
        if any(x not in self.h for x in need):
            return None
        ev = self.blank({"bin": "op"}.get(k, k))
        ev["a"], ev["b"], ev["hs"] = op.get("a", 0), op.get("b", 0), list(op.get("hs", []))
        coll = op.get("coll", 0)
        random.seed(f"{self.seed}-{0 if coll else step + 1}")
        saved_randint = random.randint
        import psutil

        saved_vm, saved_vstack = psutil.virtual_memory, np.vstack
        if coll == 2:
            random.randint = lambda lo, hi: 42
        res = None
        x = None
        if k == "new":
            ev["form"], ev["lasy"] = op["form"], bool(op["lasy"])
            ev["v"] = op["v"]
            x, kw = self.make_input(op)
            if op["form"] == "path":
                self.announce()  # the path may be a user's file just written by the harness
        try:
            with limit():
                if k == "new":
                    res = A(x, optimize=op["opt"], to_file=op["file"], lasy=op["lasy"], **kw)
                elif k == "bin":
                    ev["op"] = op["f"]
                    a, b = self.h[op["a"]], self.h[op["b"]]
                    res = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "sub": lambda: a - b,
                           "add": lambda: a + b}[op["f"]]()
                elif k == "rel":
                    ev["w"] = op["w"]
                    a, b = self.h[op["a"]], self.h[op["b"]]
                    if op["w"] == "in":
                        r = a in b
                        ev["rb"] = r is True
                    else:
                        ev["rn"] = num(a.get_correlation(b), 100000)
                elif k == "multi":
                    ev["op"], ev["mem"] = op["f"], op["mem"]
                    if op["mem"] == "low":
                        state = {"n": 0}
                        hi, d = 1000, 400  # bytes: available, then less by d; 2d <= hi < 1.1 * n * d for n >= 3

                        def vm():
                            state["n"] += 1
                            return Mem(hi if state["n"] % 2 else hi - d)

                        psutil.virtual_memory = vm
                    elif op["mem"] == "none":
                        state = {"n": 0}

                        def vm2():
                            state["n"] += 1
                            return Mem(1000 if state["n"] % 2 else 100)

                        psutil.virtual_memory = vm2
                    elif op["mem"] == "fault":
                        state = {"n": 0}

                        def vstack(arrs, *a, **kw):
                            state["n"] += 1
                            if state["n"] == op.get("at", 1):
                                raise MemoryError("injected")
                            return saved_vstack(arrs, *a, **kw)

                        np.vstack = vstack
                    f = {"and": A.multi_logical_and, "or": A.multi_logical_or, "xor": A.multi_logical_xor}[op["f"]]
                    r = f([self.h[i] for i in op["hs"]], op["arr"])
                    if op["arr"]:
                        ev["rv"] = vec_of_array(r)
                    else:
                        res = r
                elif k == "copy":
                    res = copy.copy(self.h[op["a"]])
                elif k == "clear":
                    self.h[op["a"]].clear()
                elif k == "del":
                    self.h[op["a"]].delete()
                elif k == "clean":
                    A.clean_files()
                elif k == "flag":
                    ev["w"] = op["w"]
                    v = op["val"]
                    if op["w"] == "DTYPE":
                        v = str if v == "str" else np.ndarray
                    elif op["w"] == "DEFAULT_TEMPDIR":
                        v = self.dirs[v - 1]
                    setattr(A, op["w"], v)
                elif k == "get":
                    ev["w"] = op["w"]
                    self.get(ev, self.h[op["a"]], op["w"])
                elif k == "prof":
                    ev["w"] = "count" if op["w"].startswith("n_") else "value"
                    v = getattr(self.h[op["a"]], op["w"])
                    ev["rb"] = bool(isinstance(v, (int, float, np.number)) and v >= 0)
        except Exception as e:  # the outcome is part of the event
            ev["out"] = exc(e)
        finally:
            random.randint = saved_randint
            psutil.virtual_memory, np.vstack = saved_vm, saved_vstack
        if k == "del":
            self.h.pop(op["a"], None)
        if k == "clean":
            for i, a in list(self.h.items()):
                if getattr(a, "data_format", None) == "file" and Path(a.data).parent == Path(A.DEFAULT_TEMPDIR):
                    self.h.pop(i)
        if res is not None:
            self.h[op["r"]] = res
            ev["res"] = op["r"]
            if k == "new" and op["lasy"] and op["form"] == "path":
                self.lazies.add(op["r"])
        ev["chk"] = self.observe()
        ev["fl"] = self.listing()
        ev["cfg"] = self.cfg()
        return ev

    def announce(self):
        """Announces files the harness itself has just made"""
        ev = self.blank("sync")
        ev["fl"], ev["cfg"], ev["chk"] = self.listing(), self.cfg(), self.observe()
        self.pending = ev

    def get(self, ev, a, w):
        n = None
        if w in VIEWS:
            r = getattr(a, VIEWS[w])
            if w == "raw":
                ev["rv"] = vec_of_array(r)
            elif w == "bits":
                ev["rv"] = rle(r.tolist()) if isinstance(r, bitarray) and len(r) else BADVEC
                if isinstance(r, bitarray) and len(r):
                    ev["rv"] = rle([int(b) for b in r.tolist()])
            elif w == "int":
                n = self.known_len(a)
                if isinstance(r, (int, np.integer)) and not isinstance(r, bool) and r >= 0 and int(r).bit_length() <= n:
                    ev["rv"] = rle([int(c) for c in bin(int(r))[2:].zfill(n)])
            elif w in ("cstr", "comp"):
                if isinstance(r, str):
                    try:
                        ev["rv"] = [int(t) for t in r.split(",")]
                    except ValueError:
                        pass
            elif w == "carr":
                if isinstance(r, np.ndarray) and r.ndim == 1:
                    ev["rv"] = ints(r.tolist())
            if not ev["rv"]:
                ev["rv"] = BADVEC
        elif w == "ones":
            r = a.ones
            n = self.known_len(a)
            pos = ints(list(r)) if len(r) else []
            if pos is not BADVEC and all(p < q for p, q in zip(pos, pos[1:])) and all(0 <= p < n for p in pos):
                bits = np.zeros(n, dtype=np.ubyte)
                bits[pos] = 1
                ev["rv"] = vec_of_array(bits)
        elif w == "lenf":
            ev["rn"] = num(len(a))
        else:
            ev["rn"] = num(getattr(a, STATS[w]), 100000)

    def known_len(self, a):
        """The length of the vector (of the integer view), from an undisturbed copy"""
        before = self.files()
        try:
            n = len(copy.deepcopy(a).raw)
        finally:
            for p in self.files() - before:
                p.unlink()
        return n


# ---------------------------------------------------------------------- generation
LENGTHS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 1000]
LONG = [4097, 32768, 40000, 65536, 70000]


def gen_vec(rng, n):
    k = rng.random()
    if k < 0.12:
        return [rng.randint(0, 1), n]
    if n <= 70 and k < 0.6:
        d = rng.choice([0.1, 0.3, 0.5, 0.7, 0.9])
        return rle([int(rng.random() < d) for _ in range(n)])
    m = rng.randint(1, min(n - 1, 10)) if n > 1 else 0
    special = [1, n - 1, n // 2, 2, n - 2]
    pts = {rng.choice(special) if rng.random() < 0.3 else rng.randrange(1, n) for _ in range(m)} if n > 1 else set()
    return [rng.randint(0, 1)] + sorted(p for p in pts if 0 < p < n) + [n]


WEIGHTS = {  # operation weights per property in focus
    "C01": dict(new=5, get_view=9, get_stat=1, flag=2.5, bin=1, rel=0.3, multi=0.3, copy=1, clear=0.3, del_=0.3,
                clean=0.1, prof=1),
    "C02": dict(new=5, get_view=3, get_stat=10, flag=2, bin=1.5, rel=0.3, multi=0.5, copy=1, clear=0.6, del_=0.3,
                clean=0.1, prof=1),
    "C03": dict(new=5, get_view=1.5, get_stat=1, flag=2, bin=9, rel=4, multi=4, copy=0.7, clear=0.3, del_=0.3,
                clean=0.1, prof=0.5),
    "C04": dict(new=6, get_view=2, get_stat=1, flag=2, bin=2.5, rel=1.5, multi=1, copy=3, clear=1.5, del_=2,
                clean=0.7, prof=1.5),
    "C05": dict(new=4, get_view=4, get_stat=3, flag=2.5, bin=1, rel=1.5, multi=0.5, copy=0.7, clear=0.4, del_=0.4,
                clean=0.1, prof=10),
}


def gen_flag(rng):
    w = rng.choice(["DTYPE", "WILL_COMPARE", "STORE_RAW", "FORCE_STAT", "DEFAULT_TEMPDIR", "NCPUS", "DTYPE",
                    "WILL_COMPARE"])
    v = {"DTYPE": rng.choice(["str", "arr"]), "DEFAULT_TEMPDIR": rng.choice([1, 2]),
         "NCPUS": rng.choice([1, 4])}.get(w, rng.random() < 0.5)
    return {"op": "flag", "w": w, "val": v}


def gen_new(rng, r, n, form=None, v=None, live=()):
    form = form or rng.choice(FORMS)
    v = v or gen_vec(rng, n)
    if form.startswith("carr") and v[-1] == 1:
        form = "cstr"
    lasy = form == "path" and rng.random() < 0.5
    op = {"op": "new", "r": r, "form": form, "v": v, "opt": rng.random() < 0.6, "file": rng.random() < 0.5,
          "lasy": lasy, "text": rng.random() < 0.4, "coll": rng.choices([0, 1, 2], [6, 3, 0.4])[0]}
    return op


def gen(rng, prop, tier, k):
    """A random program"""
    w = WEIGHTS[prop]
    names = list(w)
    n = rng.choice(LENGTHS)
    if rng.random() < (0.01 if tier == "quick" else 0.02):
        n = rng.choice(LONG)
    ops = []
    for _ in range(rng.randint(0, 4)):
        ops.append(gen_flag(rng))
    if prop == "C05" and rng.random() < 0.8:
        ops.append({"op": "flag", "w": "FORCE_STAT", "val": True})
    live = {}  # handle -> [length, lazy, vec or None]
    nxt = 1
    length = rng.randint(6, 26)
    while len(ops) < length:
        k = rng.choices(names, [w[x] for x in names])[0]
        if not live or (k == "new" and len(live) < 6):
            if rng.random() < 0.02:
                ops.append({"op": "new", "r": nxt, "form": rng.choice(["bad-int", "bad-type"]), "v": [0, 1], "opt": True,
                            "file": False, "lasy": False, "coll": 0})
                nxt += 1
                continue
            m = n if rng.random() < 0.9 else rng.choice(LENGTHS)
            v = None
            if live and rng.random() < 0.25:
                o = rng.choice(list(live.values()))
                if o[2] is not None and o[0] == m:
                    v = list(o[2])
                    if rng.random() < 0.3:
                        v[0] = 1 - v[0]
                    elif rng.random() < 0.3 and len(v) > 3:
                        v.pop(rng.randrange(1, len(v) - 1))
            op = gen_new(rng, nxt, m, v=v)
            if op["form"] == "path" and not op["lasy"] and rng.random() < 0.5:
                op["form"] = "path"
            ops.append(op)
            live[nxt] = [op["v"][-1], op["lasy"], op["v"]]
            nxt += 1
            continue
        if k == "new":
            continue
        ids = list(live)
        a, b = rng.choice(ids), rng.choice(ids)
        if k in ("bin", "rel") and live[a][0] != live[b][0] and rng.random() < 0.7:
            continue
        if k == "get_view":
            ops.append({"op": "get", "a": a, "w": rng.choice(list(VIEWS))})
        elif k == "get_stat":
            ops.append({"op": "get", "a": a, "w": rng.choice(list(STATS))})
        elif k == "prof":
            ops.append({"op": "prof", "a": a, "w": rng.choice(PROF_VALUES if rng.random() < 0.85 else PROF_COUNTS)})
        elif k == "flag":
            ops.append(gen_flag(rng))
        elif k == "bin":
            if len(live) >= 7:
                continue
            ops.append({"op": "bin", "f": rng.choice(["and", "or", "xor", "sub", "add"]), "a": a, "b": b, "r": nxt,
                        "coll": rng.choice([0, 0, 1])})
            if live[a][0] == live[b][0]:
                live[nxt] = [live[a][0], False, None]
            nxt += 1
        elif k == "rel":
            ops.append({"op": "rel", "w": rng.choice(["in", "corr"]), "a": a, "b": b})
        elif k == "multi":
            m = rng.choice([1, 2, 2, 3, 3, 4, 4, 9, 20])
            same = [i for i in ids if live[i][0] == live[a][0]]
            hs = [rng.choice(same if rng.random() < 0.95 else ids) for _ in range(m)]
            if m > 4 and rng.random() < 0.6:  # only the last ones are others
                cut = rng.choice([1, 1, 2, 3])
                hs = [rng.choice(same)] * (m - cut) + hs[m - cut:]
            mem = rng.choice(["ok", "ok", "low", "fault", "none"])
            arr = rng.random() < 0.4
            if not arr and len(live) >= 7:
                continue
            ops.append({"op": "multi", "f": rng.choice(["and", "or", "xor"]), "hs": hs, "arr": arr, "mem": mem,
                        "at": rng.choice([1, 1, 2]), "r": nxt, "coll": rng.choice([0, 0, 1])})
            if not arr and all(live[i][0] == live[hs[0]][0] for i in hs):
                live[nxt] = [live[hs[0]][0], False, None]
            nxt += 1
        elif k == "copy":
            if len(live) >= 7:
                continue
            ops.append({"op": "copy", "a": a, "r": nxt, "coll": rng.choice([0, 1])})
            live[nxt] = [live[a][0], False, live[a][2]]
            nxt += 1
        elif k == "clear":
            ops.append({"op": "clear", "a": a})
            live[a][2] = None
        elif k == "del_":
            if live[a][1]:
                continue
            ops.append({"op": "del", "a": a})
            del live[a]
        elif k == "clean":
            ops.append({"op": "clean"})
    return {"seed": rng.randrange(10 ** 6), "ops": ops}


def concretize(rng, abstract, prop):
    """A history of MC_Act: vectors stretched, forms and configuration chosen, all file names colliding"""
    q = rng.choice([1, 1, 5, 64, 300])
    ops = []
    for _ in range(rng.choice([0, 0, 2])):
        f = gen_flag(rng)
        if f["w"] != "DEFAULT_TEMPDIR":
            ops.append(f)
    if prop == "C05":
        ops.append({"op": "flag", "w": "FORCE_STAT", "val": rng.random() < 0.7})
    for a in abstract:
        op = dict(a)
        if op["op"] == "new":
            v = [op["v"][0]] + [x * q for x in op["v"][1:]]
            form = "path" if op["lasy"] else rng.choice(FORMS[:-1])
            op = dict(op, v=v, form=form, opt=rng.random() < 0.6, coll=1)
        elif op["op"] in ("bin", "copy"):
            op["coll"] = 1
        if op["op"] == "get" and rng.random() < 0.8:
            if prop == "C05":
                op = {"op": "prof", "a": op["a"], "w": rng.choice(PROF_VALUES)}
            elif op["w"] == "raw":
                op["w"] = rng.choice(list(VIEWS))
            else:
                op["w"] = rng.choice(list(STATS))
        ops.append(op)
    return {"seed": rng.randrange(10 ** 6), "ops": ops}
