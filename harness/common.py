"""Encoding of observations (shared by all drivers).

Every encoder is total: whatever the code under test returns, a well-typed value results, with
special codes for what is malformed, so that the verdict on a trace is always given by the specification.
"""
import json
import math
import os
import signal
import warnings
import zlib
from fractions import Fraction

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")

NAN, PINF, NINF, NULL, OPQ = [0, 0], [1, 0], [-1, 0], [2, 0], [3, 0]
BADVEC = [9, 0]
MAXDEN = 20000
MAXNUM = 2 ** 31 - 1


def num(x, maxden=MAXDEN):
    """A Python number as [n, d] (see Nums.tla)"""
    if x is None:
        return NULL
    try:
        if isinstance(x, (bool, np.bool_)):
            return OPQ
        if isinstance(x, (int, np.integer)):
            x = int(x)
            return [x, 1] if abs(x) <= MAXNUM else OPQ
        if not isinstance(x, (float, np.floating)):
            return OPQ
        x = float(x)
    except Exception:
        return OPQ
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    if abs(x) > 1e6:
        return OPQ
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) > 1e-9 * max(1.0, abs(x)) or abs(f.numerator) > MAXNUM:
        return OPQ
    return [f.numerator, f.denominator]


def rle(bits):
    """Run-length form of a list of 0/1"""
    bits = list(bits)
    if not bits:
        return BADVEC
    out = [int(bits[0])]
    out += [k for k in range(1, len(bits)) if bits[k] != bits[k - 1]]
    out.append(len(bits))
    return out


def unrle(s):
    n = s[-1]
    out = np.zeros(n, dtype=np.ubyte)
    val, pos = s[0], 0
    for c in list(s[1:-1]) + [n]:
        if val:
            out[pos:c] = 1
        val, pos = 1 - val, c
    return out


def vec_of_array(a):
    """A raw activation vector, as returned by the code"""
    try:
        if not isinstance(a, np.ndarray) or a.ndim != 1 or len(a) == 0:
            return BADVEC
        if not np.issubdtype(a.dtype, np.number):
            return BADVEC
        if not np.all((a == 0) | (a == 1)):
            return BADVEC
        b = a.astype(np.int8)
        return [int(b[0])] + [int(k) + 1 for k in np.nonzero(np.diff(b))[0]] + [len(b)]
    except Exception:
        return BADVEC


def ints(seq):
    """A sequence of ints as given by the code, or a malformed one"""
    try:
        out = [int(x) for x in seq]
        if any(o != x for o, x in zip(out, seq)) or any(abs(o) > MAXNUM for o in out):
            return BADVEC
        return out
    except Exception:
        return BADVEC


def exc(e):
    return type(e).__name__


def crc(b):
    return zlib.crc32(b) & 0x3FFFFFFF


class Rec:
    """Collects the events of histories; `hist` maps event line -> (history number, event number)"""

    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0
        self.index = []
        self.cover = {}

    def write(self, ev, hist, step):
        self.f.write(json.dumps(ev, separators=(",", ":")) + "\n")
        self.n += 1
        self.index.append((hist, step))
        key = ev["k"] + (":" + ev["out"] if ev["out"] != "ok" else "")
        self.cover[key] = self.cover.get(key, 0) + 1

    def close(self):
        self.f.close()


class Timeout(Exception):
    pass


def _alarm(sig, frame):
    raise Timeout()


class limit:
    """A time limit on one call of the code under test, so that an endless loop shows as an outcome"""

    hangs = 0

    def __init__(self, seconds=30):
        self.seconds = seconds if limit.hangs == 0 else 3

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.seconds)

    def __exit__(self, kind, *a):
        signal.alarm(0)
        limit.hangs += kind is Timeout
        return False


class watch:
    """The same for a whole program, in processor time: an observation may not end either"""

    def __init__(self, seconds=90):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 5)

    def __exit__(self, kind, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        limit.hangs += kind is Timeout
        return False
