"""Judging numeric results: clamp( round( core ) ) shapes, however they are written."""

from . import facts as F
from . import terms as T

ROUND = {"round": "nearest", "numpy.around": "nearest", "numpy.round": "nearest", "numpy.rint": "nearest", "int": "trunc", "math.trunc": "trunc", "math.floor": "floor", "numpy.floor": "floor", "math.ceil": "ceil", "numpy.ceil": "ceil", "numpy.trunc": "trunc"}
SAME = {"float", "numpy.float64", "numpy.asarray", "numpy.array"}


def num(x):
    return T.is_k(x) and x[1] == "num"


def shape(t):
    """(lo, hi, core, roundings) of min/max/round nests with constant limits."""
    t = F._plain(t)
    lo = hi = None
    rnd = []
    while True:
        if t[0] == "vn":
            t = T.expand1(t)
        if t[0] in {"min", "max"}:
            ks = [x for x in t[1] if num(x)]
            rest = [x for x in t[1] if not num(x)]
            if len(rest) != 1 or not ks:
                return lo, hi, t, tuple(rnd)
            for x in ks:
                v = x[2]
                # outer limits win: clip the new limit into them
                if t[0] == "max":
                    v = v if hi is None else min(v, hi)
                    lo = v if lo is None else max(lo, v)
                else:
                    v = v if lo is None else max(v, lo)
                    hi = v if hi is None else min(hi, v)
            t = rest[0]
        elif t[0] == "call" and t[1] in ROUND and len(t[2]) == 1:
            rnd.append(ROUND[t[1]])
            t = t[2][0]
        elif t[0] == "call" and t[1] in SAME and len(t[2]) == 1:
            t = t[2][0]
        else:
            return lo, hi, t, tuple(rnd)


def bnd(facts, t, declared=None):
    return F.bounds(facts, declared).of(t)


def masks(o, core):
    """limits enforced by `core[core < lo] = lo` stores on this path"""
    lo = hi = None
    for e in o.events:
        if e.kind != "setitem" or e.recv is None:
            continue
        if shape(e.recv)[2] != core or not num(e.args[1]):
            continue
        v = e.args[1][2]
        c = e.args[0]
        if c[0] not in {"atom", "natom"}:
            continue
        at, pol = c[1], c[0] == "atom"
        below, bpol = F.cmp_atom("<", core, T.k(v))
        above, apol = F.cmp_atom(">", core, T.k(v))
        beloweq, bepol = F.cmp_atom("<=", core, T.k(v))
        aboveeq, aepol = F.cmp_atom(">=", core, T.k(v))
        if (at, pol) in {(below, bpol), (beloweq, bepol)}:
            lo = v
        elif (at, pol) in {(above, apol), (aboveeq, aepol)}:
            hi = v
    return lo, hi


def equals(o, core, lo=None, hi=None, rounding=None, declared=None):
    """Is the returned value clamp(core, lo, hi) (rounded) on this path?  -> (ok, why)"""
    l_, h_, c, rnd = shape(o.term)
    ml, mh = masks(o, c)
    l_ = ml if l_ is None else l_
    h_ = mh if h_ is None else h_
    b = bnd(o.facts, core, declared)
    if rounding is not None and set(rnd) != set(rounding) and not num(c):
        return False, f"rounded by {list(rnd) or 'nothing'}, expected {list(rounding)}"
    if num(c):
        v = c[2]
        if lo is not None and v == lo and b[2] is not None and b[2] <= lo:
            return True, ""
        if hi is not None and v == hi and b[0] is not None and b[0] >= hi:
            return True, ""
        if num(core) and v == core[2]:
            return True, ""
        return False, f"returns the constant {v}"
    if c != core:
        return False, f"computes {T.show(c)[:160]}, expected {T.show(core)[:160]}"
    if lo != l_:
        if lo is None:
            if not (b[0] is not None and b[0] >= l_):
                return False, f"limited to >= {l_}"
        elif not (b[0] is not None and b[0] >= lo) or (l_ is not None and l_ > lo and not (b[0] >= l_)):
            return False, f"lower limit is {l_}, expected {lo}"
    if hi != h_:
        if hi is None:
            if not (b[2] is not None and b[2] <= h_):
                return False, f"limited to <= {h_}"
        elif not (b[2] is not None and b[2] <= hi) or (h_ is not None and h_ < hi and not (b[2] <= h_)):
            return False, f"upper limit is {h_}, expected {hi}"
    return True, ""
