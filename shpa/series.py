"""Sums over loops, chunks of arrays and statistics of chunked data, on terms."""

from fractions import Fraction

from . import terms as T
from .lin import whole

K = T.k
NONE = K(None)
ALL = {("slice", K(0), NONE, NONE), ("slice", NONE, NONE, NONE), ("slice", K(0), NONE, K(1))}
COPIES = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "list", "float", "numpy.float64"}


def full(t):
    """without abbreviations, copies and whole slices"""
    t = T.subst(t, {})
    for _ in range(4):
        m = {}
        for x in T.subterms(t):
            if x[:1] == ("item",) and len(x) == 3 and x[2] in ALL:
                m[x] = x[1]
            elif x[:1] == ("call",) and x[1] in COPIES and len(x[2]) == 1 and not x[3]:
                m[x] = x[2][0]
        if not m:
            return t
        t = T.subst(t, m)
    return t


def length_of(t, arr):
    """is this the (leading) length of one of these arrays?"""
    for a in arr:
        if t in {("call", "len", (a,), ()), ("attr", a, "size"), ("item", ("attr", a, "shape"), K(0))}:
            return True
    return False


def rounding(t, names):
    while t[0] == "call" and isinstance(t[1], str) and t[1].split(".")[-1] in names and len(t[2]) == 1:
        t = t[2][0]
    return t


def chunk(sl, arr, extra=0):
    """(loop element, stride) when the loop with this slice of it visits the whole array, each item once (plus `extra`
    items of the next chunk); otherwise the reason why not"""
    if sl[:1] != ("slice",):
        return "no slice"
    lo, hi, stride = sl[1], sl[2], sl[3]
    es = [x for x in T.subterms(lo) if x[:1] == ("elem",)]
    if len(es) != 1 or es[0][1][:1] != ("range",):
        return "not cut by a counting loop"
    e = es[0]
    _, a, b, s = e[1]
    p = dict(T.to_poly(lo))
    scale = T.sub(T.subst(lo, {e: T.add(e, K(1))}), lo)  # lo is linear in e
    if T.contains(scale, lambda x: x == e) or not p:
        return "start is not linear"
    if T.subst(lo, {e: a}) != K(0):
        return "does not start with the first sample"
    width = T.mul(scale, s)
    want = T.add(T.add(lo, width), K(extra))
    if hi != want and not (hi[0] == "min" and isinstance(hi[1], tuple) and len(hi[1]) == 2 and want in hi[1] and any(length_of(x, arr) for x in hi[1])):
        return "chunks overlap or leave gaps"
    end = b
    if length_of(end, arr) and scale == K(1):
        return e, stride
    r = rounding(end, {"int", "round"})
    if r[0] == "call" and r[1].split(".")[-1] == "ceil" and len(r[2]) == 1 and s == K(1):
        q = T.mul(r[2][0], scale)
        if length_of(q, arr):
            return e, stride
    return "does not end with the last sample"


def loop_sum(o, t):
    """[(loop element, addend)] of a sum over a loop; each addend with the loop-invariant factors; None otherwise"""
    t = full(t)
    x = running(o, t)
    if x is not None:
        return [x]
    out = []
    for m, c in T.to_poly(t).items():
        sums, rest = [], ("k", "num", c)
        for at, ex in m:
            x = one_sum(o, at)
            if x is not None and ex == 1:
                sums.append(x)
            else:
                rest = T.mul(rest, T.power(at, ex))
        if len(sums) != 1:
            return None
        out += [(e, T.mul(a, rest)) for e, a in sums[0]]
    return out


def one_sum(o, at):
    if at[0] == "call" and at[1] in {"sum", "math.fsum", "numpy.sum"} and len(at[2]) == 1:
        x = at[2][0]
        if x[0] in {"list", "tuple", "gen"} and isinstance(x[1], tuple):
            res = []
            for y in x[1]:
                if y[0] != "star" or y[2][:1] != ("for",) or len(y[2][1]) != 1 or len(y) > 3:
                    return None
                res.append((y[2][1][0], y[1]))
            return res
    return None


def running(o, t):
    """total kept in a variable of a loop"""
    for lv in sorted({x for x in T.subterms(t) if x[:1] == ("lv",) and len(x) == 3}, key=repr):
        before = [dict(x.kws).get(lv[2]) for x in o.events if x.kind == "loop" and x.name == lv[1]]
        after = [dict(x.kws).get(lv[2]) for x in o.events if x.kind == "carry" and x.name == lv[1]]
        if len(before) != 1 or len(after) != 1 or None in before + after or full(before[0]) != K(0):
            continue
        add = T.sub(full(after[0]), lv)
        scale = T.to_poly(t).get(((lv, 1),))
        es = T.free_elems(add)
        if T.contains(add, lambda x, v=lv: x == v) or scale is None or len(es) != 1:
            continue
        scale = ("k", "num", scale)
        if T.mul(full(after[0]), scale) == t or T.mul(lv, scale) == t:
            return es.pop(), T.mul(add, scale)
    return None


def array_sum(t):
    """elementwise addend of a (scaled) sum over an array"""
    t = full(t)
    acc = K(0)
    for m, c in T.to_poly(t).items():
        term, found = ("k", "num", c), 0
        for at, ex in m:
            x = None
            if at[0] == "mcall" and at[2] == "sum" and not at[3]:
                x = at[1]
            elif at[0] == "call" and at[1] in {"numpy.sum", "sum", "numpy.nansum"} and len(at[2]) == 1 and not at[3]:
                x = at[2][0]
            elif at[0] == "call" and at[1] in {"numpy.dot", "numpy.vdot", "numpy.inner"} and len(at[2]) == 2:
                x = T.mul(*at[2])
            elif at[0] == "matmul" and len(at) == 3:
                x = T.mul(at[1], at[2])
            if x is not None and ex == 1:
                found += 1
                term = T.mul(term, x)
            else:
                term = T.mul(term, T.power(at, ex))
        if found != 1:
            return None
        acc = T.add(acc, term)
    return acc


# ---------------------------------------------------------------- statistics over chunks
N, P1, P2, SD, LOW, HIGH = (("chunk", x) for x in ("n", "p1", "p2", "sd", "min", "max"))


class Stats:
    """Evaluates statistics of chunks to sums over the chunks of their counts, sums and sums of squares."""

    def __init__(self, data_of):
        self.data_of = data_of  # term -> True if this is the data of one chunk
        self.loops = set()
        self.used = set()

    def chunk_value(self, c):
        """per-chunk value as polynomial over the chunk atoms"""

        def one(at):
            h = at[0] if at else None
            a = at[2][0] if h == "call" and at[2] else None
            n = at[1].split(".")[-1] if h == "call" and isinstance(at[1], str) else at[2] if h == "mcall" and not at[3] else None
            d = at[1] if h == "mcall" else a
            if n in {"mean", "average", "std", "var", "sum", "min", "max", "amin", "amax", "len"} and d is not None and self.is_data(d):
                return {
                    "mean": T.div(P1, N),
                    "average": T.div(P1, N),
                    "sum": P1,
                    "std": SD,
                    "var": T.mul(SD, SD),
                    "min": LOW,
                    "amin": LOW,
                    "max": HIGH,
                    "amax": HIGH,
                    "len": N,
                }[n]
            if n in {"sum"} and d is not None:
                # sum of squares
                q = T.to_poly(d)
                if len(q) == 1:
                    (m, cc), = q.items()
                    if len(m) == 1 and m[0][1] == 2 and self.is_data(m[0][0]):
                        return T.mul(("k", "num", cc), P2)
            if h == "attr" and at[2] == "size" and self.is_data(at[1]):
                return N
            if h == "item" and at[1][0] == "attr" and at[1][2] == "shape" and at[2] == K(0) and self.is_data(at[1][1]):
                return N
            return None

        m = {}
        if self.is_data(c):
            return None
        for x in T.subterms(c):
            v = one(x)
            if v is not None:
                m[x] = v
        return T.subst(c, m)

    def is_data(self, x):
        ok = self.data_of(x)
        if ok:
            self.used.add(x)
        return ok

    def columns(self, t):
        """term of one column (a vector over the chunks) -> per-chunk value"""
        if t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "star" and t[1][0][2][:1] == ("for",) and len(t[1][0]) == 3:
            self.loops |= {tuple(t[1][0][2][1])}
            return self.chunk_value(t[1][0][1])
        if t[0] != "item":
            return None
        base, idx = t[1], t[2]
        if base[0] == "call" and base[1] in {"numpy.stack", "numpy.array", "numpy.asarray", "numpy.vstack"} and len(base[2]) == 1:
            base = base[2][0]
        if base[0] != "list" or len(base[1]) != 1 or base[1][0][0] != "star" or len(base[1][0]) != 3:
            return None
        row, fr = base[1][0][1], base[1][0][2]
        if idx[0] == "tuple" and len(idx[1]) == 2 and idx[1][0] in ALL and T.is_k(idx[1][1]) and row[0] in {"list", "tuple"}:
            self.loops |= {tuple(fr[1])}
            j = int(idx[1][1][2])
            return self.chunk_value(row[1][j]) if j < len(row[1]) else None
        return None

    def vec(self, t):
        """(value, is a vector)"""
        c = self.columns(t)
        if c is not None:
            return c
        if t[0] == "poly":
            acc = K(0)
            for m, c in T.to_poly(t).items():
                term = ("k", "num", c)
                for at, e in m:
                    v = self.columns(at)
                    if v is None:
                        v = self.scalar(at)
                    if v is None:
                        return None
                    term = T.mul(term, T.power(v, e))
                acc = T.add(acc, term)
            return acc
        return self.scalar(t)

    def total(self, v):
        """sum over the chunks"""
        # sd² = p2/n - (p1/n)²
        acc = K(0)
        for m, c in T.to_poly(v).items():
            term = ("k", "num", c)
            for at, e in m:
                if at == SD and e % 2 == 0 and e > 0:
                    var = T.sub(T.div(P2, N), T.power(T.div(P1, N), 2))
                    term = T.mul(term, T.power(var, e // 2))
                else:
                    term = T.mul(term, T.power(at, e))
            acc = T.add(acc, term)
        out = K(0)
        for m, c in T.to_poly(acc).items():
            inner, outer = K(1), ("k", "num", c)
            for at, e in m:
                if at[0] == "chunk":
                    inner = T.mul(inner, T.power(at, e))
                else:
                    outer = T.mul(outer, T.power(at, e))
            out = T.add(out, T.mul(outer, ("total", inner)))
        return out

    def scalar(self, t):
        if t[0] == "k" or t[0] == "total":
            return t
        n = d = None
        kws = {}
        if t[0] == "call" and isinstance(t[1], str):
            n = t[1].split(".")[-1]
            kws = dict(t[3])
            args = t[2]
        elif t[0] == "mcall":
            n = t[2]
            args = (t[1], *t[3])
            kws = dict(t[4]) if len(t) > 4 else {}
        if n in {"average", "mean"} and args:
            w = kws.get("weights", args[2] if n == "average" and len(args) > 2 else None)
            v = self.vec(args[0])
            wv = K(1) if w is None else self.vec(w)
            if v is None or wv is None:
                return None
            return T.div(self.total(T.mul(v, wv)), self.total(wv))
        if n in {"sum", "fsum"} and args:
            v = self.vec(args[0])
            return None if v is None else self.total(v)
        if n == "dot" and len(args) == 2:
            a, b = self.vec(args[0]), self.vec(args[1])
            return None if a is None or b is None else self.total(T.mul(a, b))
        if n in {"min", "amin", "max", "amax"} and args:
            v = self.vec(args[0])
            return None if v is None else (n[-3:], v)
        if t[0] == "poly":
            acc = K(0)
            for m, c in T.to_poly(t).items():
                term = ("k", "num", c)
                for at, e in m:
                    v = self.scalar(at)
                    if v is None:
                        return None
                    term = T.mul(term, T.power(v, e))
                acc = T.add(acc, term)
            return acc
        if t[0] == "inv":
            v = self.scalar(t[1])
            return None if v is None else T.inv(v)
        return None

    def square(self, t):
        """the square of a root"""
        if t[0] == "call" and isinstance(t[1], str) and t[1].split(".")[-1] == "sqrt" and len(t[2]) == 1:
            return self.scalar(t[2][0])
        if t[0] == "pow" and len(t) == 3 and t[2] == ("k", "num", Fraction(1, 2)):
            return self.scalar(t[1])
        return None


MEAN = T.div(("total", P1), ("total", N))
VARIANCE = T.sub(T.div(("total", P2), ("total", N)), T.power(MEAN, 2))


# ---------------------------------------------------------------- running positions and whole numbers
def closed(o, t, e):
    """variables of the loop over e which advance by the same amount in each round, as function of e"""
    t = full(t)
    if e[:1] != ("elem",) or e[1][:1] != ("range",):
        return t
    for _ in range(4):
        m = {}
        for lv in {x for x in T.subterms(t) if x[:1] == ("lv",) and len(x) == 3}:
            before = [dict(x.kws).get(lv[2]) for x in o.events if x.kind == "loop" and x.name == lv[1]]
            after = [dict(x.kws).get(lv[2]) for x in o.events if x.kind == "carry" and x.name == lv[1]]
            if len(before) != 1 or len(after) != 1 or None in before + after:
                continue
            add = T.sub(full(after[0]), lv)
            if any(x[:1] == ("lv",) or x == e for x in T.subterms(add)):
                continue
            n = T.mul(T.sub(e, e[1][1]), T.inv(e[1][3]))
            m[lv] = T.add(full(before[0]), T.mul(add, n))
        if not m:
            return t
        t = full(T.subst(t, m))
    return t


def ints(t):
    """rounding of whole numbers is left out, minima and maxima of the same value collapse"""
    t = T.subst(t, {})
    for _ in range(4):
        m = {}
        for x in T.subterms(t):
            if x[:1] == ("call",) and isinstance(x[1], str) and len(x[2]) == 1 and not x[3] and x[1].split(".")[-1] in _ROUNDS:
                y = cancel(x[2][0])
                if whole(_as_poly(y)):
                    m[x] = y
        if not m:
            return t
        t = T.subst(t, m)
    return t


def cancel(t):
    """sums over their own value"""
    p = T.to_poly(t)
    for m in p:
        for at, e in m:
            body = at[1] if at[0] == "inv" else at if at[0] == "poly" and e < 0 else None
            if body is None or not all((at, e) in n for n in p):
                continue
            num = T.from_poly({tuple(f for f in n if f != (at, e)): c for n, c in p.items()})
            for k, c in T.to_poly(body).items():
                r = dict(T.to_poly(num)).get(k, 0) / c
                if r and num == T.mul(("k", "num", r), body):
                    return ("k", "num", r)
    return t


_ROUNDS = {"int", "round", "floor", "ceil", "trunc", "rint"}


def _as_poly(t):
    return t if t[0] in {"poly", "k"} else ("poly", tuple(T.to_poly(t).items()))
