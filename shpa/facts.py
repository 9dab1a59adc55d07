"""Atoms (predicates over terms), facts and the interval domain."""

import functools
import math
from fractions import Fraction

from . import terms as T

ZERO = Fraction(0)


def _norm(poly_term, allow_neg):
    """Scale so that the leading non-constant coefficient is +-1."""
    p = T.to_poly(poly_term)
    nc = sorted((m for m in p if m), key=lambda m: T._key(m))
    if not nc:
        return poly_term
    c = p[nc[0]]
    s = c if allow_neg else abs(c)
    return T.from_poly({m: v / s for m, v in p.items()})


@functools.lru_cache(maxsize=50000)
def pos(t):
    """Atom 't > 0'."""
    if T.is_k(t) and t[1] == "num":
        return t[2] > 0
    return ("pos", _norm(t, False))


@functools.lru_cache(maxsize=50000)
def zero(t):
    if T.is_k(t) and t[1] == "num":
        return t[2] == 0
    return ("zero", _norm(t, True))


def _plain(t):
    """str-enums compare like their value."""
    if t[0] == "k" and t[1] == "enum" and t[2][3]:
        return T.k(t[2][2])
    return t


def cmp_atom(op, a, b):
    """-> (atom or bool, polarity)."""
    if op in {"is", "is not", "==", "!="}:
        pol = op in {"is", "=="}
        a, b = _plain(a), _plain(b)
        if a == b and a[0] not in {"ext"}:
            return (True, pol)
        none = T.k(None)
        if b == none or a == none:
            x = a if b == none else b
            if T.is_k(x) or x[0] in {"tuple", "list", "dict", "fn", "cls", "fstr", "poly"}:
                return (False, pol)
            return (("isnone", x), pol)
        ka, kb = T.is_k(a), T.is_k(b)
        if ka and kb:
            return (a[2] == b[2] and (a[1] == b[1] or {a[1], b[1]} <= {"num", "bool"}), pol)
        for x, y in ((a, b), (b, a)):
            if T.is_k(x) and x[1] == "bool":
                return _truth(y, pol if x[2] else not pol)
        if (ka and a[1] != "num") or (kb and b[1] != "num") or a[0] in _NONNUM or b[0] in _NONNUM:
            if ka or (not kb and T._key(a) > T._key(b)):
                a, b = b, a
            return (("eq", a, b), pol)
        return (zero(T.sub(a, b)), pol)
    if op in {"<", ">="}:
        return counted(pos(T.sub(b, a)), op == "<")
    if op in {">", "<="}:
        return counted(pos(T.sub(a, b)), op == ">")
    raise ValueError(op)


def is_count(t):
    """numbers of entries: never negative, never broken"""
    return t[0] == "call" and t[1] == "len" or t[0] == "item" and t[1][0] == "attr" and t[1][2] == "shape"


def counted(a, pol):
    """One form for the ways to compare a number of entries: L < 1, L <= 0 and L == 0 are the same."""
    if a is True or a is False:
        return a, pol
    p = T.to_poly(a[1])
    ls = [m for m in p if m]
    if len(ls) == 1 and len(ls[0]) == 1 and ls[0][0][1] == 1 and is_count(ls[0][0][0]):
        x, c, k = ls[0][0][0], p[ls[0]], p.get((), 0)
        if c == 0:
            return a, pol
        k = k / abs(c)
        if c > 0 and k == 0:  # L > 0
            return zero(x), not pol
        if c < 0 and k == 1:  # L < 1
            return zero(x), pol
        if c < 0 and k >= 2 and k == int(k):  # L < k
            return pos(T.sub(x, T.k(int(k) - 1))), not pol
    return a, pol


_NONNUM = {"tuple", "list", "dict", "fstr", "enum", "cls", "fn", "pathjoin", "path", "ext", "set"}


def _truth(t, pol=True):
    if t[0] == "atom":
        return (t[1], pol)
    if t[0] == "natom":
        return (t[1], not pol)
    if T.is_k(t):
        return (bool(t[2]) if t[1] != "enum" else True, pol)
    if t[0] in {"fn", "cls", "new"}:
        return (True, pol)
    if t[0] in {"list", "tuple", "dict", "set"} and isinstance(t[1], tuple):
        if not any(x and x[0] in {"star", "unknown"} for x in t[1]):
            return (bool(t[1]), pol)
        return (("true", t), pol)
    if t[0] == "call" and t[1] == "len":
        return (zero(t), not pol)
    if t[0] == "call" and t[1] == "bool" and len(t[2]) == 1:
        return _truth(t[2][0], pol)
    if t[0] == "poly":
        return (zero(t), not pol)
    return (("true", t), pol)


truth_atom = _truth


# ---------------------------------------------------------------- intervals
# interval = (lo, lo_open, hi, hi_open), None = unbounded

FULL = (None, True, None, True)


def point(c):
    return (c, False, c, False)


def meet(a, b):
    lo, lopen = a[0], a[1]
    if b[0] is not None and (lo is None or b[0] > lo or (b[0] == lo and b[1])):
        lo, lopen = b[0], b[1]
    hi, hopen = a[2], a[3]
    if b[2] is not None and (hi is None or b[2] < hi or (b[2] == hi and b[3])):
        hi, hopen = b[2], b[3]
    return (lo, lopen, hi, hopen)


def hull(a, b):
    if a[0] is None or b[0] is None:
        lo, lopen = None, True
    elif a[0] == b[0]:
        lo, lopen = a[0], a[1] and b[1]
    else:
        lo, lopen = (a[0], a[1]) if a[0] < b[0] else (b[0], b[1])
    if a[2] is None or b[2] is None:
        hi, hopen = None, True
    elif a[2] == b[2]:
        hi, hopen = a[2], a[3] and b[3]
    else:
        hi, hopen = (a[2], a[3]) if a[2] > b[2] else (b[2], b[3])
    return (lo, lopen, hi, hopen)


def iadd(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
    return (lo, lo is None or a[1] or b[1], hi, hi is None or a[3] or b[3])


def iscale(a, c):
    if c == 0:
        return point(ZERO)
    lo = None if a[0] is None else a[0] * c
    hi = None if a[2] is None else a[2] * c
    if c > 0:
        return (lo, a[1], hi, a[3])
    return (hi, a[3], lo, a[1])


def imul(a, b):
    ends = []
    for x, xo, xi in ((a[0], a[1], -1), (a[2], a[3], 1)):
        for y, yo, yi in ((b[0], b[1], -1), (b[2], b[3], 1)):
            if x is not None and y is not None:
                op = (xo or yo) and not ((x == 0 and not xo) or (y == 0 and not yo))
                ends.append((x * y, op, 0))
            else:
                sx = xi if x is None else (x > 0) - (x < 0)
                sy = yi if y is None else (y > 0) - (y < 0)
                s = sx * sy
                if s == 0:
                    op = (xo if x is not None else True) and (yo if y is not None else True)
                    ends.append((ZERO, False if not op else True, 0))
                else:
                    ends.append((None, True, s))
    lo, lopen, hi, hopen = None, True, None, True
    if not any(e[0] is None and e[2] < 0 for e in ends):
        vs = [e for e in ends if e[0] is not None]
        if vs:
            lo = min(e[0] for e in vs)
            lopen = all(e[1] for e in vs if e[0] == lo)
    if not any(e[0] is None and e[2] > 0 for e in ends):
        vs = [e for e in ends if e[0] is not None]
        if vs:
            hi = max(e[0] for e in vs)
            hopen = all(e[1] for e in vs if e[0] == hi)
    return (lo, lopen, hi, hopen)


def iinv(a):
    if a[0] is not None and (a[0] > 0 or (a[0] == 0 and a[1])):
        hi = None if a[0] == 0 else 1 / a[0]
        lo = ZERO if a[2] is None else 1 / a[2]
        return (lo, True if a[2] is None else a[3], hi, True if hi is None else a[1])
    if a[2] is not None and (a[2] < 0 or (a[2] == 0 and a[3])):
        return iscale(iinv(iscale(a, -1)), -1)
    return FULL


def ipow(a, n):
    if n < 0:
        return iinv(ipow(a, -n))
    if n % 2 == 0:
        h = ipow(a, n // 2) if n > 2 else a
        r = imul(h, h)
        return meet(r, (ZERO, False, None, True))
    r = a
    for _ in range(n - 1):
        r = imul(r, a)
    return r


def _trunc(v):
    return Fraction(int(v))


def is_root(t):
    """a square root"""
    half = ("k", "num", Fraction(1, 2))
    if t[0] == "pow":
        return t[2] == half
    if t[0] != "call" or len(t) < 4 or t[3]:
        return False
    n = t[1].split(".")[-1]
    return n == "sqrt" and len(t[2]) == 1 or n in {"pow", "power"} and len(t[2]) == 2 and t[2][1] == half


class Bounds:
    """Interval evaluation of terms under facts (+ table of declared ranges)."""

    def __init__(self, facts, declared=None, integer=None):
        self.declared = declared or {}
        self.lin = {}  # nonconst poly (normalised to leading coeff 1) -> interval
        for atom, val in facts.items():
            if atom[0] in {"pos", "zero"}:
                self._learn(atom, val)
        self.neq = {}
        self.cache = {}
        self.eqs = {a[1]: a[2] for a, v in facts.items() if a[0] == "eq" and v and T.is_k(a[2])}

    def _learn(self, atom, val):
        p = T.to_poly(atom[1])
        c0 = p.pop((), ZERO)
        if not p:
            return
        lead = p[sorted(p, key=lambda m: T._key(m))[0]]
        base = tuple(sorted(((m, c / lead) for m, c in p.items()), key=lambda it: T._key(it[0])))
        th = -c0 / lead  # lead*(x - th) <> 0
        if atom[0] == "zero":
            if not val:
                iv = self.lin.get(base, FULL)
                # x != bound sharpens a closed bound
                if iv[0] == th:
                    self.lin[base] = (iv[0], True, iv[2], iv[3])
                elif iv[2] == th:
                    self.lin[base] = (iv[0], iv[1], iv[2], True)
                elif th == 0 and len(base) == 1 and len(base[0][0]) == 1 and base[0][0][0][1] == 1 and is_count(base[0][0][0][0]):
                    self.lin[base] = meet(iv, (Fraction(1), False, None, True))
                return
            iv = point(th)
        elif (lead > 0) == val:
            iv = (th, val, None, True)  # x > th  or (neg lead, false) x >= th
        else:
            iv = (None, True, th, val)
        self.lin[base] = meet(self.lin.get(base, FULL), iv)

    def of(self, t):
        r = self.cache.get(t)
        if r is None:
            self.cache[t] = FULL
            r = self.cache[t] = self._of(t)
        return r

    def _of(self, t):
        if t[0] == "k":
            return point(t[2]) if t[1] == "num" else (point(Fraction(int(t[2]))) if t[1] == "bool" else FULL)
        if t in self.eqs and self.eqs[t][1] == "num":
            return point(self.eqs[t][2])
        if t[0] == "vn":
            r = self.of(T.expand1(t))
            base = (((((t, 1),)), Fraction(1)),)
            if base in self.lin:
                r = meet(r, self.lin[base])
            return r
        p = T.to_poly(t)
        acc = point(ZERO)
        single = len(p) == 1 and next(iter(p)) == ((t, 1),)
        if single:
            acc = self._atom(t)
        else:
            for m, c in p.items():
                iv = point(Fraction(1))
                for at, e in m:
                    iv = imul(iv, ipow(self.of(at), e))
                acc = iadd(acc, iscale(iv, c))
        # linear facts over the same non-constant part
        q = dict(p)
        c0 = q.pop((), ZERO)
        if q:
            lead = q[sorted(q, key=lambda m: T._key(m))[0]]
            base = tuple(sorted(((m, c / lead) for m, c in q.items()), key=lambda it: T._key(it[0])))
            if base in self.lin:
                acc = meet(acc, iadd(iscale(self.lin[base], lead), point(c0)))
        return acc

    def _atom(self, t):
        iv = self.declared.get(t, FULL)
        h = t[0]
        r = FULL
        if h in {"min", "max"}:
            ivs = [self.of(x) for x in t[1]]
            lo, hi = [i[0] for i in ivs], [i[2] for i in ivs]
            if h == "min":
                l_ = None if any(x is None for x in lo) else min(lo)
                hs = [x for x in hi if x is not None]
                h_ = min(hs) if hs else None
                r = (l_, l_ is None, h_, h_ is None)
            else:
                ls = [x for x in lo if x is not None]
                l_ = max(ls) if ls else None
                h_ = None if any(x is None for x in hi) else max(hi)
                r = (l_, l_ is None, h_, h_ is None)
        elif is_root(t):  # real roots only, complex ones are not ordered
            x = self.of(t[1] if h == "pow" else t[2][0])
            lo, hi = (None if v is None or v < 0 else Fraction(math.isqrt(int(v * 10**12)) + e, 10**6) for v, e in ((x[0], 0), (x[2], 1)))
            if hi is not None and x[2] in {0, 1}:
                hi = x[2]
            r = (lo or ZERO, False, hi, hi is None)
        elif h == "call" and len(t[2]) >= 1:
            n = t[1].split(".")[-1]
            if n in {"round", "rint"} and len(t[2]) == 1:
                i = self.of(t[2][0])
                r = (None if i[0] is None else Fraction(round(i[0])), i[0] is None, None if i[2] is None else Fraction(round(i[2])), i[2] is None)
            elif n in {"int", "trunc"}:
                i = self.of(t[2][0])
                r = (None if i[0] is None else _trunc(i[0]), i[0] is None, None if i[2] is None else _trunc(i[2]), i[2] is None)
            elif n in {"floor", "ceil"}:

                f = math.floor if n == "floor" else math.ceil
                i = self.of(t[2][0])
                r = (None if i[0] is None else Fraction(f(i[0])), i[0] is None, None if i[2] is None else Fraction(f(i[2])), i[2] is None)
            elif n in {"abs", "fabs", "absolute"}:
                i = self.of(t[2][0])
                if i[0] is not None and i[0] >= 0:
                    r = i
                elif i[2] is not None and i[2] <= 0:
                    r = iscale(i, -1)
                else:
                    m = None if i[0] is None or i[2] is None else max(-i[0], i[2])
                    r = (ZERO, False, m, m is None)
            elif n == "expm1":
                i = self.of(t[2][0])
                r = (ZERO, bool(i[1] or i[0] > 0), None, True) if i[0] is not None and i[0] >= 0 else (Fraction(-1), True, None, True)
            elif n in {"len", "sqrt", "exp", "bit_length"}:
                r = (ZERO, False, None, True)
        elif h == "mcall" and t[2] == "bit_length":
            r = (ZERO, False, None, True)
        elif h == "floordiv":

            i = imul(self.of(t[1]), iinv(self.of(t[2])))
            r = (None if i[0] is None else Fraction(math.floor(i[0])), i[0] is None, None if i[2] is None else Fraction(math.floor(i[2])), i[2] is None)
        elif h == "mod":
            d = self.of(t[2])
            if d[0] is not None and d[0] >= 0 and d[2] is not None:
                r = (ZERO, False, d[2], True)
            n = self.of(t[1])
            if r[0] is not None and n[0] is not None and n[0] >= 0 and n[2] is not None and d[0] is not None and n[2] < d[0]:
                r = n
        elif h == "bitand":
            for x in (t[1], t[2]):
                i = self.of(x)
                if i[0] is not None and i[0] >= 0:
                    r = meet(r, (ZERO, False, i[2], False))
        elif h == "elem" and t[1][0] == "range":
            a, b = self.of(t[1][1]), self.of(t[1][2])
            stp = t[1][3]
            if T.is_k(stp) and stp[2] > 0:
                hi = None if b[2] is None else b[2] - 1
                r = (a[0], a[1], hi, hi is None)
        elif h == "inv":
            r = iinv(self.of(t[1]))
        elif h == "phi":
            r = None
            for x in t[1]:
                i = self.of(x)
                r = i if r is None else hull(r, i)
            r = r or FULL
        return meet(iv, r)


@functools.lru_cache(maxsize=2000)
def _bounds_cached(key):
    return Bounds(dict(key))


_bcache = {}


def bounds(facts, declared=None):
    key = (id(facts), len(facts), id(declared), len(declared or ()))
    b = _bcache.get(key)
    if b is None or b[0] is not facts:
        if len(_bcache) > 3000:
            _bcache.clear()
        b = (facts, Bounds(facts, declared))
        _bcache[key] = b
    return b[1]


def decide(facts, atom, declared=None):
    """True / False / None."""
    if isinstance(atom, bool):
        return atom
    if atom in facts:
        return facts[atom]
    h = atom[0]
    if h == "pos":
        iv = bounds(facts, declared).of(atom[1])
        if iv[0] is not None and (iv[0] > 0 or (iv[0] == 0 and iv[1])):
            return True
        if iv[2] is not None and iv[2] <= 0:
            return False
        return None
    if h == "zero":
        iv = bounds(facts, declared).of(atom[1])
        if iv[0] is not None and (iv[0] > 0 or (iv[0] == 0 and iv[1])):
            return False
        if iv[2] is not None and (iv[2] < 0 or (iv[2] == 0 and iv[3])):
            return False
        if iv[0] is not None and iv[0] == iv[2]:
            return iv[0] == 0
        neg = ("pos", T.neg(atom[1]))
        if facts.get(("pos", atom[1])) or facts.get(neg):
            return False
        if facts.get(("isnone", atom[1])):
            return False
        return None
    if h == "eq":
        a, b = atom[1], atom[2]
        if T.is_k(b):
            for f, v in facts.items():
                if v and f[0] == "eq" and f[1] == a and T.is_k(f[2]) and f[2] != b:
                    return False
            if facts.get(("isnone", a)):
                return False
        return None
    if h == "isnone":
        t = atom[1]
        if facts.get(("true", t)):
            return False
        for f, v in facts.items():
            if v and f[0] == "eq" and f[1] == t and T.is_k(f[2]):
                return False
            if v and f[0] in {"isinst"} and f[1] == t and f[2] != "NoneType":
                return False
            if f[0] == "pos" and f[1] == t:
                return False
            if v and f[0] == "zero" and f[1] == t:
                return False
        return None
    if h == "true":
        if facts.get(("isnone", atom[1])):
            return False
        for f, v in facts.items():
            if v and f[0] == "eq" and f[1] == atom[1] and T.is_k(f[2]):
                return bool(f[2][2])
            if v and f[0] == "pos" and f[1] == atom[1]:
                return True
            if f[0] == "zero" and f[1] == atom[1]:
                return not v
        iv = bounds(facts, declared).of(atom[1])
        if (iv[0] is not None and (iv[0] > 0 or (iv[0] == 0 and iv[1]))) or (iv[2] is not None and (iv[2] < 0 or (iv[2] == 0 and iv[3]))):
            return True
        return None
    if h == "isinst":
        if facts.get(("isnone", atom[1])):
            return atom[2] == "NoneType"
        return None
    return None
