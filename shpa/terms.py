"""Terms of the abstract domain: hash-consed value numbers with an algebraic normal form.

A term names a runtime value by how it was computed.  Numeric terms are kept as Laurent
polynomials with rational coefficients, so algebraically equal computations get the same
name (value numbering).  Decimal literals are read as the exact decimal they spell.
"""

import math
from fractions import Fraction

NUM = (int, float, Fraction)


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return None
        return Fraction(repr(v))
    return None


def k(v):
    """Term of a constant."""
    f = frac(v) if isinstance(v, NUM) and not isinstance(v, bool) else None
    if f is not None:
        return ("k", "num", f)
    if isinstance(v, (list, set, dict)):
        return ("k", "other", repr(v))
    return ("k", type(v).__name__, v)


def is_k(t):
    return t[0] == "k"


def kval(t):
    return t[2]


def to_poly(t):
    if t[0] == "k":
        if t[1] == "num":
            return {(): t[2]} if t[2] else {}
        if t[1] == "bool":
            return {(): Fraction(1)} if t[2] else {}
    if t[0] == "poly":
        return dict(t[1])
    return {((t, 1),): Fraction(1)}


_key_cache = {}


def _key(x):
    r = _key_cache.get(x)
    if r is None:
        r = repr(x)
        if len(_key_cache) > 200000:
            _key_cache.clear()
        _key_cache[x] = r
    return r


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ("k", "num", Fraction(0))
    if len(p) == 1:
        ((m, c),) = p.items()
        if not m:
            return ("k", "num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("poly", tuple(sorted(p.items(), key=lambda it: _key(it[0]))))


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def _mono_mul(a, b):
    d = {}
    for at, e in a + b:
        d[at] = d.get(at, 0) + e
    return tuple(sorted(((at, e) for at, e in d.items() if e), key=lambda it: _key(it[0])))


def p_mul(a, b):
    if len(a) * len(b) > 60:
        return None
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def add(a, b):
    return from_poly(p_add(to_poly(a), to_poly(b)))


def sub(a, b):
    return from_poly(p_add(to_poly(a), to_poly(b), -1))


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def mul(a, b):
    r = p_mul(to_poly(a), to_poly(b))
    return ("bin", "*", a, b) if r is None else from_poly(r)


def inv(a):
    p = to_poly(a)
    if len(p) == 1:
        ((m, c),) = p.items()
        return from_poly({tuple((at, -e) for at, e in m): 1 / c})
    if not p:
        return ("inv", a)
    # normalise leading coefficient so that 1/(2a+2b) == 0.5 * 1/(a+b)
    lead = sorted(p.items(), key=lambda it: _key(it[0]))[0][1]
    base = from_poly({m: c / lead for m, c in p.items()})
    return from_poly({((("inv", base), 1),): 1 / lead})


def div(a, b):
    if a == b and not is_k(a):
        return k(1)
    return mul(a, inv(b))


def power(a, n):
    r = k(1)
    for _ in range(abs(n)):
        r = mul(r, a)
    return r if n >= 0 else inv(r)


_vn = {}
_vn_rev = []
CUT = 160


def _bigger(t, limit):
    stack, n = [t], 0
    while stack:
        x = stack.pop()
        n += 1
        if n > limit:
            return True
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return False


def cut(t):
    """Give large terms a short name (value number); their structure stays available."""
    if t[0] in {"k", "vn", "new", "tuple", "list", "dict", "set", "fstr"} or not _bigger(t, CUT):
        return t
    i = _vn.get(t)
    if i is None:
        i = _vn[t] = len(_vn_rev)
        _vn_rev.append(t)
    return ("vn", i)


def expand1(t):
    return _vn_rev[t[1]] if t[0] == "vn" else t


def subst(t, mapping):
    """Replace sub-terms, re-normalising arithmetic."""
    if t in mapping:
        return mapping[t]
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "k":
        return t
    if t[0] == "poly":
        acc = k(0)
        for m, c in t[1]:
            term = ("k", "num", c)
            for at, e in m:
                term = mul(term, power(subst(at, mapping), e))
            acc = add(acc, term)
        return acc
    if t[0] == "vn":
        return subst(_vn_rev[t[1]], mapping)
    if t[0] == "inv":
        return inv(subst(t[1], mapping))
    return tuple(subst(x, mapping) if isinstance(x, tuple) else x for x in t)


def subterms(t):
    """All sub-terms (tuples), including t."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        if x and x[0] == "vn" and len(x) == 2:
            stack.append(_vn_rev[x[1]])
            continue
        yield x
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def _free(t, bound, out, seen):
    if not isinstance(t, tuple) or not t or (t, bound) in seen:
        return
    seen.add((t, bound))
    if t[0] == "vn" and len(t) == 2:
        _free(_vn_rev[t[1]], bound, out, seen)
        return
    if t[0] in {"elem", "idx"} and t not in bound:
        out.add(t)
    if t[0] == "star":
        for y in t[1:]:
            if isinstance(y, tuple) and y and y[0] == "for":
                bound = bound | set(y[1])
    for y in t:
        _free(y, bound, out, seen)


def free_elems(t, bound=()):
    """loop elements a term refers to which are not ranged over inside of it"""
    out = set()
    _free(t, frozenset(bound), out, set())
    return out


def show(t, depth=0):
    """Human-readable form of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 8:
        return "…"
    h = t[0]
    if h == "star" and len(t) >= 2 and t[1]:
        return f"*{show(t[1], depth + 1)}"
    if h == "vn":
        return show(_vn_rev[t[1]], depth + 2)
    s = lambda x: show(x, depth + 1)  # noqa: E731
    if h == "k":
        v = t[2]
        if isinstance(v, Fraction):
            return str(v.numerator) if v.denominator == 1 else f"{float(v):g}"
        return repr(v)
    if h == "poly":
        parts = []
        for m, c in t[1]:
            cs = s(("k", "num", c))
            ms = "*".join(s(a) + (f"^{e}" if e != 1 else "") for a, e in m)
            parts.append(ms if c == 1 and ms else (f"{cs}*{ms}" if ms else cs))
        return "(" + " + ".join(parts) + ")"
    if h in {"param", "global", "new_obj"}:
        return str(t[1])
    if h == "self":
        return "self"
    if h == "attr":
        return f"{s(t[1])}.{t[2]}"
    if h == "item":
        return f"{s(t[1])}[{s(t[2])}]"
    if h in {"call", "mcall"}:
        if h == "call":
            nm, args, kws = t[1], t[2], t[3]
        else:
            nm, args, kws = f"{s(t[1])}.{t[2]}", t[3], t[4]
        a = [s(x) for x in args] + [f"{n}={s(x)}" for n, x in kws]
        return f"{nm}({', '.join(a)})"
    if h == "cmp":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if h == "slice":
        return ":".join("" if x == ("k", "NoneType", None) else s(x) for x in t[1:])
    if h == "tuple":
        return "(" + ", ".join(s(x) for x in t[1]) + ")"
    if h == "fstr":
        return "f'" + "".join(p[2] if p[0] == "k" and isinstance(p[2], str) else "{" + s(p) + "}" for p in t[1]) + "'"
    if h == "elem":
        return f"each({s(t[1])})"
    if h == "new":
        return f"{t[1].split('.')[-1]}({', '.join(f'{n}={s(x)}' for n, x in t[2])})"
    return f"{h}({', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:])})"


def absolute(t):
    """|t| with a fixed sign inside"""
    if is_k(t) and t[1] == "num":
        return k(abs(t[2]))
    p = to_poly(t)
    lead = min((m for m in p if m), key=_key, default=None)
    if t[0] == "poly" and lead is not None and p[lead] < 0:
        t = neg(t)
    return ("call", "abs", (t,), ())
