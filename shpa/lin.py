"""Relational numeric domain: linear entailment between (monomials of) terms under the facts of a path.

A polyhedral abstract domain: the facts of a path, declared ranges and the meaning of min / max / round / int are linear
constraints over monomials; products of known-sign factors may be added by the caller."""

import math
from fractions import Fraction

from . import facts as F
from . import terms as T

ONE = ()


def poly(t):
    return dict(T.to_poly(t))


def _atoms_of(p):
    for m in p:
        for at, _e in m:
            yield at


_WHOLE = {"int", "round", "floor", "ceil", "trunc", "len", "rint"}


def whole(at):
    """is this atom integer-valued?"""
    if at[0] == "k":
        return at[1] in {"num", "bool"} and Fraction(at[2]).denominator == 1
    if at[0] == "call" and isinstance(at[1], str):
        return len(at[2]) == 1 and not at[3] and at[1].split(".")[-1] in _WHOLE
    if at[0] in {"min", "max"} and isinstance(at[1], tuple):
        return all(whole(x) for x in at[1])
    if at[0] == "poly":
        return all(c.denominator == 1 and all(e > 0 and whole(x) for x, e in m) for m, c in poly(at).items())
    return at[0] == "floordiv"


def tighten(p, strict):
    """p >= 0 / p > 0 over integers"""
    body = [m for m in p if m != ONE]
    if not body or not all(e > 0 and whole(at) for m in body for at, e in m):
        return p, strict
    den = math.lcm(*(p[m].denominator for m in body))
    g = math.gcd(*(int(p[m] * den) for m in body))
    f = Fraction(den, g)
    q = {m: c * f for m, c in p.items() if m != ONE}
    c = p.get(ONE, Fraction(0)) * f  # q + c >= 0 with integer q
    c = Fraction(math.ceil(c) - 1) if strict else Fraction(math.floor(c))
    if c:
        q[ONE] = c
    return q, False


def choices(at):
    """what a minimum, maximum or absolute value may be"""
    if at[0] in {"min", "max"} and isinstance(at[1], tuple) and len(at[1]) <= 4:
        return at[1]
    if at[0] == "call" and at[1] == "abs" and len(at[2]) == 1:
        return (at[2][0], T.neg(at[2][0]))
    return ()


class Rel:
    def __init__(self, facts, declared=None, extra=()):
        self.facts, self.declared = facts, declared or {}
        self.base = []  # (poly, strict): poly >= 0 / > 0
        for a, v in facts.items():
            self._fact(a, v)
        for c in extra:
            self.base.append(c)
        self.iv = F.bounds(facts, declared)

    def _fact(self, a, v):
        if a[0] == "pos":
            p = poly(a[1])
            self.base.append(tighten(p, True) if v else tighten({m: -c for m, c in p.items()}, False))
        elif a[0] == "zero" and v:
            p = poly(a[1])
            self.base += [(p, False), ({m: -c for m, c in p.items()}, False)]

    def _define(self, at, out, work, picks):
        """constraints which describe an atom"""
        me = {((at, 1),): Fraction(1)}

        def ge(p, q, c=0, strict=False):  # p - q + c >= 0
            d = dict(p)
            for m, x in q.items():
                d[m] = d.get(m, Fraction(0)) - x
            if c:
                d[ONE] = d.get(ONE, Fraction(0)) + c
            out.append(({m: x for m, x in d.items() if x}, strict))
            work.extend(_atoms_of(d))

        b = self.iv.of(at)
        if b[0] is not None:
            ge(me, {}, -b[0], bool(b[1]))
        if b[2] is not None:
            ge({}, me, b[2], bool(b[3]))
        h = at[0]
        if h == "vn":
            e = poly(T.expand1(at))
            if e != me:
                ge(me, e)
                ge(e, me)
        elif h in {"min", "max"}:
            for x in at[1]:
                ge(me, poly(x)) if h == "max" else ge(poly(x), me)
            if at in picks:
                x = poly(picks[at])
                ge(me, x)
                ge(x, me)
        elif h == "call" and len(at[2]) == 1 and not at[3]:
            n = at[1].split(".")[-1]
            x = poly(at[2][0])
            if n in {"round", "rint", "around"}:
                ge(me, x, Fraction(1, 2))
                ge(x, me, Fraction(1, 2))
            elif n in {"floor"}:
                ge(x, me)
                ge(me, x, 1, True)
            elif n == "ceil":
                ge(me, x)
                ge(x, me, 1, True)
            elif n in {"int", "trunc"}:
                i = self.iv.of(at[2][0])
                if i[0] is not None and i[0] >= 0:
                    ge(x, me)
                ge(me, x, 1, True)
                ge(x, me, 1, True)
            elif n in {"abs", "fabs", "absolute"}:
                ge(me, x)
                ge(me, {m: -c for m, c in x.items()})
                if at in picks:
                    ge(poly(picks[at]), me)
        elif h == "floordiv" and T.is_k(at[2]) and at[2][1] == "num" and at[2][2] > 0:
            q = {m: c / at[2][2] for m, c in poly(at[1]).items()}
            ge(q, me)
            ge(me, q, 1, True)

    def _system(self, goal, picks):
        cons = []
        seen = set()
        work = list(_atoms_of(goal))
        rel = list(self.base)
        used = [False] * len(rel)
        while True:
            while work:
                at = work.pop()
                if at in seen:
                    continue
                seen.add(at)
                self._define(at, cons, work, picks)
            # facts which talk about what is relevant
            for i, (p, s) in enumerate(rel):
                if not used[i] and any(a in seen for a in _atoms_of(p)):
                    used[i] = True
                    cons.append((p, s))
                    work.extend(_atoms_of(p))
            if not work:
                break
        # products: range of a monomial from its factors
        monos = {m for p, _ in cons for m in p if len(m) > 1 or (m and m[0][1] != 1)} | {m for m in goal if len(m) > 1 or (m and m[0][1] != 1)}
        for m in monos:
            iv = F.point(Fraction(1))
            for at, e in m:
                iv = F.imul(iv, F.ipow(self.iv.of(at), e))
            if iv[0] is not None:
                cons.append(({m: Fraction(1), ONE: -iv[0]} if iv[0] else {m: Fraction(1)}, bool(iv[1])))
            if iv[2] is not None:
                cons.append(({m: Fraction(-1), ONE: iv[2]} if iv[2] else {m: Fraction(-1)}, bool(iv[3])))
            if len(m) == 2 and m[0][1] == m[1][1] == 1:
                self._mccormick(m, cons)
        return cons, [a for a in seen if choices(a)]

    def _mccormick(self, m, cons):
        """(x - limit of x) * (y - limit of y) has a known sign"""
        (x, _), (y, _) = m
        bx, by = self.iv.of(x), self.iv.of(y)
        for lx, sx in ((bx[0], 1), (bx[2], -1)):
            for ly, sy in ((by[0], 1), (by[2], -1)):
                if lx is None or ly is None:
                    continue
                p = {m: Fraction(1), ((x, 1),): -ly, ((y, 1),): -lx, ONE: lx * ly}
                cons.append(({k: c * sx * sy for k, c in p.items() if c}, False))

    def ge(self, a, b=None, strict=False, depth=7):
        """is a >= b (a > b) on every state of this path?"""
        goal = poly(T.sub(a, b) if b is not None else a)
        return self._prove(goal, strict, {}, depth)

    def gt(self, a, b=None):
        return self.ge(a, b, strict=True)

    def eq(self, a, b):
        return self.ge(a, b) and self.ge(b, a)

    def consistent(self):
        """is there any state in which the facts hold together?"""
        if not hasattr(self, "_cons"):
            goal = {}
            for p, _s in self.base:
                for at in _atoms_of(p):
                    goal[((at, 1),)] = Fraction(1)
            self._cons = self._possible(goal, {}, 5) if goal else not any(p.get(ONE, 0) < 0 for p, _ in self.base)
        return self._cons

    def _possible(self, goal, picks, depth):
        cons, splits = self._system(goal, picks)
        if not feasible(cons):
            return False
        at = next((a for a in splits if a not in picks), None)
        return depth <= 0 or at is None or any(self._possible(goal, {**picks, at: x}, depth - 1) for x in choices(at))

    def _prove(self, goal, strict, picks, depth):
        if not [m for m in goal if m != ONE]:
            c = goal.get(ONE, Fraction(0))
            if c > 0 or (c == 0 and not strict):
                return True
        cons, splits = self._system(goal, picks)
        neg = tighten({m: -c for m, c in goal.items()}, not strict)
        if not feasible([*cons, neg]):
            return True
        if depth <= 0:
            return False
        for at in splits:
            if at in picks:
                continue
            return all(self._prove(goal, strict, {**picks, at: x}, depth - 1) for x in choices(at))
        return False


_MEMO = {}


def feasible(cons):
    """is there a point with p >= 0 (p > 0 for strict ones) for all constraints?  Exact simplex: maximise the slack of the strict ones."""
    key = frozenset((frozenset(p.items()), s) for p, s in cons)
    if key not in _MEMO:
        _MEMO[key] = _feasible(key)
    return _MEMO[key]


def _feasible(key):
    cons = [(dict(p), s) for p, s in key]
    monos = sorted({m for p, _ in cons for m in p if m != ONE}, key=repr)
    low = {}
    for p, _s in cons:  # lower limits are no rows: the variable is what exceeds it
        ms = [m for m in p if m != ONE]
        if len(ms) == 1 and p[ms[0]] > 0:
            v = -p.get(ONE, Fraction(0)) / p[ms[0]]
            if ms[0] not in low or v > low[ms[0]]:
                low[ms[0]] = v
    col, n = {}, 0
    for m in monos:
        col[m] = (n, None) if m in low else (n, n + 1)
        n += 1 if m in low else 2
    eps = n
    rows, rhs = [], []
    any_strict = False
    for p, s in cons:
        r, b = {}, p.get(ONE, Fraction(0))
        any_strict |= s
        for m, c in p.items():
            if m == ONE:
                continue
            i, j = col[m]
            r[i] = -c
            if j is not None:
                r[j] = c
            else:
                b += c * low[m]
        if s:
            r[eps] = Fraction(1)
        elif b >= 0 and all(x <= 0 for x in r.values()):
            continue
        rows.append(r)
        rhs.append(b)
    rows.append({eps: Fraction(1)})
    rhs.append(Fraction(1))
    val = simplex(rows, rhs, eps)
    if val is None:
        return False
    return val > 0 if any_strict else True


def simplex(rows, rhs, eps):
    """max eps, rows.x <= rhs, x >= 0 (sparse, exact); None if infeasible (the objective is capped by a row)"""
    m, n = len(rows), eps + 1
    neg = any(b < 0 for b in rhs)
    x0 = n
    B = -1  # key of the right hand side
    tab = []
    for r, b in zip(rows, rhs):
        t = dict(r)
        if neg:
            t[x0] = Fraction(-1)
        if b:
            t[B] = b
        tab.append(t)
    base = n + 1
    basis = [base + i for i in range(m)]
    zero = Fraction(0)

    def pivot(row, j, objs):
        """variable j enters, the one of the row leaves; columns are named by variable"""
        pr = tab[row]
        inv = 1 / pr.pop(j)
        out = basis[row]
        for k in pr:
            pr[k] *= inv
        pr[out] = inv
        for tgt in [*tab, *objs]:
            if tgt is pr:
                continue
            f = tgt.pop(j, None)
            if f:
                for k, x in pr.items():
                    y = tgt.get(k, zero) - f * x
                    if y:
                        tgt[k] = y
                    else:
                        tgt.pop(k, None)
        basis[row] = j

    def run(o, objs):
        while True:
            j = min((k for k, x in o.items() if k != B and x > 0), default=None)
            if j is None:
                return
            row, ratio = None, None
            for i, t in enumerate(tab):
                a = t.get(j)
                if a is not None and a > 0:
                    q = t.get(B, zero) / a
                    if ratio is None or q < ratio or (q == ratio and basis[i] < basis[row]):
                        row, ratio = i, q
            if row is None:
                return
            pivot(row, j, objs)

    o1 = {eps: Fraction(1)}
    if neg:
        o0 = {x0: Fraction(-1)}
        row = min(range(m), key=lambda i: tab[i].get(B, zero))
        pivot(row, x0, [o0, o1])
        run(o0, [o0, o1])
        if o0.get(B, zero) != 0:
            return None
        if x0 in basis:
            row = basis.index(x0)
            j = next((k for k, x in tab[row].items() if k not in {B, x0} and x != 0), None)
            if j is not None:
                pivot(row, j, [o0, o1])
        for t in [*tab, o1]:
            t.pop(x0, None)
    run(o1, [o1])
    return -o1.get(B, zero)
