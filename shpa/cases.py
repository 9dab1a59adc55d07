"""Piecewise comparison: a reference written as a small decision function over conditions is compared with what the code
yields on a path; every combination of outcomes of the conditions that is possible on this path is looked at."""

import itertools
from fractions import Fraction

from . import facts as F
from . import terms as T
from .lin import Rel


class Fork(Exception):
    def __init__(self, atom):
        self.atom = atom


def mn(*xs):
    return xs[0] if len(set(xs)) == 1 else ("min", tuple(sorted(set(xs), key=T._key)))


def mx(*xs):
    return xs[0] if len(set(xs)) == 1 else ("max", tuple(sorted(set(xs), key=T._key)))


class Judge:
    def __init__(self, declared=None, relevant=None):
        self.declared = declared or {}
        self.relevant = relevant
        self._rel, self._known, self._busy = {}, {}, False
        self._clash = set()

    def rel(self, facts):
        key = frozenset(facts.items())
        r = self._rel.get(key)
        if r is None:
            r = self._rel[key] = Rel({a: v for a, v in facts.items() if self.relevant is None or self.relevant(a)}, self.declared)
        return r

    def decide(self, facts, atom):
        d = F.decide(facts, atom, self.declared)
        if d is not None or atom[0] not in {"pos", "zero"}:
            return d
        if T.contains(atom[1], lambda x: len(x) > 1 and x[0] == "call") and not self._busy:
            # the same number may be written differently on this path
            self._busy = True
            try:
                known = self.resolved(facts)
                a2 = (atom[0], self.resolve(facts, atom[1])[0])
            finally:
                self._busy = False
            d = known.get(a2)
            if d is None and a2 != atom:
                d = F.decide(known, a2, self.declared)
            if d is None and a2[0] in {"pos", "zero"}:
                d = self.linear(known, a2)
            if d is not None:
                return d
        return self.linear(facts, atom)

    def linear(self, facts, atom):
        r = self.rel(facts)
        if atom[0] == "pos":
            return True if r.gt(atom[1]) else False if r.ge(T.neg(atom[1])) else None
        if r.eq(atom[1], T.k(0)):
            return True
        return False if r.gt(atom[1]) or r.gt(T.neg(atom[1])) else None

    def explore(self, facts, fn):
        """(facts, result) for each possible combination of outcomes of what fn decides on"""
        todo, out = [f for f in split_bool(dict(facts)) if f == facts or self.possible(f)], []
        while todo:
            fs = todo.pop()

            def dec(op, a=None, b=None, fs=fs):
                atom, pol = (op, True) if isinstance(op, tuple) else F.cmp_atom(op, a, b if b is not None else T.k(0))
                if isinstance(atom, bool):
                    return atom == pol
                d = self.decide(fs, atom)
                if d is None:
                    raise Fork(atom)
                return d == pol

            try:
                out.append((fs, fn(dec)))
            except Fork as f:
                for v in (True, False):
                    nf = {**fs, f.atom: v}
                    if self.possible(nf):
                        todo.append(nf)
            if len(out) + len(todo) > 400:
                raise RecursionError("too many cases")
        return out

    def resolved(self, facts):
        key = frozenset(facts.items())
        if key not in self._known:
            cur = {a: v for a, v in facts.items() if a[0] in {"pos", "zero"}}
            for _ in range(3):
                known = {**facts, **cur} if cur else facts
                new = {}
                for a, v in cur.items():
                    a2 = (a[0], self.resolve(known, a[1])[0])
                    if new.setdefault(a2, v) != v:
                        self._clash.add(key)
                if new == cur:
                    break
                cur = new
            self._known[key] = cur
        return self._known[key]

    def possible(self, facts):
        if not self.rel(facts).consistent():
            return False
        if self._busy or not any(_in_call(a) for a in facts):
            return True
        known = self.resolved(facts)
        return frozenset(facts.items()) not in self._clash and self.rel(known).consistent()

    def resolve(self, facts, t):
        """minima and maxima (innermost first) which are decided on this path are replaced, the first open one is named"""
        while True:
            t = T.expand1(t)
            todo = [x for x in T.subterms(t) if _mm(x)]
            todo.sort(key=lambda x: (len(repr(x)), repr(x)))
            step = None
            for x in todo:
                pick = self.pick(facts, x)
                if pick is not None:
                    step = (x, pick)
                    break
            if step is None:
                return t, todo[0] if todo else None
            t = T.subst(t, {step[0]: step[1]})

    def pick(self, facts, x):
        for y in x[1]:
            ok = True
            for z in x[1]:
                if z == y:
                    continue
                d = self.decide(facts, F.pos(T.sub(y, z) if x[0] == "min" else T.sub(z, y)))
                if d is not False:
                    ok = False
                    break
            if ok:
                return y
        return None

    def same(self, facts, a, b, depth=8):
        """do both terms have the same value in every state of this path?"""
        a, b = F._plain(T.expand1(a)), F._plain(T.expand1(b))
        if a == b:
            return True
        if a[0] == b[0] == "tuple" and len(a[1]) == len(b[1]):
            return all(self.same(facts, x, y, depth) for x, y in zip(a[1], b[1]))
        if depth <= 0:
            return False
        a, wa = self.resolve(facts, a)
        b, wb = self.resolve(facts, b)
        if a == b:
            return True
        w = wa or wb
        if w is not None:
            y, z = w[1][:2]
            atom = F.pos(T.sub(y, z))
            for v in (True, False):
                nf = {**facts, atom: v}
                if self.possible(nf) and not self.same(nf, a, b, depth - 1):
                    return False
            return True
        for t in (a, b):  # truth of a condition as value
            if t[0] in {"atom", "natom"}:
                x, y = (a, b) if t is a else (b, a)
                d = self.decide(facts, x[1])
                if d is not None:
                    d = d if x[0] == "atom" else not d
                    return self.same(facts, T.k(d), y, depth - 1) if not T.is_k(y) else bool(y[2]) == d
        if T.is_k(a) and T.is_k(b):
            return a[2] == b[2]
        for x, y in ((a, b), (b, a)):
            if T.is_k(y) and y[1] == "bool" and facts.get(("true", x)) is not None:
                return facts[("true", x)] == bool(y[2])
        if not (_numeric(a) and _numeric(b)):
            return False
        if self.rel(facts).eq(a, b):
            return True
        rel = self.rel({**facts, **self.resolved(facts)})
        # products with a factor which is zero here
        d = T.to_poly(T.sub(a, b))
        zero = {}
        for m in list(d):
            ats = [at for at, e in m if e > 0]
            subs = [((x, 1),) for x in ats] + [tuple(sorted(((x, 1), (y, 1)), key=T._key)) for i, x in enumerate(ats) for y in ats[i + 1 :]]
            for q in subs:
                if q not in zero:
                    zero[q] = rel.eq(T.from_poly({q: Fraction(1)}), T.k(0))
                if zero[q]:
                    del d[m]
                    break
        return not d or any(zero.values()) and rel.eq(T.from_poly(d), T.k(0))


def split_bool(facts):
    """comparisons of truth values as the truth of what is compared"""
    for a, v in facts.items():
        if a[0] != "zero":
            continue
        p = T.to_poly(a[1])
        conds = [m[0][0] for m in p if m]
        if not conds or not all(len(m) == 1 and m[0][1] == 1 and m[0][0][0] in {"atom", "natom"} for m in p if m) or len(conds) > 4:
            continue
        out = []
        rest = {x: y for x, y in facts.items() if x != a}
        for vals in itertools.product((True, False), repeat=len(conds)):
            total, nf = p.get((), 0), dict(rest)
            for cnd, val in zip(conds, vals):
                if cnd[0] == "natom":
                    val = not val
                total += p[((cnd, 1),)] * (val != (cnd[0] == "natom"))
                if nf.setdefault(cnd[1], val) != val:
                    break
            else:
                if (total == 0) == v:
                    out += split_bool(nf)
        return out
    return [facts]


def _in_call(a):
    return a[0] in {"pos", "zero"} and T.contains(a[1], lambda x: len(x) > 1 and x[0] == "call")


def _mm(x):
    return len(x) == 2 and x[0] in {"min", "max"} and isinstance(x[1], tuple)


def _numeric(t):
    return t[0] in {"poly", "attr", "param", "call", "item", "elem", "vn", "pow", "inv", "floordiv", "self"} or T.is_k(t) and t[1] in {"num", "bool"}
