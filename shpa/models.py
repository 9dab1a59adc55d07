"""Helpers for judging model validators."""

from . import facts as F
from . import terms as T
from .ctx import raises, returns
from .schema import validators

SELF = ("self",)


def fld(*path):
    t = SELF
    for p in path:
        t = ("attr", t, p)
    return t


def run_after(ctx, ci, facts=None, keep=None, **kw):
    """outcomes of each after-validator on an instance of ci"""
    res = []
    for m in validators(ci, "after"):
        it = ctx.interp(kw.pop("names", ()), keep=keep, **kw)
        this = it.self_value(ci)
        fs = dict(facts or {})
        res.append((m, ctx.run(m, it=it, this=this, facts=fs)))
    return res


def rejects(ctx, ci, facts, **kw):
    """Is every instance with these facts refused by some after-validator?"""
    why = []
    for m, outs in run_after(ctx, ci, facts, **kw):
        if not returns(outs) and raises(outs):
            return True, ""
        why.append(f"{m.name} can accept: " + "; ".join(f"{v} {T.show(a)[:90]}" for a, v in (returns(outs)[0].facts.items() if returns(outs) else ()) if a not in facts)[:300])
    return False, " | ".join(why) or "no validator"


def neg(t):
    return {F.pos(T.neg(t)): True, ("isnone", t): False}


def uniq_proofs(o):
    """element terms (value, filter) whose multiset is known to be free of duplicates on a path"""
    out = []
    for a, v in o.facts.items():
        if a[0] == "distinct" and v:
            out.append((elements(a[1]), elements(a[1]), a[1], a[1]))
            continue
        if a[0] not in {"pos", "zero"}:
            continue
        p = T.to_poly(a[1])
        sets, totals, c0 = [], [], 0
        ok = True
        for m, c in p.items():
            if not m:
                c0 = c
                continue
            if len(m) != 1 or m[0][1] != 1:
                ok = False
                break
            t = m[0][0]
            if t[0] != "call" or t[1] != "len":
                ok = False
                break
            x = t[2][0]
            (sets if is_set(x) else totals).append((c, x))
        if not ok or len(sets) != 1 or len(totals) != 1:
            continue
        (cs, s), (ct, t) = sets[0], totals[0]
        if cs != -ct:
            continue
        if a[0] == "pos":
            # not (total - distinct > 0)   or   distinct - total + 1 > 0
            good = (not v and ct > 0 and c0 == 0) or (v and cs > 0 and c0 > 0 and c0 <= cs)
        else:
            good = v and c0 == 0
        if good:
            out.append((elements(s), elements(t), t, s))
    return out


def is_set(x):
    return (x[0] == "call" and x[1] in {"set", "frozenset", "dict"}) or x[0] == "set" or (x[0] == "call" and x[1] == "numpy.unique")


def elements(x):
    """[(value term, frozenset of filter facts)] of a collected sequence; None when unknown"""
    while x[0] == "vn":
        x = T.expand1(x)
    if x[0] == "call" and x[1] in {"set", "frozenset", "list", "tuple", "sorted"} and len(x[2]) == 1:
        return elements(x[2][0])
    if x[0] in {"list", "set"}:
        out = []
        for i in x[1]:
            if i[0] == "star":
                when, over = (), ()
                for y in i[2:]:
                    if isinstance(y, tuple) and y and y[0] == "for":
                        over = y[1]
                    if isinstance(y, tuple) and y and y[0] == "when":
                        when = y[1]
                if T.free_elems(i[1], over):
                    return None  # only the entries of one round
                out.append((i[1], frozenset(when)))
            elif i[0] == "unknown":
                return None
            else:
                out.append((i, frozenset()))
        return out
    if x[0] == "seq":
        return elements(x[1])
    return None
