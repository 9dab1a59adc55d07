"""U01 decoding of serial data: the loops are extracted as state machines and every state they can reach is compared
with the sender."""

import itertools
from fractions import Fraction

from .. import facts as F
from .. import terms as T
from ..ctx import returns
from ..models import fld
from . import rule


ODD = (Fraction(1, 2), Fraction(13, 10), Fraction(37, 5))


class Unknown(Exception):
    pass


def val(t, env):
    """value of a term in one state"""
    if t in env:
        return env[t]
    k = t[0]
    if k == "vn":
        return val(T.expand1(t), env)
    if k == "k":
        return t[2]
    if k == "poly":
        out = 0
        for mono, c in t[1] if isinstance(t[1], tuple) else t[1].items():
            p = c
            for x, n in mono:
                v = val(x, env)
                if isinstance(v, str) or v is None:
                    raise Unknown(T.show(t)[:60])
                p *= v**n
            out += p
        return out
    if k == "fstr":
        return "".join(text(val(x, env)) for x in t[1])
    if k in {"atom", "natom"}:
        return truth(t[1], env) is (k == "atom")
    if k in {"tuple", "list"}:
        return tuple(val(x, env) for x in t[1])
    if k == "ite" or k == "if":
        return val(t[2] if truth(t[1], env) else t[3], env)
    if k in {"min", "max"}:
        return (min if k == "min" else max)(val(x, env) for x in t[1])
    if k == "pow":
        return num(val(t[1], env)) ** num(val(t[2], env))
    if k in {"shl", "shr", "bitand", "bitor", "bitxor", "floordiv", "mod"}:
        a, b = num(val(t[1], env)), num(val(t[2], env))
        try:
            return {"shl": lambda: a << b, "shr": lambda: a >> b, "bitand": lambda: a & b, "bitor": lambda: a | b, "bitxor": lambda: a ^ b, "floordiv": lambda: a // b, "mod": lambda: a % b}[k]()
        except (TypeError, ValueError, ZeroDivisionError) as e:
            raise Unknown(f"{k} of {a}, {b}") from e
    if k == "inv":
        return 1 / Fraction(val(t[1], env))
    if k == "item" and t[2][0] == "k":
        v = val(t[1], env)
        try:
            return v[int(t[2][2])]
        except (TypeError, IndexError) as e:
            raise Unknown(T.show(t)[:60]) from e
    if k in {"round", "abs", "chr", "int", "floor", "ceil", "len", "str", "bool", "ord"}:
        return apply(k, [val(x, env) for x in (t[1] if t[1] and isinstance(t[1][0], tuple) else t[1:])])
    if k == "call" and not t[3]:
        return apply(t[1].split(".")[-1], [val(x, env) for x in t[2]])
    raise Unknown(T.show(t)[:80])


def num(v):
    return int(v) if isinstance(v, (Fraction, bool)) and v == int(v) else v


def text(v):
    return v if isinstance(v, str) else str(num(v))


def apply(name, a):
    if name == "round" and len(a) == 1:
        return round(a[0])
    if name in {"abs", "fabs"}:
        return abs(a[0])
    if name == "chr":
        c = num(a[0])
        if not isinstance(c, int) or not 0 <= c < 0x110000:
            raise Unknown(f"chr({c})")
        return chr(c)
    if name == "ord" and len(a[0]) == 1:
        return ord(a[0])
    if name in {"int", "trunc"}:
        return int(a[0])
    if name in {"floor", "ceil"}:
        return a[0].__floor__() if name == "floor" else a[0].__ceil__()
    if name == "len":
        return len(a[0])
    if name in {"str", "bool"}:
        return text(a[0]) if name == "str" else bool(a[0])
    raise Unknown(name)


def truth(a, env):
    """whether a condition holds in one state"""
    k = a[0]
    if k in {"and", "or"}:
        vs = [truth(x, env) for x in a[1]]
        return all(vs) if k == "and" else any(vs)
    if k == "isnone":
        return val(a[1], env) is None
    if k == "true":
        return bool(val(a[1], env))
    if k in {"zero", "pos"}:
        v = val(a[1], env)
        if isinstance(v, (str, tuple)) or v is None:
            raise Unknown(T.show(a)[:60])
        return v == 0 if k == "zero" else v > 0
    if k == "eq":
        return val(a[1], env) == val(a[2], env)
    if k == "in":
        return val(a[1], env) in val(a[2], env)
    raise Unknown(T.show(a)[:80])


class Machine:
    """one round of a loop that adds to a list, as function of its state"""

    def __init__(self, ctx, q, source, facts, given):
        self.ctx, self.given = ctx, given
        self.elem = ("elem", source, 0)
        self.rounds = []  # (facts, added in the round, state after it, added after the loop)
        self.start = None
        self.result = []
        self.unknown = set()
        for o in ctx.run(q, names=("loop", "carry", "added", "setattr"), facts=facts, opaque={q.rsplit(".", 1)[0] + ".get_symbols", q.rsplit(".", 1)[0] + ".get_lines"} - {q}, keep=lambda a: True, want_added=True, want_setattr=True):
            if o.kind != "return":
                if o.exc is None or o.exc.name != "?":
                    self.unknown.add(f"raises {o.exc.name if o.exc else ''}")
                continue
            carry = [e for e in o.events if e.kind == "carry"]
            loop = [e for e in o.events if e.kind == "loop"]
            self.result.append(o)
            if len(carry) != 1 or len(loop) != 1:
                if loop:
                    self.unknown.add("more than one loop")
                continue
            kw = lambda e: dict(e.kws.items() if isinstance(e.kws, dict) else e.kws)  # noqa: E731
            self.lid = loop[0].name
            start = {n: v for n, v in kw(loop[0]).items()}
            self.start = start
            order = {id(e): i for i, e in enumerate(o.events)}
            ins = [e for e in o.events if e.kind == "added" and e.loops]
            fin = [e for e in o.events if e.kind == "added" and not e.loops]
            when = dict(carry[0].facts)
            late = {a: v for a, v in o.facts.items() if a not in when}
            _ = order
            self.rounds.append((when, ins, kw(carry[0]), late, fin))
        self.keep = sorted({x[2] for r in self.rounds for t in [*r[0], *[a for e in r[1] for a in e.args], *r[2].values()] for x in T.subterms(t) if x[:1] == ("lv",) and x[1] == self.lid} | {n for n in (self.start or {})})
        self.memo = {}

    def begin(self):
        return tuple(val(self.start[n], self.given) for n in self.keep)

    def env(self, state, el):
        e = dict(self.given)
        for n, v in zip(self.keep, state):
            e[("lv", self.lid, n)] = v
        e[self.elem] = el
        for i, v in enumerate(el):
            e[("item", self.elem, T.k(i))] = v
        return e

    def holds(self, fs, env):
        for a, v in fs.items():
            if truth(a, env) is not v:
                return False
        return True

    def step(self, state, el):
        """what one round adds, the state after it and what is added if the loop ends there"""
        key = (state, el)
        if key in self.memo:
            return self.memo[key]
        env = self.env(state, el)
        res = set()
        for when, ins, after, late, fin in self.rounds:
            if not self.holds(when, env):
                continue
            nxt = tuple(val(after[n], env) if n in after else s for n, s in zip(self.keep, state))
            end = ()
            if not self.holds(late, env):
                continue
            end = tuple(tuple(val(a, env) for a in e.args) for e in fin)
            res.add((tuple((e.name, tuple(val(a, env) for a in e.args)) for e in ins), nxt, end))
        if len(res) != 1:
            raise Unknown(f"{len(res)} results of a round")
        self.memo[key] = res.pop()
        return self.memo[key]


def frame(s, n, gap, jit):
    """lengths of the levels of one symbol with its pause, beginning with the start-bit"""
    bits = [0, *[(s >> i) & 1 for i in range(n)], 1]
    out = []
    for b, g in itertools.groupby(bits):
        out.append([b, len(list(g))])
    out[-1][1] += gap
    return [(b, Fraction(c) + jit) for b, c in out]


@rule("U01", floor=500, technique="path-sensitive abstract interpretation of the decoding loops, extracted as state machines; exhaustive exploration of their product with the sender")
def serial(ctx):
    """For each frame length the extracted round is explored from every reachable state with every symbol, every kind of pause
    and slightly shifted edges: exactly the sent symbol with the time of its start-bit is added."""
    q = ctx.cls("Uart").qualname
    sig, fl, sym = fld("events_sig"), fld("frame_length"), fld("events_symbols")
    force = ("true", ("param", "force_redo"))
    for n, syms in ((8, range(256)), (7, range(128)), (5, range(32))):
        m = Machine(ctx, f"{q}.get_symbols", sig, {force: True}, {fl: n, ("param", "force_redo"): True, sym: None})
        if not ctx.check(m.rounds and m.start is not None and not m.unknown, "U01-instance", "symbols", f"{len(m.rounds)} rounds {sorted(m.unknown)}"):
            return
        try:
            init = m.begin()
            todo, seen = [init], {init}
            # the recording may begin with a pause
            for pause in (Fraction(40), Fraction(1000)):
                add, nxt, _ = m.step(init, ("p", 1, pause))
                ctx.check(not add, "U01-symbol", f"{n} bits, leading pause", f"adds {add}")
                if nxt not in seen:
                    seen.add(nxt)
                    todo.append(nxt)
            while todo:
                st = todo.pop()
                add, nxt, _ = m.step(st, ("b", 0, Fraction(3 * n)))
                ctx.check(not add, "U01-symbol", f"{n} bits, break", f"a line held low yields {add}")
                if nxt not in seen:
                    seen.add(nxt)
                    todo.append(nxt)
                if len(seen) > 40:
                    ctx.fail("U01-symbol", f"{n} bits", "what is remembered between symbols grows without bound")
                    break
                for s in syms:
                    bad = None
                    for gap in (0, 1, 2, 3, n - 2, n - 1, n, n + 1, 2 * n, 1000, *ODD):
                        for jit in (Fraction(0), Fraction(1, 25), Fraction(-1, 25)):
                            cur, got = st, []
                            for i, (b, c) in enumerate(frame(s, n, gap, jit)):
                                add, cur, _ = m.step(cur, (f"t{i}", b, c))
                                for how, a in add:
                                    got += list(a[0]) if how == "extend" else [a[-1]]
                            if got != [("t0", chr(s))]:
                                bad = bad or f"a pause of {gap} bits after symbol 0x{s:02X} yields {got}"
                            # times of this frame have to be forgotten
                            if cur not in seen:
                                seen.add(cur)
                                todo.append(cur)
                    ctx.check(bad is None, "U01-symbol", f"{n} bits, 0x{s:02X}", bad or "")
        except Unknown as e:
            ctx.fail("U01-symbol", f"{n} bits", f"round not understood: {e}")
            return
    kept(ctx, m.result, "symbols")
    durations(ctx, q)
    # lines
    m = Machine(ctx, f"{q}.get_lines", sym, {force: True, ("isnone", sym): False}, {("param", "force_redo"): True, fld("events_lines"): None, sym: ("symbols",)})
    if not ctx.check(m.rounds and m.start is not None and not m.unknown, "U01-instance", "lines", f"{len(m.rounds)} rounds {sorted(m.unknown)}"):
        return
    try:
        for ln in range(1, 7):
            for seq in itertools.product("a\r\n", repeat=ln):
                cur, got, end = m.begin(), [], ()
                for i, c in enumerate(seq):
                    add, cur, end = m.step(cur, (i, c))
                    for how, a in add:
                        got += list(a[0]) if how == "extend" else [a[-1]]
                got += [a[-1] for a in end]
                want = lines(seq)
                ctx.check(got == want, "U01-line", repr("".join(seq)), f"yields {got} instead of {want}")
    except Unknown as e:
        ctx.fail("U01-line", "lines", f"round not understood: {e}")
    kept(ctx, m.result, "lines")
    # text
    for o in returns(ctx.run(f"{q}.get_text", names=("call",), facts={force: True}, opaque={f"{q}.get_symbols", f"{q}.get_lines"}, keep=lambda a: True)):
        t = o.term
        ok = t[0] in {"mcall", "join"} and T.contains(t, lambda x: x == fld("events_lines") or x[:1] == ("call",) and str(x[1]).endswith(".get_lines"))
        ok = ok and (t[0] == "join" or t[1] == T.k("") and t[2] == "join")
        ctx.check(ok, "U01-text", "text", f"is {T.show(t)[:100]}")


def column(t, base):
    """(shift, is the first column) of a slice of the events"""
    t = plain(t)
    if t[0] != "item" or plain(t[1]) != base:
        return None
    i = t[2]
    if i[0] != "tuple" or len(i[1]) != 2 or i[1][1] != T.k(0) or i[1][0][0] != "slice":
        return None
    lo, hi = i[1][0][1], i[1][0][2]
    if T.is_k(lo) and lo[2] in {0, None} and hi == T.k(-1):
        return 0
    if lo == T.k(1) and T.is_k(hi) and hi[2] is None:
        return 1
    return None


def durations(ctx, q):
    """the third column is the time until the next event in units of one bit"""
    ev, tick = fld("events_sig"), fld("dur_tick")
    n = 0
    for o in returns(ctx.run(f"{q}._add_duration", names=("setattr",), keep=lambda a: True, want_setattr=True)):
        for e in o.events:
            if e.kind != "setattr" or e.name != "events_sig":
                continue
            n += 1
            want = {}
            got = {}
            for t in T.subterms(e.args[0]):
                if t[:1] == ("poly",) and any(x == tick or x == fld("baud_rate") for mono, _ in T.to_poly(t).items() for x, _ in mono):
                    got = t
                    break
            if not ctx.check(bool(got), "U01-duration", "length of a level", f"is {T.show(e.args[0])[:120]}", e.loc):
                continue
            ok = True
            p = T.to_poly(got)
            for mono, c in p.items():
                rest = [(x, k_) for x, k_ in mono if (x, k_) not in {(tick, -1), (fld("baud_rate"), 1)}]
                ok = ok and len(mono) == 2 and len(rest) == 1 and rest[0][1] == 1
                if not ok:
                    break
                x = plain(rest[0][0])
                while x[0] in {"call", "mcall"} and str(x[1] if x[0] == "call" else x[2]).split(".")[-1] in {"reshape", "expand_dims", "atleast_2d", "transpose"}:
                    x = plain(x[2][0]) if x[0] == "call" else plain(x[1])
                for m2, c2 in T.to_poly(x).items():
                    s = column(m2[0][0], ev) if len(m2) == 1 and m2[0][1] == 1 else None
                    ok = ok and s is not None
                    want[s] = want.get(s, 0) + c * c2
            ctx.check(ok and want == {0: -1, 1: 1}, "U01-duration", "length of a level", f"is {T.show(got)[:120]}", e.loc)
    ctx.check(n >= 1, "U01-instance", "length of a level", "never calculated")
    n = 0
    for o in returns(ctx.run(f"{q}.__init__", names=("setattr",), opaque={f"{q}.{x}" for x in ("_convert_analog2digital", "_filter_redundant_states", "_add_duration", "detect_baud_rate", "detect_inversion", "detect_half_stop")}, keep=lambda a: a[0] == "isnone", want_setattr=True)):
        a = {}
        for e in o.events:
            if e.kind == "setattr":
                a[e.name] = e.args[0]
        n += 1
        rate = a.get("baud_rate", T.k(0))
        own = T.contains(rate, lambda x: x == ("param", "baud_rate")) or T.contains(rate, lambda x: x[:1] in {("call",), ("mcall",)} and "detect_baud_rate" in str(x[1:3]))
        ctx.check(own, "U01-duration", "rate", f"is {T.show(rate)[:80]}")
        t = a.get("dur_tick", T.k(0))
        ctx.check(T.mul(t, rate) == T.k(1) or t == T.inv(fld("baud_rate")), "U01-duration", "length of a bit", f"is {T.show(t)[:80]}")
    ctx.check(n >= 1, "U01-instance", "constructor", "never returns")


def lines(seq):
    """cut at \\r, \\r\\n or \\n"""
    out, cur = [], None
    for i, c in enumerate(seq):
        cur = (i, c) if cur is None else (cur[0], cur[1] + c)
        if c == "\n" or c == "\r" and (i + 1 >= len(seq) or seq[i + 1] != "\n"):
            out.append(cur)
            cur = None
    if cur is not None:
        out.append(cur)
    return out


def plain(t):
    while t[0] == "vn":
        t = T.expand1(t)
    return t


def kept(ctx, outs, what):
    """the whole list is stored and delivered, in order"""
    n = 0
    for o in outs:
        sets = [e for e in o.events if e.kind == "setattr" and e.name == f"events_{what}"]
        if not any(e.kind == "loop" for e in o.events):
            continue
        t = plain(o.term)
        n += 1
        ok = t[0] == "mcall" and t[2] == "reshape" or t[0] in {"call", "list"}
        base = plain(t[1]) if t[0] == "mcall" else t
        ok = ok and (base[0] == "list" or base[0] == "call" and base[1].split(".")[-1] in {"concatenate", "array", "asarray", "vstack", "stack", "row_stack"} and len(base[2]) >= 1 and plain(base[2][0])[0] == "list")
        ctx.check(ok, "U01-result", what, f"delivers {T.show(t)[:100]}")
        ctx.check(bool(sets) and plain(sets[-1].args[0]) == t, "U01-result", what, "stores something else than it delivers")
        # nothing is added in front, removed or reordered
    ctx.check(n >= 2, "U01-instance", f"result {what}", f"{n} ways")
