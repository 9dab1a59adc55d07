"""L01 conversion of recorded parameters of solar cells into traces."""

import itertools
from fractions import Fraction

from .. import facts as F
from .. import terms as T
from ..cases import Judge, mn
from ..ctx import raises, returns
from ..models import fld
from ..series import NONE, full, rounding
from . import rule
from .uart_rules import Unknown

K = T.k
IVR = "shepherd_data.ivonne.Reader"
MPP = "shepherd_data.mppt"
CORE_W = "shepherd_core.writer.Writer"
MODEL = f"{MPP}.iv_model"
DF, DUR, VMAX, RATE = fld("_df"), ("param", "duration_s"), ("param", "v_max"), fld("samplerate_sps")
ROWS = ("item", ("attr", DF, "shape"), K(0))


def leaf(n):
    return n.split(".")[-1] if isinstance(n, str) else ""


@rule("L01", floor=60, technique="path-sensitive abstract interpretation; columns of tables as terms in the order they are assigned, ranges and positions compared as polynomials, position of the tracked point enumerated on the extracted term")
def traces(ctx):
    """Rows of the table are taken in consecutive pieces with one row of the next; the pieces are resampled to the interval
    of the new file and stored without that row; columns are the terms of the model of the cell."""
    ctx.note("interpolation of pandas is an axiom; sampling points of curves lie where numpy.linspace puts them")
    model(ctx)
    for name, cols in (("convert_2_ivsamples", None), ("upsample_2_isc_voc", ("voc", "isc"))):
        pieces(ctx, name, cols)
    curves(ctx)
    trackers(ctx)


# ---------------------------------------------------------------- model of the cell
def coef(x, n):
    return ("item", x, K(n))


def oc_of(x):
    """open-circuit voltage: a = b (exp(c v) - 1)"""
    return T.mul(("call", "numpy.log", (T.add(T.mul(coef(x, "a"), T.inv(coef(x, "b"))), K(1)),), ()), T.inv(coef(x, "c")))


def current(x, v):
    e = ("call", "numpy.exp", (T.mul(coef(x, "c"), v),), ())
    return T.sub(coef(x, "a"), T.mul(coef(x, "b"), T.sub(e, K(1))))


def plain(t):
    """without conversions to numbers, one name for each function"""
    t = full(t)
    for _ in range(3):
        m = {}
        for x in T.subterms(t):
            if x[:1] == ("call",) and len(x) == 4 and x[1] in {"float", "numpy.asarray"} and len(x[2]) == 1:
                m[x] = x[2][0]
            elif x[:1] == ("call",) and len(x) == 4 and x[1] == "numpy.expm1":
                m[x] = T.sub(("call", "numpy.exp", x[2], ()), K(1))
            elif x[:1] == ("call",) and len(x) == 4 and x[1] == "numpy.log1p":
                m[x] = ("call", "numpy.log", (T.add(x[2][0], K(1)),), ())
            elif x[:1] == ("call",) and len(x) == 4 and x[1] in {"math.exp", "math.log"}:
                m[x] = ("call", x[1].replace("math", "numpy"), x[2], ())
            elif x[:1] == ("mcall",) and x[2] in {"to_numpy", "copy"} and not x[3]:
                m[x] = x[1]
            elif x[:1] == ("call",) and len(x) == 4 and x[1] in {"pandas.Series"} and len(x[2]) == 1:
                m[x] = x[2][0]
            elif x[:1] == ("mcall",) and x[2] in {"argmax", "argmin", "sum", "any", "all", "max"} and not x[3]:
                m[x] = ("call", f"numpy.{x[2]}", (x[1],), ())
            elif x[:1] == ("attr",) and len(x) == 3 and x[2] == "values":
                m[x] = x[1]
        if not m:
            return t
        t = full(T.subst(t, m))
    return t


def never_negative(ctx, o, want, what):
    """value of the path is the wanted one, confined to positive ones"""
    t = plain(o.term)
    if t[0] == "max":
        return set(t[1]) == {K(0), want}
    if t[:1] == ("call",) and leaf(t[1]) in {"maximum", "clip", "fmax"}:
        return t[2][:2] in {(K(0), want), (want, K(0))}
    if t[:1] == ("call",) and leaf(t[1]) == "where" and len(t[2]) == 3:
        c, a, b = t[2]
        return (a, b) == (K(0), want) and c in {("atom", F.pos(T.sub(K(0), want))), ("natom", F.pos(want))} or (a, b) == (want, K(0)) and c in {("natom", F.pos(T.sub(K(0), want))), ("atom", F.pos(want))}
    if t == want:
        # negative entries are replaced
        for e in o.events:
            if e.kind == "setitem" and plain(e.recv) == want and plain(e.args[1]) == K(0):
                if plain(e.args[0]) in {("atom", F.pos(T.sub(K(0), want))), ("natom", F.pos(want))}:
                    return True
        return F.decide({plain(a): v for a, v in o.facts.items()}, F.pos(T.sub(K(0), want)), {}) is False
    if t == K(0):
        return F.decide({plain(a): v for a, v in o.facts.items()}, F.pos(want), {}) is False
    return False


def model(ctx):
    fi = ctx.func(MODEL)
    names = [p for p in fi.params] if hasattr(fi, "params") else ["voltages", "coeffs"]
    v, c = ("param", names[0]), ("param", names[1])
    outs = returns(ctx.run(fi, names={"setitem"}, keep=lambda a: True))
    ctx.where = fi
    ctx.check(len(outs) >= 1, "L01-instance", "model", "no path")
    for o in outs:
        ctx.check(never_negative(ctx, o, current(c, v), "current"), "L01-model", "current is a - b (exp(c v) - 1), never negative", T.show(plain(o.term))[:160])
    for q, want, what in (("get_voc", oc_of, "current of the model is zero at the open-circuit voltage"), ("get_isc", lambda x: coef(x, "a"), "short-circuit current is that at zero voltage")):
        fi = ctx.func(f"shepherd_data.ivonne.{q}")
        outs = returns(ctx.run(fi))
        ctx.where = fi
        c = ("param", fi.params[0] if hasattr(fi, "params") else "coeffs")
        for o in outs:
            ctx.check(plain(o.term) == want(c), "L01-model", what, T.show(plain(o.term))[:160])


# ---------------------------------------------------------------- tables
class Table:
    """columns of tables, in the order in which they are assigned"""

    def __init__(self):
        self.cols = {}

    def get(self, f, name, loc=None):
        for k in ((f, name), (f, "*")):
            if k in self.cols:
                return self.cols[k]
        return ("item", ("row", f), K(name))

    def by_row(self, t):
        """columns made by comprehensions and functions of entries as functions of the row"""
        for _ in range(6):
            m = {}
            for x in T.subterms(t):
                if x[:1] == ("elem",) and len(x) == 3 and x[1][:1] == ("item",) and x[1][2][:2] == ("k", "str") and x[2] == 0:
                    m[x] = ("item", ("row", x[1][1]), x[1][2])
                elif x[:1] == ("elem",) and len(x) == 3 and x[1][:1] == ("rows",) and x[2] == 0:
                    m[x] = x[1][2]
                elif x[:1] == ("mcall",) and len(x) == 5 and x[2] in {"apply", "map"} and len(x[3]) == 1 and x[3][0][:1] == ("ext",) and x[1][:1] == ("rows",):
                    m[x] = ("rows", x[1][1], ("call", x[3][0][1], (x[1][2],), ()))
                elif x[:1] == ("elem",) and len(x) == 3 and x[1][:1] == ("mcall",) and x[1][2] == "iterrows" and x[2] == 1:
                    m[x] = ("row", x[1][1])
                elif x[:1] == ("item",) and len(x) == 3 and x[1][:1] == ("elem",) and x[1][1][:1] == ("mcall",) and x[1][1][2] == "iterrows" and x[2] == K(1):
                    m[x] = ("row", x[1][1][1])
                elif x[:1] == ("mcall",) and len(x) == 5 and x[2] in {"apply", "map"} and len(x[3]) == 1 and x[3][0][:1] == ("ext",) and x[1][:1] == ("item",):
                    m[x] = ("call", x[3][0][1], (("item", ("row", x[1][1]), x[1][2]),), ())
                elif x[:1] == ("list",) and len(x) == 2 and len(x[1]) == 1 and x[1][0][:1] == ("star",) and not any(y[:1] == ("when",) for y in x[1][0][2:] if y[1:2] != ((),)):
                    rows = {y[1] for y in T.subterms(x[1][0][1]) if y[:1] == ("row",)}
                    if len(rows) == 1 and not any(y[:1] == ("elem",) for y in T.subterms(x[1][0][1])):
                        m[x] = ("rows", next(iter(rows)), x[1][0][1])
            if not m:
                return t
            t = T.subst(t, m)
        return t

    def value(self, t):
        t = self.by_row(plain(t))
        for _ in range(4):
            m = {}
            for x in T.subterms(t):
                if x[:1] == ("item",) and len(x) == 3 and x[2][:2] == ("k", "str") and x not in m.values():
                    f = x[1][1] if x[1][:1] == ("row",) else x[1]
                    v = self.cols.get((f, x[2][2]))
                    if v is not None:
                        m[x] = v
                    elif x[1][:1] != ("row",) and any(k[0] == f for k in self.cols):
                        m[x] = ("item", ("row", f), x[2])
                elif x[:1] == ("rows",) and len(x) == 3:
                    m[x] = x[2]
            m = {k: v for k, v in m.items() if k != v}
            if not m:
                return t
            t = plain(T.subst(t, m))
        return t

    def feed(self, e):
        f, key, v = plain(e.recv), plain(e.args[0]), e.args[1]
        if f[:1] == ("attr",) and f[2] in {"loc", "iloc"}:
            f = f[1]
        mask = None
        if key[:1] == ("tuple",) and len(key[1]) == 2:
            mask, key = key[1]
        if key[:2] != ("k", "str"):
            return
        v = self.value(v)
        if mask is not None and mask[:1] != ("slice",):
            v = ("where", self.value(mask), v, self.value(("item", f, key)))
        self.cols[f, key[2]] = v


def confined(t, x, top):
    """x, but not above top"""
    if t[:1] == ("where",) and len(t) == 4:
        c, a, b = t[1:]
        over = {("natom", F.pos(T.sub(top, x))), ("atom", F.pos(T.sub(x, top)))}
        return a == top and b == x and c in over
    if t[0] == "min":
        return set(t[1]) == {x, top}
    if t[:1] == ("call",) and leaf(t[1]) in {"minimum", "fmin"}:
        return set(t[2]) == {x, top}
    if t[:1] == ("mcall",) and t[2] == "clip":
        kws = dict(t[4])
        return t[1] == x and (kws.get("upper") == top or len(t[3]) == 2 and t[3][1] == top)
    return False


def chain(t):
    """source of a resampled table: (table, interval, rows dropped at the end)"""
    drop, interval, index = 0, None, None
    for _ in range(12):
        if t[:1] == ("item",) and t[1][:1] == ("attr",) and t[1][2] == "iloc" and t[2][:1] == ("slice",):
            lo, hi, st = t[2][1:]
            if lo not in {K(0), NONE} or st not in {K(1), NONE} or hi[:1] != ("k",) or interval is not None:
                return t, interval, drop, index
            drop -= int(hi[2])
            t = t[1][1]
        elif t[:1] == ("mcall",) and t[2] == "head" and interval is None and len(t[3]) == 1 and T.is_k(t[3][0]):
            drop -= int(t[3][0][2])
            t = t[1]
        elif t[:1] == ("mcall",) and t[2] == "interpolate":
            t = t[1]
        elif t[:1] == ("mcall",) and t[2] == "resample" and interval is None and t[3]:
            interval = t[3][0]
            t = t[1]
        elif t[:1] == ("mcall",) and t[2] == "set_index" and t[3]:
            index = t[3][0]
            t = t[1]
        elif t[:1] == ("item",) and t[2][:1] in {("list",), ("tuple",)}:
            t = t[1]
        else:
            return t, interval, drop, index
    return None


def amount(ctx, o, n, judge, loc):
    """number of rows that are converted"""
    want = mn(ROWS, ("call", "int", (T.mul(DUR, RATE),), ()))
    is_num = [v for a, v in o.facts.items() if a[0] == "isinst" and a[1] == DUR]
    short = judge.decide(o.facts, F.pos(T.sub(fld("runtime_s"), DUR))) is False
    none = o.facts.get(("isnone", DUR)) or bool(is_num) and not any(is_num)
    fits = judge.decide(o.facts, F.pos(T.sub(ROWS, ("call", "int", (T.mul(DUR, RATE),), ()))))
    cut = ("call", "int", (T.mul(DUR, RATE),), ())
    ok = n == ROWS and (none or short or fits is False) or not none and (judge.same(o.facts, n, want) or n == cut and fits)
    ctx.check(ok, "L01-range", "rows of the requested time are converted", T.show(n)[:120] + " if " + "; ".join(("" if v else "not ") + T.show(a)[:50] for a, v in o.facts.items())[:200], loc)
    return "cut" if n != ROWS else "all"


def piece(ctx, o, src, judge, loc):
    """does the table hold consecutive rows?"""
    src = src[1] if src[:1] == ("mcall",) and src[2] == "copy" else src
    ok = src[:1] == ("item",) and src[1] == ("attr", DF, "iloc") and src[2][:1] == ("slice",)
    if not ctx.check(ok, "L01-pieces", "rows of the recording", T.show(src)[:120], loc):
        return None
    lo, hi, st = src[2][1:]
    e = lo
    rng = e[1] if e[:1] == ("elem",) else NONE
    ok = rng[:1] == ("range",) and rng[1] == K(0) and st in {NONE, K(1)}
    if not ctx.check(ok, "L01-pieces", "pieces begin with the first row", T.show(lo)[:120], loc):
        return None
    n, step = rng[2], rng[3]
    ctx.check(judge.same(o.facts, T.sub(hi, K(1)), mn(T.add(e, step), *(n[1] if n[0] == "min" else (n,)))) or hi == T.add(T.add(e, step), K(1)) and n == ROWS, "L01-pieces", "a piece ends with the first row of the next one", T.show(hi)[:160], loc)
    return n


def writer_of(o):
    made = [e for e in o.events if e.kind == "construct" and e.name == CORE_W]
    return made


def stored(ctx, name, opaque=()):
    fi = ctx.func(f"{IVR}.{name}")
    it = ctx.interp(names={"setitem", "construct", "call", "mcall"}, opaque={f"{MPP}.iv_model", *opaque}, opaque_prefix=(f"{MPP}.MPPTracker.", f"{MPP}.OptimalTracker.", f"{MPP}.OpenCircuitTracker.", f"{CORE_W}.", "shepherd_core.reader.Reader."), keep=lambda a: T.contains(a, lambda x: x == DUR))
    outs = ctx.run(fi, it=it)
    ctx.where = fi
    for o in returns(outs):
        made = writer_of(o)
        adds = [e for e in o.events if e.kind == "call" and e.name == f"{CORE_W}.append_iv_data_si"]
        if not made:
            ctx.check(not adds, "L01-file", f"{name}: stored in the new file", "")
            continue
        yield o, made[0], adds


def interval_of(text, writer, points, loc, ctx, name):
    """is the interval the one of the new file, in the unit of the text?"""
    parts = text[1] if text[:1] == ("fstr",) else (text,)
    per = {"us": 1000, "ns": 1, "ms": 10**6, "s": 10**9}
    unit = parts[-1][2] if len(parts) == 2 and T.is_k(parts[-1]) else None
    ok = unit in per
    if ok:
        x = rounding(parts[0], {"round", "int"})
        x = x[2][0] if x[:1] == ("call",) and leaf(x[1]) in {"round", "int"} else x
        si = [y for y in T.subterms(x) if y[:1] == ("attr",) and y[2] == "sample_interval_ns" and y[1] != ("self",)]
        ok = len(si) == 1 and x == T.mul(T.mul(si[0], points), K(Fraction(1, per[unit])))
    ctx.check(ok, "L01-rate", f"{name}: resampled to the interval of the new file", T.show(text)[:160], loc)


def pieces(ctx, name, cols):
    seen = set()
    for o, made, adds in stored(ctx, name):
        if not adds:
            continue
        judge = Judge()
        ok = len(adds) == 1 and len(adds[0].loops) == 1
        if not ctx.check(ok, "L01-pieces", f"{name}: each piece is stored once", f"{len(adds)} times", adds[0].loc):
            continue
        e, tab = adds[0], Table()
        args = dict(zip(("writer", "timestamp", "voltage", "current"), e.args)) | dict(e.kws)
        got = []
        for k in ("timestamp", "voltage", "current"):
            t = plain(args.get(k, NONE))
            got.append((t[1], t[2][2]) if t[:1] == ("item",) and t[2][:2] == ("k", "str") else (None, None))
        ok = all(x[0] is not None and x[0] == got[0][0] for x in got)
        if not ctx.check(ok, "L01-columns", f"{name}: time, voltage and current of the same rows", "; ".join(str(x[1]) for x in got), e.loc):
            continue
        for x in o.events:
            if x is e:
                break
            if x.kind == "setitem":
                tab.feed(x)
        ch = chain(got[0][0])
        if not ctx.check(ch is not None and ch[1] is not None, "L01-rate", f"{name}: resampled", T.show(got[0][0])[:120], e.loc):
            continue
        frame, interval, drop, index = ch
        ctx.check(drop == 1, "L01-pieces", f"{name}: the row of the next piece is left out", f"{drop} rows", e.loc)
        interval_of(interval, made, K(1), e.loc, ctx, name)
        src = frame
        tracked = None
        if frame[:1] in {("call",), ("mcall",)} and leaf(frame[1] if frame[0] == "call" else frame[2]) == "process":
            tracked, src = frame, frame[2][-1] if frame[0] == "call" else frame[3][0]
        n = piece(ctx, o, src, judge, e.loc)
        src = plain(src)
        if n is not None:
            seen.add(amount(ctx, o, n, judge, e.loc))
        names = [x[1] for x in got]
        if index is not None and index[:2] == ("k", "str"):
            ts = tab.cols.get((frame, index[2]), NONE)
            raw = {("item", ("row", frame), K("time")), ("item", frame, K("time"))}
            kws = dict(ts[3]) if ts[:1] == ("call",) else {}
            ok = ts[:1] == ("call",) and leaf(ts[1]) == "to_timedelta" and ts[2][:1] and ts[2][0] in raw and (kws.get("unit") == K("s") or ts[2][1:] == (K("s"),))
            ctx.check(ok, "L01-columns", f"{name}: rows are placed at their time", T.show(ts)[:100], e.loc)
        ctx.check(names[0] == "time", "L01-columns", f"{name}: time is that of the rows", f"{names[0]}", e.loc)
        if tracked is None:
            ctx.check(cols is not None, "L01-columns", f"{name}: values of a tracker", "no tracker", e.loc)
            r = [tab.value(tab.get(frame, x)) for x in names[1:]]
            rows = {y[1] for x in r for y in T.subterms(x) if y[:1] == ("item",) and y[2][:2] == ("k", "str") and y[1] in {("row", src), src}}
            row = next(iter(rows), NONE)
            ctx.check(len(rows) == 1 and confined(r[0], oc_of(row), VMAX), "L01-columns", f"{name}: voltage is the open-circuit voltage, at most the maximum", T.show(r[0])[:160], e.loc)
            ctx.check(r[1] == coef(row, "a"), "L01-columns", f"{name}: current is the short-circuit current", T.show(r[1])[:120], e.loc)
        else:
            ctx.check(cols is None and names[1:] == ["v", "i"], "L01-columns", f"{name}: voltage and current of the tracker", f"{names[1:]}", e.loc)
            v = tab.value(("item", src, K("voc")))
            rows = {y[1] for y in T.subterms(v) if y[:1] == ("item",) and y[2][:2] == ("k", "str") and y[1] in {("row", src), src}}
            ctx.check(len(rows) == 1 and confined(v, oc_of(next(iter(rows), NONE)), VMAX), "L01-columns", f"{name}: the tracker knows the open-circuit voltage, at most the maximum", T.show(v)[:160], e.loc)
    ctx.check(seen == {"cut", "all"}, "L01-instance", name, f"{seen}")


def curves(ctx):
    name = "convert_2_ivcurves"
    pts = ("param", "pts_per_curve")
    seen = set()
    for o, made, adds in stored(ctx, name):
        if not adds:
            continue
        judge, e = Judge(), adds[0]
        if not ctx.check(len(adds) == 1 and len(e.loops) == 2, "L01-pieces", f"{name}: each curve is stored once", f"{len(adds)} times", e.loc):
            continue
        args = dict(zip(("writer", "timestamp", "voltage", "current"), e.args)) | dict(e.kws)
        t, v, i = (plain(args.get(k, NONE)) for k in ("timestamp", "voltage", "current"))
        ctx.check(v == ("call", "numpy.linspace", (K(0), VMAX, pts), ()), "L01-curve", "voltages from zero to the maximum", T.show(v)[:120], e.loc)
        ok = i[:1] == ("call",) and i[1] == MODEL and i[2][:1] == (v,)
        if not ctx.check(ok, "L01-curve", "currents of the model at these voltages", T.show(i)[:120], e.loc):
            continue
        row = i[2][1]
        ctx.check(t == coef(row, "time"), "L01-curve", "curves have the time of their row", T.show(t)[:120], e.loc)
        kws = dict(made.kws)
        ctx.check(plain(kws.get("window_samples", NONE)) == pts and plain(kws.get("datatype", NONE)) in {K("ivcurve"), K("ivsurface")}, "L01-curve", "length of curves is stored", "", e.loc)
        over = next((x[1] for x in T.subterms(row) if x[:1] == ("mcall",) and x[2] in {"iterrows"}), None)
        ch = chain(plain(over)) if over is not None else None
        if not ctx.check(ch is not None and ch[1] is not None, "L01-rate", f"{name}: rows are resampled", T.show(row)[:120], e.loc):
            continue
        frame, interval, drop, index = ch
        ctx.check(drop == 1, "L01-pieces", f"{name}: the row of the next piece is left out", f"{drop} rows", e.loc)
        interval_of(interval, made, pts, e.loc, ctx, name)
        n = piece(ctx, o, frame, judge, e.loc)
        if n is not None:
            seen.add(amount(ctx, o, n, judge, e.loc))
    ctx.check(seen == {"cut", "all"}, "L01-instance", name, f"{seen}")


# ---------------------------------------------------------------- trackers
VP = fld("v_proto")
CURVE = ("curve",)


def trackers(ctx):
    for cls in ("OptimalTracker", "OpenCircuitTracker"):
        fi = ctx.func(f"{MPP}.{cls}.process")
        it = ctx.interp(names={"setitem"}, opaque={MODEL}, row_functions=True, keep=lambda a: True)
        outs = ctx.run(fi, it=it)
        ctx.where = fi
        n = set()
        for o in returns(outs):
            f, tab = plain(o.term), Table()
            for e in o.events:
                tab.feed(e)
            known = next((v for a, v in o.facts.items() if a[0] == "in" and a[1] == K("voc")), None)
            n.add(known)
            v, i = (tab.value(tab.get(f, c)) for c in ("v", "i"))
            cu = [x for x in T.subterms(T.add(v, i)) if x[:1] == ("call",) and x[1] == MODEL]
            rows = {x[2][1] for x in cu}
            ctx.check(len(rows) == 1 and all(x[2][0] == VP for x in cu), "L01-tracker", f"{cls}: curve of the model at the own voltages", f"{len(rows)} rows")
            m = {x: CURVE for x in cu}
            v, i = (T.subst(x, m) for x in (v, i))
            ok = v[:1] == ("item",) and i[:1] == ("item",) and v[1] == VP and i[1] == CURVE and v[2] == i[2]
            if not ctx.check(ok, "L01-tracker", f"{cls}: voltage and current are of the same point of the curve", f"{T.show(v)[:80]}, {T.show(i)[:80]}"):
                continue
            facts = [(T.subst(tab.value(a), m), x) for a, x in o.facts.items()]
            facts = [x for x in facts if T.contains(x[0], lambda y: y in {CURVE, VP})]
            try:
                if cls == "OptimalTracker":
                    optimal(ctx, cls, v[2], facts)
                else:
                    open_circuit(ctx, cls, v[2], facts, known, {("item", x, K("voc")) for x in rows} | {("item", plain(("param", "coeffs")), K("voc"))})
            except Unknown as e:
                ctx.check(False, "L01-tracker", f"{cls}: position", f"not decided: {e}")
        ctx.check(n == ({None} if cls == "OptimalTracker" else {True, False}), "L01-instance", cls, f"{n}")
    fi = ctx.func(f"{MPP}.MPPTracker.__init__")
    outs = returns(ctx.run(fi, names={"setattr"}, it=ctx.interp(names={"setattr"}, want_setattr=True)))
    ctx.where = fi
    for o in outs:
        got = {e.name: plain(e.args[0]) for e in o.events if e.kind == "setattr"}
        ctx.check(got.get("v_proto") == ("call", "numpy.linspace", (K(0), VMAX, ("param", "pts_per_curve")), ()), "L01-tracker", "voltages from zero to the maximum", f"{T.show(got.get('v_proto', NONE))[:100]}")


class Arr(tuple):
    """values of an array"""

    __slots__ = ()


def array(t, env):
    """value of a term over arrays"""
    if t in env:
        return env[t]
    k = t[0]
    if k == "k":
        return t[2]
    if k in {"atom", "natom"}:
        a = t[1]
        if a[0] in {"pos", "zero"}:
            x = array(a[1], env)
            f = (lambda y: (y > 0) is (k == "atom")) if a[0] == "pos" else (lambda y: (y == 0) is (k == "atom"))
            return Arr(f(y) for y in x) if isinstance(x, Arr) else f(x)
        if a[0] == "true":
            x = array(a[1], env)
            return bool(x) is (k == "atom")
    if k == "poly":
        out = 0
        for mono, c in t[1] if isinstance(t[1], tuple) else t[1].items():
            p = c
            for x, n in mono:
                y = array(x, env)
                for _ in range(abs(n)):
                    p = both(p, y, (lambda a, b: a * b) if n > 0 else (lambda a, b: Fraction(a) / b))
            out = both(out, p, lambda a, b: a + b)
        return out
    if k in {"min", "max"}:
        return (min if k == "min" else max)(array(x, env) for x in t[1])
    if k in {"ite", "if"} and len(t) == 4:
        return array(t[2] if array(("atom", t[1]), env) else t[3], env)
    if k == "item":
        x, i = array(t[1], env), None
        if t[2][:1] == ("slice",):
            lo, hi, st = (None if y == NONE else array(y, env) for y in t[2][1:])
            return Arr(x[int(lo) if lo is not None else None : int(hi) if hi is not None else None : int(st) if st is not None else None])
        i = array(t[2], env)
        if isinstance(i, Arr):
            return Arr(y for y, s in zip(x, i) if s)
        if not -len(x) <= i < len(x):
            raise Unknown("position beyond the curve")
        return x[int(i)]
    if k == "call" and isinstance(t[1], str):
        n, a = leaf(t[1]), [array(x, env) for x in t[2]]
        kws = {x: array(y, env) for x, y in t[3]}
        if n in {"argmax", "argmin", "nanargmax"} and a:
            if not a[0]:
                raise Unknown(f"{n} of nothing")
            return (max if "max" in n else min)(range(len(a[0])), key=lambda j: (a[0][j], -j) if "max" in n else (a[0][j], j))
        if n in {"count_nonzero", "sum"} and not kws:
            return sum(bool(x) if n == "count_nonzero" else x for x in a[0])
        if n == "len":
            return len(a[0])
        if n in {"any", "all"}:
            return any(a[0]) if n == "any" else all(a[0])
        if n == "searchsorted":
            side = kws.get("side", a[2] if len(a) > 2 else "left")
            return sum(x < a[1] or side == "right" and x == a[1] for x in a[0])
        if n in {"int", "float", "bool"}:
            return {"int": int, "float": Fraction, "bool": bool}[n](a[0])
        if n in {"max", "min"}:
            return (max if n == "max" else min)(a[0] if len(a) == 1 else a)
        if n in {"maximum", "minimum"}:
            return both(a[0], a[1], max if n == "maximum" else min)
        if n in {"nonzero", "flatnonzero", "where"} and len(a) == 1:
            r = Arr(j for j, x in enumerate(a[0]) if x)
            return r if n == "flatnonzero" else Arr((r,))
        if n == "where" and len(a) == 3:
            c = a[0]
            return Arr((a[1] if not isinstance(a[1], Arr) else a[1][j]) if x else (a[2] if not isinstance(a[2], Arr) else a[2][j]) for j, x in enumerate(c)) if isinstance(c, Arr) else a[1] if c else a[2]
    if k == "attr" and t[2] == "size" or k == "item":
        return len(array(t[1], env))
    raise Unknown(T.show(t)[:80])


def both(a, b, f):
    if isinstance(a, Arr) or isinstance(b, Arr):
        n = len(a) if isinstance(a, Arr) else len(b)
        x, y = (v if isinstance(v, Arr) else (v,) * n for v in (a, b))
        return Arr(f(p, q) for p, q in zip(x, y))
    return f(a, b)


def point(pos, facts, env):
    """position on this path, if it is taken"""
    if all(array(("atom", a), env) is v for a, v in facts):
        return int(array(pos, env))
    return None


def optimal(ctx, cls, pos, facts):
    volts = Arr(Fraction(x, 2) for x in range(5))
    bad = n = 0
    for cur in itertools.product((0, 1, 2, 5), repeat=5):
        if list(cur) != sorted(cur, reverse=True):
            continue
        p = point(pos, facts, {VP: volts, CURVE: Arr(map(Fraction, cur))})
        n += p is not None
        bad += p is not None and volts[p] * cur[p] != max(a * b for a, b in zip(volts, cur))
    ctx.check(not bad, "L01-tracker", f"{cls}: point of the greatest power", f"missed for {bad} of {n} curves")


def open_circuit(ctx, cls, pos, facts, known, vocs):
    """last point below the share of the open-circuit voltage, the first one if there is none"""
    volts = Arr(Fraction(x, 2) for x in range(7))
    ratio = fld("ratio")
    bad, n = [], 0
    if known:
        for voc, r in itertools.product([Fraction(x, 4) for x in range(15)], (Fraction(1, 2), Fraction(4, 5), Fraction(1))):
            p = point(pos, facts, {VP: volts, ratio: r, **{v: voc for v in vocs}})
            below = [j for j, v in enumerate(volts) if v < r * voc] or [0]
            n += p is not None
            if p not in {None, below[-1]}:
                bad.append(f"{voc} V, {r}")
    else:
        for cur in itertools.product((0, 1, 40, 100), repeat=len(volts)):
            if list(cur) != sorted(cur, reverse=True):
                continue
            r = Fraction(4, 5)
            c = Arr(map(Fraction, cur))
            p = point(pos, facts, {VP: volts, CURVE: c, ratio: r})
            n += p is not None
            dark = [j for j, x in enumerate(c) if x < c[0] / 20]
            voc = volts[dark[0]] if dark else volts[-1]
            below = [j for j, v in enumerate(volts) if v < r * voc] or [0]
            if p not in {None, below[-1]} and (dark or c[0] > 0):
                bad.append(f"{cur}")
    ctx.check(not bad, "L01-tracker", f"{cls}: last point below the share of the {'' if known else 'approximated '}open-circuit voltage", f"missed for {len(bad)} of {n}: {', '.join(bad[:3])}")
