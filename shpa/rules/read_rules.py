"""R01 reading buffers, R03 energy / statistics / rates, R06 GPIO waveforms."""

import math

from .. import facts as F
from .. import terms as T
from ..ctx import raises, returns
from ..models import fld
from ..series import MEAN, NONE, VARIANCE, Stats, array_sum, chunk, full, length_of, loop_sum, rounding
from . import rule
from .recording import CH, CORE_R, h5path
from .vsource_rules import attrs_after

K = T.k
SELF = ("self",)
DS = {c: fld(f"ds_{c}") for c in CH}


def cal(c, x):
    """x converted to physical units with the calibration of channel c"""
    p = ("attr", fld("_cal"), c)
    return T.add(T.mul(("attr", p, "gain"), x), ("attr", p, "offset"))


def channels(t):
    """the channels by their path in the file"""
    m = {}
    for x in T.subterms(t):
        if x[:1] == ("item",):
            p = h5path(x)
            if p and len(p) == 3 and p[1] == "data" and p[2] in CH:
                m[x] = DS[p[2]]
    return T.subst(t, m)


def norm(t):
    return channels(full(t))


def truth_of(facts, t):
    return facts.get(("true", t))


@rule("R01", floor=30, technique="path-sensitive abstract interpretation; symbolic ranges of the generator loop")
def buffers(ctx):
    """The generator visits range(first, min(last, whole buffers)) with step one, unconditionally, yields once per
    round the slice [i*n : (i+1)*n] of each channel, physical ones converted with the calibration of their own
    channel; channels are bound to the datasets of the same name."""
    fi = ctx.func(f"{CORE_R}.read_buffers")
    outs = ctx.run(fi, names={"yield"})
    ctx.where = fi
    n_par, e_par, s_par = ("param", "n_samples_per_buffer"), ("param", "end_n"), ("param", "start_n")
    seen = set()
    for o in raises(outs):
        ctx.check(o.exc.name == "?", "R01-total", "reading", f"fails with {o.exc.name}", o.exc.loc)
    for o in returns(outs):
        ys = [e for e in o.events if e.kind == "yield"]
        loopy = [a for a in o.facts if any(x[:1] == ("elem",) for x in T.subterms(a))]
        ctx.check(not loopy, "R01-every", "every buffer", f"whether a buffer is delivered depends on {T.show(loopy[0])[:100] if loopy else ''}")
        if not ys:
            continue
        ctx.check(len(ys) == 1 and len(ys[0].loops) == 1, "R01-once", "one delivery per buffer", f"{len(ys)} deliveries in one round", ys[0].loc)
        e = ys[0].loops[-1]
        own = o.facts.get(("isnone", n_par))
        n = K(10_000) if own else n_par
        sizes = [n] + ([fld("samples_per_buffer")] if own else [])
        it = norm(e)
        if not ctx.check(it[0] == "elem" and it[1][0] == "range" and it[1][1] == s_par and it[1][3] == K(1), "R01-range", "from the first in steps of one", T.show(it)[:120], ys[0].loc):
            continue
        tops = set()
        for x in [it[1][2]]:
            tops = set(x[1]) if x[0] == "min" and isinstance(x[1], tuple) else {x}
        whole = [x for x in tops if is_whole(x, sizes)]
        rest = [x for x in tops if x not in whole]
        lim = o.facts.get(("isnone", e_par))
        ctx.check(len(whole) == 1 and (rest == [] if lim else rest == [e_par]), "R01-last", "up to the last complete buffer" if lim else "up to the requested end", f"ends at {T.show(it[1][2])[:120]}", ys[0].loc)
        v = norm(ys[0].args[0])
        if not ctx.check(v[0] == "tuple" and len(v[1]) == 3, "R01-tuple", "time, voltage, current", T.show(v)[:100], ys[0].loc):
            continue
        raw, skip = truth_of(o.facts, ("param", "is_raw")), truth_of(o.facts, ("param", "omit_ts"))
        seen.add((raw, skip, own, lim))
        for c, x in zip(CH, v[1]):
            if c == "time" and skip:
                ctx.check(x == NONE, "R01-omit", "time is left out", T.show(x)[:100], ys[0].loc)
                continue
            ok = False
            for w in sizes:
                sl = ("slice", T.mul(w, it), T.add(T.mul(w, it), w), NONE)
                d = ("item", DS[c], sl)
                ok = ok or x == (d if raw else cal(c, d))
            ctx.check(ok, "R01-content", f"{c} {'raw' if raw else 'physical'}", f"is {T.show(x)[:160]}", ys[0].loc)
    ctx.check({(r, s) for r, s, _, _ in seen} >= {(True, True), (True, False), (False, True), (False, False)}, "R01-instance", "variants", f"{sorted(seen, key=repr)}"[:200])
    a = fi.node.args
    dflt = {p.arg: d for p, d in zip([*a.posonlyargs, *a.args][::-1], a.defaults[::-1])} | {p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    for p, val in (("start_n", 0), ("end_n", None), ("n_samples_per_buffer", None), ("is_raw", False), ("omit_ts", False)):
        ctx.check(getattr(dflt.get(p), "value", "?") == val, "R01-default", p, "reading by default is not everything in physical units", fi.loc)
    # channels
    init = f"{CORE_R}.__init__"
    n = 0
    for o in returns(ctx.run(init, names=("setattr",), want_setattr=True, opaque={f"{CORE_R}.is_valid", f"{CORE_R}._refresh_file_stats", f"{CORE_R}.get_mode", f"{CORE_R}.get_window_samples"})):
        at = attrs_after(o)
        n += 1
        for c in CH:
            p = h5path(at.get(f"ds_{c}", NONE))
            ctx.check(p == ("root", "data", c), "R01-channel", c, f"is bound to {p}")
    ctx.check(n > 0, "R01-instance", "opening", "no path")


def is_whole(t, sizes):
    """number of complete buffers"""
    t = rounding(t, {"int", "floor"})
    if t[0] == "floordiv":
        return length_of(t[1], DS.values()) and t[2] in sizes
    return any(length_of(T.mul(t, n), DS.values()) for n in sizes)


# ---------------------------------------------------------------- R03
@rule("R03", floor=40, technique="abstract interpretation; chunk coverage and algebra of moments over symbolic chunks")
def numbers(ctx):
    """Energy is the sum over chunks that tile the recording of voltage*current*interval; moments of chunked statistics
    are reduced to sums of count, sum and sum of squares and equal those of the whole; interval and rate are derived
    from n-1 steps; time steps between all neighbouring buffers are compared."""
    ctx.note("time calibrations without offset (as stored by the writer) are assumed for durations")
    energy(ctx)
    statistics(ctx)
    rates(ctx)
    timediffs(ctx)
    voltage_step(ctx)


def energy(ctx):
    fi = ctx.func(f"{CORE_R}.energy")
    outs = ctx.run(fi, names={"loop", "carry"}, star_facts=True)
    ctx.where = fi
    n = 0
    for o in returns(outs):
        t = norm(o.term)
        if t == K(0):
            continue
        parts = loop_sum(o, t)
        if not ctx.check(parts is not None and len(parts) == 1, "R03-energy", "sum over the recording", f"is {T.show(t)[:160]}"):
            continue
        e, add = parts[0]
        add = array_sum(norm(add))
        if not ctx.check(add is not None, "R03-energy", "sum over the chunk", f"adds {T.show(parts[0][1])[:160]}"):
            continue
        n += 1
        sls = {x[2] for x in T.subterms(add) if x[:1] == ("item",) and x[1] in DS.values()}
        if ctx.check(len(sls) == 1, "R03-energy", "voltage and current of the same samples", f"{len(sls)} different ranges"):
            sl = sls.pop()
            c = chunk(sl, DS.values())
            ctx.check(not isinstance(c, str) and c[0] == norm(e) and c[1] == NONE, "R03-energy", "every sample once", c if isinstance(c, str) else "wrong loop or stride")
            d = {x: ("item", DS[x], sl) for x in CH}
            want = T.mul(T.mul(cal("voltage", d["voltage"]), cal("current", d["current"])), fld("sample_interval_s"))
            ctx.check(add == want, "R03-energy", "voltage * current * interval", f"adds {T.show(add)[:200]}")
        bad = [a for a in o.facts if any(x[:1] in {("elem",), ("lv",)} for x in T.subterms(a))]
        ctx.check(not bad, "R03-energy", "unconditional", f"depends on {T.show(bad[0])[:100] if bad else ''}")
    ctx.check(n > 0, "R03-instance", "energy", "no sum found")


def statistics(ctx):
    fi = ctx.func(f"{CORE_R}._dset_statistics")
    outs = ctx.run(fi, names={"loop", "carry"}, star_facts=True)
    ctx.where = fi
    ds, cp = ("param", "dset"), ("param", "cal")
    kinds = set()
    for o in returns(outs):
        t = full(o.term)
        given = next((v for a, v in o.facts.items() if a[0] == "isinst" and a[1] == cp), None)
        att = {F._plain(a[1])[2]: v for a, v in o.facts.items() if a[0] == "in" and a[1][0] == "k"}
        if given:
            kind, g, off = "given", ("attr", cp, "gain"), ("attr", cp, "offset")
        elif att.get("gain") and att.get("offset"):
            b = ("attr", ds, "attrs")
            kind, g, off = "stored", ("item", b, K("gain")), ("item", b, K("offset"))
        else:
            kind, g, off = "raw", K(1), K(0)

        def data(x, g=g, off=off):
            items = {y for y in T.subterms(x) if y[:1] == ("item",) and y[1] == ds and y[2][:1] == ("slice",)}
            if len(items) != 1:
                return False
            y = next(iter(items))
            return x == T.add(T.mul(g, y), off)

        if t == ("dict", ()):
            empty = any(a[0] == "pos" and v or a[0] == "zero" and v for a, v in o.facts.items() if any(x[:2] == ("call", "len") for x in T.subterms(a)) or a[0] == "zero")
            ctx.check(empty, "R03-stats", f"{kind}: data has statistics", "nothing is reported although there is data")
            continue
        if not ctx.check(t[0] == "dict", "R03-stats", kind, T.show(t)[:100]):
            continue
        d = {F._plain(x)[2]: v for x, v in t[1]}
        kinds.add(kind)
        S = Stats(data)
        got = S.scalar(d.get("mean", NONE))
        ctx.check(got == MEAN, "R03-stats", f"{kind}: mean", f"is {T.show(got)[:140] if got else T.show(d.get('mean', NONE))[:140]}")
        ctx.check(S.square(d.get("std", NONE)) == VARIANCE, "R03-stats", f"{kind}: standard deviation", "is not the one of the whole dataset: " + T.show(S.square(d.get("std", NONE)) or NONE)[:140])
        for m in ("min", "max"):
            got = S.scalar(d.get(m, NONE))
            ctx.check(got == (m, ("chunk", m)), "R03-stats", f"{kind}: {m}", f"is {T.show(d.get(m, NONE))[:140]}")
        ctx.check(d.get("si_converted") == K(kind != "raw"), "R03-stats", f"{kind}: unit", f"si_converted = {T.show(d.get('si_converted', NONE))}")
        sls = {y[2] for x in S.used for y in T.subterms(x) if y[:1] == ("item",) and y[1] == ds and y[2][:1] == ("slice",)}
        ctx.check(len(sls) == 1 and len(S.loops) == 1, "R03-stats", f"{kind}: one way to cut", f"{len(sls)} ranges in {len(S.loops)} loops")
        for sl in sls:
            c = chunk(sl, [ds])
            ctx.check(not isinstance(c, str) and {(c[0],)} == S.loops and c[1] == NONE, "R03-stats", f"{kind}: every sample once", c if isinstance(c, str) else "wrong loop or stride")
    ctx.check(kinds == {"given", "stored", "raw"}, "R03-instance", "statistics", f"{sorted(kinds)}")
    for o in raises(outs):
        ctx.check(o.exc.name == "?", "R03-stats", "total", f"fails with {o.exc.name}", o.exc.loc)


def no_offset(t):
    off = ("attr", ("attr", fld("_cal"), "time"), "offset")
    return T.subst(t, {off: K(0)})


def rates(ctx):
    init = ctx.run(f"{CORE_R}.__init__", names=("setattr",), want_setattr=True, opaque={f"{CORE_R}.is_valid", f"{CORE_R}._refresh_file_stats", f"{CORE_R}.get_mode", f"{CORE_R}.get_window_samples"})
    ctx.where = ctx.func(f"{CORE_R}.__init__")
    for o in returns(init):
        at = {k: full(v) for k, v in attrs_after(o).items()}
        rate = at.get("samplerate_sps", fld("samplerate_sps"))
        ctx.check(T.mul(at["sample_interval_s"], rate) == K(1), "R03-rate", "initial interval", T.show(at["sample_interval_s"]))
        ns = rounding(at["sample_interval_ns"], {"round", "int", "floor"})
        ok = ns[0] == "floordiv" and ns[1] == K(10**9) and ns[2] == rate or T.mul(ns, rate) == K(10**9) or ns[0] == "k" and rate[0] == "k" and ns[2] * rate[2] == 10**9
        ctx.check(ok, "R03-rate", "initial interval in ns", T.show(at["sample_interval_ns"]))
        if rate[0] == "k":
            ctx.check(rate == K(100_000), "R03-rate", "default rate", T.show(rate))
            m = at.get("max_elements", NONE)
            ctx.check(T.is_k(m) and m[1] == "num" and m[2] > 0 and m[2] % 10_000 == 0, "R03-chunk", "chunks are whole buffers", T.show(m))
    fi = ctx.func(f"{CORE_R}._refresh_file_stats")
    outs = ctx.run(fi, names=("setattr",), want_setattr=True)
    ctx.where = fi
    for o in raises(outs):
        ctx.check(o.exc.name == "?", "R03-rate", "total", f"fails with {o.exc.name}", o.exc.loc)
    n = 0
    for o in returns(outs):
        at = {k: norm(v) for k, v in attrs_after(o).items()}
        if "sample_interval_s" in at or "samplerate_sps" in at or "sample_interval_ns" in at:
            n += 1
            iv, ns, rate = (no_offset(at.get(x, NONE)) for x in ("sample_interval_s", "sample_interval_ns", "samplerate_sps"))
            ctx.check(any(iv == interval(x) for x in lengths(DS.values())), "R03-rate", "interval", f"is {T.show(iv)[:200]}")
            r = ns[2][0] if ns[0] == "call" and ns[1] in {"round", "int"} and ns[2] else NONE
            ctx.check(r == T.mul(K(10**9), iv), "R03-rate", "interval in ns", f"is {T.show(ns)[:200]}")
            inner = [x for x in rate[1] if x != K(1)] if rate[0] == "max" and len(rate[1]) == 2 and K(1) in rate[1] else [rate]
            r = inner[0][2][0] if len(inner) == 1 and inner[0][0] == "call" and inner[0][1] == "round" else NONE
            ctx.check(any(r == T.div(T.sub(x, K(1)), span(x)) for x in lengths(DS.values())), "R03-rate", "rate", f"is {T.show(rate)[:200]}")
        rate = no_offset(at.get("samplerate_sps", fld("samplerate_sps")))
        run = no_offset(at.get("runtime_s", NONE))
        r = run[2][0] if run[0] == "call" and run[1] == "round" else run
        ctx.check(any(r == T.div(x, rate) for x in lengths(DS.values())), "R03-runtime", "runtime", f"is {T.show(run)[:200]}")
        buf = rounding(at.get("buffers_n", NONE), {"int", "floor"})
        ctx.check(is_whole(buf, [K(10_000), fld("samples_per_buffer")]), "R03-runtime", "number of buffers", f"is {T.show(buf)[:120]}")
    ctx.check(n > 0, "R03-instance", "rates", "no path derives rate and interval")
    # first sample, or no time passes: nothing is divided by zero
    for o in returns(outs):
        at = attrs_after(o)
        if "sample_interval_s" not in at:
            continue
        d = [a for a, v in o.facts.items() if a[0] == "pos" and v]
        ctx.check(any(T.mul(("attr", ("attr", fld("_cal"), "time"), "gain"), full(a[1])) == span_of(full(a[1])) for a in d), "R03-rate", "only with time passed", "rate is derived without checking that time passes")


def span_of(d):
    return T.mul(("attr", ("attr", fld("_cal"), "time"), "gain"), d)


def lengths(arrs):
    for a in arrs:
        yield ("item", ("attr", a, "shape"), K(0))
        yield ("call", "len", (a,), ())
        yield ("attr", a, "size")


def span(n):
    """duration of a recording with n samples"""
    t = DS["time"]
    first, last = (("call", "int", (("item", t, i),), ()) for i in (K(0), T.sub(n, K(1))))
    return span_of(T.sub(last, first))


def interval(n):
    return T.div(span(n), T.sub(n, K(1)))


def timediffs(ctx):
    fi = ctx.func(f"{CORE_R}._data_timediffs")
    outs = ctx.run(fi, names={"loop", "carry"}, star_facts=True)
    ctx.where = fi
    n = 0
    for o in returns(outs):
        t = norm(o.term)
        # differences of neighbours: x[1:] - x[:-1]
        pairs = set()
        for x in T.subterms(t):
            if x[:1] == ("poly",):
                p = {m[0][0]: c for m, c in T.to_poly(x).items() if len(m) == 1 and m[0][1] == 1}
                if len(p) == 2 and len(T.to_poly(x)) == 2:
                    up = [a for a, c in p.items() if c == 1 and a[0] == "item"]
                    dn = [a for a, c in p.items() if c == -1 and a[0] == "item"]
                    if up and dn and up[0][1] == dn[0][1]:
                        pairs.add((up[0], dn[0], x))
            elif x[:2] == ("call", "numpy.diff") and len(x[2]) == 1 and not x[3]:
                pairs.add((("item", x[2][0], "+"), ("item", x[2][0], "-"), x))
        if not ctx.check(len(pairs) == 1, "R03-jumps", "differences of neighbours", f"{len(pairs)} found"):
            continue
        up, dn, diff = pairs.pop()
        n += 1
        ok = up[2] == "+" or up[2][1:3] == (K(1), NONE) and dn[2][1:3] in {(K(0), K(-1)), (NONE, K(-1))} and up[2][3] in {NONE, K(1)} and dn[2][3] in {NONE, K(1)}
        ctx.check(ok, "R03-jumps", "of direct neighbours", f"{T.show(up[2])} - {T.show(dn[2])}")
        base = up[1]
        if ctx.check(base[0] == "item" and base[1] == DS["time"] and base[2][:1] == ("slice",), "R03-jumps", "of times", T.show(base)[:120]):
            sl = base[2]
            strides = {K(10_000), fld("samples_per_buffer")}
            if sl[1] in {K(0), NONE} and sl[2] == NONE:
                ctx.check(sl[3] in strides, "R03-jumps", "first sample of each buffer", f"stride {T.show(sl[3])}")
            else:
                c = chunk(sl, DS.values(), extra=1)
                ctx.check(not isinstance(c, str) and c[1] in strides, "R03-jumps", "across the borders of chunks", c if isinstance(c, str) else f"stride {T.show(c[1])}")
        # what is reported
        vals = [x for x in T.subterms(t) if x[:1] == ("star",)]
        good = False
        for st in vals:
            b = st[1]
            if b[0] == "call" and b[1] == "round" and b[2][-1:] == (K(6),):
                b = no_offset(b[2][0])
            es = [x for x in T.subterms(b) if x[:1] == ("elem",) and T.contains(x, lambda y: y == diff)]
            for e in es:
                g = ("attr", ("attr", fld("_cal"), "time"), "gain")
                good = good or b in {T.div(T.mul(g, e), x) for x in (K(10_000), fld("samples_per_buffer"))}
        ctx.check(good, "R03-jumps", "in seconds per sample", f"is {T.show(t)[:160]}")
    ctx.check(n > 0, "R03-instance", "time differences", "no path")
    fi = ctx.func(f"{CORE_R}.check_timediffs")
    dq = f"{CORE_R}._data_timediffs"
    outs = ctx.run(fi, names=(), opaque={dq}, implicit=False)
    ctx.where = fi
    d = ("call", dq, (SELF,), ())
    size = ("call", "len", (d,), ())
    exp = ("call", "round", (T.div(K(T.frac(0.1)), K(10_000)), K(6)), ())
    res = {"ok": 0, "bad": 0}
    for o in returns(outs):
        lo, hi = whole_bounds(o.facts, size)
        for x in T.subterms(full(o.term)):
            if x[:1] == ("item",) and x[1] == d:
                ctx.check(lo is not None and lo > x[2][2], "R03-check", "only what exists", f"takes {T.show(x)} of {lo} or more", fi.loc)
        for a in o.facts:
            for x in T.subterms(a):
                if x[:1] == ("item",) and x[1] == d:
                    ctx.check(lo is not None and lo > x[2][2], "R03-check", "only what exists", f"takes {T.show(x)} of {lo} or more", fi.loc)
        first = ("item", d, K(0))
        known = None
        for a, v in o.facts.items():
            if a[0] == "zero" and T.contains(a[1], lambda x: x == first):
                known = v
        t = o.term
        if t == K(True):
            res["ok"] += 1
            ctx.check(hi is not None and (hi < 1 or hi <= 1 and known is True), "R03-check", "equal steps", "different steps are accepted")
        elif t == K(False):
            res["bad"] += 1
            ctx.check(lo is not None and lo >= 2 or known is False and lo >= 1, "R03-check", "no false alarm", "equal steps are refused")
        else:
            res["ok"] += 1
            eqs = {("atom", F.zero(T.sub(first, exp))), ("atom", F.zero(T.sub(exp, first)))}
            ctx.check(full(t) in eqs and hi is not None and hi <= 1 and lo >= 1, "R03-check", "exactly the expected step", T.show(t)[:120])
    ctx.check(res["ok"] > 0, "R03-instance", "check", "never fine")


def whole_bounds(facts, size):
    lo, lop, hi, hop = F.bounds(facts, {size: (0, False, None, False)}).of(size)
    lo = math.floor(lo) + 1 if lop else math.ceil(lo)
    if hi is not None:
        hi = math.ceil(hi) - 1 if hop else math.floor(hi)
    return lo, hi


def voltage_step(ctx):
    fi = ctx.func(f"{CORE_R}.get_voltage_step")
    cq = f"{CORE_R}.get_config"
    outs = ctx.run(fi, names={"loop", "carry"}, star_facts=True, opaque={cq})
    ctx.where = fi
    conf = data = none = 0
    for o in returns(outs):
        t = norm(o.term)
        cfg = [x for x in T.subterms(t) if x[:1] in {("get",), ("item",)} and T.contains(x, lambda y: y[:2] == ("call", cq)) and T.contains(x, lambda y: y == K("voltage_step_mV"))]
        if t == NONE:
            none += 1
            continue
        if cfg:
            conf += 1
            top = max(cfg, key=lambda x: len(repr(x)))
            ctx.check(t == T.mul(K(T.frac(0.001)), top), "R03-step", "configured step in volt", T.show(t)[:120])
            continue
        data += 1
        # smallest positive distance of neighbours, in volt
        ok = t[0] == "call" and t[1] in {"min", "numpy.min"} or t[0] == "mcall" and t[2] == "min"
        abs_ = [x for x in T.subterms(t) if x[:1] == ("call",) and x[1] in {"abs", "numpy.abs", "numpy.absolute", "numpy.fabs"}]
        ok = ok and bool(abs_)
        g, off = (("attr", ("attr", fld("_cal"), "voltage"), x) for x in ("gain", "offset"))
        raw = {x for x in T.subterms(t) if x[:1] == ("item",) and x[1] == DS["voltage"]}
        ok = ok and len(raw) == 1 and T.contains(t, lambda x: x == g)
        ctx.check(ok, "R03-step", "smallest distance in volt", f"is {T.show(t)[:200]}")
        els = {x[1] for x in T.subterms(t) if x[:1] == ("star",)} | {t}
        when = [dict(y[1:][0]) for x in T.subterms(t) if x[:1] == ("star",) for y in x[1:] if y[:1] == ("when",)]
        only = any(a[0] == "pos" and v and full(a[1]) in els for w in when for a, v in w.items()) or any(a[0] == "pos" and v and full(a[1]) in els for a, v in o.facts.items())
        only = only or any(x[0] == "item" and x[2][:1] in {("atom",), ("natom",)} and T.contains(x[2], lambda z, b=x[1]: z in {F.pos(b), F.zero(b)}) for x in T.subterms(t) if x)
        ctx.check(only, "R03-step", "no step of zero", "a static voltage leads to a step of zero")
        ctx.check(not _unsigned(t, raw), "R03-step", "no wrap-around", "differences of unsigned raw values wrap around")
    ctx.check(conf and data and none, "R03-instance", "voltage step", f"{conf} {data} {none}")


def _unsigned(t, raw):
    """differences of raw, unscaled values"""
    for x in T.subterms(t):
        if x[:1] == ("poly",):
            p = T.to_poly(x)
            if len(p) >= 2 and all(len(m) == 1 and m[0][0][:1] == ("item",) and m[0][0][1] in raw for m in p):
                return True
    return False


# ---------------------------------------------------------------- R06
@rule("R06", floor=20, technique="path-sensitive abstract interpretation; symbolic bit selection and change filter")
def gpio(ctx):
    """Waveform of a pin = rows (timestamp, bit of this pin) at exactly the samples where the bit differs from the one
    before, plus the first; pins are found by their described name; rows reach the CSV in order, in seconds."""
    flt = f"{CORE_R}.get_filter_for_redundant_states"
    num = f"{CORE_R}.get_gpio_pin_num"
    fi = ctx.func(f"{CORE_R}.gpio_to_waveforms")
    outs = ctx.run(fi, names={"call", "setitem"}, opaque={flt, num})
    ctx.where = fi
    h = fld("h5file")
    g = ("item", h, K("gpio"))
    ts, vs = ("item", g, K("time")), ("item", g, K("value"))
    ts2, vs2 = (("item", h, K(f"gpio/{x}")) for x in ("time", "value"))
    desc_raw = {("item", ("attr", v, "attrs"), K("description")) for v in (vs, vs2)}
    name = ("param", "name")
    seen = set()
    for o in raises(outs):
        ctx.check(o.exc.name == "?", "R06-total", "waveforms", f"fails with {o.exc.name}", o.exc.loc)
    for o in returns(outs):
        t = full(o.term)
        pres = next((v for a, v in o.facts.items() if a[0] == "in" and F._plain(a[1]) == K("gpio")), None)
        one = o.facts.get(("isnone", name)) is False
        pin = ("call", num, (SELF, name), ())
        unknown = o.facts.get(("isnone", pin))
        cond = [a for a in o.facts if any(x[:1] == ("elem",) for x in T.subterms(a))]
        ctx.check(not cond, "R06-all", "every described pin", f"a waveform depends on {T.show(cond[0])[:100] if cond else ''}")
        if t == ("dict", ()):
            none = pres is False or one and unknown is True or not one
            ctx.check(none, "R06-all", "known pins have a waveform", "nothing is returned for a known pin")
            seen.add("none" if pres is False else "unknown" if one else "empty")
            continue
        if not ctx.check(t[0] == "dict" and len(t[1]) == 1, "R06-all", "one waveform per pin", T.show(t)[:120]):
            continue
        x = t[1][0]
        if x[0] == "star":
            # {name: waveform for each description}
            key, val = x[1], x[2]
        else:
            key, val = x
        if one:
            seen.add("one")
            ctx.check(key == name, "R06-name", "under its name", T.show(key)[:80])
            ctx.check(unknown is False, "R06-unknown", "unknown pin", "the number of an unknown pin is used")
        else:
            seen.add("all")
            pins = [y for y in T.subterms(val) if y[:1] == ("elem",)]
            ok = False
            for p in pins:
                src = p[1]
                src = src[1] if src[0] == "mcall" and src[2] in {"keys", "items"} else src
                if src[:2] == ("call", "yaml.safe_load") and src[2] and src[2][0] in desc_raw:
                    ok = ok or key == ("item", ("item", src, p), K("name"))
                    pin = p
            ctx.check(ok, "R06-name", "named by its own description", T.show(key)[:120])
        # rows
        cols = val[2][0] if val[:2] == ("call", "numpy.column_stack") and len(val[2]) == 1 else NONE
        if not ctx.check(cols[0] in {"tuple", "list"} and len(cols[1]) == 2, "R06-rows", "time and state", T.show(val)[:100]):
            continue
        ct, cs = cols[1]
        fcalls = {y for y in T.subterms(val) if y[:2] == ("call", flt)}
        if not ctx.check(len(fcalls) == 1, "R06-rows", "one filter", f"{len(fcalls)} filters"):
            continue
        f = fcalls.pop()
        st = f[2][0] if f[2] else NONE
        ctx.check(ct[0] == "item" and ct[1] in {ts, ts2} and ct[2] == f, "R06-rows", "time of the change", T.show(ct)[:100])
        ctx.check(cs == ("item", st, f), "R06-rows", "state after the change", T.show(cs)[:100])
        ctx.check(is_bit(st, {vs, vs2}, pin), "R06-bit", "bit of this pin", T.show(st)[:140])
    ctx.check({"none", "unknown", "one", "all"} <= seen, "R06-instance", "variants", f"{sorted(seen)}")
    change_filter(ctx, flt)
    pin_number(ctx, num, desc_raw)
    csv(ctx)
    uart_input(ctx)


def is_bit(st, values, pin):
    """(value & (1 << pin)) > 0, or an equivalent"""
    st = full(st)
    masks = {T.power(K(2), 1)}
    masks = {("shl", K(1), pin), ("lshift", K(1), pin), ("pow", K(2), pin), T.mul(K(1), ("pow", K(2), pin))}
    inner = None
    if st[0] in {"atom", "natom"} and st[1][0] in {"pos", "zero"}:
        if (st[0], st[1][0]) in {("atom", "pos"), ("natom", "zero")}:
            inner = full(st[1][1])
    elif st[0] == "mcall" and st[2] == "astype" and st[3] and st[3][0] in {("ext", "bool"), K("bool")}:
        inner = st[1]
    if inner is None:
        return False
    if inner[0] == "bitand":
        ops = set(inner[1]) if isinstance(inner[1], tuple) and inner[1] and isinstance(inner[1][0], tuple) else set(inner[1:])
        v = ops & values
        return len(ops) == 2 and len(v) == 1 and (ops - v).pop() in masks | {K(1)} and ((ops - v) <= masks)
    return False


def change_filter(ctx, q):
    fi = ctx.func(q)
    outs = ctx.run(fi)
    ctx.where = fi
    d = ("param", fi.node.args.args[0].arg)
    n = e = 0
    size = [("call", "len", (d,), ()), ("attr", d, "size"), ("item", ("attr", d, "shape"), K(0))]
    for o in raises(outs):
        if o.exc.name == "ValueError":
            multi = any(a[0] in {"pos", "zero"} and T.contains(a[1], lambda x: x in {("attr", d, "shape"), ("attr", d, "ndim")}) for a in o.facts)
            ctx.check(multi, "R06-filter", "refuses only several dimensions", "refuses other data", o.exc.loc)
        else:
            ctx.check(o.exc.name == "?", "R06-filter", "total", f"fails with {o.exc.name}", o.exc.loc)
    for o in returns(outs):
        t = full(o.term)
        b = F.bounds(o.facts, {x: (0, False, None, False) for x in size})
        lo = max((b.of(x)[0] or 0) for x in size)
        empty = any(b.of(x)[2] is not None and (b.of(x)[2] < 1 or b.of(x)[2] == 1 and b.of(x)[3]) for x in size)
        if empty:
            e += 1
            ctx.check(t == d or t[0] == "call" and t[1].split(".")[-1] in {"empty", "zeros", "array", "ones"} and t[2][0] in {K(0), ("list", ()), ("tuple", ())}, "R06-filter", "nothing for nothing", T.show(t)[:100])
            continue
        ctx.check(lo >= 1, "R06-filter", "needs a first state", "takes the first state of an empty waveform")
        n += 1
        diff = t[1][1] if t[0] == "natom" and t[1][0] == "zero" else None
        ok = False
        if diff is not None:
            p = T.to_poly(full(diff))
            other = [m[0][0] for m in p if len(m) == 1 and m[0][0] != d]
            ok = len(p) == 2 and {abs(c) for c in p.values()} == {1} and sum(p.values()) == 0 and len(other) == 1 and is_shifted(other[0], d, o.facts)
        ctx.check(ok, "R06-filter", "differs from the state before", T.show(t)[:140])
    ctx.check(n and e, "R06-instance", "filter", f"{n} {e}")


def is_shifted(x, d, facts):
    """[not d[0], *d[:-1]]"""
    if x[:2] != ("call", "numpy.concatenate") or not x[2]:
        return False
    parts = x[2][0]
    if parts[0] not in {"tuple", "list"} or len(parts[1]) != 2:
        return False
    head, tail = parts[1]
    first = ("item", d, K(0))
    neg = {("not", first), ("natom", ("true", first)), ("call", "operator.not_", (first,), ()), ("invert", first), ("call", "numpy.logical_not", (first,), ())}
    if ("true", first) in facts:
        neg.add(K(not facts[("true", first)]))
    ok = tail == ("item", d, ("slice", K(0), K(-1), NONE)) or tail == ("item", d, ("slice", NONE, K(-1), NONE))
    return ok and head[0] in {"list", "tuple"} and len(head[1]) == 1 and head[1][0] in neg


def pin_number(ctx, q, desc_raw):
    fi = ctx.func(q)
    outs = ctx.run(fi)
    ctx.where = fi
    name = ("param", "name")
    n = 0
    for o in returns(outs):
        t = full(o.term)
        hits = [(a, v) for a, v in o.facts.items() if a[0] in {"in", "eq"} and T.contains(a, lambda x: x == name)]
        if t == NONE:
            ctx.check(not any(v for _, v in hits), "R06-pin", "described pin", "a described pin is not found")
            continue
        n += 1
        t = t[2][0] if t[:2] == ("call", "int") else t
        src = t[1] if t[0] == "elem" else NONE
        src = src[1] if src[0] == "mcall" and src[2] in {"keys", "items"} else src
        ok = src[:2] == ("call", "yaml.safe_load") and src[2] and src[2][0] in desc_raw
        ok = ok and any(v and (a[1] == name or a[0] == "eq") and full(a[2] if a[1] == name else a[1]) == ("item", ("item", src, t), K("name")) for a, v in hits)
        ctx.check(ok, "R06-pin", "number of the pin with this name", T.show(t)[:100])
    for o in raises(outs):
        ctx.check(o.exc.name == "?", "R06-pin", "total", f"fails with {o.exc.name}", o.exc.loc)
    ctx.check(n > 0, "R06-instance", "pin number", "never found")


def csv(ctx):
    fi = ctx.func(f"{CORE_R}.waveform_to_csv")
    outs = ctx.run(fi, names={"write", "writelines"})
    ctx.where = fi
    ps = [x.arg for x in fi.node.args.args[1:]]
    pin, wf, sep = (("param", x) for x in ps[:3])
    n = 0
    for o in returns(outs):
        rows = [e for e in o.events if e.loops]
        head = [e for e in o.events if not e.loops]
        if not rows:
            continue
        n += 1
        ok = len(head) == 1 and len(head[0].args) == 1 and text(head[0].args[0]) == ["timestamp [s]", sep, pin, "\n"]
        ctx.check(ok, "R06-csv", "header", T.show(head[0].args[0])[:100] if head else "none")
        e = rows[0].loops[-1]
        ok = len(rows) == 1 and full(e) == ("elem", wf, 0)
        ctx.check(ok, "R06-csv", "every row once, in order", T.show(e)[:100])
        cell = [("item", e, K(0)), ("item", e, K(1))]
        got = text(rows[0].args[0])
        ok = len(got) == 4 and got[0] == T.mul(K(T.frac(1) / 10**9), cell[0]) and got[1] == sep and got[2] in {("call", "int", (cell[1],), ())} and got[3] == "\n"
        ctx.check(ok, "R06-csv", "seconds and state", T.show(rows[0].args[0])[:140])
        bad = [a for a in o.facts if any(x[:1] == ("elem",) for x in T.subterms(a))]
        ctx.check(not bad, "R06-csv", "unconditional", "a row is skipped")
    ctx.check(n > 0, "R06-instance", "csv", "no rows")


def text(t):
    t = full(t)
    if t[0] == "fstr":
        return [x[2] if T.is_k(x) and x[1] == "str" else x for x in t[1]]
    return [t]


def uart_input(ctx):
    wq = f"{CORE_R}.gpio_to_waveforms"
    fi = ctx.func(f"{CORE_R}.gpio_to_uart")
    ctx.prog.func(wq)
    uart = ctx.cls("Uart").qualname
    it = ctx.interp(names=("setitem", "construct", "call", "mcall"), opaque={wq, f"{uart}.get_lines", f"{uart}.__init__"}, opaque_prefix=(f"{uart}.",))
    it.throws = {f"{uart}.{x}": ["TypeError", "ValueError"] for x in ("__init__", "get_lines")}
    outs = ctx.run(fi, it=it)
    ctx.where = fi
    n = 0
    for o in returns(outs):
        ws = [e for e in o.events if e.kind == "call" and e.name == wq]
        ctx.check(len(ws) == 1 and [full(a) for a in ws[0].res[2]][1:] == [K("uart")], "R06-uart", "pin 'uart'", f"{len(ws)} requests")
        sets = [e for e in o.events if e.kind == "setitem"]
        if not sets:
            continue
        n += 1
        e = sets[0]
        col = full(e.args[0])
        ok = len(sets) == 1 and col[0] == "tuple" and len(col[1]) == 2 and col[1][1] == K(0)
        ctx.check(ok and full(e.args[1]) == T.mul(K(T.frac(1) / 10**9), ("item", full(e.recv), col)), "R06-uart", "time in seconds", T.show(e.args[1])[:120], e.loc)
    for o in raises(outs):
        ctx.check(o.exc.name not in {"TypeError", "ValueError"}, "R06-uart", "no error for undecodable signals", f"fails with {o.exc.name}", o.exc.loc)
    ctx.check(n > 0, "R06-instance", "uart", "no conversion")
