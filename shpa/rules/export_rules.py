"""R07 down-sampling, R04 exports of traces and logs."""

import itertools

from .. import facts as F
from .. import terms as T
from ..cases import Judge, mn, mx
from ..ctx import bound_args, raises, returns
from ..models import fld
from ..series import NONE, closed, full, ints, length_of, rounding
from . import rule
from .read_rules import cal
from .recording import CH, CORE_R, DATA_R

K = T.k
SRC, DST = ("param", "data_src"), ("param", "data_dst")
START, END, FACTOR, IS_TIME = (("param", x) for x in ("start_n", "end_n", "ds_factor", "is_time"))


def leaf(name):
    return name.split(".")[-1] if isinstance(name, str) else ""


@rule("R07", floor=60, technique="path-sensitive abstract interpretation; symbolic block positions, case split over minima")
def thinning(ctx):
    """In each case of the block length the source position of a block minus factor times its destination is constant
    (or there is one block only), blocks are contiguous, the last one is cut to the result's length; the filter's state
    starts empty and is carried along; channels of an exported cut get the same limits and factor."""
    blocks(ctx)
    exported(ctx)
    plotted(ctx)


def floored(t):
    m = {x: ("call", "math.floor", x[2], ()) for x in T.subterms(t) if x[:1] == ("call",) and leaf(x[1]) in {"int", "floor"} and len(x[2]) == 1}
    return T.subst(t, m)


def peel(v):
    """(base, filters, stride, stops in samples of the result) of a chain of slices and filters"""
    stride, stops, flt = K(1), [], []
    while v[:1] in {("item",), ("call",)}:
        if v[0] == "item" and v[2][:1] == ("slice",):
            lo, hi, st = v[2][1:]
            if flt and st not in {NONE, K(1)}:
                return None  # filtered after thinning out
            if v[1] == SRC:
                return v, flt, T.mul(stride, st if st != NONE else K(1)), stops
            if lo not in {NONE, K(0)}:
                return None
            if hi != NONE:
                stops.append((hi, T.mul(stride, st if st != NONE else K(1))))
            if st != NONE:
                stride = T.mul(stride, st)
            v = v[1]
        elif v[0] == "item" and v[2] == K(0) and v[1][:1] == ("call",) and leaf(v[1][1]) in {"sosfilt", "lfilter"}:
            flt.append(v[1])
            v = v[1][2][1]
        else:
            return None
    return None


def outcomes(top, ts):
    """the terms in each case of the minima in top"""
    mm = [x for x in T.subterms(top) if len(x) == 2 and x[0] == "min" and isinstance(x[1], tuple)]
    mm = [x for x in mm if not any(T.contains(y, lambda z, x=x: z == x) for y in mm if y != x)]
    for pick in itertools.product(*(x[1] for x in mm)):
        m = dict(zip(mm, pick))
        yield tuple(ints(T.subst(x, m)) for x in ts)


def blocks(ctx):
    q = f"{DATA_R}.downsample"
    fi = ctx.func(q)
    outs = returns(ctx.run(fi, names={"setitem", "loop", "carry", "resize", "empty", "zeros"}, keep=lambda at: T.contains(at, lambda x: x in {IS_TIME, FACTOR})))
    ctx.where = fi
    moving = []
    for o in outs:
        sets = [e for e in o.events if e.kind == "setitem"]
        if sets:
            moving.append(o)
    ctx.check(len(moving) >= 4, "R07-instance", "down-sampling", f"{len(moving)} paths")
    seen = set()
    for o in outs:
        sets = [e for e in o.events if e.kind == "setitem"]
        if not sets:
            same = any(set(o.facts.items()) <= set(p.facts.items()) for p in moving)
            none = any(a[0] in {"zero", "pos"} and T.contains(a[1], lambda x: x == ("attr", SRC, "shape")) for a in o.facts)
            ctx.check(same or none, "R07-every", "every source is down-sampled", "a path delivers nothing: " + "; ".join(T.show(a)[:60] for a in list(o.facts)[:3]))
            continue
        if not ctx.check(len(sets) == 1 and len(sets[0].loops) == 1, "R07-once", "one transfer per block", f"{len(sets)} transfers", sets[0].loc):
            continue
        s, loc = sets[0], sets[0].loc
        e = full(s.loops[-1])
        key, val = closed(o, s.args[0], e), closed(o, s.args[1], e)
        dst = full(s.recv)
        ok = e[0] == "elem" and e[1][0] == "range" and e[1][1] == K(0) and e[1][3] == K(1) and key[:1] == ("slice",) and key[3] in {NONE, K(1)}
        if not ctx.check(ok, "R07-loop", "blocks are counted from the first on", T.show(key)[:120], loc):
            continue
        got = peel(val)
        if not ctx.check(got is not None and len(got[1]) <= 1, "R07-source", "samples of the source, filtered, then thinned out", T.show(val)[:160], loc):
            continue
        (_, _, (_, a, b, _)), flt, ds, stops = got
        n = e[1][2]
        judge = Judge()
        # factor and limits
        want_ds = ("max", tuple(sorted((K(1), ("call", "math.floor", (FACTOR,), ())), key=T._key)))
        ctx.check(judge.same(o.facts, floored(ds), want_ds), "R07-factor", "every n-th sample, n the whole part of the factor", T.show(ds)[:120], loc)
        size = next((x for x in T.subterms(a) if length_of(x, [SRC])), None)
        if not ctx.check(size is not None, "R07-limits", "limited by the source", T.show(a)[:100], loc):
            continue
        rnd = {x for x in T.subterms(a) if x[:1] == ("call",) and leaf(x[1]) == "round" and x[2][:1] in {(START,), (END,)}}
        r_start = next((x for x in rnd if x[2][0] == START), START)
        r_end = next((x for x in rnd if x[2][0] == END), END)
        given = T.contains(a, lambda x: x == END)
        is_num = [v for at, v in o.facts.items() if at[0] == "isinst" and at[1] == END]
        none = o.facts.get(("isnone", END))
        ctx.check((given or bool(is_num) and not any(is_num) or none is True) and not (given and none), "R07-limits", "the requested end counts if there is one", "", loc)
        seen.add("end" if given else "open")
        first = mn(size, r_start, *([r_end] if given else []))
        dlen = T.sub(mn(size, *([r_end] if given else [])), first)
        at0 = T.subst(a, {e: K(0)})
        ctx.check(judge.same(o.facts, at0, first), "R07-limits", "begins with the first requested sample", T.show(at0)[:140], loc)
        # positions
        lo, hi = key[1], key[2]
        step_o, step_i = (T.sub(T.subst(x, {e: T.add(e, K(1))}), x) for x in (lo, a))
        lin = not any(T.contains(x, lambda y: y == e) for x in (step_o, step_i))
        ctx.check(lin and T.subst(lo, {e: K(0)}) == K(0), "R07-place", "destination begins at zero, positions are linear", T.show(lo)[:100], loc)
        width_o, width_i = T.sub(hi, lo), T.sub(b, a)
        rnds = rounding(n, {"int"})
        ctx.check(leaf(rnds[1]) == "ceil" and T.mul(rnds[2][0], step_i) == dlen, "R07-cover", "blocks cover the requested range", T.show(n)[:140], loc)
        # what the destination can hold
        limit = set()
        for x, st in stops:
            x = x if st == K(1) else T.mul(x, T.inv(st))
            limit |= set(x[1]) if x[0] == "min" and isinstance(x[1], tuple) else {x}
        cap = next((T.add(x, lo) for x in limit if groups(T.add(x, lo), dlen, ds)), None)
        if not ctx.check(cap is not None, "R07-size", "one result per whole group of samples", "; ".join(T.show(x)[:80] for x in limit), loc):
            continue
        left = T.sub(cap, lo)
        ctx.check(limit <= {left, width_o}, "R07-last", "the last block is cut to the requested range", "; ".join(T.show(x)[:80] for x in limit), loc)
        made = [dst] if dst[0] == "call" else []
        made += [x for x in o.events if x.kind == "mcall" and leaf(x.name) == "resize" and not x.loops and full(x.recv) == dst and o.events.index(x) < o.events.index(s)]
        made = [full(x[2][0] if isinstance(x, tuple) else x.args[0]) for x in made]
        ctx.check(all(x in {cap, ("tuple", (cap,))} for x in made), "R07-size", "destination is prepared for all results", "; ".join(T.show(x)[:80] for x in made), loc)
        for p, r, w, v, k in outcomes(step_i, (step_o, step_i, width_o, width_i, n)):
            one = ints(T.subst(k, {})) == K(1) or judge.same(o.facts, k, K(1))
            seen.add(one)
            ctx.check(one or r == T.mul(p, ds), "R07-spacing", "spacing between blocks is that within blocks", f"{T.show(r)[:80]} samples give {T.show(p)[:80]}", loc)
            ctx.check(one or p == w, "R07-gap", "results are contiguous", f"{T.show(w)[:80]} wide, next after {T.show(p)[:80]}", loc)
            ctx.check(v == r, "R07-gap", "blocks of the source are contiguous", f"{T.show(v)[:80]} wide, next after {T.show(r)[:80]}", loc)
        # filter
        plain = o.facts.get(("true", IS_TIME)) is True
        unit = judge.decide(o.facts, F.pos(T.sub(ds, K(1)))) is False
        if flt:
            ctx.check(o.facts.get(("true", IS_TIME)) is False, "R07-filter", "timestamps are not filtered", "", loc)
            passes(ctx, o, flt[0], ds, e, judge, loc)
            seen.add("filter")
        else:
            ctx.check(plain or unit, "R07-filter", "iv-data is filtered before samples are left out", "; ".join(T.show(x)[:60] for x in o.facts)[:160], loc)
            seen.add("plain")
        # result
        ends = [x for x in o.events if x.kind == "mcall" and leaf(x.name) == "resize" and full(x.recv) == dst]
        ctx.check(full(o.term) == dst, "R07-result", "the destination is delivered", T.show(o.term)[:80], loc)
        fin = [full(x.args[0]) for x in ends[-1:]]
        fin = [x[1][0] if x[:1] == ("tuple",) and len(x[1]) == 1 else x for x in fin]
        if fin and fin[0] != cap:
            last = T.subst(closed(o, fin[0], e), {e: T.sub(n, K(1))})
            want = T.subst(T.add(lo, mn(left, width_o)), {e: T.sub(n, K(1))})
            ctx.check(last == want or full(fin[0]) == want, "R07-size", "final size is what was written", T.show(last)[:140], loc)
    ctx.check(seen >= {True, False, "filter", "plain", "end", "open"}, "R07-instance", "cases", f"{sorted(map(str, seen))}")


def groups(t, n, ds):
    """number of whole groups of ds samples"""
    t = rounding(t, {"int"}) if t[0] == "call" and leaf(t[1]) == "int" and t[2][0][0] in {"call", "floordiv"} else t
    if t[0] == "floordiv":
        return t[1:] == (n, ds)
    return t[0] == "call" and leaf(t[1]) in {"floor", "int"} and T.mul(t[2][0], ds) == n


def passes(ctx, o, f, ds, e, judge, loc):
    kws = dict(f[3])
    design, state = f[2][0], kws.get("zi")
    d = dict(design[3]) if design[:1] == ("call",) else {}
    ok = d.get("btype", K("")) in {K("lowpass"), K("low")} and "Wn" in d
    if ctx.check(ok, "R07-filter", "low-pass", T.show(design)[:120], loc):
        w = T.mul(full(d["Wn"]), ds)
        inv = T.inv(full(d["Wn"]))
        ok = judge.decide(o.facts, F.pos(T.sub(w, K(1)))) is False or judge.decide(o.facts, F.pos(T.sub(ds, inv))) is False
        ctx.check(ok, "R07-filter", "removes what the new rate can not represent", T.show(d["Wn"])[:80], loc)
        form = d.get("output", K("ba"))
        ctx.check(form == K("sos" if leaf(f[1]) == "sosfilt" else "ba"), "R07-filter", "form of the coefficients", T.show(form)[:40], loc)
    raw = dict(f[3]).get("zi")
    lv = [x for x in T.subterms(raw) if x[:1] == ("lv",)] if raw is not None else []
    ok = len(lv) == 1 and full(raw) == lv[0]
    if ctx.check(ok, "R07-state", "blocks are filtered with the state left by the one before", T.show(state)[:80] if state else "none", loc):
        before = [full(dict(x.kws).get(lv[0][2], NONE)) for x in o.events if x.kind == "loop" and x.name == lv[0][1]]
        after = [full(dict(x.kws).get(lv[0][2], NONE)) for x in o.events if x.kind == "carry" and x.name == lv[0][1]]
        ctx.check(len(before) == 1 and before[0][:1] == ("call",) and leaf(before[0][1]) == "zeros", "R07-state", "starts empty", T.show(before[0])[:80] if before else "", loc)
        ctx.check(len(after) == 1 and closed(o, after[0], e) == ("item", f, K(1)), "R07-state", "is carried to the next block", T.show(after[0])[:80] if after else "", loc)


# ---------------------------------------------------------------- users of down-sampling
DSAMP = f"{DATA_R}.downsample"
WR = "shepherd_core.writer.Writer"
ST_S, EN_S = ("param", "start_s"), ("param", "end_s")


def seconds(facts, x):
    """limits of a range in seconds confined to the recording, possible forms"""
    none = [v for a, v in facts.items() if a[0] == "isinst" and a[1] == x or a == ("isnone", x)]
    return none


def limited(ctx, judge, o, got, what, loc):
    """sample numbers which belong to the requested seconds, confined to the recording"""
    rate, run = fld("samplerate_sps"), fld("runtime_s")
    for nm, par, open_, cut in (("start_n", ST_S, K(0), lambda x: mx(K(0), x)), ("end_n", EN_S, run, lambda x: mn(run, x))):
        x = full(got.get(nm, NONE))
        r = rounding(x, {"int"})
        ok = r[0] == "call" and leaf(r[1]) == "round" or x == K(0)
        y = T.mul(r[2][0], T.inv(rate)) if ok and x != K(0) else x
        own = judge.same(o.facts, y, open_)
        asked = judge.same(o.facts, y, cut(par))
        is_num = [v for a, v in o.facts.items() if a[0] == "isinst" and a[1] == par]
        none = bool(is_num) and not any(is_num) or o.facts.get(("isnone", par))
        ctx.check(ok and (asked and not none or own and (none or judge.same(o.facts, cut(par), open_))), "R07-range", f"{what}: {nm} is that of the requested time within the recording", T.show(x)[:140], loc)


def exported(ctx):
    q = f"{DATA_R}.cut_and_downsample_to_file"
    fi = ctx.func(q)
    ctx.func(DSAMP)
    dst_id = ("param", "ds_factor")
    it = ctx.interp(names={"call", "mcall", "construct", "setitem"}, opaque={DSAMP}, opaque_prefix=(f"{WR}.", f"{CORE_R}."), keep=lambda a: T.contains(a, lambda x: x == dst_id))
    outs = ctx.run(fi, it=it)
    ctx.where = fi
    n = 0
    for o in returns(outs):
        made = [e for e in o.events if e.kind == "construct" and e.name == WR]
        runs = [bound_args(ctx.prog, e) | {"loc": e.loc} for e in o.events if e.name == DSAMP]
        if not made:
            ctx.check(not runs, "R07-export", "nothing is written without a file of its own", "", fi.loc)
            continue
        n += 1
        loc = made[0].loc
        judge = Judge()
        by = {full(r.get("data_src", NONE)): r for r in runs}
        ctx.check(len(made) == 1 and len(runs) == 3 and set(by) == {fld(f"ds_{c}") for c in CH}, "R07-export", "each channel is transferred once", f"{[T.show(x) for x in by]}", loc)
        for c in CH:
            r = by.get(fld(f"ds_{c}"))
            if r is None:
                continue
            d = full(r.get("data_dst", NONE))
            ctx.check(d[:1] == ("attr",) and d[2] == f"ds_{c}" and d[1] != SELF_T, "R07-export", f"{c} goes to the same channel", T.show(d)[:80], r["loc"])
            ctx.check((full(r.get("is_time", K(False))) == K(True)) == (c == "time"), "R07-export", f"{c} is {'not ' if c == 'time' else ''}filtered", "", r["loc"])
            ctx.check(all(full(r.get(k, NONE)) == full(runs[0].get(k, NONE)) for k in ("start_n", "end_n", "ds_factor")), "R07-export", f"{c} has the limits and factor of the others", "", r["loc"])
        r = runs[0] if runs else {}
        limited(ctx, judge, o, r, "cut", loc)
        ds = full(r.get("ds_factor", K(5)))
        kept = [full(e.args[2]) for e in o.events if e.name == f"{WR}.__setitem__" and full(e.args[1]) == K("ds_factor")]
        used = floored(ds)
        whole_ = ints(("call", "math.floor", (used,), ()))
        ctx.check(len(kept) == 1 and ints(floored(kept[0])) == whole_, "R07-export", "the stored factor is the one applied", T.show(kept[0])[:80] if kept else "none", loc)
        path = full(made[0].args[0])
        texts = [x for x in T.subterms(path) if x[:1] == ("fstr",)]
        nums = [y for x in texts for i, y in enumerate(x[1]) if i and T.is_k(x[1][i - 1]) and str(x[1][i - 1][2]).endswith(".downsample_x")]
        ctx.check(all(ints(floored(x)) == whole_ for x in nums), "R07-export", "the factor in the name is the one applied", "; ".join(T.show(x)[:60] for x in nums), loc)
        one = judge.decide(o.facts, F.pos(T.sub(ds, K(1)))) is False
        ctx.check(bool(nums) or one, "R07-export", "name tells of the factor", T.show(path)[:120], loc)
        ctx.check(judge.decide(o.facts, F.pos(T.sub(K(1), ds))) is False, "R07-refuse", "factor is at least one", "", loc)
        a, b = full(r.get("start_n", NONE)), full(r.get("end_n", NONE))
        left = T.sub(b, a)
        ok = judge.decide(o.facts, F.pos(T.sub(K(1000), T.mul(left, T.inv(ds))))) is False or judge.decide(o.facts, F.pos(T.sub(T.mul(K(1000), ds), left))) is False
        ctx.check(ok, "R07-refuse", "at least 1000 samples result", "", loc)
        kws = {k: full(v) for k, v in made[0].kws}
        for k, g in (("mode", "get_mode"), ("datatype", "get_datatype"), ("window_samples", "get_window_samples"), ("cal_data", "get_calibration_data")):
            v = kws.get(k, NONE)
            ctx.check(v[:1] == ("call",) and v[1] == f"{CORE_R}.{g}", "R07-export", f"{k} is kept", T.show(v)[:60], loc)
    ctx.check(n > 0 and len(raises(outs)) > 0, "R07-instance", "export", f"{n} paths")


SELF_T = ("self",)


def plotted(ctx):
    q = f"{DATA_R}.generate_plot_data"
    fi = ctx.func(q)
    it = ctx.interp(names={DSAMP, "call", "mcall"}, opaque={DSAMP}, opaque_prefix=(f"{CORE_R}.",))
    outs = ctx.run(fi, it=it)
    ctx.where = fi
    n = 0
    for o in returns(outs):
        runs = [bound_args(ctx.prog, e) | {"loc": e.loc} for e in o.events if e.name == DSAMP]
        if not runs:
            continue
        n += 1
        judge = Judge()
        loc = runs[0]["loc"]
        by = {full(r.get("data_src", NONE)): r for r in runs}
        ctx.check(len(runs) == 3 and set(by) == {fld(f"ds_{c}") for c in CH}, "R07-plot", "each channel once", f"{[T.show(x) for x in by]}", loc)
        for r in runs:
            ctx.check(all(full(r.get(k, NONE)) == full(runs[0].get(k, NONE)) for k in ("start_n", "end_n", "ds_factor")), "R07-plot", "channels have the same limits and factor", "", r["loc"])
            ctx.check((full(r.get("is_time", K(False))) == K(True)) == (full(r.get("data_src", NONE)) == fld("ds_time")), "R07-plot", "only time is not filtered", "", r["loc"])
            ctx.check(full(r.get("data_dst", NONE)) == NONE, "R07-plot", "recorded data is not touched", T.show(r.get("data_dst", NONE))[:80], r["loc"])
        limited(ctx, judge, o, runs[0], "plot", loc)
        res = full(o.term)
        vals = {k[2]: v for k, v in res[1] if T.is_k(k)} if res[0] == "dict" else {}
        for c in CH:
            v = vals.get(c, NONE)
            xs = [x for x in T.subterms(v) if x[:1] == ("call",) and x[1] == DSAMP]
            own = len(xs) == 1 and fld(f"ds_{c}") in xs[0][2]
            ctx.check(own, "R07-plot", f"{c} is that of the recording", T.show(v)[:100], loc)
            if own and c != "time":
                ctx.check(v == cal(c, xs[0]), "R07-plot", f"{c} in physical units", T.show(v)[:140], loc)
            elif own:
                w = T.subst(v, {x: x[1] for x in T.subterms(v) if x[:1] == ("mcall",) and x[2] == "astype"})
                rel = o.facts.get(("true", ("param", "relative_timestamp")))
                want = cal(c, xs[0])
                if rel:
                    want = T.sub(want, cal(c, ("item", fld("ds_time"), K(0))))
                ctx.check(T.sub(w, want) == K(0), "R07-plot", f"{c} in seconds{', from the start' if rel else ''}", T.show(w)[:140], loc)
    ctx.check(n > 0, "R07-instance", "plot", f"{n} paths")


# ---------------------------------------------------------------- R04
GRP = ("param", "h5_group")
TIME = ("item", GRP, K("time"))


@rule("R04", floor=40, technique="path-sensitive abstract interpretation; text written per round of the loops over samples and columns")
def tables(ctx):
    """What one round of the loop over the timestamps writes is flattened into a sequence of texts: the own timestamp, one
    cell of each dataset except time at the index of the round, end of line; the header is the same sequence over the
    same columns; rounds are unconditional."""
    ctx.note("the fixed offset of the local time zone is not judged")
    table(ctx, "save_csv", True)
    table(ctx, "save_log", False)
    levels(ctx)


def parts(t):
    """text as sequence of constants, terms and repetitions"""
    t = full(t)
    if t[0] == "fstr":
        out = []
        for x in t[1]:
            out += parts(x)
        return out
    if t[0] == "call" and t[1] == "str" and len(t[2]) == 1 and not t[3]:
        return parts(t[2][0])
    if T.is_k(t) and t[1] == "str":
        return [t[2]] if t[2] else []
    if t[0] == "mcall" and t[2] == "join" and len(t[3]) == 1 and t[3][0][:1] in {("list",), ("tuple",), ("gen",)}:
        out = []
        for i, x in enumerate(t[3][0][1]):
            star = x[0] == "star"
            val = parts(x[1] if star else x)
            if i:
                val = [t[1], *val]
            elif star:
                out.append(("join", t[1], val, x))
                continue
            out += [("each", val, x)] if star else val
        return merge(out)
    if T.is_k(t):
        return [str(t[2])]
    return [t]


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def plain(t):
    """names as they are"""
    t = full(t)
    for _ in range(3):
        m = {x: x[1][0] for x in T.subterms(t) if x[:1] == ("fstr",) and len(x) == 2 and len(x[1]) == 1 and not T.is_k(x[1][0])}
        m |= {x: x[2][0] for x in T.subterms(t) if x[:1] == ("call",) and len(x) == 4 and x[1] == "str" and len(x[2]) == 1 and x[2][0][:1] == ("elem",)}
        if not m:
            return t
        t = T.subst(t, m)
    return t


KEY = ("elem", GRP, 0)


def by_loop(x):
    """repetition over columns as if it were a loop"""
    if isinstance(x, tuple) and x[0] == "each" and len(x) == 3:
        over = next((y[1] for y in x[2][2:] if y[:1] == ("for",)), ())
        when = dict(next((y[1] for y in x[2][2:] if y[:1] == ("when",)), ()))
        if len(over) == 1:
            return ("each", x[1], column_loop(full(over[0]), when), full(over[0]), when)
    return x


def alternatives(each):
    """do the repetitions stand for exactly one of them in each round?"""
    if not all(len(x) > 4 and x[3] == each[0][3] for x in each):
        return False

    def tree(xs, depth=0):
        if len(xs) <= 1:
            return len(xs) == 1 and not xs[0]
        for a in xs[0]:
            if all(a in x for x in xs):
                return all(tree([{k: v for k, v in x.items() if k != a} for x in xs if x[a] is pol], depth + 1) for pol in (True, False)) and depth < 8
        return False

    ws = [{k: v for k, v in x[4].items() if not all(k in y[4] and y[4][k] is v for y in each)} for x in each]
    return tree(ws)


def columns(star):
    """do the entries range over the datasets of the group except time?"""
    when = dict(next((x[1] for x in star[2:] if x[:1] == ("when",)), ()))
    over = next((x[1] for x in star[2:] if x[:1] == ("for",)), ())
    if len(over) != 1 or over[0] not in {KEY, ("elem", ("mcall", GRP, "keys", (), ()), 0)}:
        return False
    is_set = no_time = False
    for a, v in when.items():
        if a[0] == "isinst" and plain(a[1]) == ("item", GRP, over[0]) and "Dataset" in str(a[2]):
            is_set = v
        elif a == ("removed", K("time")) or not v and K("time") in T.subterms(a) and over[0] in T.subterms(a) or v and a[0] == "ne":
            no_time = True
        else:
            return False
    return is_set and no_time


def column_loop(e, facts):
    """star over which a loop ranges"""
    if e in {KEY, ("elem", ("mcall", GRP, "keys", (), ()), 0)}:
        own = {a: v for a, v in facts.items() if a[0] != "true" and any(x == e or x[:1] == ("removed",) for x in T.subterms(a))}
        return ("star", e, ("when", tuple(own.items())), ("for", (e,)))
    c = e[1] if e[:1] == ("elem",) else None
    skip = 0
    if c is not None and c[:1] == ("item",) and c[2][:1] == ("slice",) and c[2][1:] in {(K(1), NONE, NONE), (K(1), NONE, K(1))}:
        c, skip = c[1], 1
    if c is None or c[:1] not in {("list",), ("gen",), ("tuple",)}:
        return None
    items = c[1][skip:] if skip and len(c[1]) > skip and all(x[0] != "star" for x in c[1][:skip]) else c[1]
    return items[0] if len(items) == 1 and items[0][0] == "star" else None


def table(ctx, name, is_csv):
    fi = ctx.func(f"{DATA_R}.{name}")
    outs = ctx.run(fi, names={"write", "writelines", "open"}, star_facts=True, keep=lambda a: a[0] == "in" or any(length_of(x, [TIME]) for x in T.subterms(a)) or a[0] == "true" and on_disk(a[1]))
    ctx.where = fi
    seen, cells = set(), 0
    for o in raises(outs):
        ctx.check(o.exc.name not in {"IndexError"}, "R04-total", name, f"fails with {o.exc.name}", o.exc.loc)
    full_rows = 0
    for o in returns(outs):
        ws = [e for e in o.events if e.kind == "mcall" and e.name != "open"]
        rows = [e for e in ws if e.loops]
        head = [e for e in ws if not e.loops]
        if not ws:
            t = full(o.term)
            ctx.check(t == K(0) or length_of(t, [TIME]), "R04-count", f"{name}: nothing is reported if nothing is written", T.show(t)[:60])
            path = [v for a, v in o.facts.items() if a[1:2] == (fld("file_path"),) and a[0] == "isinst"]
            why = empty(o.facts, GRP, "time") or (path and not any(path)) or o.facts.get(("isnone", fld("file_path"))) or any(v for a, v in o.facts.items() if a[0] == "true" and on_disk(a[1]))
            # a file that is opened has a line for each round
            ctx.check(why or any(e.name == "open" for e in o.events), "R04-rows", f"{name}: groups with entries are written", "nothing is written if " + "; ".join(("" if v else "not ") + T.show(a)[:60] for a, v in list(o.facts.items())[:4]))
            continue
        ctx.check(length_of(full(o.term), [TIME]), "R04-count", f"{name}: number of entries", T.show(o.term)[:80])
        sep = None
        if rows:
            loc = rows[0].loc
            outer = full(rows[0].loops[0])
            outer = outer[1] if outer[0] == "tuple" else (outer,)
            el = next((x for x in outer if x[:1] == ("elem",)), NONE)
            ix = next((x for x in outer if x[:1] == ("idx",)), None)
            over = el[1] if el != NONE else NONE
            if over[:1] == ("range",) and over[1] == K(0) and over[3] == K(1) and length_of(over[2], [TIME]):
                ix, el = el, ("item", TIME, el)
            else:
                ctx.check(over == TIME, "R04-rows", f"{name}: every entry once, in order", T.show(el)[:100], loc)
                ix = ix or ("idx", TIME, 0)
            bad = [a for a in map(full, {**o.facts, **{a: v for e in rows for a, v in e.facts.items()}}) if a[0] not in {"isinst", "raises"} and any(x in {el, ix} for x in T.subterms(a))]
            ctx.check(not bad, "R04-rows", f"{name}: unconditional", "an entry is left out depending on " + "; ".join(T.show(a)[:60] for a in bad[:2]), loc)
            row, cols = [], []
            for e in rows:
                ps = [x for a in e.args for x in parts(a)]
                if len(e.loops) > 1:
                    st = column_loop(full(e.loops[1]), e.facts)
                    row.append(("each", ps, st, full(e.loops[1])))
                else:
                    row += ps
            row = merge([by_loop(x) for x in row])
            each = [x for x in row if isinstance(x, tuple) and x[0] == "each"]
            if not ctx.check(row and isinstance(row[-1], str) and row[-1].endswith("\n") and sum(x.count("\n") for x in row if isinstance(x, str)) == 1, "R04-rows", f"{name}: one line per entry", f"{[x for x in row if isinstance(x, str)]}"[:80], loc):
                continue
            stamp = row[0] if not isinstance(row[0], str) and row[0] not in each else None
            wants = is_csv or truth(o.facts, ("param", "add_timestamp"))
            if wants and ctx.check(stamp is not None, "R04-stamp", f"{name}: entries begin with their timestamp", "", loc):
                ctx.check(stamp_of(stamp, el), "R04-stamp", f"{name}: own timestamp in seconds", T.show(stamp)[:140], loc)
                forms = [x[2] for x in T.subterms(stamp) if x[:2] == ("k", "str") and "%" in x[2]]
                fine = [all(p in f for p in ("%M", "%S", "%f")) and ("%H" in f or "%I" in f and "%p" in f) and ("%d" in f or "%j" in f) for f in (x.replace("%T", "%H:%M:%S").replace("%F", "%Y-%m-%d") for x in forms)]
                ctx.check(all(fine), "R04-stamp", f"{name}: timestamp is complete", "; ".join(forms), loc)
            elif not wants:
                ctx.check(stamp is None, "R04-stamp", f"{name}: no timestamp", "", loc)
            known = len([x for x in row if not isinstance(x, str)]) == len(each) + (stamp is not None)
            ctx.check(known and (len(each) <= 1 or alternatives(each)), "R04-cells", f"{name}: nothing but timestamp and cells", f"{len(row)} parts", loc)
            for x in each:
                full_rows += 1
                st = x[2]
                facts = {**o.facts, **(x[4] if len(x) > 4 else {})}
                if not ctx.check(st is not None and columns(st), "R04-cells", f"{name}: one cell of every dataset but time", T.show(x[3])[:100] if len(x) > 3 else "", loc):
                    continue
                key = plain(st[1]) if len(x) > 3 else None
                sub = {x[3]: st[1]} if len(x) > 3 else {}
                ps = [y if isinstance(y, str) else y if y[0] == "join" else plain(T.subst(y, sub)) for y in x[1]]
                lead, cell = ps[:-1], ps[-1] if ps else ""
                if isinstance(cell, str) and len(ps) == 1:
                    ctx.check(not is_csv and cell.strip() != "", "R04-cells", f"{name}: unreadable entries are marked", repr(cell), loc)
                    continue
                sep = lead[0] if len(lead) == 1 else None
                ctx.check(sep is not None and (not isinstance(sep, str) or sep.strip(" ") in {"\t", ",", ";"}), "R04-cells", f"{name}: cells are separated", f"{len(lead)} parts lead", loc)
                raw = ("item", ("item", GRP, KEY), ix)
                at = ("attr", ("item", GRP, KEY), "attrs")
                si = T.add(T.mul(("get", at, K("gain"), K(1)), raw), ("get", at, K("offset"), K(0)))
                want = si if is_csv and not truth(facts, ("param", "raw")) else raw
                if cell[0] == "join":
                    ok = cell[1] == sep and plain(T.subst(cell[3][2][1][0], sub)) == ("elem", want, 0) and len(cell[2]) == 1 and plain(T.subst(cell[2][0], sub)) == ("elem", want, 0)
                    shown = cell[2][0] if cell[2] else NONE
                else:
                    ok = cell == want
                    shown = cell
                array = {v for a, v in facts.items() if a[0] == "isinst" and "ndarray" in str(a[2]) and plain(T.subst(a[1], sub)) == want}
                if is_csv and ok and len(array) == 1:
                    ctx.check(array == {cell[0] == "join"}, "R04-cells", f"{name}: arrays are spread over columns, single values are not", T.show(shown)[:100], loc)
                cells += ok
                ctx.check(ok, "R04-cells", f"{name}: {'value of the dataset' if want == raw else 'value in physical units of the dataset'} at this entry", T.show(shown)[:160] if isinstance(shown, tuple) else str(shown), loc)
                seen.add((truth(facts, ("param", "raw")), cell[0] == "join") if is_csv else bool(wants))
        if is_csv and ctx.check(len(head) >= 1, "R04-header", "header is written first", "none"):
            hs = merge([x for e in head for a in e.args for x in parts(a)])
            n_end = sum(x.count("\n") for x in hs if isinstance(x, str))
            each = [x for x in hs if isinstance(x, tuple) and x[0] == "each"]
            ok = len(hs) == 3 and len(each) == 1 and hs[1] == each[0] and hs[-1] == "\n" and n_end == 1
            if ctx.check(ok, "R04-header", "time, then the other columns", "; ".join(x if isinstance(x, str) else T.show(x)[:50] if x[0] not in {"each", "join"} else x[0] for x in hs)[:200], head[0].loc):
                d = lambda k: ("item", ("attr", ("item", GRP, k), "attrs"), K("description"))  # noqa: E731
                ctx.check(T.contains(hs[0], lambda x: x == d(K("time"))), "R04-header", "first column is time", T.show(hs[0])[:80], head[0].loc)
                ctx.check(columns(each[0][2]) and len(each[0][1]) == 2 and T.contains(plain(each[0][1][1]), lambda x: x == d(KEY)), "R04-header", "columns as in the rows", T.show(each[0][2])[:120], head[0].loc)
                ctx.check(sep is None or each[0][1][0] == sep, "R04-header", "separated like the rows", "", head[0].loc)
            ctx.check(all(o.events.index(h) < o.events.index(r) for h in head for r in rows), "R04-header", "before the rows", "", head[0].loc)
    want = {(r, j) for r in (True, False) for j in (True, False)} if is_csv else {True, False}
    ctx.check(seen >= want, "R04-instance", name, f"{seen}")


def on_disk(t):
    """does something exist?"""
    return t[:1] == ("mcall",) and t[2] in {"exists", "is_file"} or t[:1] == ("call",) and leaf(t[1]) in {"exists", "isfile"}


def empty(facts, coll, key):
    """is there no entry in this dataset of the collection?"""
    ds = ("item", coll, K(key))
    if facts.get(("in", K(key), coll)) is False or facts.get(("in", K(key), ("mcall", coll, "keys", (), ()))) is False:
        return True
    sizes = {x for a in facts for x in T.subterms(a) if length_of(x, [ds])}
    return any(F.decide(facts, F.pos(x), {}) is False for x in sizes)


def truth(facts, t):
    return facts.get(("true", t))


def stamp_of(t, el):
    """formatted time of this entry, in seconds"""
    calls = [x for x in T.subterms(t) if x[:1] in {("call",), ("mcall",)} and "fromtimestamp" in {leaf(x[1]), x[2] if isinstance(x[2], str) else ""}]
    if len(calls) != 1:
        return False
    a = calls[0][2][0] if calls[0][0] == "call" else calls[0][3][0]
    f = T.mul(a, T.inv(el))
    nano = K(T.frac(1) / 10**9)
    return f == nano or f == ("get", ("attr", TIME, "attrs"), K("gain"), nano)


def levels(ctx):
    """number of messages of a level, and which are shown"""
    q = f"{CORE_R}.count_errors_in_log"
    fi = ctx.func(q)
    ds = ("item", ("item", fld("h5file"), ("param", "group_name")), K("level"))
    lim = ("param", "min_level")
    n, tally = 0, set()
    for o in returns(ctx.run(fi, names={"loop", "carry"}, star_facts=True, keep=lambda a: True)):
        t = full(o.term)
        if t == K(0):
            gone = o.facts.get(("in", ("param", "group_name"), fld("h5file"))) is False or empty(o.facts, ds[1], "level") or counted(o, t, ds, lim, tally)
            ctx.check(gone, "R04-levels", "no messages without a log", "none if " + "; ".join(("" if v else "not ") + T.show(a)[:60] for a, v in o.facts.items()))
            continue
        n += 1
        ok = False
        if t[0] == "call" and leaf(t[1]) in {"len", "sum"} and len(t[2]) == 1:
            c = t[2][0]
            if c[:1] in {("list",), ("gen",), ("tuple",)} and len(c[1]) == 1 and c[1][0][0] == "star":
                s = c[1][0]
                when = dict(next((x[1] for x in s[2:] if x[:1] == ("when",)), ()))
                over = next((x[1] for x in s[2:] if x[:1] == ("for",)), ())
                ok = over == (("elem", ds, 0),) and when == {F.pos(T.sub(lim, over[0])): False} and (leaf(t[1]) == "len" or s[1] == K(1))
        if t[0] == "call" and leaf(t[1]) in {"sum", "count_nonzero"} and len(t[2]) == 1:
            ok = ok or t[2][0] in {("natom", F.pos(T.sub(lim, ds))), ("atom", F.cmp_atom("ge", ds, lim)[0])}
        ok = ok or counted(o, t, ds, lim, tally)
        ctx.check(ok, "R04-levels", "number of messages of at least this level", T.show(t)[:140])
    ctx.check(n > 0, "R04-instance", "levels", "never counted")
    ctx.check(tally in (set(), {0, 1}), "R04-levels", "messages of at least this level are counted", f"{tally}")
    q = f"{DATA_R}.warn_logs"
    fi = ctx.func(q)
    n_msg = ("call", f"{CORE_R}.count_errors_in_log", (("self",), ("param", "group_name"), lim), ())
    outs = returns(ctx.run(fi, names=(), opaque={f"{CORE_R}.count_errors_in_log", f"{CORE_R}.get_hostname"}, keep=lambda a: n_msg in T.subterms(a) or a[0] == "in" and a[1] == K("level")))
    ctx.where = fi
    k = 0
    for o in outs:
        t = full(o.term)
        own = t[:1] == ("call",) and t[1] == f"{CORE_R}.count_errors_in_log" and t[2] == (("self",), ("param", "group_name"), lim)
        k += own
        none = t == K(0) and (any(Judge().decide(o.facts, a) is v for a, v in ((F.pos(n_msg), False), (F.pos(T.sub(K(1), n_msg)), True))) or empty(o.facts, ds[1], "level"))
        ctx.check(own or none, "R04-levels", "number of messages of this level is delivered", T.show(t)[:80] + " if " + "; ".join(("" if v else "not ") + T.show(a)[:60] for a, v in list(o.facts.items())[:4]))
    ctx.check(k > 0, "R04-instance", "messages", "never counted")


def counted(o, t, ds, lim, tally):
    """a counter which a loop over the levels increases by one for each one that counts"""
    for x in o.events:
        if x.kind != "carry":
            continue
        for var, after in x.kws:
            lv = ("lv", x.name, var)
            before = [full(dict(y.kws).get(var, NONE)) for y in o.events if y.kind == "loop" and y.name == x.name]
            d = T.sub(full(after), lv)
            if full(after) != t or before != [K(0)] or d not in {K(0), K(1)}:
                continue
            facts = {full(a): v for a, v in x.facts.items()}
            el = [y for a in facts for y in T.subterms(a) if y == ("elem", ds, 0)]
            low = facts.get(F.pos(T.sub(lim, ("elem", ds, 0))))
            tally.add(int(d[2]))
            return bool(el) and low is (d == K(0))
    return False
