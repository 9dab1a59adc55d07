"""W02 / W03: alignment of the three channels and agreement of stored and reported metadata."""

from .. import facts as F
from .. import terms as T
from ..ctx import bound_args, returns
from ..values import S
from . import rule

CORE_R = "shepherd_core.reader.Reader"
CORE_W = "shepherd_core.writer.Writer"
DATA_R = "shepherd_data.reader.Reader"
CH = ("time", "voltage", "current")



OTHER_POSITIONS = {"flip", "flipud", "sort", "sorted", "reversed", "unique", "delete", "insert", "compress", "take", "roll", "nonzero", "trim_zeros", "extract", "repeat", "tile", "concatenate", "append", "argsort", "partition", "resample", "decimate", "filter", "set", "rot90", "choose"}


def rearranges(t):
    """A function that drops, adds or moves entries of its input."""
    name = t[1] if t and t[0] == "call" else t[2] if t and t[0] == "mcall" else None
    return isinstance(name, str) and name.rsplit(".", 1)[-1] in OTHER_POSITIONS


def h5path(t):
    """('root',) / ('root','data','time') ... of an h5 object term; None when it is not one."""
    t = F._plain(t)
    if t == ("attr", ("self",), "h5file"):
        return ("root",)
    if t[0] == "call" and t[1] in {"h5py.File"}:
        return ("root",)
    if t[0] == "attr" and t[2] == "h5file":
        return ("root",)
    if t[0] == "attr" and t[1] == ("self",) and t[2] in {"ds_time", "ds_voltage", "ds_current"}:
        return ("root", "data", t[2][3:])
    if t[0] == "item" and T.is_k(t[2]) and t[2][1] == "str":
        b = h5path(t[1])
        return None if b is None else (*b, *[x for x in t[2][2].split("/") if x])
    if t[0] == "mcall" and t[2] in {"create_group", "require_group", "create_dataset", "require_dataset"} and t[3] and T.is_k(t[3][0]):
        b = h5path(t[1])
        return None if b is None else (*b, *[x for x in str(t[3][0][2]).split("/") if x])
    if t[0] == "phi":
        ps = {h5path(x) for x in t[1]}
        return ps.pop() if len(ps) == 1 else None
    return None


def attr_loc(recv):
    """location whose .attrs is written/read"""
    if recv is not None and recv[0] == "attr" and recv[2] == "attrs":
        return h5path(recv[1])
    return None


def attr_writes(o):
    """(location, key, value, ev) of every h5 attribute stored on a path."""
    for e in o.events:
        if e.kind == "setitem" and e.recv is not None and attr_loc(e.recv) is not None:
            kk = e.args[0]
            yield attr_loc(e.recv), kk[2] if kk[0] == "k" else kk, e.args[1], e
        elif e.kind == "mcall" and e.name in {"__setitem__", "create", "modify"} and e.recv is not None and attr_loc(e.recv) is not None and len(e.args) >= 2:
            kk = e.args[0]
            yield attr_loc(e.recv), kk[2] if kk[0] == "k" else kk, e.args[1], e


def sizes_of(x):
    return [("attr", x, "size"), ("item", ("attr", x, "shape"), T.k(0)), ("call", "len", (x,), ())]


def array_len_terms(x):
    """terms that equal (or bound from above) the length of array term x"""
    out = set(sizes_of(x))
    # a + b*arange(m): length m
    for s in T.subterms(x):
        if not s or not isinstance(s[0], str):
            continue
        if s[0] == "call" and s[1] == "numpy.arange" and len(s[2]) == 1:
            out.add(s[2][0])
        if s[0] == "call" and s[1] in {"numpy.around", "numpy.round", "numpy.rint", "numpy.clip", "numpy.asarray"} and s[2]:
            if x[0] == "call" and s == x:
                out |= array_len_terms(s[2][0])
    return out


def min_args(n):
    n = F._plain(n)
    if n[0] == "min":
        out = set()
        for a in n[1] if isinstance(n[1], tuple) and n[1] and isinstance(n[1][0], tuple) else n[1:]:
            out |= min_args(a)
        return out
    return {n}


def not_longer(n, x):
    """is n <= len(x)?  n is a min over a set that contains len(x), or equals it"""
    lens = set()
    for t in array_len_terms(x):
        lens |= {F._plain(t)}
        lens |= {F._plain(a) for a in ()}
    for a in min_args(n):
        if F._plain(a) in lens:
            return True
        # len(x) itself may be a min: n <= min(..) if all of its args are in n's args
        for ln in lens:
            la = min_args(ln)
            if len(la) > 1 and la <= min_args(n):
                return True
    return False


def ds_ref(t):
    p = h5path(t)
    return p[-1] if p and len(p) == 3 and p[1] == "data" and p[2] in CH else None


def lead_size(t):
    """the n of a (n,) shape"""
    t = F._plain(t)
    if t[0] == "tuple" and len(t[1]) == 1:
        return t[1][0]
    return t


def is_ds_len(t):
    t = F._plain(t)
    if t[0] == "attr" and t[2] == "size":
        return ds_ref(t[1])
    if t[0] == "item" and t[1][0] == "attr" and t[1][2] == "shape" and t[2] == T.k(0):
        return ds_ref(t[1][1])
    if t[0] == "call" and t[1] == "len":
        return ds_ref(t[2][0])
    return None


@rule("W02", floor=12, technique="relational abstract interpretation of the append and trim paths over symbolic lengths")
def aligned(ctx):
    """For every path through the append operations: all three channel datasets are grown to one common size term
    old+n, each receives exactly the source range [0:n] at [old:old+n], with n no longer than each source; for every
    path of the trim on close: all three are cut to one common size that is proven below the present size and is the
    whole-buffer multiple of it; no other operation of the writer resizes or stores a channel."""
    raw = f"{CORE_W}.append_iv_data_raw"
    for fn in ["append_iv_data_raw", "append_iv_data_si"]:
        outs = ctx.run(f"{CORE_W}.{fn}", names={"resize", "setitem", raw}, opaque={raw})
        done = 0
        for o in returns(outs):
            rs = {}
            for e in o.events:
                if e.name == "resize" and ds_ref(e.recv):
                    rs.setdefault(ds_ref(e.recv), []).append(e)
            ws = {}
            for e in o.events:
                if e.kind == "setitem" and ds_ref(e.recv):
                    ws.setdefault(ds_ref(e.recv), []).append(e)
            calls = [e for e in o.events if e.name == raw]
            if calls and fn.endswith("_si"):
                done += 1
                ok = len(calls) == 1 and not rs and not ws
                ctx.check(ok, "W02-delegate", fn, "stores more than once", calls[0].loc)
                for par, val in bound_args(ctx.prog, calls[0]).items():
                    if par == "self":
                        continue
                    ps = {x[1] for x in T.subterms(val) if x and x[0] == "param"}
                    ctx.check(ps == {par}, "W02-channel", f"{fn}/{par}", f"{par} is filled from {sorted(ps)}", calls[0].loc)
                    cut = [x for x in T.subterms(val) if x and (x[0] in {"slice", "item", "idx", "get"} and ("param", par) in T.subterms(x[1]) or rearranges(x))]
                    ctx.check(not cut, "W02-channel-whole", f"{fn}/{par}", "passes only a part of the channel, or its samples at other positions", calls[0].loc)
                continue
            if not rs and not ws:
                # nothing stored at all: aligned
                continue
            done += 1
            ok = set(rs) == set(CH) and all(len(v) == 1 for v in rs.values())
            if not ctx.check(ok, "W02-resize-all", f"{fn}/resize", f"channels resized: {sorted(rs)}", next(iter(o.events)).loc):
                continue
            sz = {c: F._plain(lead_size(v[0].args[0])) for c, v in rs.items()}
            ctx.check(len(set(sz.values())) == 1, "W02-same-size", f"{fn}/resize", f"channels get different sizes {[T.show(x)[:80] for x in sz.values()]}", rs["time"][0].loc)
            ok = set(ws) == set(CH) and all(len(v) == 1 for v in ws.values())
            if not ctx.check(ok, "W02-store-all", f"{fn}/store", f"channels stored: {sorted(ws)}", next(iter(o.events)).loc):
                continue
            rng = {c: F._plain(v[0].args[0]) for c, v in ws.items()}
            ctx.check(len(set(rng.values())) == 1, "W02-same-range", f"{fn}/store", "channels are stored at different positions", ws["time"][0].loc)
            for c, v in ws.items():
                e = v[0]
                sl = F._plain(e.args[0])
                val = F._plain(e.args[1])
                if sl[0] != "slice":
                    ctx.fail("W02-range", f"{fn}/{c}", "stored at something that is not a range", e.loc)
                    continue
                lo, hi = sl[1], sl[2]
                n = T.sub(sz[c], lo)
                hi_ok = hi in (T.k(None), sz[c]) or F._plain(hi) == sz[c]
                ctx.check(is_ds_len(lo) is not None and hi_ok, "W02-range", f"{fn}/{c}", f"range {T.show(sl)[:100]} is not [old : new size]", e.loc)
                # source
                if val[0] == "item" and val[2][0] == "slice":
                    src, s2 = val[1], val[2]
                    ok = s2[1] in (T.k(0), T.k(None)) and F._plain(s2[2]) == F._plain(n) and s2[3] in (T.k(None), T.k(1))
                    ctx.check(ok, "W02-source", f"{fn}/{c}", f"source range {T.show(s2)[:100]} is not [0 : n]", e.loc)
                    ctx.check(not_longer(n, src), "W02-length", f"{fn}/{c}", f"{c} may hold fewer than the stored number of samples", e.loc)
                    need = {"time": "timestamp"}.get(c, c)
                    ps = {x[1] for x in T.subterms(src) if x and x[0] == "param"}
                    own = need in ps
                    foreign = {p for p in ps if p in {"timestamp", "voltage", "current"} - {need}}
                    if c == "time":
                        foreign = set()
                    ctx.check(own and not foreign, "W02-channel", f"{fn}/{c}", f"{c} is filled from {sorted(ps)}", e.loc)
                else:
                    ctx.fail("W02-source", f"{fn}/{c}", f"source {T.show(val)[:100]} has no proven length", e.loc)
        ctx.check(done > 0, "W02-instance", fn, "no storing path found")
    outs = ctx.run(f"{CORE_W}._align", names={"resize", "setitem"}, opaque={f"{CORE_R}._refresh_file_stats"})
    cut = 0
    for o in returns(outs):
        rs = [e for e in o.events if e.name == "resize"]
        if not rs:
            continue
        cut += 1
        chs = [ds_ref(e.recv) for e in rs]
        sz = {F._plain(lead_size(e.args[0])) for e in rs}
        ctx.check(sorted(x or "?" for x in chs) == sorted(CH), "W02-trim-all", "close/trim", f"trimmed: {chs}", rs[0].loc)
        ctx.check(len(sz) == 1, "W02-trim-same", "close/trim", "channels are trimmed to different sizes", rs[0].loc)
        for s in sz:
            ctx.check(whole_buffers(s), "W02-trim-whole", "close/trim", f"size {T.show(s)[:120]} is not the whole-buffer multiple of the present size", rs[0].loc)
    ctx.check(cut > 0, "W02-instance", "close/trim", "no trimming path")
    for fn in ["store_config", "store_hostname", "__setitem__", "__exit__"]:
        outs = ctx.run(f"{CORE_W}.{fn}", names={"resize", "setitem"}, opaque={f"{CORE_R}._refresh_file_stats", f"{CORE_R}.is_valid", f"{CORE_W}._align"})
        bad = [e for o in outs for e in o.events if ds_ref(e.recv)]
        ctx.check(not bad, "W02-others", fn, "touches a channel", bad[0].loc if bad else "")


def whole_buffers(s):
    """s == c * floor(len / c) for the buffer size c"""
    s = F._plain(s)
    while s[0] == "call" and s[1] in {"int", "math.floor", "math.trunc"} and len(s[2]) == 1:
        if s[1] != "int" and _frac_of_len(s[2][0]):
            return False  # floor(len/c) without the multiple
        s = F._plain(s[2][0])
    p = T.to_poly(s)
    mons = list(p.items()) if isinstance(p, dict) else list(p)
    if len(mons) == 1:
        m, c = mons[0]
        if len(m) == 1 and m[0][1] == 1 and c > 1:
            a = F._plain(m[0][0])
            while a[0] == "call" and a[1] in {"int"} and len(a[2]) == 1:
                a = F._plain(a[2][0])
            if a[0] == "call" and a[1] in {"math.floor", "numpy.floor"}:
                q = _frac_of_len(a[2][0])
                return q is not None and q * c == 1
            if a[0] == "floordiv":
                return is_ds_len(a[1]) is not None and a[2] == T.k(c)
    if len(mons) == 2:
        d = {F._plain(m[0][0]) if len(m) == 1 else None: c for m, c in mons}
        for a, c in d.items():
            if a is not None and a[0] == "mod" and c == -1:
                return is_ds_len(a[1]) is not None and d.get(F._plain(a[1])) == 1
    return False


def _frac_of_len(t):
    p = T.to_poly(t)
    mons = list(p.items()) if isinstance(p, dict) else list(p)
    if len(mons) == 1:
        m, c = mons[0]
        if len(m) == 1 and m[0][1] == 1 and is_ds_len(m[0][0]):
            return c
    return None


GETTER = {"mode": "get_mode", "datatype": "get_datatype", "window_samples": "get_window_samples", "config": "get_config", "hostname": "get_hostname"}


def strip_conv(t):
    """value without the conversions that undo how it was stored"""
    t = F._plain(t)
    while True:
        if t[0] == "call" and t[1] in {"int", "str", "yaml.safe_load", "yaml.load", "yaml.safe_dump", "yaml.dump"} and t[2]:
            t = F._plain(t[2][0])
        elif t[0] == "attr" and t[2] in {"name"}:
            t = F._plain(t[1])
        elif t[0] == "item" and t[1][0] in {"cls", "enumcls"}:
            t = F._plain(t[2])
        else:
            return t


def convs(t):
    """conversions applied, outermost first"""
    out = []
    t = F._plain(t)
    while True:
        if t[0] == "call" and t[1] in {"int", "str", "yaml.safe_load", "yaml.load", "yaml.safe_dump", "yaml.dump"} and t[2]:
            out.append(t[1])
            t = F._plain(t[2][0])
        elif t[0] == "attr" and t[2] in {"name", "value"}:
            out.append("." + t[2])
            t = F._plain(t[1])
        elif t[0] == "item" and t[1][0] in {"cls", "enumcls"}:
            out.append("[name]")
            t = F._plain(t[2])
        else:
            return out, t


def reader_sources(ctx, getter):
    """ordered {location: (key, value term)} of the attributes a getter returns, and its fallbacks' conditions"""
    out = []
    for o in returns(ctx.run(f"{CORE_R}.{getter}")):
        cv, base = convs(o.term)
        if base[0] == "item" and attr_loc(base[1]) is not None and base[2][0] == "k":
            out.append((attr_loc(base[1]), base[2][2], cv, o))
        elif base[0] == "get" and attr_loc(base[1]) is not None and base[2][0] == "k":
            out.append((attr_loc(base[1]), base[2][2], cv, o))
        else:
            out.append((None, None, cv, o))
    return out


def known_present(o, loc, key):
    for a, v in o.facts.items():
        if a[0] == "in" and F._plain(a[1]) == T.k(key) and attr_loc(a[2]) == loc:
            return v
    return None


def returns_from(ctx, getter, loc, key):
    """does the getter, whenever the attribute is present at loc, return it?  (ok, why, convs)"""
    seen = None
    for rl, rk, cv, o in reader_sources(ctx, getter):
        pres = known_present(o, loc, key)
        if pres is False:
            continue
        if (rl, rk) == (loc, key):
            seen = cv
            continue
        if rl is None and pres is None and getter == "get_datatype" and o.term == T.k(None):
            continue  # unreadable value (error path)
        if rl is None and pres is True and o.term == T.k(None):
            continue  # lookup of an unknown name failed
        return False, f"{getter}() returns {T.show(o.term)[:80]} although '{key}' may be stored at {'/'.join(loc)}", None
    if seen is None:
        return False, f"{getter}() never reads '{key}' from {'/'.join(loc)}", None
    return True, "", seen


INVERSE = {
    "mode": (((), ()), (("str",), ()), ((), ("str",))),
    "hostname": (((), ()), ((), ("str",)), (("str",), ())),
    "window_samples": (((), ("int",)), ((), ()), (("int",), ("int",)), (("int",), ())),
    "datatype": (((".name",), ("[name]",)), ((".name", "[name]"), ("[name]",))),
    "config": ((("yaml.safe_dump",), ("yaml.safe_load",)), (("yaml.dump",), ("yaml.safe_load",))),
}


@rule("W03", floor=20, technique="abstract interpretation: attribute-location and value agreement of writer and reader")
def metadata_agrees(ctx):
    """The attribute location, key and value encoding each store path of the writer uses are compared with the ones the
    reader's query returns on every path on which the attribute is present; calibration is compared per channel and per
    parameter; the down-sampled copy must hand on exactly what the queries of its source return."""
    run = {"names": {"setitem", "__setitem__", "create", "modify"}}
    stored = {}
    it = ctx.interp(names=run["names"])
    cal_ci = ctx.cls("CalibrationSeries")
    dt_ci = ctx.cls("EnergyDType")
    args = {"cal_data": S(("param", "cal_data"), ("cls", cal_ci)), "compression": S(T.k(None)), "verbose": S(T.k(True))}
    nn = {("isnone", ("param", x)): False for x in ("mode", "window_samples", "datatype", "cal_data")}
    it.tyhint[("param", "cal_data")] = ("cls", cal_ci)
    for variant in ("enum", "str"):
        a = dict(args)
        ty = ("cls", dt_ci) if variant == "enum" else ("ext", "str")
        a["datatype"] = S(("param", "datatype"), ty)
        a["mode"] = S(("param", "mode"), ("ext", "str"))
        a["window_samples"] = S(("param", "window_samples"), ("ext", "int"))
        it = ctx.interp(names=run["names"], opaque={f"{CORE_R}.__init__"})
        it.tyhint[("param", "cal_data")] = ("cls", cal_ci)
        it.tyhint[("param", "datatype")] = ty
        outs = returns(ctx.run(f"{CORE_W}.__init__", args=a, facts=nn, it=it))
        n = 0
        for o in outs:
            last, cal = {}, {}
            for loc, key, val, e in attr_writes(o):
                if key in ("mode", "datatype", "window_samples") and len(loc) <= 2:
                    last[key] = (loc, val, e)
                elif key in ("gain", "offset"):
                    cal[(loc[-1] if loc and len(loc) == 3 else str(loc), key)] = (loc, val, e)
            n += 1
            for key in ("mode", "datatype", "window_samples"):
                if not ctx.check(key in last, "W03-stored", key, f"constructor path does not store '{key}'"):
                    continue
                loc, val, e = last[key]
                cv, base = convs(val)
                if base[0] == "k" and key == "datatype":
                    # the path knows which data type was asked for
                    named = {n: F._plain(T.k(v)) for n, (_c, v) in dt_ci.enum_members().items()}
                    for a_, v_ in e.facts.items():
                        if v_ and a_[0] == "eq" and convs(a_[1])[1] == ("param", key) and named.get(base[2]) == F._plain(a_[2]):
                            cv, base = [".name"], ("param", key)
                ctx.check(base == ("param", key), "W03-value", key, f"stored '{key}' is {T.show(val)[:100]}, not what was asked for", e.loc)
                stored.setdefault(key, {})[(loc, tuple(cv))] = e.loc
            for ch in CH:
                for p in ("gain", "offset"):
                    if not ctx.check((ch, p) in cal, "W03-cal-stored", f"{ch}/{p}", "calibration value is not stored"):
                        continue
                    loc, val, e = cal[(ch, p)]
                    ctx.check(val == ("attr", ("attr", ("param", "cal_data"), ch), p), "W03-cal-value", f"{ch}/{p}", f"stored is {T.show(val)[:100]}", e.loc)
                    ctx.check(loc == ("root", "data", ch), "W03-cal-place", f"{ch}/{p}", f"stored at {loc}", e.loc)
        ctx.check(n > 0, "W03-instance", f"constructor/{variant}", "no complete path")
    for fn, key, par in [("store_config", "config", "data"), ("store_hostname", "hostname", "name")]:
        for o in returns(ctx.run(f"{CORE_W}.{fn}", **run)):
            ws = [w for w in attr_writes(o) if w[1] == key]
            if not ctx.check(len(ws) == 1, "W03-stored", key, f"{fn} stores '{key}' {len(ws)} times"):
                continue
            loc, _, val, e = ws[0]
            cv, base = convs(val)
            ctx.check(base == ("param", par), "W03-value", key, f"stored '{key}' is {T.show(val)[:100]}", e.loc)
            stored.setdefault(key, {})[(loc, tuple(cv))] = e.loc
    for key, places in stored.items():
        for (loc, cv), where in places.items():
            ok, why, rcv = returns_from(ctx, GETTER[key], loc, key)
            if not ctx.check(ok, "W03-read-back", key, why, where):
                continue
            ctx.check((tuple(cv), tuple(rcv)) in INVERSE[key], "W03-encoding", key, f"stored through {list(cv)} but read through {rcv}", where)
    # calibration as loaded by the reader
    it = ctx.interp(names={"setitem", "construct"}, opaque={f"{CORE_R}.is_valid", f"{CORE_R}._refresh_file_stats"})
    got = {}
    for o in returns(ctx.run(f"{CORE_R}.__init__", it=it)):
        for e in o.events:
            if e.kind == "setitem" and e.args[0][0] == "k" and e.args[0][2] in ("gain", "offset") and attr_loc(e.recv) is None:
                v = e.args[1]
                ch = [x[2][2] for x in T.subterms(e.recv) if x and x[0] == "item" and x[2][0] == "k" and x[2][2] in CH]
                if v[0] == "item" and attr_loc(v[1]) is not None and len(ch) == 1:
                    got[(ch[0], e.args[0][2])] = (attr_loc(v[1]), v[2][2] if v[2][0] == "k" else None, e.loc)
    for ch in CH:
        for p in ("gain", "offset"):
            if ctx.check((ch, p) in got, "W03-cal-read", f"{ch}/{p}", "reader does not load this calibration value"):
                loc, kk, where = got[(ch, p)]
                ctx.check(loc == ("root", "data", ch) and kk == p, "W03-cal-read", f"{ch}/{p}", f"loaded from {loc}.{kk}", where)
    # the cut / down-sampled copy
    opq = {f"{CORE_W}.__init__", f"{CORE_W}.__exit__", f"{DATA_R}.downsample"}
    gets = {"get_mode": "mode", "get_datatype": "datatype", "get_window_samples": "window_samples", "get_calibration_data": "cal_data"}
    opq |= {f"{CORE_R}.{g}" for g in [*gets, "get_config", "get_hostname"]}
    names = {CORE_W, "setitem", "__setitem__"}
    n = 0
    for o in returns(ctx.run(f"{DATA_R}.cut_and_downsample_to_file", names=names, opaque=opq)):
        cons = [e for e in o.events if e.kind == "construct" and e.name == CORE_W]
        if not cons:
            continue
        n += 1
        e = cons[0]
        for g, par in gets.items():
            v = e.arg(99, par)
            ok = v is not None and (_is_get(v, g) or (par == "cal_data" and v == ("attr", ("self",), "_cal")))
            ctx.check(ok, "W03-copy", par, f"copy gets {par}={T.show(v)[:80] if v else 'default'}", e.loc)
        ws = {k_: (loc, v, e2) for loc, k_, v, e2 in attr_writes(o)}
        for key, g in [("config", "get_config"), ("hostname", "get_hostname")]:
            if ctx.check(key in ws, "W03-copy", key, f"copy does not carry the {key}", e.loc):
                v = strip_conv(ws[key][1])
                ctx.check(_is_get(v, g), "W03-copy", key, f"copy carries {T.show(v)[:80]} as {key}", ws[key][2].loc)
    ctx.check(n > 0, "W03-instance", "copy", "no copying path found")


def _is_get(t, name):
    t = F._plain(t)
    return t[0] in {"call", "mcall"} and ((t[0] == "call" and t[1].rsplit(".", 1)[-1] == name) or (t[0] == "mcall" and t[2] == name))
