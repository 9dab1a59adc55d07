"""Calibration: conversions, hardware model, EEPROM container, kernel-export ranges."""

from fractions import Fraction

from .. import facts as F
from .. import num as N
from .. import terms as T
from ..ctx import raises, returns
from ..schema import field_schema
from . import rule

CAL = "shepherd_core.data_models.base.calibration"
HW = "shepherd_core.calibration_hw_def"
SELF_GAIN = ("attr", ("self",), "gain")
SELF_OFF = ("attr", ("self",), "offset")


def no_mutation(ctx, outs, rule_, con, params):
    for o in outs:
        for e in o.events:
            if e.kind in {"setitem", "inplace"} and e.recv is not None:
                r = F._plain(e.recv)
                own = r[0] == "param" and r[1] in params
                # a view of the parameter
                own = own or (r[0] == "item" and r[1][0] == "param" and r[1][1] in params)
                ctx.check(not own, rule_, con, f"changes the caller's {T.show(r)[:60]}", e.loc)


def by_kind(ctx, outs, par, con):
    """functions for single numbers never see an array, masked stores never a single number"""
    for o in outs:
        for e in o.events:
            ts = e.args if e.kind == "scalar" else (e.recv,) if e.kind == "setitem" else ()
            if not any(t is not None and T.contains(t, lambda x: x == par) for t in ts):
                continue
            arr = None
            for a, v in e.facts.items():
                if a[0] == "isinst" and T.contains(a[1], lambda x: x == par):
                    if "ndarray" in str(a[2]):
                        arr = v
                    elif v:
                        arr = False
                elif a[0] == "true" and a[1][0] == "call" and a[1][1].endswith("isscalar") and T.contains(a[1], lambda x: x == par):
                    arr = not v
            ctx.check(arr is (e.kind == "setitem"), "C01-kind", con, f"{e.name} is applied to {'arrays' if arr else 'single numbers' if arr is False else 'arrays and numbers'}", e.loc)


@rule("C01", floor=8, technique="abstract interpretation to symbolic terms; affine-inverse identity and clamp analysis per path")
def conversions(ctx):
    """Every path of the two conversions must return the affine term raw*gain+offset respectively its inverse
    (value-offset)/gain, rounded to nearest and limited to >= 0 where demanded (branch facts, min/max, masked stores
    and clip are all understood), without storing into the argument; gain is declared strictly positive; values
    derived from a probe function are its algebraic inverse."""
    ci = ctx.cls(f"{CAL}.CalibrationPair")
    fs = field_schema(ctx.prog, ci, "gain")
    if fs is None:
        from ..prog import AnalysisError

        raise AnalysisError("anchor vanished: gain of a calibration pair")
    lo, lopen, _, _ = fs.range()
    ctx.check(lo is not None and (lo > 0 or (lo == 0 and lopen)), "C01-gain", "gain positive", f"gain may be {lo}", str(fs.owner.loc))
    raw, si = ("param", "values_raw"), ("param", "values_si")
    fwd = T.add(T.mul(raw, SELF_GAIN), SELF_OFF)
    inv = T.div(T.sub(si, SELF_OFF), SELF_GAIN)
    names = {"setitem", "inplace", "scalar"}
    outs = ctx.run(f"{CAL}.CalibrationPair.raw_to_si", names=names, keep=lambda a: True)
    by_kind(ctx, outs, raw, "raw to physical")
    no_mutation(ctx, outs, "C01-no-mutation", "raw to physical", {"values_raw"})
    seen = set()
    for o in returns(outs):
        neg = o.facts.get(("true", ("param", "allow_negative")))
        for allowed in [neg] if neg is not None else [True, False]:
            seen.add(allowed)
            ok, why = N.equals(o, fwd, lo=None if allowed else Fraction(0), rounding=())
            ctx.check(ok, "C01-forward", f"raw to physical, negative {'allowed' if allowed else 'suppressed'}", why, "")
    ctx.check(seen == {True, False}, "C01-instance", "both variants", f"{seen}")
    outs = ctx.run(f"{CAL}.CalibrationPair.si_to_raw", names=names, keep=lambda a: True)
    by_kind(ctx, outs, si, "physical to raw")
    no_mutation(ctx, outs, "C01-no-mutation", "physical to raw", {"values_si"})
    for o in returns(outs):
        ok, why = N.equals(o, inv, lo=Fraction(0), rounding=("nearest",))
        ctx.check(ok, "C01-inverse", "physical to raw", why)
    for o in returns(ctx.run(f"{CAL}.CalibrationPair.from_fn", names={"construct"})):
        t = o.term
        cons = [e for e in o.events if e.kind == "construct" and "CalibrationPair" in e.name]
        if not ctx.check(len(cons) == 1, "C01-probe", "derived values", "no calibration pair is built"):
            continue
        g, off = cons[0].arg(99, "gain"), cons[0].arg(99, "offset", T.k(0))
        calls = {x for t_ in (g, off) for x in T.subterms(t_) if x and x[0] in {"call", "mcall"} and _probe(x) is not None}
        unl = all(any(k_ == "limited" and v == T.k(False) for k_, v in _kws(c)) for c in calls)
        ctx.check(len(calls) == 2 and unl, "C01-probe", "derived values", "needs two un-limited probes", cons[0].loc)
        if len(calls) == 2:
            (c1, x1), (c2, x2) = [(c, _probe(c)) for c in calls]
            ok = True
            for v1, v2 in [(Fraction(3), Fraction(11)), (Fraction(-5, 7), Fraction(2, 3))]:
                gg, oo = T.subst(g, {c1: T.k(v1), c2: T.k(v2)}), T.subst(off, {c1: T.k(v1), c2: T.k(v2)})
                gg, oo = _unfloat(gg), _unfloat(oo)
                eg = (x1 - x2) / (v1 - v2)
                ok = ok and gg == T.k(eg) and oo == T.k(x1 - eg * v1)
            ctx.check(ok, "C01-probe", "derived values", f"gain {T.show(g)[:120]} / offset {T.show(off)[:120]} do not invert the probed function", cons[0].loc)


def _unfloat(t):
    while t[0] == "call" and t[1] in {"float"}:
        t = t[2][0]
    return t


def _kws(c):
    return c[3] if c[0] == "call" else c[4]


def _probe(c):
    a = c[2] if c[0] == "call" else c[3]
    a = [x for x in a if x != ("param", "fn")]
    if c[0] == "call" and c[1] not in {"fn", ("param", "fn")} and ("param", "fn") not in c[2]:
        return None
    if len(a) == 1 and N.num(a[0]):
        return a[0][2]
    return None


# ------------------------------------------------------------------ hardware model
def _affine_in_clamp(t, par):
    """t == s * clamp(par) -> (s, lo, hi)"""
    lo, hi, core, rnd = N.shape(t)
    if lo is not None or hi is not None or rnd:
        p = T.to_poly(core)
        p = dict(p)
        if set(p) == {((par, 1),)}:
            return p[((par, 1),)], lo, hi, rnd, "out"
        return None
    p = dict(T.to_poly(core))
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    lo, hi, inner, rnd = N.shape(m[0][0])
    if inner != par:
        return None
    return c, lo, hi, rnd, "in"


@rule("C04", floor=18, technique="abstract interpretation to symbolic terms; linear-inverse identity and range of the limited variants")
def hardware(ctx):
    """Each of the three conversions to converter codes is linear and truncating with exactly the inverse slope of its
    counterpart; with limiting requested every path is confined to the codes of the converter's width."""
    for name, bits in [("adc_current", 18), ("adc_voltage", 18), ("dac_voltage", 16)]:
        kind, unit = name.split("_")
        mx = Fraction(2**bits - 1)
        slopes = {}
        for fn, par in [(f"{kind}_{unit}_to_raw", unit), (f"{kind}_raw_to_{unit}", "value")]:
            p = ("param", par)
            for o in returns(ctx.run(f"{HW}.{fn}")):
                lim = o.facts.get(("true", ("param", "limited")))
                r = _piece(o, p, mx)
                if not ctx.check(r is not None, "C04-linear", fn, f"returns {T.show(o.term)[:160]}"):
                    continue
                s, lo, hi = r
                if s is not None:
                    slopes.setdefault(fn, set()).add(s)
                for limited in [lim] if lim is not None else [True, False]:
                    if limited:
                        ctx.check(lo == 0 and hi == mx, "C04-range", f"{fn} limited", f"codes limited to {lo}..{hi}, converter has 0..{mx}")
                    else:
                        ctx.check(lo is None and hi is None or (lo == 0 and hi == mx and s is None), "C04-unlimited", f"{fn} unlimited", f"limited to {lo}..{hi}")
        vals = list(slopes.values())
        ctx.check(len(vals) == 2 and all(len(v) == 1 for v in vals) and next(iter(vals[0])) * next(iter(vals[1])) == 1, "C04-inverse", name, f"slopes {slopes} are not inverse")


def _piece(o, p, mx):
    r = _affine_in_clamp(o.term, p)
    if r is not None:
        s, lo, hi, rnd, _ = r
        # limits known from the branches taken
        for x in (p, N.shape(o.term)[2], o.term):
            b = N.bnd(o.facts, x)
            if lo is None and b[0] is not None and b[0] >= 0:
                lo = max(b[0], Fraction(0))
            if hi is None and b[2] is not None and b[2] <= mx:
                hi = b[2]
        return s, lo, hi
    if N.num(o.term) and o.term[2] in {Fraction(0), mx}:
        return None, Fraction(0), mx
    return None


# ------------------------------------------------------------------ sysfs
SCALE = {
    "CalibrationHarvester": {
        "adc_current_gain": ("adc_C_Hrv", "gain", Fraction(10**9 * 2**8), 1),
        "adc_current_offset": ("adc_C_Hrv", "offset", Fraction(10**9), 1),
        "adc_voltage_gain": ("adc_V_Sense", "gain", Fraction(10**6 * 2**8), 1),
        "adc_voltage_offset": ("adc_V_Sense", "offset", Fraction(10**6), 1),
        "dac_voltage_gain": ("dac_V_Hrv", "gain", Fraction(2**20, 10**6), -1),
        "dac_voltage_offset": ("dac_V_Hrv", "offset", Fraction(10**6), 1),
    },
    "CalibrationEmulator": {
        "adc_current_gain": ("adc_C_A", "gain", Fraction(10**9 * 2**8), 1),
        "adc_current_offset": ("adc_C_A", "offset", Fraction(10**9), 1),
        "adc_voltage_gain": (None, None, Fraction(10**6 * 2**8), 0),
        "adc_voltage_offset": (None, None, Fraction(0), 0),
        "dac_voltage_gain": ("dac_V_A", "gain", Fraction(2**20, 10**6), -1),
        "dac_voltage_offset": ("dac_V_A", "offset", Fraction(10**6), 1),
    },
}


@rule("C03", floor=30, technique="path-sensitive abstract interpretation; interval proof from branch facts for each exported value")
def sysfs(ctx):
    """On every path on which the kernel export returns, each gain is proven (from the branch facts of that path) to be
    in 0..2^32-1 and each offset in -2^31..2^31-1; every refusing path has established that one value lies outside;
    each value is the calibration value of its converter in the kernel's unit and fixed-point shift, rounded."""
    for cls, spec in SCALE.items():
        want = {}
        for key, (pair, par, c, n) in spec.items():
            t = T.k(c)
            if pair is not None:
                x = ("attr", ("attr", ("self",), pair), par)
                t = T.mul(T.k(c), x) if n == 1 else T.div(T.k(c), x)
            want[key] = t
        outs = ctx.run(f"{CAL}.{cls}.export_for_sysfs", names=(), keep=lambda a: a[0] == "pos")
        decl = ctx.last.declared
        for o in returns(outs):
            d = F._plain(o.term)
            if not ctx.check(d[0] == "dict", "C03-result", cls, f"returns {T.show(d)[:80]}"):
                continue
            got = {a[2]: v for a, v in _pairs(d) if a[0] == "k"}
            ctx.check(set(got) == set(spec), "C03-keys", cls, f"exports {sorted(got)}")
            for key in spec:
                if key not in got:
                    continue
                v = got[key]
                lo, hi, core, rnd = N.shape(v)
                ctx.check(core == want[key] and rnd in {("nearest",), ()} and (rnd or N.num(core)), "C03-value", f"{cls}/{key}", f"exports {T.show(v)[:160]}")
                b = N.bnd(o.facts, v, decl)
                if "gain" in key:
                    ok = b[0] is not None and b[0] >= 0 and b[2] is not None and (b[2] < 2**32 or (b[2] == 2**32 and b[3]))
                    ctx.check(ok, "C03-range", f"{cls}/{key}", f"can export values in {_iv(b)}, container is 0..2^32-1")
                else:
                    ok = b[0] is not None and b[0] >= -(2**31) and b[2] is not None and (b[2] < 2**31 or (b[2] == 2**31 and b[3]))
                    ctx.check(ok, "C03-range", f"{cls}/{key}", f"can export values in {_iv(b)}, container is -2^31..2^31-1")
        for o in raises(outs):
            ctx.check(o.exc.name == "ValueError", "C03-refuse", f"{cls}/refusal", f"raises {o.exc.name}", o.exc.loc)
            why = False
            for key in spec:
                v = ("call", "round", (want[key],), ()) if not N.num(want[key]) else want[key]
                b = N.bnd(o.facts, v, decl)
                if "gain" in key:
                    why = why or (b[0] is not None and b[0] >= 2**32) or (b[2] is not None and (b[2] < 0 or (b[2] == 0 and b[3])))
                else:
                    why = why or (b[0] is not None and b[0] >= 2**31) or (b[2] is not None and (b[2] < -(2**31) or (b[2] == -(2**31) and b[3])))
            ctx.check(why, "C03-refuse", f"{cls}/refusal", "refuses although all values fit", o.exc.loc)
        ctx.check(bool(returns(outs)) and bool(raises(outs)), "C03-instance", cls, "no exporting or no refusing path")


def _pairs(d):
    for x in d[1]:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple):
            yield x


def _iv(b):
    return f"{b[0]}..{b[2]}"


# ------------------------------------------------------------------ EEPROM
@rule("C02", floor=8, technique="abstract interpretation; agreement of the packing and unpacking terms")
def eeprom(ctx):
    """Serialising packs, in one big-endian sequence of doubles, the float entries of the ordered walk over both
    calibration parts; parsing must unpack with the same code, over the same walk and filter of an equal-structured
    model, and put value i exactly where entry i of the walk came from."""
    outs = returns(ctx.run(f"{CAL}.CalibrationCape.to_bytestr", names={"struct.pack"}, star_facts=True))
    packs = [e for o in outs for e in o.events if e.name == "struct.pack"]
    if not ctx.check(len(packs) >= 1, "C02-pack", "pack", "nothing is packed"):
        return
    e = packs[0]
    ctx.check(all(o.term == e.res or (o.term[0] == "call" and o.term[1] == "struct.pack") for o in outs), "C02-pack", "result", "the packed bytes are not what is returned", e.loc)
    pf = _fmt(e.args[0])
    ctx.check(pf == (">", "d"), "C02-format", "pack", f"format {pf}", e.loc)
    vals = [x for x in e.args[1:]]
    ctx.check(len(vals) == 1 and vals[0][0] == "star", "C02-values", "pack", "values are not the walk's values", e.loc)
    seq = vals[0][1] if vals else None
    walk_p, filt_p, elem_p = _walk(seq)
    ctx.check(walk_p is not None and elem_p == "last", "C02-values", "pack", f"packs {T.show(seq)[:200]}", e.loc)
    cnt = _count(e.args[0])
    ctx.check(cnt is not None and _walk(cnt)[:2] == (walk_p, filt_p), "C02-count", "pack", "the number of doubles is not the number of values", e.loc)
    outs = returns(ctx.run(f"{CAL}.CalibrationCape.from_bytestr", names={"struct.unpack", "construct", "setitem"}, star_facts=True))
    ups = [e for o in outs for e in o.events if e.name == "struct.unpack"]
    if not ctx.check(len(ups) >= 1, "C02-unpack", "unpack", "nothing is unpacked"):
        return
    u = ups[0]
    uf = _fmt(u.args[0])
    ctx.check(uf == pf, "C02-format", "unpack", f"format {uf} differs from {pf}", u.loc)
    ctx.check(u.args[1] == ("param", "data"), "C02-unpack", "source", f"unpacks {T.show(u.args[1])[:80]}", u.loc)
    walk_u, filt_u, _ = _walk(_count(u.args[0]))
    ctx.check(walk_u is not None and walk_u == walk_p, "C02-same-walk", "walk", f"walks {walk_u} when parsing, {walk_p} when serialising", u.loc)
    if filt_u is not None and filt_p is not None:
        ctx.check(filt_u == filt_p, "C02-same-filter", "filter", f"filter {filt_u} when parsing, {filt_p} when serialising", u.loc)
    stores = [e for o in outs for e in o.events if e.kind == "setitem"]
    stored = 0
    for e in stores:
        if e.args[0] == T.k("cape"):
            continue
        p = _place(e)
        ok = p is not None
        if ok:
            stored += 1
            idx, val = p
            ok = val == ("item", u.res, idx) or (val[0] == "call" and val[1] == "float" and val[2][0] == ("item", u.res, idx)) or _zip_elem(val, u.res)
        ctx.check(ok, "C02-place", "value i goes to entry i", f"stores {T.show(e.args[1])[:120]} at {T.show(e.recv)[:120]}[{T.show(e.args[0])[:60]}]", e.loc)
    ctx.check(stored > 0, "C02-instance", "stores", "no value is taken over")
    for o in outs:
        cons = [e for e in o.events if e.kind == "construct" and e.name.endswith("CalibrationCape") and (e.kws or e.args)]
        ctx.check(len(cons) == 1, "C02-result", "result", "the parsed values are not used")


def _fmt(t):
    """(byte order, code) of a format term: const prefix + n * code"""
    joined = _text(t)
    order = joined[:1] if joined[:1] in "<>!=@" else "@"
    rest = joined[1:] if joined[:1] in "<>!=@" else joined
    return order, "".join(sorted(set(rest)))


def _text(t):
    """the constant characters of a format, without its count expression"""
    if t[0] == "k":
        return str(t[2]) if t[1] == "str" else ""
    if t[0] == "fstr":
        return "".join(_text(x) for x in t[1])
    if t[0] == "poly":
        out = ""
        for m, _c in T.to_poly(t).items():
            out += "".join(_text(a) for a, _n in m if a[0] in {"k", "fstr"})
        return out
    return ""


def _count(t):
    for x in T.subterms(t):
        if x and x[0] == "call" and x[1] == "len":
            return x[2][0]
    return None


def _norm_model(t):
    """the model instance whose content is walked, whoever it is"""
    if not isinstance(t, tuple) or not t:
        return t
    if t == ("self",) or (t[0] == "new" and "CalibrationCape" in str(t[1])) or (t[0] == "param" and t[1] in {"cls", "self"}):
        return ("model",)
    if t[0] == "set":
        return ("set", frozenset(_norm_model(x) for x in t[1]))
    return tuple(_norm_model(x) for x in t)


def _elem(t):
    """(collection, n) of an element term"""
    if t and t[0] == "elem":
        return t[1], t[2]
    return None, None


def _last(t):
    if t and t[0] == "item" and N.num(t[2]) and t[2][2] in {-1, 2} and t[1][0] == "elem":
        return t[1]
    return None


def _norm_filter(facts, e):
    """filter on the value of an entry, relative to the entry"""
    out = []
    for a, v in facts:
        out.append((T.subst(a, {("item", e, T.k(-1)): ("val",), ("item", e, T.k(2)): ("val",)}), v))
    return out


def _walk(t):
    """(normalised walk, filter, what is taken of an entry) of a list of (parts of) walk entries"""
    how = "entry"
    flt = []
    for _ in range(6):
        if not t:
            return None, None, None
        if t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "star":
            st = t[1][0]
            e = st[1]
            if _last(e) is not None:
                how = "last"
                e = _last(e)
            if len(st) > 2:
                flt += _norm_filter(st[2][1], e)
            c, _n = _elem(e)
            if c is None:
                return None, None, None
            t = c
        elif t[0] == "seq":
            t = t[1]
        elif t[0] in {"call", "mcall"}:
            if t[0] == "call" and t[1] in {"list", "tuple"} and len(t[2]) == 1:
                t = t[2][0]
                continue
            return _norm_model(t), _norm_model(tuple(sorted(set(flt), key=repr))) if flt else None, how
        else:
            return None, None, None
    return None, None, None


def _place(e):
    """(index term, value) of `d[entry[0]][entry[1]][entry[2]] = value`"""
    r = e.recv
    if r[0] != "item" or r[1][0] != "item":
        return None
    ks = [r[1][2], r[2], e.args[0]]
    base = None
    for i, kx in enumerate(ks):
        if kx[0] != "item" or kx[2] != T.k(i) or kx[1][0] != "elem":
            return None
        base = base or kx[1]
        if kx[1] != base:
            return None
    return ("idx", *base[1:]), e.args[1]


def _zip_elem(v, res):
    while v[0] == "call" and v[1] == "float":
        v = v[2][0]
    return v[0] == "elem" and v[1] in {res, ("seq", res)}
