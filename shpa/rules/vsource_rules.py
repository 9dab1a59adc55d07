"""H01 register settings of the virtual source, H02 mode and algorithm codes, V0x behaviour of the virtual source."""

from fractions import Fraction
from itertools import product

from .. import facts as F
from .. import terms as T
from ..ctx import returns
from ..lin import Rel
from ..num import shape
from ..prog import AnalysisError
from ..schema import field_schema, model_fields
from . import rule
from .task_rules import strip

D = ("param", "data")
# factor between units of the same quantity
UNIT = {"uV": ("V", -6), "mV": ("V", -3), "V": ("V", 0), "nA": ("A", -9), "uA": ("A", -6), "mA": ("A", -3), "A": ("A", 0), "kOhm": ("Ohm", 3), "mOhm": ("Ohm", -3), "Ohm": ("Ohm", 0), "ms": ("s", -3), "us": ("s", -6), "s": ("s", 0)}
U32 = (1 << 32) - 1


def src(name):
    return ("attr", D, name)


def split_unit(name):
    """stem, unit, exponent of the fixed-point shift, in samples?"""
    parts = name.split("_")
    shift = 0
    if len(parts) > 2 and parts[-1][:1] == "n" and parts[-1][1:].isdigit():
        shift = int(parts.pop()[1:])
    if parts[-1] in UNIT:
        return "_".join(parts[:-1]), parts[-1], shift
    if parts[-1] == "n":
        return "_".join(parts[:-1]), "n", shift
    return "_".join(parts), None, shift


def counterpart(prog, ci, name):
    """field of the source model with the same stem, and the factor between both"""
    stem, unit, shift = split_unit(name)
    for f in model_fields(prog, ci):
        s2, u2, sh2 = split_unit(f)
        if s2 != stem or sh2:
            continue
        if unit == u2 == None:  # noqa: E711
            return f, Fraction(1)
        if unit == "n" and u2 == "ms":
            return f, Fraction(100_000, 1000)
        if unit == "n" and u2 is None:
            return f, Fraction(1)
        if unit in UNIT and u2 in UNIT and UNIT[unit][0] == UNIT[u2][0]:
            return f, Fraction(10) ** (UNIT[u2][1] - UNIT[unit][1]) * 2**shift
    return None, None


def samplerate(ctx):
    from ..schema import const_num

    for m in ctx.prog.modules.values():
        d = m.defs.get("samplerate_sps_default")
        if d and d[0] == "assign":
            return const_num(ctx.prog, m, d[1])
    raise AnalysisError("anchor vanished: samplerate_sps_default")


def elem_ranges(prog, ci, declared):
    """ranges of the entries of list fields (of lists)"""
    out = dict(declared)
    for name, fs in model_fields(prog, ci).items():
        t, s = src(name), fs
        while s is not None and s.items is not None:
            t, s = ("elem", t, 0), s.items
            r = s.range()
            if r != (None, True, None, True):
                out[t] = r
    return out


def stars(t):
    """alternatives of a list built entry by entry from one source list: (source list, {entry terms})"""
    t = strip(t)
    if t[0] != "list" or not t[1]:
        return None, None
    over, alts = set(), []
    for x in t[1]:
        if x[0] != "star":
            return None, None
        b = [y for y in x[2:] if isinstance(y, tuple) and y and y[0] == "for"]
        els = b[0][1] if b else ()
        over.add(els)
        alts.append(x[1])
    if len(over) != 1 or len(next(iter(over))) != 1:
        return None, None
    return next(iter(over))[0], alts


@rule("H01", floor=600, technique="path-sensitive abstract interpretation of the conversion with interval and linear (polyhedral) bounds from the declared field ranges; unit agreement by symbolic terms")
def registers(ctx):
    """Every register of converter and harvester is the setting of the same name in the unit of the register, rounded to the nearest
    integer, and within 0 .. 2^32-1 for every accepted configuration; look-up tables entry by entry."""
    prog = ctx.prog
    rate = samplerate(ctx)
    ctx.check(rate == 100_000, "H01-rate", "samplerate", f"is {rate}")
    vs, vh = ctx.cls("VirtualSourceConfig"), ctx.cls("VirtualHarvesterConfig")
    cp, hp = ctx.cls("ConverterPRUConfig"), ctx.cls("HarvesterPRUConfig")
    for pru in (cp, hp):
        for name, fs in model_fields(prog, pru).items():
            s = fs
            while s.items is not None:
                s = s.items
            lo, lop, hi, hop = s.range()
            ok = lo == 0 and not lop and hi is not None and (hi < 2**32 or hi == 2**32 and hop)
            ctx.check(ok, "H01-register", f"{pru.name}.{name}", f"accepts {lo} .. {hi}")
    for pru, ci, meth, special in (
        (cp, vs, "from_vsrc", {"converter_mode", "Constant_us_per_nF_n28", "V_enable_output_threshold_uV", "V_disable_output_threshold_uV", "dV_enable_output_uV", "LUT_inp_efficiency_n8", "LUT_out_inv_efficiency_n4", "LUT_input_I_min_log2_nA", "LUT_output_I_min_log2_nA"}),
        (hp, vh, "from_vhrv", {"algorithm", "hrv_mode", "window_size", "voltage_step_uV", "interval_n", "duration_n", "setpoint_n8"}),
    ):
        q = f"{pru.qualname}.{meth}"
        outs = returns(ctx.run(q, names=(), keep=relevant, join_at=1000))
        ctx.check(len(outs) >= 6, "H01-instance", q, f"{len(outs)} paths")
        decl = elem_ranges(prog, ci, ctx.last.declared)
        judged = {}
        done = set()
        for o in outs:
            t = strip(o.term)
            if not ctx.check(t[0] == "new" and t[1] == pru.qualname, "H01-result", q, f"yields {T.show(t)[:80]}"):
                continue
            kws = dict(t[2])
            missing = set(model_fields(prog, pru)) - set(kws)
            ctx.check(not missing, "H01-missing", q, f"{sorted(missing)} not set")
            rf = frozenset((a, v) for a, v in o.facts.items() if relevant(a))
            for name, v in kws.items():
                c = f"{pru.name}.{name}"
                if (name, v, rf) in done:
                    continue
                done.add((name, v, rf))
                v = strip(v)
                if name not in special:
                    key = (name, v)
                    if key not in judged:
                        judged[key] = plain(prog, ci, name, v)
                    ok, why = judged[key]
                    ctx.check(ok, "H01-unit", c, why)
                if name == "algorithm" or name.startswith("LUT_") and name.endswith(("_n8", "_n4")):
                    continue
                if not T.contains(v, lambda x: x in {("param", "window_size"), ("param", "voltage_step_V")}):
                    in_range(ctx, c, v, o, decl)
            key = (tuple(kws.get(x) for x in sorted(special) if x not in {"converter_mode", "algorithm", "hrv_mode"}), frozenset((a, v) for a, v in o.facts.items() if relevant(a)))
            if key in done:
                continue
            done.add(key)
            if pru is cp:
                converter(ctx, o, kws, decl, rate)
            else:
                harvester(ctx, o, kws, decl, rate)
        if pru is cp:
            luts(ctx, q, decl)


def relevant(a):
    """facts which matter for numbers: not the ones on algorithms, flags and input types"""
    return not T.contains(a, lambda x: x in {src("algorithm"), src("enable_boost"), src("enable_feedback_to_hrv"), ("param", "log_intermediate_node")})


def plain(prog, ci, name, v):
    f, factor = counterpart(prog, ci, name)
    if f is None:
        raise AnalysisError(f"register {name} has no counterpart in {ci.name}")
    want = T.mul(T.k(factor), src(f))
    lo, hi, core, rnd = shape(v)
    if core != want:
        return False, f"is {T.show(core)[:80]}, expected {T.show(want)}"
    fs = field_schema(prog, ci, f)
    r = fs.range()
    whole = fs.base is not None and fs.base in {("ext", "int"), ("ext", "bool")}
    if not (whole and factor.denominator == 1) and set(rnd) != {"nearest"}:
        return False, f"rounded by {list(rnd) or 'nothing'}"
    if lo is not None and not (r[0] is not None and r[0] * factor >= lo):
        return False, f"limited to >= {lo}"
    if hi is not None and not (r[2] is not None and r[2] * factor <= hi):
        return False, f"limited to <= {hi}"
    return True, ""


def in_range(ctx, c, v, o, decl):
    """all numbers of the value (entries of lists included) fit a register"""
    if v[0] == "list":
        el, alts = stars(v)
        if not ctx.check(alts is not None, "H01-range", c, f"entries of {T.show(v)[:60]} are not understood"):
            return
        for x in alts:
            in_range(ctx, c, strip(x), o, decl)
        return
    if v[0] == "attr" and v[1] == D or v[0] == "atom":
        b = F.bounds(o.facts, decl).of(v)
        if b[0] is None:
            return  # a flag
    facts = {a: x for a, x in o.facts.items() if relevant(a)}
    b = F.bounds(facts, decl).of(v)
    ok = b[0] is not None and b[0] >= 0 and b[2] is not None and b[2] <= U32
    if not ok and c.endswith("_mode"):
        return  # decided exhaustively by H02
    if not ok:
        rel = Rel(facts, decl)
        x = v[2][0] if v[0] == "call" and v[1].split(".")[-1] in {"round", "int"} and len(v[2]) == 1 else v  # monotone, limits are whole
        ok = rel.ge(x, T.k(0)) and rel.ge(T.k(U32), x)
    ctx.check(ok, "H01-range", c, f"may be {b[0]} .. {b[2]}, which does not fit the register")


def core_of(v):
    return shape(strip(v))


def converter(ctx, o, kws, decl, rate):
    facts = {a: x for a, x in o.facts.items() if relevant(a)}
    rel = Rel(facts, decl)
    mv = T.k(1000)
    buck = ("true", src("enable_buck"))
    pb = o.facts.get(buck)
    if pb is None:
        a, p = F.cmp_atom(">", src("enable_buck"), T.k(0))
        pb = o.facts.get(a)
        pb = pb if pb is None or p else not pb
    out = T.add(src("V_output_mV"), src("V_buck_drop_mV"))
    en, dis = (core_of(kws[f"V_{x}_output_threshold_uV"]) for x in ("enable", "disable"))
    dv = core_of(kws["dV_enable_output_uV"])
    for tag, (lo, hi, core, rnd) in (("enable", en), ("disable", dis)):
        setting = T.mul(mv, src(f"V_intermediate_{tag}_threshold_mV"))
        c = f"V_{tag}_output_threshold_uV"
        ctx.check(set(rnd) == {"nearest"} and hi is None, "H01-threshold", c, f"rounded by {list(rnd)}, limited to {hi}")
        val = ("max", (core, T.k(lo))) if lo is not None else core
        ctx.check(rel.ge(val, setting), "H01-threshold", c, "may be below its setting")
        if pb is False:
            ctx.check(rel.ge(setting, val), "H01-threshold", f"{c} direct", "is above its setting although there is no buck converter")
        elif pb is True:
            ctx.check(rel.ge(val, T.mul(mv, out)), "H01-threshold", f"{c} buck", "the output may be connected below the voltage the buck converter needs")
            if tag == "disable":
                ctx.check(rel.ge(("max", (setting, T.mul(mv, out))), val), "H01-threshold", f"{c} buck", "is above setting and output voltage")
            else:
                above = rel.gt(setting, T.mul(mv, out))
                if above:
                    ctx.check(rel.ge(setting, val), "H01-threshold", f"{c} buck", "is above its setting although this suffices for the buck converter")
        else:
            ctx.fail("H01-threshold", c, "does not depend on the buck converter")
    ctx.check(rel.ge(dv[2]), "H01-threshold", "dV_enable_output_uV", "may be negative")
    # capacitor constant: 2^28 * 1000 / (rate * max(C, 1 nF))
    lo, hi, core, rnd = core_of(kws["Constant_us_per_nF_n28"])
    num, den = (core[1], core[2]) if core[0] == "floordiv" else (core, T.k(1))
    cap = src("C_intermediate_uF")
    want = (T.k(Fraction(1000 * 2**28) / rate), ("max", tuple(sorted((cap, T.k(Fraction(1, 1000))), key=T._key))))
    ok = False
    for w in [want[1], ("max", (cap, T.k(Fraction(1, 1000)))), ("max", (T.k(Fraction(1, 1000)), cap))]:
        ok |= T.mul(num, w) == T.mul(want[0], den) or T.mul(T.mul(num, w), T.inv(den)) == want[0]
    ge1 = rel.ge(cap, T.k(Fraction(1, 1000)))
    le1 = rel.ge(T.k(Fraction(1, 1000)), cap)
    ok |= ge1 and T.mul(num, cap) == T.mul(want[0], den)
    ok |= le1 and T.mul(num, T.k(Fraction(1, 1000))) == T.mul(want[0], den)
    ctx.check(ok and hi is None and lo in {None, 0}, "H01-unit", "Constant_us_per_nF_n28", f"is {T.show(core)[:100]}")
    for name, f in (("LUT_input_I_min_log2_nA", "LUT_input_I_min_log2_nA"), ("LUT_output_I_min_log2_nA", "LUT_output_I_min_log2_nA")):
        lo, hi, core, rnd = core_of(kws[name])
        ctx.check(core == T.sub(src(f), T.k(1)) and (lo is None or lo <= 0) and hi is None, "H01-unit", name, f"is {T.show(core)[:80]}, expected the setting - 1")


def harvester(ctx, o, kws, decl, rate):
    facts = {a: x for a, x in o.facts.items() if relevant(a)}
    rel = Rel(facts, decl)
    p_step, p_win = ("param", "voltage_step_V"), ("param", "window_size")
    lo, hi, core, rnd = core_of(kws["voltage_step_uV"])
    given = o.facts.get(("isnone", p_step))
    want = T.mul(T.k(1000), src("voltage_step_mV")) if given is True else T.mul(T.k(10**6), p_step) if given is False else None
    ctx.check(want is not None and core == want and lo is None and hi is None and set(rnd) == {"nearest"}, "H01-unit", "voltage_step_uV", f"is {T.show(core)[:80]}, expected {T.show(want) if want else 'the given step or else the setting'}")
    lo, hi, core, rnd = core_of(kws["setpoint_n8"])
    ctx.check(core == T.mul(T.k(256), src("setpoint_n")) and (lo is None or lo <= 0) and hi is not None and 255 <= hi <= 256 and set(rnd) == {"nearest"}, "H01-unit", "setpoint_n8", f"is {T.show(core)[:80]} limited to {lo}..{hi}")
    given = o.facts.get(("isnone", p_win))
    w = strip(kws["window_size"])
    emu = o.facts.get(("true", ("param", "for_emu")))
    if given is False:
        ctx.check(w == p_win, "H01-unit", "window_size given", f"is {T.show(w)[:60]}, expected the given one")
    elif emu is False:
        ctx.check(w == src("samples_n"), "H01-unit", "window_size harvest", f"is {T.show(w)[:60]}, expected the number of samples")
    else:
        ctx.check(emu is True and (w == T.k(0) or w == T.mul(src("samples_n"), T.add(T.k(1), src("wait_cycles")))), "H01-unit", "window_size emulation", f"is {T.show(w)[:60]}")
        if w == T.k(0):
            ctx.check(any(f[0] in {"eq"} and v and f[2] == T.k("ivsample") or v and "ivsample" in repr(f) for f, v in o.facts.items()), "H01-unit", "window_size emulation", "is 0 although the input is no stream of samples")
    # timing: the setting wherever the recorder can do it, never shorter than one sample, measurement within the interval
    i_, d_ = (core_of(kws[x]) for x in ("interval_n", "duration_n"))
    n100 = T.k(Fraction(rate) / 1000)
    tmin = T.mul(T.add(T.k(1), src("wait_cycles")), T.k(1))
    for tag, (lo, hi, core, rnd) in (("interval", i_), ("duration", d_)):
        ctx.check(set(rnd) == {"nearest"}, "H01-unit", f"{tag}_n", f"rounded by {list(rnd) or 'nothing'}")
        setting = T.mul(n100, src(f"{tag}_ms"))
        ctx.check(rel.ge(core, T.k(1)), "H01-timing", f"{tag}_n", "may be shorter than a sample")
        lim = T.mul(T.k(10**6), n100)
        if not rel.ge(core, ("min", (tmin, lim))):
            ctx.fail("H01-timing", f"{tag}_n", "may be shorter than sampling with waiting cycles takes")
        win = T.mul(src("samples_n"), T.add(T.k(1), src("wait_cycles")))
        if emu is not False and not rel.ge(core, ("min", (win, lim))):
            ctx.fail("H01-timing", f"{tag}_n emulation", "may be shorter than the window of samples takes")
        # the setting is kept inside of the limits
        more = [(T.to_poly(T.sub(setting, win)), False)]
        more += [(T.to_poly(T.sub(setting, tmin)), False), (T.to_poly(T.sub(lim, setting)), False)]
        if tag == "duration":
            more.append((T.to_poly(T.sub(T.mul(n100, src("interval_ms")), setting)), False))
        r2 = Rel(facts, decl, more)
        ctx.check(r2.ge(core, setting) and r2.ge(setting, core), "H01-unit", f"{tag}_n", f"is {T.show(core)[:100]}, which is not the setting even within the limits")
    ctx.check(rel.ge(i_[2], d_[2]), "H01-timing", "duration_n", "the measurement may take longer than its interval")


def luts(ctx, q, decl):
    """entry by entry: input 256*x (at most 255), output 16/x or 2^14 for 0"""
    el2 = ("elem", ("elem", src("LUT_input_efficiency"), 0), 0)
    el = ("elem", src("LUT_output_efficiency"), 0)
    for tag, facts in (("0", {("pos", el): False}), ("> 0", {("pos", el): True})):
        outs = returns(ctx.run(q, names=(), facts=facts, keep=lambda a: False))
        for o in outs:
            kws = dict(strip(o.term)[2])
            over, alts = stars(kws["LUT_out_inv_efficiency_n4"])
            ok = over == el
            for x in alts or ():
                in_range(ctx, "ConverterPRUConfig.LUT_out_inv_efficiency_n4", strip(x), o, decl)
                lo, hi, core, rnd = shape(strip(x))
                if tag == "0":
                    ok &= core == T.k(2**14)
                else:
                    ok &= core == T.mul(T.k(16), T.inv(el)) and hi == 2**14 and set(rnd) == {"nearest"} and (lo is None or lo <= 16)
            ctx.check(ok, "H01-lut", f"output efficiency {tag}", f"is {T.show(kws['LUT_out_inv_efficiency_n4'])[:120]}")
            over, alts = stars(kws["LUT_inp_efficiency_n8"])
            ok = over == ("elem", src("LUT_input_efficiency"), 0)
            for row in alts or ():
                ov2, al2 = stars(row)
                ok &= ov2 == el2
                for x in al2 or ():
                    in_range(ctx, "ConverterPRUConfig.LUT_inp_efficiency_n8", strip(x), o, decl)
                    lo, hi, core, rnd = shape(strip(x))
                    ok &= core == T.mul(T.k(256), el2) and hi == 255 and (lo is None or lo <= 0) and set(rnd) == {"nearest"}
            ctx.check(ok and bool(alts), "H01-lut", "input efficiency", f"is {T.show(kws['LUT_inp_efficiency_n8'])[:120]}")


# ------------------------------------------------------------------------------------------------ codes
def fold(t, facts, env):
    """value of a term of flags under decided conditions (None: open)"""
    t = F._plain(t)
    if t in env:
        return env[t]
    h = t[0]
    if h == "vn":
        return fold(T.expand1(t), facts, env)
    if h == "k":
        return t[2] if t[1] in {"num", "bool"} else None
    if h == "poly":
        s = Fraction(0)
        for mono, c in t[1]:
            for at, e in mono:
                v = fold(at, facts, env)
                if v is None or e < 0 or int(e) != e:
                    return None
                c *= Fraction(v) ** int(e)
            s += c
        return s
    if h == "call" and t[1] in {"int", "bool", "float"} and len(t[2]) == 1:
        v = fold(t[2][0], facts, env)
        return None if v is None else bool(v) if t[1] == "bool" else int(v)
    if h in {"bitand", "bitor", "bitxor", "shl", "shr", "lshift", "rshift", "floordiv", "mod"}:
        a, b = fold(t[1], facts, env), fold(t[2], facts, env)
        if a is None or b is None or int(a) != a or int(b) != b:
            return None
        a, b = int(a), int(b)
        return {"bitand": lambda: a & b, "bitor": lambda: a | b, "bitxor": lambda: a ^ b, "shl": lambda: a << b, "lshift": lambda: a << b, "shr": lambda: a >> b, "rshift": lambda: a >> b, "floordiv": lambda: a // b if b else None, "mod": lambda: a % b if b else None}[h]()
    if h in {"min", "max"}:
        vs = [fold(x, facts, env) for x in t[1]]
        return None if None in vs else (min if h == "min" else max)(vs)
    if h in {"atom", "natom"}:
        v = fold_atom(t[1], facts, env)
        return None if v is None else v if h == "atom" else not v
    if h in {"not"}:
        v = fold(t[1], facts, env)
        return None if v is None else not v
    if h in {"and", "or"}:
        vs = [fold(x, facts, env) for x in (t[1] if isinstance(t[1][0], tuple) else t[1:])]
        if h == "and":
            return False if any(v is not None and not v for v in vs) else None if None in vs else True
        return True if any(vs) else None if None in vs else False
    return None


def fold_atom(a, facts, env):
    if a in facts:
        return facts[a]
    if a[0] == "true":
        v = fold(a[1], facts, env)
        return None if v is None else bool(v)
    if a[0] in {"pos", "zero"}:
        v = fold(a[1], facts, env)
        return None if v is None else v > 0 if a[0] == "pos" else v == 0
    if a[0] == "eq":
        x, y = fold(a[1], facts, env), fold(a[2], facts, env)
        return None if x is None or y is None else x == y
    return None


def attrs_after(o):
    """last value of every attribute set on self"""
    out = {}
    for e in o.events:
        if e.kind == "setattr" and e.recv is not None and e.recv[0] in {"self", "obj", "oid"}:
            out[e.name] = e.args[0]
    return out


def is_dtype(d, v):
    a, p = F.cmp_atom("==", d, T.k(v))
    return a, p


CNV_FLAGS = {  # attribute of the converter model: when the source asks for it
    "enable_storage": lambda e: e["storage"],
    "enable_boost": lambda e: e["boost"] and e["storage"],
    "enable_buck": lambda e: e["buck"],
    "enable_log_mid": lambda e: e["log"],
    "feedback_to_hrv": lambda e: e["feedback"] and e["storage"] and not e["boost"] and e["ivcurve"],
}
ALGO_DTYPE = {"neutral": "ivsample", "cv": "ivsample", "mppt_voc": "ivsample", "mppt_po": "ivsample", "mppt_opt": "ivsample", "ivcurve": "ivcurve", "isc_voc": "isc_voc"}


@rule("H02", floor=190, technique="path-sensitive abstract interpretation of encoder and decoder composed, case analysis over all settings")
def codes(ctx):
    """For each combination of settings the encoded mode is handed (as symbolic result) to the constructor of the model that decodes it."""
    prog = ctx.prog
    cp, hp = ctx.cls("ConverterPRUConfig"), ctx.cls("HarvesterPRUConfig")
    cm, hm = ctx.cls("VirtualConverterModel"), ctx.cls("VirtualHarvesterModel")
    q = f"{cp.qualname}.from_vsrc"
    dt = ("param", "dtype_in")
    settings = {"storage": ("pos", src("C_intermediate_uF")), "boost": ("true", src("enable_boost")), "buck": ("true", src("enable_buck")), "feedback": ("true", src("enable_feedback_to_hrv")), "log": ("true", ("param", "log_intermediate_node"))}
    codes_seen = {}
    for combo in product((False, True), repeat=len(settings) + 1):
        e = dict(zip([*settings, "ivcurve"], combo))
        facts = {a: e[n] for n, a in settings.items()}
        a, p = F.cmp_atom("==", dt, T.k("ivcurve"))
        facts[a] = p == e["ivcurve"]
        env = {a[1]: Fraction(int(v)) for a, v in facts.items() if a[0] == "true"}
        env[("atom", a)] = Fraction(int(e["ivcurve"]))
        tag = "+".join(n for n in e if e[n]) or "nothing"
        outs = returns(ctx.run(q, names=(), facts=facts, keep=lambda a: False))
        ctx.check(bool(outs), "H02-instance", tag, "the setting is refused")
        for mode, o in {F._plain(dict(strip(o.term)[2])["converter_mode"]): o for o in outs}.items():
            v = fold(mode, o.facts, env)
            if not ctx.check(v is not None and 0 <= v < 2**32, "H02-mode", "converter_mode", f"{tag}: is {T.show(mode)[:120]}"):
                continue
            codes_seen.setdefault(int(v), set()).add(tuple(f(e) for f in CNV_FLAGS.values()))
    ctx.check(len(codes_seen) >= 16, "H02-instance", "converter modes", f"{len(codes_seen)} codes")
    cfg = ("attr", ("self",), "_cfg")
    for v, flags in sorted(codes_seen.items()):
        ctx.check(len(flags) == 1, "H02-mode", "converter_mode", f"code {v} stands for different settings")
        want = dict(zip(CNV_FLAGS, next(iter(flags))))
        for got in decoded(ctx, f"{cm.qualname}.__init__", {"converter_mode": v}):
            for n, w in want.items():
                ctx.check(got.get(n) == w, "H02-mode", f"VirtualConverterModel.{n}", f"is {got.get(n)} for code {v}, the source asks for {w}")
    harvester_codes(ctx, prog, hp, hm, cfg)


def decoded(ctx, q, given):
    """constant attributes after construction from a configuration with these numbers"""
    cfg = ("param", "cfg")
    env = {("attr", cfg, n): v for n, v in given.items()}
    facts = {("zero", T.sub(t, T.k(v))): True for t, v in env.items()}
    for o in returns(ctx.run(q, names=("setattr",), facts=facts, want_setattr=True, keep=lambda a: False)):
        if any(fold_atom(a, {}, env) not in {None, v} for a, v in o.facts.items()):
            continue  # does not happen for these numbers
        yield {n: None if (v := fold(t, o.facts, env)) is None else v for n, t in attrs_after(o).items()}


def harvester_codes(ctx, prog, hp, hm, cfg):
    algos = sorted(enum_values(ctx, "AlgorithmDType"))
    ctx.check(set(algos) == set(ALGO_DTYPE), "H02-algorithm", "AlgorithmDType", f"knows {algos}")
    emu = ("true", ("param", "for_emu"))
    dt = ("param", "dtype_in")
    q = f"{hp.qualname}.from_vhrv"
    numbers = {}
    for al in algos:
        a, p = F.cmp_atom("==", src("algorithm"), T.k(al))
        for e in (False, True):
            start = {a: p, emu: e, ("isinst", dt, ("ext", "str")): False}
            outs = ctx.run(q, names=(), facts=start, keep=lambda x: "dtype_in" in repr(x))
            rets = returns(outs)
            allowed = ALGO_DTYPE.get(al) == "ivsample" if e else al != "neutral"
            c = f"{al} {'emulation' if e else 'harvesting'}"
            ctx.check(bool(rets) == allowed, "H02-algorithm", c, "is accepted" if rets else "is refused")
            for o in rets:
                kws = dict(strip(o.term)[2])
                n = fold(kws["algorithm"], o.facts, {})
                if ctx.check(n is not None and 0 < n < 2**32, "H02-algorithm", c, f"number is {T.show(kws['algorithm'])[:80]}"):
                    numbers.setdefault(int(n), set()).add(al)
                for r, x in product((0, 1), repeat=2):
                    env = {src("rising"): Fraction(r), src("enable_linear_extrapolation"): Fraction(x), emu[1]: Fraction(int(e))}
                    m = fold(kws["hrv_mode"], o.facts, env)
                    if not ctx.check(m is not None, "H02-mode", "hrv_mode", f"is {T.show(kws['hrv_mode'])[:100]}"):
                        continue
                    key = (int(m), e, r, x)
                    if key in numbers.setdefault("modes", {}):
                        continue
                    numbers["modes"][key] = True
                    for got in decoded(ctx, f"{hm.qualname}.__init__", {"hrv_mode": int(m)}):
                        for name, want in (("is_emu", e), ("is_rising", bool(r)), ("lin_extrapolation", bool(x))):
                            ctx.check(got.get(name) == want, "H02-mode", f"VirtualHarvesterModel.{name}", f"is {got.get(name)} for code {int(m)}, the setting is {want}")
            if e:
                # input: only what the model can process
                for o in rets:
                    known = [v for f, v in o.facts.items() if f[0] == "eq" and "dtype_in" in repr(f) and v and f[2][0] == "k" and f[2][2] in {"ivsample", "ivcurve"} or v and f[0] == "in"]
                    ctx.check(bool(known), "H02-input", al, f"input of type {[T.show(f)[:60] for f, v in o.facts.items() if 'dtype_in' in repr(f)]} is accepted")
                b1, p1 = F.cmp_atom("==", dt, T.k("ivcurve"))
                bad = {**start, b1: p1, ("isnone", ("param", "window_size")): True}
                ctx.check(not returns(ctx.run(q, names=(), facts=bad, keep=lambda x: False)), "H02-input", f"{al} curves", "curves without their window size are accepted")
    modes = numbers.pop("modes", {})
    ctx.check(len(modes) >= 8, "H02-instance", "hrv_mode", f"{len(modes)} modes")
    ctx.check(len(numbers) == len(algos), "H02-instance", "algorithm numbers", f"{len(numbers)} for {len(algos)} algorithms")
    g = f"{ctx.cls('VirtualHarvesterConfig').qualname}.get_datatype"
    for al in algos:
        a, p = F.cmp_atom("==", ("attr", ("self",), "algorithm"), T.k(al))
        for o in returns(ctx.run(g, names=(), facts={a: p})):
            t = F._plain(strip(o.term))
            got = t[2] if t[0] == "k" else repr(t)
            ctx.check(got == ALGO_DTYPE.get(al), "H02-algorithm", f"{al} data type", f"is {str(got)[:160]}")
    # dispatch
    m = f"{hm.qualname}.ivcurve_sample"
    steps = {f.qualname for n, f in hm.methods.items() if n.startswith("ivcurve_2_")}
    ctx.check(len(steps) >= 4, "H02-instance", "algorithms", f"{len(steps)} found")
    fi = ctx.func(m)
    pars = [a.arg for a in fi.node.args.args][1:]
    given = tuple(("param", x) for x in pars[:2])
    for n, als in sorted(numbers.items()):
        if not ctx.check(len(als) == 1, "H02-algorithm", f"number {n}", f"stands for {sorted(als)}"):
            continue
        al = next(iter(als))
        for curve in (False, True):
            start = {("zero", T.sub(("attr", cfg, "algorithm"), T.k(n))): True, F.cmp_atom(">", ("attr", cfg, "window_size"), T.k(1))[0]: curve == F.cmp_atom(">", ("attr", cfg, "window_size"), T.k(1))[1]}
            outs = returns(ctx.run(m, names=("call", "mcall"), facts=start, opaque=steps, keep=lambda a: True))
            for o in outs:
                t = strip(o.term)
                want = f"ivcurve_2_{al}"
                if curve and any(s.endswith(f".{want}") for s in steps):
                    ok = t[0] == "call" and t[1] in steps and t[1].split(".")[-1] == want and tuple(t[2])[-2:] == given
                else:
                    ok = t == ("tup", given) or t[0] in {"tuple", "tup"} and tuple(t[1]) == given
                ctx.check(ok, "H02-dispatch", f"{al} {'curve' if curve else 'samples'}", f"yields {T.show(t)[:100]}")


def enum_values(ctx, name):
    """values of the members of an enumeration"""
    import ast

    ci = ctx.cls(name)
    out = set()
    for n in ci.node.body:
        if isinstance(n, ast.Assign):
            v = n.value
            if isinstance(v, ast.Tuple) and len(v.elts) == 1:
                v = v.elts[0]
            if not isinstance(v, ast.Constant):
                raise AnalysisError(f"value of {name}.{n.targets[0].id} is not understood")
            out.add(v.value)
    return out
