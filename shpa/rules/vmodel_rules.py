"""V01 power balance, V02 output of the virtual converter, V03 harvesting algorithms, V04 targets and simulations."""

from fractions import Fraction

from .. import facts as F
from .. import terms as T
from ..cases import Judge, mn, mx
from ..ctx import returns
from ..models import fld
from ..num import shape
from ..prog import AnalysisError
from ..schema import field_schema
from ..values import S
from . import rule
from .vsource_rules import attrs_after

K = T.k


def s(name):
    return fld(name)


def c(name):
    return fld("_cfg", name)


def par(fi, i):
    """i-th parameter after self"""
    names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args][1:]
    if i >= len(names):
        raise AnalysisError(f"parameter {i} of {fi.qualname} vanished")
    return ("param", names[i])


class Method:
    """paths of one method with the state they leave"""

    def __init__(self, ctx, ci, name, nonneg=(), facts=None, ranges=None, events=(), **kw):
        self.ctx, self.ci, self.name, self.default = ctx, ci, name, {}
        self.fi = ctx.func(f"{ci.qualname}.{name}")
        kw.setdefault("keep", lambda a: True)
        self.outs = ctx.run(self.fi, names=("setattr", *events), want_setattr=True, facts=facts, **kw)
        self.paths = returns(self.outs)
        decl = dict(ctx.last.declared)
        for n in nonneg:
            decl[s(n)] = (Fraction(0), False, None, True)
        for t, r in (ranges or {}).items():
            decl[t] = r
        self.decl = decl
        self.j = Judge(decl, relevant=lambda a: a[0] in {"pos", "zero"})

    def after(self, o, name):
        return attrs_after(o).get(name, self.default.get(name, s(name)))

    def judge(self, rule, construct, fn, actual=None, only=None):
        """on every path: what the method leaves equals the reference"""
        n = 0
        for o in self.paths:
            got = actual(o) if actual else None
            for fs, want in self.j.explore(o.facts, lambda dec: fn(dec, o)):
                if want is None:
                    continue
                for key, w in want.items() if isinstance(want, dict) else (("", want),):
                    n += 1
                    g = got if key == "" else self.after(o, key)
                    ok = self.j.same(fs, g, w)
                    con = f"{construct}.{key}" if key else construct
                    self.ctx.check(ok, rule, con, f"is {T.show(g)[:110]}, expected {T.show(w)[:110]} when {conds(fs)}" if not ok else "", self.fi.loc if hasattr(self.fi, "loc") else "")
        self.ctx.check(n > 0, f"{rule}-instance", construct, "no path found")
        return n


def conds(facts):
    return "; ".join(("" if v else "not ") + T.show(a)[:70] for a, v in list(facts.items())[-4:])


def lut_reads(t, lut):
    return [x for x in T.subterms(t) if len(x) == 3 and x[0] == "item" and (x[1] == lut or x[1][0] == "item" and x[1][1] == lut)]


def tint(t):
    return K(int(t[2])) if T.is_k(t) else ("call", "int", (t,), ())


def two(name):
    return ("pow", K(2), c(name))


def lin_pos(dec, x, size):
    """linear scale"""
    n = tint(x)
    return K(size - 1) if dec(">=", n, K(size)) else n if dec(">", n) else K(0)


def log_pos(dec, x, size):
    """logarithmic scale"""
    n = tint(x)
    if not dec(">", n):
        return K(0)
    p = ("call", "int", (("call", "math.log2", (n,), ()),), ())
    return K(size - 1) if dec(">=", p, K(size)) else p


@rule("V01", floor=100, technique="path-sensitive abstract interpretation; every path compared with a reference by piecewise symbolic and linear-arithmetic equality")
def balance(ctx):
    """Input, output and storage of the converter as one balance of power, for every state and input."""
    cm, cp = ctx.cls("VirtualConverterModel"), ctx.cls("ConverterPRUConfig")
    size = lut_const(ctx)
    for name, depth in (("LUT_inp_efficiency_n8", 2), ("LUT_out_inv_efficiency_n4", 1)):
        fs = field_schema(ctx.prog, cp, name)
        for _ in range(depth):
            ctx.check(length(fs) == (size, size), "V01-lut", f"{name}", f"has {length(fs)} entries instead of {size}")
            fs = fs.items
    cap = ("V_mid_uV", "P_inp_fW", "P_out_fW", "V_out_dac_uV", "R_input_kOhm", "Constant_us_per_nF", "interval_startup_disabled_drain_n")

    # ------------------------------------------------------------ input
    m = Method(ctx, cm, "calc_inp_power", cap)
    V, I = par(m.fi, 0), par(m.fi, 1)

    def offered(dec):
        v, i = mx(V, K(0)), mx(I, K(0))
        v = mn(mx(T.sub(v, c("V_input_drop_uV")), K(0)), c("V_input_max_uV"))
        return v, mn(i, c("I_input_max_nA"))

    def inp(dec, o):
        v, i = offered(dec)
        st = s("V_mid_uV")
        if dec(("true", s("enable_boost"))):
            if dec("<", v, c("V_input_boost_threshold_uV")):
                return {"P_inp_fW": K(0), "V_mid_uV": st, "V_input_uV": v}
            pv = lin_pos(dec, T.mul(v, T.inv(two("LUT_input_V_min_log2_uV"))), size)
            pc = log_pos(dec, T.mul(i, T.inv(two("LUT_input_I_min_log2_nA"))), size)
            eta = T.mul(K(Fraction(1, 256)), ("item", ("item", c("LUT_inp_efficiency_n8"), pv), pc))
            return {"P_inp_fW": T.mul(eta, T.mul(v, i)), "V_mid_uV": st, "V_input_uV": v}
        if not dec(("true", s("enable_storage"))):
            return {"P_inp_fW": K(0), "V_mid_uV": v, "V_input_uV": v}
        if dec("<", v, st):
            return None
        drop = T.mul(i, s("R_input_kOhm"))
        out = {"P_inp_fW": T.mul(mx(T.sub(v, drop), st), i), "V_mid_uV": st, "V_input_uV": v}
        if dec(("true", s("feedback_to_hrv"))):
            out["V_input_request_uV"] = T.add(T.add(st, drop), c("V_input_drop_uV"))
        return out

    m.judge("V01-input", "calc_inp_power", inp)
    # a source below the voltage of the storage can not charge it through resistor and diode
    n = 0
    for o in m.paths:
        def below(dec, o=o):
            if dec(("true", s("enable_boost"))) or not dec(("true", s("enable_storage"))):
                return None
            v, i = offered(dec)
            return (v, i, dec(">", T.mul(i, s("R_input_kOhm"))), dec(("true", s("feedback_to_hrv")))) if dec("<", v, s("V_mid_uV")) else None

        for fs, case in m.j.explore(o.facts, below):
            if case is None:
                continue
            n += 1
            v, i, res, fb = case
            p = m.after(o, "P_inp_fW")
            ok = m.j.same(fs, p, K(0)) or fb and m.j.rel(fs).ge(m.j.resolve(fs, T.sub(T.mul(v, i), p))[0])
            tag = f"source below storage, no boost, {'with' if fb else 'without'} feedback, {'with' if res else 'without'} drop at the resistor"
            ctx.check(ok, "V01-source", tag, f"takes power a source below the storage can not provide: {T.show(p)[:120]}")
    ctx.check(n >= 3, "V01-instance", "source below storage", f"{n} cases")

    # ------------------------------------------------------------ output
    conv = next((f.qualname for nme, f in ctx.cls("PruCalibration").methods.items() if nme == "conv_adc_raw_to_nA"), None)
    if conv is None:
        raise AnalysisError("anchor vanished: PruCalibration.conv_adc_raw_to_nA")
    m = Method(ctx, cm, "calc_out_power", cap, opaque={conv})
    raw = par(m.fi, 0)

    def outp(dec, o):
        i = ("call", conv, (fld("_cal"), mn(mx(raw, K(0)), K(2**18 - 1))), ())
        left = s("interval_startup_disabled_drain_n")
        if dec(">", left):
            return {"P_out_fW": K(0), "interval_startup_disabled_drain_n": T.sub(left, K(1)), "V_mid_uV": s("V_mid_uV")}
        inv = K(1)
        if dec(("true", s("enable_buck"))):
            pc = log_pos(dec, T.mul(i, T.inv(two("LUT_output_I_min_log2_nA"))), size)
            inv = T.mul(K(Fraction(1, 16)), ("item", c("LUT_out_inv_efficiency_n4"), pc))
        leak = T.mul(s("V_mid_uV"), c("I_intermediate_leak_nA"))
        return {"P_out_fW": T.add(T.mul(T.mul(inv, s("V_out_dac_uV")), i), leak), "V_mid_uV": s("V_mid_uV"), "interval_startup_disabled_drain_n": left}

    m.judge("V01-output", "calc_out_power", outp)

    # ------------------------------------------------------------ measured current: what is cut off below zero is kept for later
    pc = ctx.cls("PruCalibration")
    m = Method(ctx, pc, "conv_adc_raw_to_nA", ("negative_residue_nA",), facts={})
    raw = par(m.fi, 0)
    for o in m.paths:
        if any(f[0] == "isinst" and v for f, v in o.facts.items()):
            continue
        r0, r1 = s("negative_residue_nA"), m.after(o, "negative_residue_nA")
        adc = fld("cal", "adc_C_A")
        meas = T.mul(K(10**9), T.add(T.mul(("attr", adc, "gain"), raw), ("attr", adc, "offset")))
        negoff = m.j.decide(o.facts, F.pos(T.neg(("attr", adc, "offset"))))
        ctx.check(negoff is not None, "V01-residue", "conv_adc_raw_to_nA", "does not depend on the sign of the offset")
        if negoff is False:
            ctx.check(m.j.same(o.facts, o.term, meas) and m.j.same(o.facts, r1, r0), "V01-residue", "conv_adc_raw_to_nA", f"is {T.show(o.term)[:100]} without negative offset")
            continue
        rel = m.j.rel(o.facts)
        ctx.check(rel.ge(o.term), "V01-residue", "conv_adc_raw_to_nA", "the current may be negative")
        # what is shown minus what was measured is the growth of the residue (less where this is limited)
        grow = T.sub(T.add(o.term, r0), meas)
        lo, hi, core, rnd = shape(r1)
        ok = m.j.same(o.facts, r1, mx(grow, K(0))) or m.j.same(o.facts, core, grow) and not rnd and (lo is None or lo == 0) and (hi is None or hi > 0)
        ctx.check(ok, "V01-residue", "conv_adc_raw_to_nA residue", f"is {T.show(r1)[:100]}, expected {T.show(grow)[:100]}")

    # ------------------------------------------------------------ storage
    m = Method(ctx, cm, "update_cap_storage", cap)

    def cap_(dec, o):
        v = s("V_mid_uV")
        if dec(("true", s("enable_storage"))):
            flow = T.mul(T.sub(s("P_inp_fW"), s("P_out_fW")), T.inv(mx(v, K(1))))
            v = T.add(v, T.mul(flow, s("Constant_us_per_nF")))
        return {"V_mid_uV": mx(mn(v, c("V_intermediate_max_uV")), K(1)), "P_inp_fW": s("P_inp_fW"), "P_out_fW": s("P_out_fW")}

    m.judge("V01-storage", "update_cap_storage", cap_)
    for o in m.paths:
        rel = m.j.rel(o.facts)
        v = m.after(o, "V_mid_uV")
        ctx.check(rel.ge(v, K(1)) and rel.ge(mx(c("V_intermediate_max_uV"), K(1)), v), "V01-storage", "update_cap_storage limits", "leaves the limits of the storage")
        ctx.check(m.j.same(o.facts, o.term, ("call", "round", (v,), ())), "V01-storage", "update_cap_storage result", f"is {T.show(o.term)[:80]}")
    # ------------------------------------------------------------ start
    m = Method(ctx, cm, "__init__")
    cfg = ("param", "cfg")
    for o in m.paths:
        at = attrs_after(o)
        for n, w in {
            "R_input_kOhm": T.mul(K(Fraction(1, 2**22)), ("attr", cfg, "R_input_kOhm_n22")),
            "Constant_us_per_nF": T.mul(K(Fraction(1, 2**28)), ("attr", cfg, "Constant_us_per_nF_n28")),
            "V_mid_uV": ("attr", cfg, "V_intermediate_init_uV"),
            "V_out_dac_uV": ("attr", cfg, "V_output_uV"),
            "interval_startup_disabled_drain_n": ("attr", cfg, "interval_startup_delay_drain_n"),
            "P_inp_fW": K(0),
            "P_out_fW": K(0),
        }.items():
            ctx.check(n in at and m.j.same(o.facts, unfloat(at[n]), w), "V01-start", f"VirtualConverterModel.{n}", f"starts as {T.show(at.get(n, K(None)))[:80]}, expected {T.show(w)[:80]}")


def unfloat(t):
    """floats of registers are exact"""
    m = {x: x[2][0] for x in T.subterms(t) if len(x) == 4 and x[0] == "call" and x[1] == "float" and len(x[2]) == 1}
    return T.subst(t, m) if m else t


def length(fs):
    return fs.cons.get("min_length"), fs.cons.get("max_length")


def lut_const(ctx):
    from ..schema import const_num

    for m in ctx.prog.modules.values():
        d = m.defs.get("LUT_SIZE")
        if d and d[0] == "assign":
            return int(const_num(ctx.prog, m, d[1]))
    raise AnalysisError("anchor vanished: LUT_SIZE")



@rule("V02", floor=60, technique="path-sensitive abstract interpretation; every path compared with a reference by piecewise symbolic and linear-arithmetic equality")
def switching(ctx):
    """When the output is switched, which voltage it has, and what the signals say."""
    cm, pc = ctx.cls("VirtualConverterModel"), ctx.cls("PruCalibration")
    conv = f"{pc.qualname}.conv_uV_to_dac_raw"
    ctx.func(conv)
    nonneg = ("V_mid_uV", "V_out_dac_uV", "dV_enable_output_uV", "sample_count", "interval_startup_disabled_drain_n")
    m = Method(ctx, cm, "update_states_and_output", nonneg, opaque={conv})
    is_on, good = s("is_outputting"), s("power_good")
    off_thr, on_thr, dv = s("V_disable_output_threshold_uV"), s("V_enable_output_threshold_uV"), s("dV_enable_output_uV")

    def states(dec, o):
        v = s("V_mid_uV")
        count = T.add(s("sample_count"), K(1))
        check = dec(">=", count, c("interval_check_thresholds_n"))
        on, v2 = dec(("true", is_on)), v
        if check:
            count = K(0)
            if on:
                on = not dec("<", v, off_thr)
            elif dec(">=", v, on_thr):
                on, v2 = True, T.sub(v, dv)
        pg = dec(("true", good))
        if check or dec(("true", c("immediate_pwr_good_signal"))):
            if pg:
                pg = not dec("<=", v, c("V_pwr_good_disable_threshold_uV"))
            elif dec(">=", v, c("V_pwr_good_enable_threshold_uV")):
                pg = on
        if on or dec(">", s("interval_startup_disabled_drain_n")):
            drop, out = c("V_buck_drop_uV"), c("V_output_uV")
            if dec(("true", s("enable_buck"))) and dec(">", v2, T.add(out, drop)):
                vo = out
            else:
                vo = mx(T.sub(v2, drop), K(0))
            raw = ("call", conv, (fld("_cal"), vo), ())
        else:
            vo = raw = K(0)
        skip = dec("<", vo, c("V_output_log_gpio_threshold_uV"))
        return {
            "sample_count": count, "is_outputting": K(on), "power_good": K(pg), "V_mid_uV": v2,
            "V_out_dac_uV": vo, "V_out_dac_raw": raw, "vsource_skip_gpio_logging": K(skip),
            "P_inp_fW": s("P_inp_fW"), "P_out_fW": s("P_out_fW"), "interval_startup_disabled_drain_n": s("interval_startup_disabled_drain_n"),
        }

    m.judge("V02-switching", "update_states_and_output", states)
    for o in m.paths:
        ctx.check(o.term == m.after(o, "V_out_dac_raw"), "V02-switching", "update_states_and_output result", f"returns {T.show(o.term)[:90]} instead of the value for the DAC")

    # ------------------------------------------------------------ what the signals read
    for name, want in (
        ("get_power_good", s("power_good")), ("get_state_log_gpio", s("vsource_skip_gpio_logging")), ("get_state_log_intermediate", s("enable_log_mid")),
        ("get_P_input_fW", ("call", "round", (s("P_inp_fW"),), ())), ("get_P_output_fW", ("call", "round", (s("P_out_fW"),), ())),
        ("get_V_intermediate_uV", ("call", "round", (s("V_mid_uV"),), ())),
        ("calc_inp_power", None), ("calc_out_power", None),
    ):
        mm = Method(ctx, cm, name, nonneg, opaque={f"{pc.qualname}.conv_adc_raw_to_nA"})
        for o in mm.paths:
            w = want if want is not None else ("call", "round", (mm.after(o, {"calc_inp_power": "P_inp_fW", "calc_out_power": "P_out_fW"}[name]),), ())
            ok = mm.j.same(o.facts, o.term, w) or w[0] == "call" and T.is_k(o.term) and o.term == w[2][0]
            ctx.check(ok, "V02-reads", name, f"is {T.show(o.term)[:90]}, expected {T.show(w)[:90]}")
        ctx.check(bool(mm.paths), "V02-instance", name, "no path")

    # ------------------------------------------------------------ start
    m = Method(ctx, cm, "__init__", opaque={conv})
    cfg = ("param", "cfg")
    for o in m.paths:
        at = attrs_after(o)
        a = lambda n: ("attr", cfg, n)  # noqa: E731
        ctx.check(m.j.same(o.facts, unfloat(at.get("V_enable_output_threshold_uV", K(None))), mx(a("dV_enable_output_uV"), a("V_enable_output_threshold_uV"))), "V02-start", "V_enable_output_threshold_uV", "the output may be switched on with less than it costs")
        for n, w in {
            "dV_enable_output_uV": a("dV_enable_output_uV"), "V_disable_output_threshold_uV": a("V_disable_output_threshold_uV"),
            "V_out_dac_raw": ("call", conv, (("param", "cal"), a("V_output_uV")), ()), "is_outputting": K(False), "V_input_request_uV": a("V_intermediate_init_uV"),
        }.items():
            ctx.check(n in at and m.j.same(o.facts, unfloat(at[n]), w), "V02-start", f"VirtualConverterModel.{n}", f"starts as {T.show(at.get(n, K(None)))[:80]}, expected {T.show(w)[:80]}")
        # the thresholds are looked at with the very first sample
        ctx.check("sample_count" in at and m.j.rel(o.facts).ge(T.add(at["sample_count"], K(1)), K(2**32 - 16)), "V02-start", "VirtualConverterModel.sample_count", f"starts as {T.show(at.get('sample_count', K(None)))[:80]}")
    ctx.check(bool(m.paths), "V02-instance", "__init__", "no path")

    # ------------------------------------------------------------ value for the DAC
    m = Method(ctx, pc, "conv_uV_to_dac_raw")
    v = par(m.fi, 0)
    single = [o for o in m.paths if not any(f[0] == "isinst" and v for f, v in o.facts.items())]  # voltages are no arrays here
    for o in single:
        rel = m.j.rel(o.facts)
        ctx.check(rel.ge(K(2**16 - 1), o.term), "V02-dac", "conv_uV_to_dac_raw", "exceeds the DAC with 16 bit")
        ctx.check(rel.ge(o.term), "V02-dac", "conv_uV_to_dac_raw", "may be negative")
        core = [x for x in T.subterms(unfloat(o.term)) if x[:2] == ("attr", fld("cal", "dac_V_A"))]
        ctx.check({x[2] for x in core} == {"gain", "offset"} and T.contains(o.term, lambda x: x == v) or T.is_k(o.term), "V02-dac", "conv_uV_to_dac_raw", f"does not use the calibration of the first output: {T.show(o.term)[:100]}")
    ctx.check(bool(single), "V02-instance", "conv_uV_to_dac_raw", "no path")


# ---------------------------------------------------------------- harvesting algorithms
def cv(dec, v, i, was_below, st):
    """constant voltage on curves: hold the recorded pair which is nearest to the setpoint when the curve crosses it"""
    get = lambda n: st.get(n, s(n))  # noqa: E731
    setp, vl, il, near = get("voltage_set_uV"), s("voltage_last"), s("current_last"), s("voltage_step_x4_uV")
    below = dec("<", v, setp)
    dist, dist_last = T.absolute(T.sub(v, setp)), T.absolute(T.sub(vl, setp))
    hv, hi, dv, di = s("voltage_hold"), s("current_hold"), s("voltage_delta"), s("current_delta")
    if below != was_below and dec("<", T.absolute(T.sub(v, vl)), near):
        if dec("<", dist, dist_last):
            if dec("<", dist, near):
                hv, hi, dv, di = v, i, T.sub(v, vl), T.sub(i, il)
        elif dec("<", dist_last, dist) and dec("<", dist_last, near):
            hv, hi, dv, di = vl, il, T.sub(v, vl), T.sub(i, il)
    elif dec(("true", s("lin_extrapolation"))):
        if dec("<", hv, setp) == dec(">", dv):
            hv, hi = T.add(hv, dv), T.add(hi, di)
        else:
            hv, hi = mx(T.sub(hv, dv), K(0)), mx(T.sub(hi, di), K(0))
    return (hv, hi), {
        "voltage_hold": hv, "current_hold": hi, "voltage_delta": dv, "current_delta": di,
        "voltage_last": v, "current_last": i, "compare_last": K(below),
    }


def next_step(dec):
    n = T.add(s("interval_step"), K(1))
    return K(0) if dec(">=", n, c("interval_n")) else n


def opt(dec, v, i, _pair):
    """the best of the recorded pairs (within the window of voltages), renewed when it gets too old"""
    best = {n: s(n) for n in ("age_now", "power_now", "voltage_now", "current_now", "age_nxt", "power_nxt", "voltage_nxt", "current_nxt")}
    best["age_now"], best["age_nxt"] = T.add(s("age_now"), K(1)), T.add(s("age_nxt"), K(1))
    p = T.mul(v, i)
    if dec(">=", p, best["power_nxt"]) and dec(">=", v, c("voltage_min_uV")) and dec("<=", v, c("voltage_max_uV")):
        best.update(age_nxt=K(0), power_nxt=p, voltage_nxt=v, current_nxt=i)
    if dec(">", best["age_now"], s("age_max")) or dec(">=", best["power_nxt"], s("power_now")):
        for n in ("age", "power", "voltage", "current"):
            best[f"{n}_now"], best[f"{n}_nxt"] = best[f"{n}_nxt"], K(0)
    return (best["voltage_now"], best["current_now"]), best


def voc(dec, v, i, pair):
    """setpoint as part of the open circuit voltage, which is measured while nothing is drawn"""
    step = next_step(dec)
    now, nxt = s("voc_now"), s("voc_nxt")
    age, age_nxt = T.add(s("age_now"), K(1)), T.add(s("age_nxt"), K(1))
    if dec("<", i, c("current_limit_nA")) and dec("<", v, nxt) and dec(">=", v, s("voc_min")) and dec("<=", v, c("voltage_max_uV")):
        nxt, age_nxt = v, K(0)
    if dec(">", age, s("age_max")) or dec("<=", nxt, now):
        now, age, nxt, age_nxt = nxt, age_nxt, c("voltage_max_uV"), K(0)
    out = {}
    setp = s("voltage_set_uV")
    if dec("<", step, c("duration_n")):
        setp = now
    elif not dec(">", step, c("duration_n")):
        setp = tint(T.mul(K(Fraction(1, 256)), T.mul(now, c("setpoint_n8"))))
    out.update(interval_step=step, voc_now=now, voc_nxt=nxt, age_now=age, age_nxt=age_nxt, voltage_set_uV=setp)
    return pair, out


def po(dec, v, i, pair):
    """setpoint climbs while the power grows (with growing steps) and turns around when it does not"""
    step, out = next_step(dec), {}
    out["interval_step"] = step
    setp, dv, base, up, last = s("voltage_set_uV"), s("volt_step_uV"), c("voltage_step_uV"), dec(("true", s("is_rising"))), s("power_last")
    if not dec(">", step) and not dec("<", step):
        p = T.mul(*pair)
        if dec(">", p, last):
            setp = T.add(setp, dv) if up else T.sub(setp, dv)
            dv = T.mul(K(2), dv)
        elif not dec(">", p) and dec(">", setp):
            up, dv = True, base
            setp = T.sub(setp, s("voltage_step_x4_uV"))
        else:
            up, dv = not up, base
            setp = T.add(setp, dv) if up else T.sub(setp, dv)
        last = p
        for limit, top in ((c("voltage_max_uV"), True), (c("voltage_min_uV"), False), (base, False)):
            if dec(">=" if top else "<=", setp, limit):
                setp, up, dv = limit, not top, base
    out.update(voltage_set_uV=setp, is_rising=K(up), volt_step_uV=dv, power_last=last)
    return pair, out


STATE = (
    "voltage_set_uV", "is_emu", "interval_step", "is_rising", "volt_step_uV", "voltage_hold", "current_hold", "voltage_step_x4_uV", "age_max",
    "voltage_last", "current_last", "compare_last", "lin_extrapolation", "current_delta", "voltage_delta", "age_now", "voc_now", "age_nxt", "voc_nxt",
    "voc_min", "power_last", "power_now", "voltage_now", "current_now", "power_nxt", "voltage_nxt", "current_nxt",
)  # fmt: skip


@rule("V03", floor=500, technique="path-sensitive abstract interpretation; every path compared with a reference by piecewise symbolic and linear-arithmetic equality; inductive invariants by linear entailment")
def harvesting(ctx):
    """Every harvesting algorithm on curves, as function of state and sample."""
    hm = ctx.cls("VirtualHarvesterModel")
    nonneg = ("voltage_set_uV", "volt_step_uV", "voltage_step_x4_uV", "voltage_last", "current_last", "age_now", "age_nxt", "voc_now", "voc_nxt", "power_last", "power_now", "power_nxt", "interval_step")
    q = f"{hm.qualname}.ivcurve_2_cv"
    cv_state = {"voltage_hold", "current_hold", "voltage_delta", "current_delta", "voltage_last", "current_last", "compare_last"}
    cv_reads = {*cv_state, "voltage_set_uV", "voltage_step_x4_uV", "lin_extrapolation"}

    def compare(m, tag, ref):
        m.judge("V03-state", tag, lambda dec, o: {**{n: m.default.get(n, s(n)) for n in STATE}, **ref(dec)[1]})
        m.judge("V03-result", tag, lambda dec, o: ("tuple", ref(dec)[0]), actual=lambda o: o.term)

    first_state(ctx, hm)
    for was in (True, False):
        def prep(_it, st, was=was):
            st.store[(("self",), "compare_last")] = S(K(was))

        m = Method(ctx, hm, "ivcurve_2_cv", nonneg, prep=prep)
        v, i = par(m.fi, 0), par(m.fi, 1)
        m.default = {"compare_last": K(was)}
        compare(m, f"ivcurve_2_cv, {'below' if was else 'above'} before", lambda dec, v=v, i=i, was=was: cv(dec, v, i, was, {}))
    for name, ref in (("ivcurve_2_mppt_opt", opt), ("ivcurve_2_mppt_voc", voc), ("ivcurve_2_mppt_po", po)):
        m = Method(ctx, hm, name, nonneg, opaque={q}, events=(q,))
        v, i = par(m.fi, 0), par(m.fi, 1)
        held = ("call", q, (("self",), v, i), ())
        pair = (("item", held, K(0)), ("item", held, K(1)))
        if ref is not opt:
            for o in m.paths:
                calls = [n for n, e in enumerate(o.events) if e.name == q]
                ok = len(calls) == 1 and o.events[calls[0]].res[2] == (("self",), v, i) and not any(e.kind == "setattr" and e.name in cv_reads for e in o.events[: calls[0]])
                ctx.check(ok, "V03-order", name, "the sample is not taken once, with the setpoint it was recorded for")
                written = {e.name for e in o.events if e.kind == "setattr"} & cv_state
                ctx.check(not written, "V03-order", f"{name} state of the held pair", f"changes {sorted(written)}")
        compare(m, name, lambda dec, v=v, i=i, ref=ref, pair=pair: ref(dec, v, i, pair))
        limits(ctx, m, name)


def limits(ctx, m, name):
    """ranges which each call keeps, for the assumed ranges of the state before"""
    for o in m.paths:
        base = {a: v for a, v in o.facts.items() if a[0] in {"pos", "zero"}}

        def keeps(what, goals, assumed=(), base=base):
            fs = dict(base)
            for a, b in assumed:  # a >= b
                atom = F.pos(T.sub(b, a))
                if not isinstance(atom, bool):
                    fs.setdefault(atom, False)
            rel = m.j.rel(fs)
            for a, b in goals:
                ctx.check(rel.ge(a, b) or not rel.consistent(), "V03-limits", f"{name} {what}", f"{T.show(a)[:80]} may be below {T.show(b)[:80]}")

        after = lambda n, o=o: m.after(o, n)  # noqa: E731
        if name == "ivcurve_2_mppt_po":
            lo = mx(c("voltage_min_uV"), c("voltage_step_uV"))
            hi = mx(c("voltage_max_uV"), lo)
            if m.j.rel(base).eq(after("interval_step"), K(0)):
                keeps("setpoint", [(after("voltage_set_uV"), lo), (hi, after("voltage_set_uV"))])
            else:
                keeps("setpoint between intervals", [(after("voltage_set_uV"), s("voltage_set_uV")), (s("voltage_set_uV"), after("voltage_set_uV"))])
        else:
            ages = [(s("age_now"), s("age_nxt")), (T.add(s("age_max"), K(1)), s("age_now")), (s("age_max"), s("age_nxt"))]
            kept = [(after("age_now"), after("age_nxt")), (T.add(s("age_max"), K(1)), after("age_now")), (s("age_max"), after("age_nxt"))]
            keeps("age", kept, [*ages, (s("age_max"), K(0))])
        if name == "ivcurve_2_mppt_voc":
            top = c("voltage_max_uV")
            before = [(top, s("voc_now")), (top, s("voc_nxt")), (s("voc_now"), K(0)), (c("setpoint_n8"), K(0)), (K(256), c("setpoint_n8")), (par(m.fi, 0), K(0))]
            keeps("open circuit voltage", [(top, after("voc_now")), (top, after("voc_nxt"))], before)
            keeps("setpoint", [(mx(top, s("voltage_set_uV")), after("voltage_set_uV"))], before)


def first_state(ctx, hm):
    """the state a model starts with keeps all ranges"""
    m = Method(ctx, hm, "__init__")
    cfg = ("param", par(m.fi, 0)[1])
    a = lambda n: ("attr", cfg, n)  # noqa: E731
    zero = {n: K(0) for n in STATE if n.split("_")[-1] in {"hold", "last", "delta", "nxt", "now"} and not n.startswith("voc")}
    want = {
        **zero, "volt_step_uV": a("voltage_step_uV"), "voltage_step_x4_uV": T.mul(K(4), a("voltage_step_uV")), "age_max": T.mul(K(2), a("window_size")),
        "voc_now": a("voltage_max_uV"), "voc_nxt": a("voltage_max_uV"), "voc_min": mx(K(1000), a("voltage_min_uV")), "_cfg": cfg,
    }  # fmt: skip
    for o in m.paths:
        at = attrs_after(o)
        for n, w in want.items():
            got = at.get(n, K(None))
            ok = n in at and (m.j.same(o.facts, got, w) or T.is_k(got) and T.is_k(w) and got[2] == w[2])
            ctx.check(ok, "V03-start", f"VirtualHarvesterModel.{n}", f"starts as {T.show(got)[:80]}, expected {T.show(w)[:80]}")
        # two curves are seen before the first interval ends
        step, two = at.get("interval_step", K(None)), T.mul(K(2), a("window_size"))
        rel = m.j.rel(o.facts)
        ok = m.j.same(o.facts, T.add(step, two), a("interval_n")) or rel.ge(two, a("interval_n")) and rel.ge(step, a("interval_n"))
        ok = ok or rel.ge(two, a("interval_n")) and T.is_k(step) and step[2] >= 2**30
        ctx.check(ok, "V03-start", "VirtualHarvesterModel.interval_step", f"starts as {T.show(step)[:80]}")
    ctx.check(bool(m.paths), "V03-instance", "__init__", "no path")
