"""V04 virtual targets, V05 simulation of harvester and source."""

from fractions import Fraction

from .. import facts as F
from .. import terms as T
from ..cases import Judge
from ..ctx import bound_args, raises, returns
from ..models import fld
from ..prog import AnalysisError
from . import rule
from .vmodel_rules import par, tint
from .vsource_rules import attrs_after

K = T.k


def s(n):
    return fld(n)


def init_paths(ctx, ci):
    """what the constructor leaves behind: (attributes, facts) for each accepted set of parameters"""
    outs = ctx.run(f"{ci.qualname}.__init__", names=("setattr",), want_setattr=True, keep=lambda a: True)
    return [(attrs_after(o), o.facts) for o in returns(outs)], raises(outs)


def put(t, attrs):
    return T.subst(t, {s(n): v for n, v in attrs.items()})


def put_atom(a, attrs):
    if a[0] in {"pos", "zero"}:
        return (F.pos if a[0] == "pos" else F.zero)(put(a[1], attrs))
    return tuple(put(x, attrs) if isinstance(x, tuple) and x else x for x in a)


def composed(ctx, ci):
    """every path of step after every path of the constructor: (attributes, facts, result)"""
    inits, _ = init_paths(ctx, ci)
    fi = ctx.func(f"{ci.qualname}.step")
    v = par(fi, 0)
    outs = ctx.run(fi, names={"/", "math.log", "math.log2", "math.log10", "math.sqrt"}, keep=lambda a: True, record_div=True)
    ctx.where = fi
    guarded(ctx, ci, v, inits, outs)
    res = []
    for attrs, f0 in inits:
        for o in returns(outs):
            fs = {**f0, F.pos(T.neg(v)): False}
            for a, val in o.facts.items():
                a2 = put_atom(a, attrs)
                if isinstance(a2, bool):
                    if a2 != val:
                        break
                elif fs.setdefault(a2, val) != val:
                    break
            else:
                res.append((attrs, fs, put(o.term, attrs)))
    return v, res, raises(outs)


def guarded(ctx, ci, v, inits, outs):
    """a division by what may be zero, or a logarithm of what may not have one, has somebody who catches its failure"""
    seen = set()
    for attrs, f0 in inits:
        for o in outs:
            for e in o.events:
                if e.kind not in {"div", "domain"} or e.extra & {"BaseException", "Exception", "ArithmeticError" if e.kind == "div" else "ValueError", "ZeroDivisionError" if e.kind == "div" else "ValueError"}:
                    continue
                fs = {**f0, F.pos(T.neg(v)): False}
                for a, val in e.facts.items():
                    fs.setdefault(put_atom(a, attrs), val)
                fs = {a: x for a, x in fs.items() if not isinstance(a, bool)}
                j = Judge({}, relevant=lambda a: a[0] in {"pos", "zero"})
                if not j.possible(fs):
                    continue
                q = put(e.args[-1], attrs)
                key = (e.kind, q, frozenset(fs.items()))
                if key in seen:
                    continue
                seen.add(key)
                rel = j.rel(fs)
                if e.kind == "div":
                    ctx.check(rel.gt(q) or rel.gt(T.neg(q)), "V04-total", f"{ci.name} division", f"divides by {T.show(q)[:100]}, which may be zero", e.loc)
                else:
                    ctx.check(rel.ge(q) if e.name == "math.sqrt" else rel.gt(q), "V04-total", f"{ci.name} {e.name}", f"of {T.show(q)[:100]}, which may be out of its domain", e.loc)


def quotients(t):
    return {at for x in T.subterms(t) if x[:1] == ("poly",) for m in T.to_poly(x) for at, e in m if e < 0} | {x[1] for x in T.subterms(t) if x[:1] == ("inv",)}


@rule("V04", floor=40, technique="path-sensitive abstract interpretation, constructor and step composed; interval and linear arithmetic entailment")
def targets(ctx):
    """Each target draws what it models, never less than nothing and without failing."""
    base = ctx.cls("TargetABC")
    found = 0
    for ci in sorted((x for x in ctx.prog.all_classes() if x is not base and x.is_subclass_of(base.qualname)), key=lambda x: x.qualname):
        if ci.find_method("step") is None or ci.find_method("step").cls is not ci:
            continue
        found += 1
        v, paths, exc = composed(ctx, ci)
        good = ("param", "pwr_good")
        for o in (x for x in exc if x.exc.name != "?"):  # "?": what is not caught by a suppression
            ctx.check(False, "V04-total", ci.name, f"fails with {o.exc.name}")
        on = 0
        for attrs, fs, t in paths:
            j = Judge({}, relevant=lambda a: a[0] in {"pos", "zero"})
            if not j.possible(fs):
                continue
            on += 1
            rel = j.rel(fs)
            for q in quotients(t):
                ctx.check(rel.gt(q) or rel.gt(T.neg(q)) or F.bounds(fs).of(q)[0] is not None and rel.gt(q), "V04-total", f"{ci.name} quotient", f"divides by {T.show(q)[:100]}, which may be zero")
            ctx.check(rel.ge(t), "V04-positive", ci.name, f"the current may be negative: {T.show(t)[:120]}")
            for tag, want in model(ci.name, v, good, fs, j):
                if tag == "diode":
                    ctx.check(diode(t, v, attrs), "V04-model", ci.name, f"is not the current through diode and resistor: {T.show(t)[:140]}")
                else:
                    ctx.check(j.same(fs, t, want), "V04-model", f"{ci.name} {tag}", f"is {T.show(t)[:100]}, expected {T.show(want)[:100]}")
        ctx.check(on > 0, "V04-instance", ci.name, "no path")
    ctx.check(found >= 4, "V04-instance", "targets", f"only {found} targets found")
    for attrs, fs in init_paths(ctx, ctx.cls("DiodeTarget"))[0]:
        p = lambda n: ("param", n)  # noqa: E731
        i_s, c1 = attrs.get("I_S", K(0)), attrs.get("c1", K(1))
        at_forward = T.mul(i_s, ("call", "math.expm1", (T.mul(p("V_forward_V"), T.inv(c1)),), ()))
        ctx.check(Judge().same(fs, at_forward, p("I_forward_A")), "V04-model", "DiodeTarget forward point", f"does not pass the point of its parameters: {T.show(at_forward)[:100]}")
    # ------------------------------------------------------------ refused parameters
    for name, bad in (
        ("ResistiveTarget", [(K(Fraction(1, 1000)), "R_Ohm")]), ("DiodeTarget", [(K(Fraction(1, 1000)), "R_Ohm"), (K(Fraction(1, 5)), "V_forward_V"), (K(0), "I_forward_A")]),
        ("ConstantCurrentTarget", [(K(0), "I_active_A")]), ("ConstantPowerTarget", [(K(0), "P_active_W")]),
    ):  # fmt: skip
        ci = ctx.cls(name)
        for limit, p in bad:
            outs = ctx.run(f"{ci.qualname}.__init__", facts={F.pos(T.sub(("param", p), limit)): False})
            ctx.check(not returns(outs) and {o.exc.name for o in raises(outs)} <= {"ValueError"}, "V04-refuse", f"{name} {p}", f"accepts {p} of {T.show(limit)}")
    for name, p in (("ConstantCurrentTarget", "I_sleep_A"), ("ConstantPowerTarget", "P_sleep_W")):
        outs = ctx.run(f"{ctx.cls(name).qualname}.__init__", facts={F.pos(T.neg(("param", p))): True})
        ctx.check(not returns(outs), "V04-refuse", f"{name} {p}", f"accepts a negative {p}")


def model(name, v, good, fs, j):
    """(what, expected current)"""
    p = lambda n: ("param", n)  # noqa: E731
    pg = fs.get(("true", good))
    ctrl = fs.get(("true", p("controlled")))
    off = pg is False and ctrl is True
    big = lambda n, x: T.mul(K(10**n), x)  # noqa: E731
    if name == "ResistiveTarget":
        yield ("off", K(0)) if off else ("on", T.mul(T.mul(v, T.inv(p("R_Ohm"))), K(1000)))
    elif name == "DiodeTarget":
        yield ("off", K(0)) if off else ("diode", None)
    elif name in {"ConstantCurrentTarget", "ConstantPowerTarget"}:
        e, u, x = (9, "A", "I") if name == "ConstantCurrentTarget" else (15, "W", "P")
        if pg is None:
            return
        w = big(e, p(f"{x}_active_{u}" if pg else f"{x}_sleep_{u}"))
        if e == 15:
            on = j.decide(fs, F.pos(v))
            w = K(0) if on is False else T.mul(w, T.inv(v))
        yield "active" if pg else "sleep", w


def diode(t, v, attrs):
    """mean of two currents, both never negative: one through the resistor, one through the diode, at the same voltage of the diode"""
    if t == K(0):
        return True
    p = T.to_poly(t)
    parts = [m[0][0] for m in p if len(m) == 1 and m[0][1] == 1]
    if len(p) != 2 or len(parts) != 2 or set(p.values()) != {Fraction(5 * 10**8)}:
        return False
    cur = []
    for x in parts:
        if x[0] != "max" or K(0) not in x[1] or len(x[1]) != 2:
            return False
        cur.append(next(y for y in x[1] if y != K(0)))
    r, i_s, c1 = ("param", "R_Ohm"), attrs.get("I_S"), attrs.get("c1")
    if i_s is None or c1 is None:
        return False
    for i_r, i_d in (cur, cur[::-1]):
        vd = T.sub(T.mul(K(Fraction(1, 10**6)), v), T.mul(r, i_r))
        if i_d == T.mul(i_s, ("call", "math.expm1", (T.mul(vd, T.inv(c1)),), ())):
            return True
    return False


# ---------------------------------------------------------------- simulation
def calls(o, q, depth=None):
    return [e for e in o.events if e.name == q and (depth is None or len(e.loops) == depth)]


def strip_int(t):
    return t[2][0] if t[:2] == ("call", "int") and len(t[2]) == 1 else t


@rule("V05", floor=60, technique="path-sensitive abstract interpretation of the simulation loops (order of stages, symbolic units, accounting)")
def simulation(ctx):
    """Order, units and accounting of the simulation."""
    sm, hm, cm = ctx.cls("VirtualSourceModel"), ctx.cls("VirtualHarvesterModel"), ctx.cls("VirtualConverterModel")
    pair = ctx.cls("CalibrationPair").qualname
    to_si, to_raw = f"{pair}.raw_to_si", f"{pair}.si_to_raw"
    q = {n: f"{hm.qualname if n == 'ivcurve_sample' else cm.qualname}.{n}" for n in ("ivcurve_sample", "calc_inp_power", "calc_out_power", "update_cap_storage", "update_states_and_output")}
    for x in (*q.values(), to_si, to_raw):
        ctx.func(x)

    # ------------------------------------------------------------ one step of the source
    fi = ctx.func(f"{sm.qualname}.iterate_sampling")
    v, i, draw = (par(fi, n) for n in range(3))
    outs = returns(ctx.run(fi, names=("setattr", *q.values()), want_setattr=True, keep=lambda a: True, opaque={*q.values(), to_si, to_raw}))
    call = lambda n, *a: ("call", n, a, ())  # noqa: E731
    cnv, hrv = s("cnv"), s("hrv")
    taken = call(q["ivcurve_sample"], hrv, v, i)
    p_in = call(q["calc_inp_power"], cnv, ("item", taken, K(0)), ("item", taken, K(1)))
    raw = call(to_raw, ("attr", s("_cal_emu"), "adc_C_A"), T.mul(draw, K(Fraction(1, 10**9))))
    p_out = call(q["calc_out_power"], cnv, raw)
    v_mid, v_raw = call(q["update_cap_storage"], cnv), call(q["update_states_and_output"], cnv)
    v_out = tint(T.mul(call(to_si, ("attr", s("_cal_emu"), "dac_V_A"), v_raw), K(10**6)))
    for o in outs:
        j = Judge()
        done = [(e.name, e.res) for e in o.events if e.kind == "call"]
        for what, want in (("ivcurve_sample", taken), ("calc_inp_power", p_in), ("calc_out_power", p_out), ("update_cap_storage", v_mid), ("update_states_and_output", v_raw)):
            got = [r for n, r in done if n == q[what]]
            ctx.check(got == [want], "V05-step", f"iterate_sampling {what}", f"is run {len(got)} times, with {[T.show(g)[:160] for g in got]}, expected {T.show(want)[:160]}")
        pos = {n: k for k, (n, _) in enumerate(done)}
        for first, then in (("calc_inp_power", "update_cap_storage"), ("calc_out_power", "update_cap_storage"), ("update_cap_storage", "update_states_and_output")):
            ctx.check(pos.get(q[first], -1) < pos.get(q[then], -1), "V05-step", f"iterate_sampling {first} before {then}", "stages are run in another order")
        at = {(e.recv, e.name): e.args[0] for e in o.events if e.kind == "setattr"}
        for name, add in (("W_inp_fWs", p_in), ("W_out_fWs", p_out)):
            ctx.check(at.get((("self",), name)) == T.add(s(name), add), "V05-energy", f"iterate_sampling {name}", f"is {T.show(at.get((('self',), name), K(None)))[:160]}")
        fb = F.decide(o.facts, ("true", ("attr", cnv, "feedback_to_hrv")))
        got = at.get((hrv, "voltage_set_uV"))
        ctx.check(fb is not None and got == (("attr", cnv, "V_input_request_uV") if fb else None), "V05-feedback", "iterate_sampling", f"setpoint of the harvester is {T.show(got) if got else 'kept'} {'with' if fb else 'without'} feedback")
        early = [e for n, e in enumerate(o.events) if e.kind == "setattr" and e.recv == hrv and not any(x.name == q["calc_inp_power"] for x in o.events[:n])]
        ctx.check(not early, "V05-feedback", "iterate_sampling order", "feeds back before the stage which asks for it")
        mid = F.decide(o.facts, ("true", ("attr", cnv, "enable_log_mid")))
        ctx.check(mid is not None and o.term == (v_mid if mid else v_out), "V05-step", "iterate_sampling result", f"is {T.show(o.term)[:160]}")
        extra = sorted(n for r, n in at if (r, n) not in {(("self",), "W_inp_fWs"), (("self",), "W_out_fWs"), (hrv, "voltage_set_uV")} and r in {cnv, hrv})
        ctx.check(not extra, "V05-step", "iterate_sampling state of the stages", f"changes {extra}")
    ctx.check(len(outs) >= 4, "V05-instance", "iterate_sampling", f"{len(outs)} paths")

    # ------------------------------------------------------------ assembly of the source
    fi = ctx.func(f"{sm.qualname}.__init__")
    fv, fh = f"{ctx.cls('ConverterPRUConfig').qualname}.from_vsrc", f"{ctx.cls('HarvesterPRUConfig').qualname}.from_vhrv"
    inits = {x: f"{ctx.cls(x).qualname}.__init__" for x in ("PruCalibration", "VirtualConverterModel", "VirtualHarvesterModel")}
    for x in (fv, fh, *inits.values()):
        ctx.func(x)
    outs = returns(ctx.run(fi, names=("setattr", fv, fh, *inits.values()), want_setattr=True, opaque={fv, fh, *inits.values()}))
    p = lambda n: ("param", n)  # noqa: E731
    for o in outs:
        at = attrs_after(o)
        none = F.decide(o.facts, ("isnone", p("vsrc")))
        src = at.get("cfg_src")
        ctx.check(src == p("vsrc") if none is False else src is not None and src[0] == "new", "V05-assembly", "configuration", f"is {T.show(src or K(None))[:100]}")
        for fn, want in (
            (fv, {"data": src, "dtype_in": p("dtype_in"), "log_intermediate_node": p("log_intermediate")}),
            (fh, {"data": ("attr", src, "harvester"), "for_emu": K(True), "dtype_in": p("dtype_in"), "window_size": p("window_size"), "voltage_step_V": p("voltage_step_V")}),
        ):
            es = calls(o, fn)
            ctx.check(len(es) == 1, "V05-instance", fn.split(".")[-1], f"called {len(es)} times")
            for e in es:
                b = bound_args(ctx.prog, e)
                first = [n for n in b if n not in {"cls", "self"}][:1]
                for n, w in want.items():
                    got = b.get(first[0]) if n == "data" and first else b.get(n, K(None))
                    ctx.check(got == w, "V05-assembly", f"{fn.split('.')[-1]} {n}", f"is {T.show(got)[:100]}, expected {T.show(w)[:100]}")
                made = [bound_args(ctx.prog, x) for x in calls(o, inits["VirtualConverterModel" if fn == fv else "VirtualHarvesterModel"])]
                ctx.check(len(made) == 1 and made[0].get("cfg") == e.res, "V05-assembly", f"model of {fn.split('.')[-1]}", "is not built from this configuration")
        cal = [e for e in calls(o, inits["PruCalibration"])]
        cnvs = calls(o, inits["VirtualConverterModel"])
        ok = len(cal) == 1 and cal[0].args[-1] == p("cal_emu") and len(cnvs) == 1 and bound_args(ctx.prog, cnvs[0]).get("cal") == cal[0].args[0] and at.get("_cal_emu") == p("cal_emu")
        ctx.check(ok, "V05-assembly", "calibration", "differs between the parts of the source")
        for n in ("W_inp_fWs", "W_out_fWs"):
            ctx.check(at.get(n) == K(0), "V05-energy", f"VirtualSourceModel {n}", "does not start at zero")
    ctx.check(bool(outs), "V05-instance", "VirtualSourceModel.__init__", "no path")

    # ------------------------------------------------------------ whole recordings
    for kind in ("harvester", "source"):
        recording(ctx, kind, q["ivcurve_sample"], f"{sm.qualname}.iterate_sampling", to_si, to_raw)


def recording(ctx, kind, q_hrv, q_src, to_si, to_raw):
    fn = next((m.defs[f"simulate_{kind}"][1] for m in ctx.prog.modules.values() if m.defs.get(f"simulate_{kind}", ("",))[0] == "func"), None)
    if fn is None:
        raise AnalysisError(f"anchor vanished: simulate_{kind}")
    rd, wr = ctx.cls("Reader").qualname, ctx.cls("Writer").qualname
    models = tuple(ctx.cls(x).qualname + "." for x in ("VirtualHarvesterModel", "VirtualConverterModel", "VirtualSourceModel", "CalibrationPair", "HarvesterPRUConfig", "ConverterPRUConfig", "VirtualSourceConfig"))
    it = ctx.interp(names=("call", "mcall", "setitem", "pure", "loop", "carry"), opaque_prefix=(f"{rd}.", f"{wr}.", *models))
    it.want_pure = {"sum", "nansum", "dot"}
    outs = returns(ctx.run(fn, it=it))
    step = q_hrv if kind == "harvester" else q_src
    name = f"simulate_{kind}"
    n = 0
    for o in outs:
        rds = [e for e in o.events if e.name == f"{rd}.__init__"]
        ok = len(rds) == 1 and bound_args(ctx.prog, rds[0]).get("file_path") == ("param", "path_input")
        ctx.check(ok, "V05-input", name, "does not read the recording it was given")
        if not ok:
            continue
        file_in = rds[0].args[0]
        wrs = [e for e in o.events if e.name == f"{wr}.__init__"]
        wants = F.decide(o.facts, ("isnone", ("param", "path_output"))) is False or o.facts.get(("true", ("param", "path_output"))) is True
        ctx.check(len(wrs) == int(wants), "V05-output", f"{name} file", f"{len(wrs)} files are written although {'one is' if wants else 'none is'} asked for")
        for e in wrs:
            b = bound_args(ctx.prog, e)
            mode = "harvester" if kind == "harvester" else "emulator"
            ctx.check(b.get("file_path") == ("param", "path_output") and F._plain(b.get("mode", K(None))) == K(mode), "V05-output", f"{name} file", f"is {T.show(b.get('file_path', K(None)))} of kind {T.show(b.get('mode', K(None)))}")
        steps = [e for e in o.events if e.name == step]
        if not steps:
            continue
        n += 1
        # one row of the recording, in uV and nA
        cal = ("call", f"{rd}.get_calibration_data", (file_in,), ())
        rows = {x for x in T.subterms(full(steps[0].res)) if x[:1] == ("elem",) and x[1][:2] == ("call", f"{rd}.read_buffers") and x[1][2][:1] == (file_in,)}
        ok = len(rows) == 1
        ctx.check(ok, "V05-input", f"{name} rows", "does not process the recorded buffers")
        if not ok:
            continue
        row = rows.pop()
        b = dict(row[1][3])
        ctx.check(b.get("is_raw") == K(True) and not (set(b) - {"is_raw", "start_n", "end_n", "omit_ts"}) and b.get("start_n", K(0)) == K(0) and b.get("end_n", K(None)) == K(None), "V05-input", f"{name} rows", f"reads {T.show(row[1])[-100:]}")
        at = lambda k: ("item", row, K(k))  # noqa: E731
        arr = {
            "V": T.mul(K(10**6), ("call", to_si, (("attr", cal, "voltage"), at(1)), ())),
            "I": T.mul(K(10**9), ("call", to_si, (("attr", cal, "current"), at(2)), ())),
        }  # fmt: skip
        depth = {len(e.loops) for e in steps}
        ctx.check(len(steps) == 1 and depth == {2}, "V05-loop", name, f"{len(steps)} steps per sample")
        e = steps[0]
        sets = [x for x in o.events if x.kind == "setitem" and x.recv is not None and unlv(x.recv, arr) in arr.values() and len(x.loops) == 2]
        idx = {x.args[0] for x in sets}
        ok = len(idx) == 1 and whole_range(idx, row, arr)
        ctx.check(ok, "V05-loop", f"{name} samples", f"does not visit every sample of a buffer: {[T.show(x)[:120] for x in idx]}")
        if not ok:
            continue
        ix, res = idx.pop(), full(e.res)
        inp = lambda k: ("item", arr[k], ix)  # noqa: E731
        b = {k: unlv(strip_int(x), arr) for k, x in bound_args(ctx.prog, e).items()}
        keys = [k for k in b if k != "self"]
        ctx.check(len(keys) >= 2 and b[keys_for(ctx, step, 0)] == inp("V") and b[keys_for(ctx, step, 1)] == inp("I"), "V05-units", f"{name} input", f"is {[T.show(b[k])[:90] for k in keys[:2]]}")
        model_of = [x for x in o.events if x.kind == "call" and x.name.endswith("__init__") and x.args[:1] == e.args[:1]]
        ctx.check(len(model_of) == 1 and not model_of[0].loops, "V05-loop", f"{name} model", "the state of the model does not live through the whole recording")
        made = [x for x in o.events if x.name == (f"{ctx.cls('HarvesterPRUConfig').qualname}.from_vhrv" if kind == "harvester" else f"{ctx.cls('VirtualSourceModel').qualname}.__init__")]
        ctx.check(len(made) == 1, "V05-assembly", f"{name} configuration", f"made {len(made)} times")
        for x in made:
            b = bound_args(ctx.prog, x)
            get = lambda n: ("call", f"{rd}.{n}", (file_in,), ())  # noqa: E731
            want = {"dtype_in": get("get_datatype"), "window_size": get("get_window_samples"), "voltage_step_V": get("get_voltage_step")}
            want.update({"data": ("param", "config"), "for_emu": K(True)} if kind == "harvester" else {"vsrc": ("param", "config")})
            for pn, w in want.items():
                ctx.check(b.get(pn) == w, "V05-assembly", f"{name} {pn}", f"is {T.show(b.get(pn, K(None)))[:90]}")
            if kind == "harvester":
                ctx.check(len(model_of) == 1 and full(model_of[0].args[1] if len(model_of[0].args) > 1 else dict(model_of[0].kws).get("cfg", K(None))) == full(x.res), "V05-assembly", f"{name} model", "is not built from this configuration")
        stored = {k: [full(x.args[1]) for x in sets if unlv(x.recv, arr) == arr[k]] for k in "VI"}
        if kind == "harvester":
            for k, pos in (("V", 0), ("I", 1)):
                ctx.check(stored[k] == [("item", res, K(pos))], "V05-loop", f"{name} result {k}", f"is {[T.show(x)[:80] for x in stored[k]]}")
        else:
            ts = [x for x in o.events if x.name.endswith(".step") and len(x.loops) == 2]
            ctx.check(len(ts) == 1, "V05-loop", f"{name} target", f"runs {len(ts)} times per sample")
            ctx.check(stored["V"] == [res], "V05-loop", f"{name} result V", f"is {[T.show(x)[:80] for x in stored['V']]}")
            for x in ts:
                tb = bound_args(ctx.prog, x)
                ctx.check(x.args[:1] == (("param", "target"),) and strip_int(full(tb.get("voltage_uV", K(None)))) == res, "V05-loop", f"{name} target voltage", f"is {T.show(tb.get('voltage_uV', K(None)))[:90]}")
                g = full(tb.get("pwr_good", K(None)))
                src = e.args[0]
                okg = g == ("attr", ("attr", src, "cnv"), "power_good") or g[0] == "call" and g[1].endswith(".get_power_good") and g[2] == (("attr", src, "cnv"),)
                order = [y for y in o.events if y is x or y is e or y.res is not None and full(y.res) == g and len(y.loops) == 2]
                ctx.check(okg and order and order[0] is e, "V05-loop", f"{name} target power good", f"is {T.show(g)[:90]}")
                ctx.check(stored["I"] == [full(x.res)], "V05-loop", f"{name} result I", f"is {[T.show(y)[:80] for y in stored['I']]}")
            drawn = full(bound_args(ctx.prog, e).get(keys_for(ctx, step, 2), K(None)))
            ctx.check(kept(o, drawn, [full(x.res) for x in ts], 2), "V05-loop", f"{name} current drawn", f"is {T.show(drawn)[:90]} instead of what the target drew before")
        # energy of what was simulated
        want = T.mul(arr["V"], arr["I"])
        used = [x for x in o.events if x.kind == "pure"]
        last = max((k for k, x in enumerate(o.events) if len(x.loops) == 2 and x.kind not in {"loop", "carry"}), default=0)
        sums = [x for k, x in enumerate(o.events) if x.kind == "pure" and len(x.loops) == 1 and k > last]
        ret = T.to_poly(full(o.term))
        energy = None
        for x in sums:
            inner = unlv(x.recv if x.kind == "pure" and x.recv is not None else x.args[0], arr)
            if x.name.split(".")[-1] == "dot":
                inner = T.mul(inner, unlv(x.args[-1], arr))
            got = T.mul(T.from_poly({m: cf for m, cf in ret.items() if any(a == full(x.res) for a, _ in m)}), T.inv(full(x.res)))
            if T.mul(got, inner) == T.mul(T.mul(K(Fraction(1, 10**15)), ("attr", file_in, "sample_interval_s")), want):
                energy = x
        rest = [m for m in ret if energy is not None and not any(a == full(energy.res) for a, _ in m)]
        okr = energy is not None and len(rest) == 1 and ret[rest[0]] == 1 and len(rest[0]) == 1 and rest[0][0][0][0] == "lv"
        okr = okr and kept(o, rest[0][0][0], [full(o.term)], 1)
        ctx.check(okr, "V05-energy", name, f"is not the energy of the simulated samples: {T.show(o.term)[:200]} ({len(used)} sums)")
        if wants:
            out = ("call", f"{rd}.get_calibration_data", (wrs[0].args[0],), ()) if wrs else None
            app = [x for x in o.events if x.name == f"{wr}.append_iv_data_raw"]
            ctx.check(len(app) == 1 and len(app[0].loops) == 1 and o.events.index(app[0]) > last, "V05-output", f"{name} samples", "are not written once per buffer, after they are simulated")
            for x in app:
                ab = bound_args(ctx.prog, x)
                ab = [ab.get("self")] + [ab.get(keys_for(ctx, x.name, z), K(None)) for z in range(3)]
                want_out = [at(0)] + [("call", to_raw, (("attr", out, nm), T.mul(K(Fraction(1, 10**z)), arr[k])), ()) for nm, z, k in (("voltage", 6, "V"), ("current", 9, "I"))]
                got = [unlv(z, arr) for z in ab[1:4]]
                ctx.check(ab[0] == (wrs[0].args[0] if wrs else None) and got == want_out, "V05-output", f"{name} samples", f"are {[T.show(g)[:110] for g in got]}")
    ctx.check(n > 0, "V05-instance", name, "no path through the loop")


def kept(o, t, results, depth):
    """a variable which starts with zero and then always holds the last one of these results"""
    for _ in range(depth):
        if t[0] != "lv" or len(t) != 3:
            return False
        before = [dict(x.kws).get(t[2]) for x in o.events if x.kind == "loop" and x.name == t[1]]
        after = [dict(x.kws).get(t[2]) for x in o.events if x.kind == "carry" and x.name == t[1]]
        if len(before) != 1 or before[0] is None or not all(x is not None and (full(x) in results or full(x) == t) for x in after):
            return False
        t = full(before[0])
    return t == K(0)


def full(t):
    """without abbreviations"""
    return T.subst(t, {})


def keys_for(ctx, q, n):
    return par(ctx.func(q), n)[1]


def unlv(t, arr):
    """arrays in a loop are the ones from before it (they are only changed in place)"""
    t = full(t)
    m = {x: x[2] for x in T.subterms(t) if x[:1] == ("lv",) and len(x) >= 3 and isinstance(x[2], tuple) and (x[2] in arr.values() or x[2][:1] == ("item",))}
    for x in list(m):
        if len(x) >= 4 and x[3] == "[]":
            m[x] = ("item", x[2], x[4] if len(x) > 4 else K(0))
    return T.subst(t, m)


def whole_range(idx, row, arr):
    x = next(iter(idx))
    if x[0] == "idx":
        return True
    if x[0] != "elem" or x[1][0] != "range" or x[1][1] != K(0) or x[1][3] != K(1):
        return False
    sizes = set()
    for t in (("item", row, K(0)), ("item", row, K(1)), ("item", row, K(2)), *arr.values()):
        sizes |= {("call", "len", (t,), ()), ("attr", t, "size"), ("item", ("attr", t, "shape"), K(0))}
    top = x[1][2]
    return top in sizes or top[0] == "min" and all(y in sizes for y in top[1])
