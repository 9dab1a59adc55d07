"""Model validation: which configurations are refused (M05, M07)."""

from .. import facts as F
from .. import models as M
from .. import terms as T
from ..ctx import raises, returns
from ..models import fld
from ..schema import model_fields
from . import rule

DELTA = "timedelta"


def is_delta(ty):
    if not ty:
        return False
    if ty[0] == "union":
        return any(is_delta(x) for x in ty[1])
    return ty[0] == "ext" and ty[1].split(".")[-1] == DELTA


def eqk(t, v, pol=True):
    a, p = F.cmp_atom("==", t, T.k(v))
    return {a: p == pol}


def istrue(t, v=True):
    return {("true", t): v}


def none(t, v=True):
    return {("isnone", t): v}


def isstr(t, v=True):
    return {("isinst", t, "str"): v}


def zero(t, v=True):
    return {F.zero(t): v}


def both(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r


CASES = [
    ("PowerTracing", "everything recorded is discarded", both(istrue(fld("discard_current")), istrue(fld("discard_voltage")), istrue(fld("calculate_power"), False))),
    ("PowerTracing", "post-processing that does not exist", istrue(fld("calculate_power"))),
    ("GpioTracing", "tracing with an empty mask", zero(fld("mask"))),
    ("EmulationTask", "unknown aux-voltage name", both(isstr(fld("voltage_aux")), eqk(fld("voltage_aux"), "main", False), eqk(fld("voltage_aux"), "buffer", False))),
    ("EmulationTask", "gpio actuation (not implemented)", none(fld("gpio_actuation"), False)),
    ("ContentModel", "visible to group without description", both(istrue(fld("visible2group")), none(fld("description")))),
    ("ContentModel", "visible to all without description", both(istrue(fld("visible2all")), none(fld("description")))),
    ("Observer", "target a without cape", both(none(fld("cape")), none(fld("target_a"), False))),
    ("Observer", "target b without cape", both(none(fld("cape")), none(fld("target_b"), False))),
    ("GPIO", "neither pru nor sys (registers)", both(none(fld("reg_pru")), none(fld("reg_sys")))),
    ("GPIO", "neither pru nor sys (pins)", both(none(fld("pin_pru")), none(fld("pin_sys")))),
    ("GPIO", "neither pru nor sys (mixed)", both(none(fld("reg_pru")), none(fld("pin_sys")))),
    ("GPIO", "neither pru nor sys (mixed 2)", both(none(fld("pin_pru")), none(fld("reg_sys")))),
    ("Testbed", "storage that is not shared", istrue(fld("shared_storage"), False)),
    ("VirtualHarvesterConfig", "minimum voltage above maximum", {F.pos(T.sub(fld("voltage_min_mV"), fld("voltage_max_mV"))): True}),
    ("VirtualHarvesterConfig", "voltage below minimum", {F.pos(T.sub(fld("voltage_min_mV"), fld("voltage_mV"))): True}),
    ("VirtualHarvesterConfig", "voltage above maximum", {F.pos(T.sub(fld("voltage_mV"), fld("voltage_max_mV"))): True}),
]  # fmt: skip
OPAQUE = {
    "Experiment": {"shepherd_core.data_models.experiment.experiment.Experiment._validate_targets", "shepherd_core.data_models.experiment.experiment.Experiment._validate_observers"},
}


@rule("M05", floor=28, technique="path-sensitive abstract interpretation of the model validators under the assumed faulty state")
def config_refused(ctx):
    """Every duration and delay field of every model (found by type), and each documented faulty combination, is assumed
    as a branch fact on a symbolic instance; all paths through the effective after-validators (inherited ones included)
    must then end in an error.  Start times: every accepting path must have established that the start is unset or not
    before the current time.  Conversely every rejecting path must have established one of those reasons."""
    prog = ctx.prog
    reasons = {}
    n = 0
    for ci in prog.models():
        for name, fs in model_fields(prog, ci).items():
            if fs is None or not is_delta(fs.base):
                continue
            lo = fs.range()[0]
            n += 1
            con = f"{ci.name}.{name}"
            if lo is not None and lo >= 0:
                ctx.check(True, "M05-negative-time", con)
                continue
            bad = M.neg(fld(name))
            reasons.setdefault(ci.name, []).append({a: v for a, v in bad.items() if a[0] != "isnone"})
            ok, why = M.rejects(ctx, ci, bad, opaque=OPAQUE.get(ci.name, set()))
            ctx.check(ok, "M05-negative-time", con, f"a negative {name} is accepted: {why}", ci.loc)
    ctx.check(n >= 8, "M05-instance", "duration fields", f"{n} duration fields found")
    for cname, label, bad in CASES:
        for ci in [ctx.cls(cname)] + ([c for c in prog.models() if c.name != cname and c.is_subclass_of(ctx.cls(cname).qualname)] if cname == "ContentModel" else []):
            reasons.setdefault(ci.name, []).append(bad)
            sub = f"{ci.name}: {label}"
            kw = {}
            if ci.name == "VirtualSourceConfig":
                kw["opaque_prefix"] = ("shepherd_core.data_models.content.virtual_harvester.",)
            ok, why = M.rejects(ctx, ci, bad, **kw)
            ctx.check(ok, "M05-refused", sub, f"accepted: {why}", ci.loc)
    # start times
    for cname in ["EmulationTask", "HarvestTask"]:
        ci = ctx.cls(cname)
        ts = fld("time_start")
        keep = lambda a: "time_start" in repr(a)  # noqa: E731
        acc = 0
        for m, outs in M.run_after(ctx, ci, keep=keep):
            for o in returns(outs):
                acc += 1
                ok = o.facts.get(("isnone", ts)) is True or not_past(o.facts, ts)
                ctx.check(ok, "M05-start", cname, "a start in the past is accepted", m.loc)
            if cname == "EmulationTask" or raises(outs):
                for o in raises(outs):
                    if past(o.facts, ts):
                        reasons.setdefault(cname, []).append({a: v for a, v in o.facts.items() if past({a: v}, ts)})
        ctx.check(acc > 0, "M05-instance", cname, "no accepting path")
    # firmware that can be programmed is intel-hex
    ci = ctx.cls("ProgrammingTask")
    hexs = {".hex", ".ihex", ".ihx"}
    sfx = suffix_terms(ctx, ci)
    for s in sfx:
        bad = both(*[eqk(s, h, False) for h in hexs])
        reasons.setdefault(ci.name, []).append(bad)
        ok, why = M.rejects(ctx, ci, bad)
        ctx.check(ok, "M05-refused", "ProgrammingTask: firmware that is not intel-hex", f"accepted: {why}", ci.loc)
    ctx.check(len(sfx) == 1, "M05-instance", "ProgrammingTask", f"{len(sfx)} suffix terms")
    # events only on pins the user controls
    ci = ctx.cls("GpioEvent")
    dr, acc = fld("gpio", "direction"), 0
    for m, outs in M.run_after(ctx, ci, keep=lambda a: "direction" in repr(a) or a[0] == "in"):
        for o in returns(outs):
            acc += 1
            named = any(v and a[0] == "in" and F._plain(a[1]) == T.k("gpio") and T.contains(a[2], lambda x: x == fld("gpio", "name")) for a, v in o.facts.items())
            out = any(v and a[0] == "eq" and a[1] == dr and F._plain(a[2]) in {T.k("IO"), T.k("OUT")} for a, v in o.facts.items())
            ctx.check(named and out, "M05-refused", "GpioEvent: pin the user does not control", "accepted: " + ", ".join(f"{v} {T.show(a)[:60]}" for a, v in o.facts.items()), m.loc)
            reasons.setdefault("GpioEvent", []).append(None)
    ctx.check(acc > 0, "M05-instance", "GpioEvent", "no accepting path")
    # nothing else is refused, and an accepted instance is handed on unchanged
    for cname, bads in sorted(reasons.items()):
        ci = ctx.cls(cname)
        if cname in {"Testbed", "Experiment", "GpioEvent", "VirtualSourceConfig"}:
            bads = None  # more reasons: M06, M07, H01
        ev = {"setattr"}
        for m in M.validators(ci, "after"):
            it = ctx.interp(ev, want_setattr=True, opaque=OPAQUE.get(cname, set()), opaque_prefix=("shepherd_core.data_models.content.virtual_harvester.",) if cname == "VirtualSourceConfig" else (), keep=lambda a: a[0] in {"pos", "true", "isnone", "eq", "zero", "isinst"} and cname not in {"Testbed", "Experiment"})
            outs = ctx.run(m, it=it, this=it.self_value(ci))
            for o in returns(outs):
                ctx.check(o.term == ("self",), "M05-kept", f"{cname}.{m.name}", f"validator returns {T.show(o.term)[:60]} instead of the instance", m.loc)
                for e in o.events:
                    ctx.check(e.recv != ("self",), "M05-kept", f"{cname}.{m.name}", "validator changes the instance", e.loc)
            if bads is None:
                continue
            for o in raises(outs):
                ok = any(all(holds(o.facts, a, v) for a, v in b.items()) for b in bads)
                ctx.check(ok, "M05-only", f"{cname}.{m.name}", "refuses without a documented reason: " + ", ".join(f"{v} {T.show(a)[:70]}" for a, v in o.facts.items())[:300], o.exc.loc or m.loc)


def holds(facts, atom, val):
    if isinstance(atom, bool):
        return atom == val
    return F.decide(facts, atom) is val


def suffix_terms(ctx, ci):
    out = set()
    for m, outs in M.run_after(ctx, ci):
        for o in outs:
            for a in o.facts:
                if a[0] == "eq" and T.contains(a[1], lambda x: x and x[0] == "attr" and x[2] == "suffix" and x[1] == fld("firmware_file")):
                    out.add(a[1])
    return out


def _now(t):
    return T.contains(t, lambda x: x and x[0] == "call" and isinstance(x[1], str) and (x[1].endswith("datetime.now") or x[1].endswith("local_now")))


def _rel(a, ts):
    """sign s with atom == pos(s*(now - ts)) or None"""
    if a[0] != "pos":
        return None
    p = T.to_poly(a[1])
    if len(p) != 2 or () in p:
        return None
    cs = cn = None
    for m, c in p.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        if m[0][0] == ts:
            cs = c
        elif _now(m[0][0]):
            cn = c
    if cs is None or cn is None or cs != -cn:
        return None
    return 1 if cn > 0 else -1


def not_past(facts, ts):
    for a, v in facts.items():
        s = _rel(a, ts)
        if (s == 1 and not v) or (s == -1 and v):
            return True
    return False


def past(facts, ts):
    for a, v in facts.items():
        s = _rel(a, ts)
        if (s == 1 and v) or (s == -1 and not v):
            return True
    return False


UNIQUE = [
    ("observer IDs", {("id",)}),
    ("IP-addresses", {("ip",)}),
    ("MAC-addresses", {("mac",)}),
    ("ethernet ports", {("eth_port",)}),
    ("capes", {("cape", "id")}),
    ("targets", {("target_a", "id"), ("target_b", "id")}),
]


def path_of(t, root):
    """attribute path below each(root)"""
    out = []
    while t[0] == "attr":
        out.append(t[2])
        t = t[1]
    if t[0] == "elem" and t[1] == root:
        return tuple(reversed(out))
    return None


@rule("M07", floor=14, technique="abstract interpretation with symbolic collections; duplicate-freeness established by a branch fact")
def testbed_unique(ctx):
    """On every path that accepts a testbed, a branch fact must establish that the collection of each identifying value
    over all observers (absent capes and targets being the only ones left out) has as many distinct entries as entries;
    the lookup must only return observers that are active, have an active cape and hold the active target, and must raise
    otherwise."""
    ci = ctx.cls("Testbed")
    root = fld("observers")
    acc = 0
    for m in M.validators(ci, "after"):
        it = ctx.interp((), star_facts=True)
        for o in returns(ctx.run(m, it=it, this=it.self_value(ci))):
            acc += 1
            proven = []
            for els, tot, tt, ss in M.uniq_proofs(o):
                if els is None:
                    continue
                paths, ok = {}, True
                for val, when in els:
                    p = path_of(val, root)
                    if p is None:
                        ok = False
                        continue
                    paths[p] = when
                whole = tot is not None and sorted(map(repr, tot)) == sorted(map(repr, els))
                direct = tt == root and all(not w for w in paths.values()) and len(paths) == 1
                if ok and (whole or direct):
                    proven.append(paths)
            for label, want in UNIQUE:
                hit = [p for p in proven if set(p) == want or set(p) >= want and len(p) == len(want)]
                good = any(all(only_absent(w, p, root) for p, w in h.items()) for h in hit)
                ctx.check(good, "M07-unique", label, f"a testbed with duplicate {label} can be accepted", m.loc)
    ctx.check(acc > 0, "M07-instance", "Testbed", "no accepting path")
    # lookup of an observer
    tid = ("param", "target_id")
    outs = ctx.run(f"{ci.qualname}.get_observer", names=(), keep=lambda a: any(x in repr(a) for x in ("active", "target_")))
    got = 0
    for o in returns(outs):
        got += 1
        obs = o.term
        if not ctx.check(obs == ("elem", root, 0) or (obs[0] == "elem" and obs[1] == root), "M07-lookup", "observer", f"returns {T.show(obs)[:80]}"):
            continue
        at = lambda *p: _path(obs, p)  # noqa: E731
        ctx.check(o.facts.get(("true", at("active"))) is True, "M07-lookup", "observer active", "a decommissioned observer can be returned")
        ctx.check(o.facts.get(("true", at("cape", "active"))) is True, "M07-lookup", "cape active", "an observer with decommissioned cape can be returned")
        okt = False
        for s in ("target_a", "target_b"):
            if has_id(o.facts, at(s, "id"), tid) and o.facts.get(("true", at(s, "active"))) is True:
                okt = True
        ctx.check(okt, "M07-lookup", "target present and active", "an observer without that (active) target can be returned")
    ctx.check(got > 0 and all(o.exc.name == "ValueError" for o in raises(outs)) and raises(outs), "M07-lookup", "unknown target", "unknown target is not refused with an error")
    # port and target queries of an observer
    ob = ctx.cls("Observer")
    for fn in ("get_target_port", "get_target"):
        for o in returns(ctx.run(f"{ob.qualname}.{fn}", names=(), keep=lambda a: "target_" in repr(a))):
            sides = {s for s in ("target_a", "target_b") if has_id(o.facts, fld(s, "id"), tid)}
            port = F._plain(o.term)
            for s in ("target_a", "target_b"):
                val = T.k(s[-1].upper()) if fn == "get_target_port" else fld(s)
                if port == val:
                    ctx.check(s in sides, "M07-port", f"{fn}/{s}", f"{fn} reports {s} for another target")
            ctx.check(port in {T.k("A"), T.k("B")} or o.term in {fld("target_a"), fld("target_b")}, "M07-port", fn, f"returns {T.show(o.term)[:60]}")
            ctx.check(any(s in sides and o.facts.get(("true", fld(s, "active"))) is True for s in ("target_a", "target_b")), "M07-port", f"{fn}/active", "answers for a target that is not there or not active")


def _path(t, p):
    for x in p:
        t = ("attr", t, x)
    return t


def has_id(facts, idt, tid):
    a, pol = F.cmp_atom("==", idt, tid)
    return facts.get(a) is pol


def only_absent(when, p, root):
    """the filter only leaves out absent (None) values"""
    el = None
    for a, v in when:
        if a[0] == "isnone" and v is False:
            q = a[1]
        elif a[0] == "true" and v is True:
            q = a[1]
        else:
            return False
        names = path_of(q, root)
        if names is None or names != p[: len(names)] or names == p:
            return False
        el = q
    return True or el


def _each(*path):
    """element of self.<p0>, then of its <p1>, ..."""
    t = ("self",)
    for p in path:
        t = ("elem", ("attr", t, p), 0)
    return t


def _is_each(t, *path):
    if not path:
        return t == ("self",)
    return t[0] == "elem" and t[1][0] == "attr" and t[1][2] == path[-1] and _is_each(t[1][1], *path[:-1])


def _new(t, cname):
    """keywords of a fresh instance term"""
    return dict(t[2]) if t[0] == "new" and t[1].split(".")[-1] == cname else None


def _whole_dup(o):
    """a raise because of a duplicate: the opposite of a uniqueness proof"""
    flip = {a: (not v if a[0] in {"pos", "zero"} else v) for a, v in o.facts.items()}

    class P:
        facts = flip

    if M.uniq_proofs(P):
        return True
    for a, v in o.facts.items():
        if a[0] == "in" and v and M.elements(a[2]) and any(e == a[1] for e, _ in M.elements(a[2])):
            return True
    return False


@rule("M06", floor=12, technique="abstract interpretation with symbolic collections; uniqueness and compatibility established by branch facts on every accepting path")
def experiment_valid(ctx):
    """Every path that accepts an experiment must have established: no target used twice, no two targets with the same
    final ID, no observer used twice.  Every path that accepts a target configuration must have established: usable
    environment, existing targets, firmware (given or default) built for the controller in that slot, enough custom IDs.
    Rejections need one of those reasons."""
    xp = ctx.cls("Experiment")
    cfg, tid = ("target_configs",), ("target_configs", "target_IDs")
    go = f"{ctx.cls('Testbed').qualname}.get_observer"
    ctx.func(go)
    acc = 0
    for m in M.validators(xp, "after"):
        it = ctx.interp({"construct"}, star_facts=True, opaque={go})
        outs = ctx.run(m, it=it, this=it.self_value(xp))
        for o in returns(outs):
            acc += 1
            good = {"target": False, "custom": False, "observer": False}
            for els, tot, _tt, _ss in M.uniq_proofs(o):
                if not els or not tot:
                    continue
                plain = lambda e: len(e) == 1 and _is_each(e[0][0], *tid) and not e[0][1]  # noqa: E731
                if plain(els) and plain(tot):
                    good["target"] = True
                whole = sorted(map(repr, els)) == sorted(map(repr, tot))
                if (plain(tot) or whole) and len(els) == 1 and not els[0][1]:
                    v = els[0][0]
                    if v[0] == "attr" and v[2] == "id" and v[1][0] == "call" and v[1][1] == go and any(_is_each(x, *tid) for x in v[1][2]) and any(_new(x, "Testbed") == {} for x in v[1][2]):
                        good["observer"] = True
                if plain(tot) or whole:
                    kinds = {final_id(v, when, whole) for v, when in els}
                    if kinds == {"custom", "testbed"}:
                        good["custom"] = True
            ctx.check(good["target"], "M06-unique", "targets", "an experiment using a target twice can be accepted", m.loc)
            ctx.check(good["custom"], "M06-unique", "final IDs", "an experiment with colliding (custom) IDs can be accepted", m.loc)
            ctx.check(good["observer"], "M06-unique", "observers", "an experiment using an observer twice can be accepted", m.loc)
            ctx.check(not any(a[0] == "broke" for a in o.facts), "M06-unique", "all configs visited", "part of the target configurations is not looked at", m.loc)
        for o in raises(outs):
            reason = _whole_dup(o) or any(a[0] == "pos" and v and T.contains(a[1], lambda x: x == fld("duration")) for a, v in o.facts.items())
            ctx.check(reason, "M06-only", "Experiment", "refuses without a documented reason: " + _facts(o), o.exc.loc or m.loc)
    ctx.check(acc > 0, "M06-instance", "Experiment", "no accepting path")

    tc = ctx.cls("TargetConfig")
    env, cust, tids = fld("energy_env", "valid"), fld("custom_IDs"), fld("target_IDs")
    keep = lambda a: a[0] in {"zero", "isnone", "pos", "broke", "true", "eq"}  # noqa: E731
    acc = 0
    for m in M.validators(tc, "after"):
        it = ctx.interp({"construct"}, keep=keep)
        outs = ctx.run(m, it=it, this=it.self_value(tc))
        for o in returns(outs):
            acc += 1
            ctx.check(o.facts.get(("true", env)) is True, "M06-config", "environment", "an invalid energy environment can be accepted", m.loc)
            tgt = [e for e in o.events if e.kind == "construct" and e.name.split(".")[-1] == "Target" and _is_each(dict(e.kws).get("id", ("k",)), "target_IDs")]
            ctx.check(tgt, "M06-config", "target exists", "targets are not looked up", m.loc)
            for n in ("1", "2"):
                ctx.check(fits(o, n), "M06-config", f"firmware{n}", f"firmware {n} for another controller can be accepted: " + _facts(o), m.loc)
            enough = o.facts.get(("isnone", cust)) is True or covers(o.facts, cust, tids)
            ctx.check(enough, "M06-config", "custom IDs", "fewer custom IDs than targets can be accepted", m.loc)
            ctx.check(not any(a[0] == "broke" for a in o.facts), "M06-config", "all targets visited", "part of the targets is not looked at", m.loc)
        for o in raises(outs):
            reason = o.facts.get(("true", env)) is False or misfit(o) or covers(o.facts, cust, tids, False)
            ctx.check(reason, "M06-only", "TargetConfig", "refuses without a documented reason: " + _facts(o), o.exc.loc or m.loc)
    ctx.check(acc > 0, "M06-instance", "TargetConfig", "no accepting path")

    # queries
    want = ("param", "target_id")
    some = 0
    for o in returns(ctx.run(f"{tc.qualname}.get_custom_id", names=(), keep=lambda a: True)):
        t = T.expand1(o.term) if o.term[0] == "vn" else o.term
        known = o.facts.get(("isnone", cust)) is False
        member = o.facts.get(("in", want, tids))
        if t == T.k(None):
            searched = any(a[0] in {"zero", "eq"} and not v and T.contains(a, lambda x: x == want) and T.contains(a, lambda x: x == ("elem", tids, 0)) for a, v in o.facts.items())
            ctx.check(o.facts.get(("isnone", cust)) is True or member is False or searched, "M06-query", "custom ID dropped", "no custom ID is reported although there is one: " + _facts(o))
            continue
        some += 1
        ok = known and member is True and t[0] == "item" and t[1] == cust and t[2] == ("mcall", tids, "index", (want,), ())
        ok = ok or paired(t, o.facts, want, cust, tids)
        ctx.check(ok, "M06-query", "custom ID of a target", f"reports {T.show(t)[:100]}")
    ctx.check(some > 0, "M06-query", "custom ID", "never reports a custom ID")
    outs = ctx.run(f"{xp.qualname}.get_target_config", names=(), keep=lambda a: True)
    for o in returns(outs):
        ok = _is_each(o.term, "target_configs") and o.facts.get(("in", want, ("attr", o.term, "target_IDs"))) is True
        ctx.check(ok, "M06-query", "config of a target", f"returns {T.show(o.term)[:80]} for another target")
    ctx.check(returns(outs) and raises(outs), "M06-query", "unknown target", "unknown target is not refused")
    o = returns(ctx.run(f"{xp.qualname}.get_target_ids", names=(), star_facts=True))
    ctx.check(len(o) >= 1 and all([(e, w)] == M.elements(x.term) and _is_each(e, *tid) and not w for x in o for e, w in (M.elements(x.term) or [(("k",), 1)])[:1]), "M06-query", "target IDs", "does not list exactly all target IDs")


def paired(t, facts, want, cust, tids):
    """(loop over both lists) the custom ID at the position where the target ID was found"""
    if t == ("item", ("call", "dict", (("zip", (tids, cust)),), ()), want):
        return True
    for a, v in facts.items():
        if a[0] in {"zero", "eq"} and v and T.contains(a, lambda x: x == want) and T.contains(a, lambda x: x == ("elem", tids, 0)):
            if t == ("elem", cust, 0) or (t[0] == "item" and t[1] == cust and t[2] == ("idx", tids, 0)):
                return True
    return False


def _facts(o):
    return ", ".join(f"{v} {T.show(a)[:80]}" for a, v in o.facts.items())[:400]


def final_id(v, when, whole):
    """kind of an element of the list of final IDs"""
    c = _each("target_configs")
    for a, x in when:
        if a[0] == "isnone" and a[1] == ("attr", c, "custom_IDs"):
            none = x
            break
    else:
        none = None
    others = [a for a, _ in when if not (a[0] == "isnone" and a[1] == ("attr", c, "custom_IDs"))]
    if others:
        return "?"
    if v[0] == "attr" and v[2] == "testbed_id":
        kw = _new(v[1], "Target")
        if kw is not None and set(kw) == {"id"} and _is_each(kw["id"], "target_configs", "target_IDs") and none is not False:
            return "testbed"
        return "?"
    if none is True:
        return "?"
    cust, tids = ("attr", c, "custom_IDs"), ("attr", c, "target_IDs")
    if v[0] == "elem":
        src = v[1]
        if src == cust:
            return "custom" if whole else "?"
        n = ("call", "len", (tids,), ())
        if src[0] == "item" and src[1] == cust and src[2][0] == "slice" and src[2][1] in {T.k(0), T.k(None)} and src[2][2] == n:
            return "custom"
    if v[0] == "item" and v[1] == cust and v[2] in {("mcall", tids, "index", (("elem", tids, 0),), ()), ("idx", tids, 0)}:
        return "custom"
    return "?"


def fits(o, n):
    fw = fld(f"firmware{n}")
    for a, v in o.facts.items():
        if v and a[0] == "isnone" and is_mcu(a[1], n):
            return True
        if v and a[0] in {"zero", "eq"}:
            for x, y in sides(a):
                if y[0] == "attr" and y[2] == "id" and is_mcu(y[1], n):
                    if x == ("attr", ("attr", fw, "mcu"), "id") and o.facts.get(("isnone", fw)) is not True:
                        return True
                    if default_fw(x, y[1]) and o.facts.get(("isnone", fw)) is True:
                        return True
    return False


def misfit(o):
    for a, v in o.facts.items():
        if not v and a[0] in {"zero", "eq"}:
            for x, y in sides(a):
                for n in "12":
                    if y[0] == "attr" and y[2] == "id" and is_mcu(y[1], n) and (x == ("attr", fld(f"firmware{n}", "mcu"), "id") or default_fw(x, y[1])):
                        return True
    return False


def sides(a):
    """both sides of an equality atom, in either order"""
    if a[0] == "eq":
        return [(a[1], a[2]), (a[2], a[1])]
    p = T.to_poly(a[1])
    ts = [(m[0][0], c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1]
    if len(p) == 2 and len(ts) == 2 and ts[0][1] == -ts[1][1]:
        return [(ts[0][0], ts[1][0]), (ts[1][0], ts[0][0])]
    return []


def is_mcu(t, n):
    if t[0] == "attr" and t[2] == f"mcu{n}":
        kw = _new(t[1], "Target")
        return kw is not None and _is_each(kw.get("id", ("k",)), "target_IDs")
    return False


def default_fw(x, mcu):
    if x[0] == "attr" and x[2] == "id" and x[1][0] == "attr" and x[1][2] == "mcu":
        kw = _new(x[1][1], "Firmware")
        return kw == {"name": ("attr", mcu, "fw_name_default")}
    return False


def covers(facts, cust, tids, good=True):
    """number of custom IDs compared with the number of targets"""
    for a, v in facts.items():
        if a[0] != "pos":
            continue
        cc = ct = None
        for m, c in T.to_poly(a[1]).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "call" and m[0][0][1] == "len":
                x = m[0][0][2][0]
                x = x[2][0] if x[0] == "call" and x[1] == "set" else x
                if x == cust:
                    cc = c
                elif x == tids:
                    ct = c
        if cc is None or ct is None or cc != -ct:
            continue
        # ct > 0: fewer custom IDs than targets
        if good and ((ct > 0 and not v) or (cc > 0 and v)):
            return True
        if not good and ((ct > 0 and v) or (cc > 0 and not v)):
            return True
    return False
