"""Tasks derived from an experiment (T01), task files and their order (T02), value ranges (T03)."""

import ast
import copy

from .. import facts as F
from .. import models as M
from .. import terms as T
from ..ctx import raises, returns
from ..models import fld
from ..prog import AnalysisError
from ..schema import FieldSchema, _walk, field_schema, model_fields, validators
from . import rule

DMQ = "shepherd_core.data_models"
QUERIES = {
    f"{DMQ}.testbed.testbed.Testbed.get_observer",
    f"{DMQ}.experiment.experiment.Experiment.get_target_config",
    f"{DMQ}.testbed.observer.Observer.get_target_port",
    f"{DMQ}.testbed.observer.Observer.get_target",
    f"{DMQ}.experiment.target_config.TargetConfig.get_custom_id",
}
COPIES = {"copy.copy", "copy.deepcopy"}


def strip(t):
    """copies are as good as the original"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "vn" and len(t) == 2:
        t = T.expand1(t)
    if t[0] == "call" and t[1] in COPIES and len(t[2]) == 1:
        return strip(t[2][0])
    if t[0] == "mcall" and t[2] in {"copy", "model_copy"} and not t[3] and not t[4]:
        return strip(t[1])
    return tuple(strip(x) if isinstance(x, tuple) else x for x in t)


def call_args(prog, t):
    """parameter name -> term, for a call of a repo function"""
    fi = prog.func(t[1])
    names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
    out = dict(zip(names, t[2]))
    for kv in t[3] if len(t) > 3 else ():
        out[kv[0]] = kv[1]
    return out


class Q:
    """Recognises the queries an expectation refers to."""

    def __init__(self, ctx, xp, tb, tid):
        self.prog, self.xp, self.tb, self.tid = ctx.prog, xp, tb, tid

    def _is(q, t, name, /, **want):
        if t[0] != "call" or t[1] not in QUERIES or t[1].split(".")[-1] != name:
            return False
        got = call_args(q.prog, t)
        return all(w(got.get(p)) if callable(w) else got.get(p) == w for p, w in want.items())

    def obs(self, t):
        return t is not None and self._is(t, "get_observer", self=self.tb, target_id=self.tid)

    def cfg(self, t):
        return t is not None and self._is(t, "get_target_config", self=self.xp, target_id=self.tid)

    def port(self, t):
        return t is not None and self._is(t, "get_target_port", self=self.obs, target_id=self.tid)

    def target(self, t):
        return t is not None and self._is(t, "get_target", self=self.obs, target_id=self.tid)

    def custom(self, t):
        return t is not None and self._is(t, "get_custom_id", self=self.cfg, target_id=self.tid)

    def path(self, t, root, *names):
        for n in reversed(names):
            if t is None or t[0] != "attr" or t[2] != n:
                return False
            t = t[1]
        return root(t) if callable(root) else t == root


def _kw(t, cname):
    return dict(t[2]) if t is not None and t[0] == "new" and t[1].split(".")[-1] == cname else None


def _dir_of(t):
    return (t[1], t[2]) if t[0] == "pathjoin" else (None, None)


def _isnone(facts, pred):
    """truth of 'x is None' for the term satisfying pred, from the branch facts"""
    for a, v in facts.items():
        if a[0] == "isnone" and pred(strip(a[1])):
            return v
    return None


@rule("T01", floor=30, technique="abstract interpretation with all task constructors inlined; term-level agreement of every task field with its source in the experiment")
def experiment_to_tasks(ctx):
    """ObserverTasks.from_xp is analysed with every task constructor inlined and the experiment / testbed symbolic; each
    field of each created task must be the term of its source.  Which optional parts exist is judged per path."""
    prog = ctx.prog
    for q in QUERIES:
        ctx.func(q)
    xp, tb, tid = ("param", "xp"), ("param", "tb"), ("param", "tgt_id")
    q = Q(ctx, xp, tb, tid)
    fi = ctx.func(f"{ctx.cls('ObserverTasks').qualname}.from_xp")
    names = [a.arg for a in fi.node.args.args]
    ctx.check(names[1:4] == ["xp", "tb", "tgt_id"], "T01-instance", "ObserverTasks.from_xp", f"parameters {names}")
    it = ctx.interp((), opaque=QUERIES, keep=lambda a: a[0] in {"isnone", "isinst", "true"})
    outs = returns(ctx.run(fi, it=it))
    ctx.check(len(outs) >= 4, "T01-instance", "paths", f"{len(outs)} paths")
    combos = set()
    for o in outs:
        obs = _kw(strip(o.term), "ObserverTasks")
        if not ctx.check(obs is not None, "T01-instance", "ObserverTasks", f"returns {T.show(o.term)[:80]}"):
            continue
        fact = lambda *p: _isnone(o.facts, lambda t: q.path(t, q.cfg, *p))  # noqa: E731, B023
        # observer wide
        eq(ctx, "ObserverTasks", obs, "observer", lambda t: q.path(t, q.obs, "name"))
        eq(ctx, "ObserverTasks", obs, "owner_id", lambda t: q.path(t, xp, "owner_id"))
        eq(ctx, "ObserverTasks", obs, "abort_on_error", lambda t: q.path(t, xp, "abort_on_error"))
        start = ("attr", xp, "time_start")
        given = None
        for a, v in o.facts.items():
            if a[0] == "isinst" and a[1] == start:
                given = v
            elif a[0] == "isnone" and a[1] == start:
                given = not v
        prep = ("attr", tb, "prep_duration")
        if given is not False:
            eq(ctx, "ObserverTasks", obs, "time_prep", lambda t: T.sub(start, prep) == t)
        else:
            p = T.to_poly(obs.get("time_prep", T.k(None)))
            ctx.check(p.get(((prep, 1),)) == -1, "T01-field", "ObserverTasks.time_prep", "preparation time is not the start minus the preparation duration")
        root = obs.get("root_path")
        up, _ = _dir_of(root or ("k",))
        ctx.check(root is not None and T.contains(root, lambda x: x == ("attr", xp, "name")), "T01-field", "ObserverTasks.root_path", "experiments share a directory: the name is missing")
        ctx.check(up is not None and (up == ("attr", tb, "data_on_observer") or T.contains(up, lambda x: x == ("attr", tb, "data_on_observer"))), "T01-field", "ObserverTasks.root_path", "not inside the data directory of the observer")
        # emulation
        e = _kw(obs.get("emulation"), "EmulationTask")
        if ctx.check(e is not None, "T01-field", "ObserverTasks.emulation", "no emulation task"):
            cls = "EmulationTask"
            eq(ctx, cls, e, "input_path", lambda t: q.path(t, q.cfg, "energy_env", "data_path"))
            up, leaf = _dir_of(e.get("output_path", ("k",)))
            ctx.check(up == root and leaf is not None and T.contains(leaf, lambda x: x[0] == "attr" and x[2] == "name" and q.obs(x[1])), "T01-field", "EmulationTask.output_path", f"output is not a file of that observer in the experiment directory: {T.show(e.get('output_path', ('k', 'num', 0)))[:120]}")
            for f in ("time_start", "duration", "abort_on_error", "sys_logging"):
                eq(ctx, cls, e, f, lambda t, f=f: q.path(t, xp, f))
            for f in ("virtual_source", "power_tracing", "gpio_tracing", "gpio_actuation"):
                eq(ctx, cls, e, f, lambda t, f=f: q.path(t, q.cfg, f))
            for f in ("io_port", "pwr_port"):
                eq(ctx, cls, e, f, q.port)
        # firmwares
        files = {}
        for n in ("1", "2"):
            absent = fact(f"firmware{n}") if n == "2" else False
            m, p = obs.get(f"fw{n}_mod"), obs.get(f"fw{n}_prog")
            mk, pk = _kw(m, "FirmwareModTask"), _kw(p, "ProgrammingTask")
            combos.add((n, absent))
            if absent is True:
                ctx.check(m in {None, T.k(None)} and p in {None, T.k(None)}, "T01-optional", f"fw{n}", "firmware tasks without firmware")
                continue
            if not ctx.check(mk is not None and pk is not None, "T01-optional", f"fw{n}", f"firmware {n} is not modified and programmed: {T.show(m or T.k(None))[:60]} / {T.show(p or T.k(None))[:60]}"):
                continue
            fw = (q.cfg, f"firmware{n}")
            eq(ctx, "FirmwareModTask", mk, "data", lambda t, fw=fw: q.path(t, *fw, "data"), n)
            eq(ctx, "FirmwareModTask", mk, "data_type", lambda t, fw=fw: q.path(t, *fw, "data_type"), n)
            own = _isnone(o.facts, q.custom)
            eq(ctx, "FirmwareModTask", mk, "custom_id", q.custom if own is False else (lambda t: q.path(t, q.target, "testbed_id")) if own is True else (lambda t: False), n)
            eq(ctx, "ProgrammingTask", pk, "target_port", q.port, n)
            eq(ctx, "ProgrammingTask", pk, "mcu_port", lambda t, n=n: F._plain(t) == T.k(int(n)), n)
            eq(ctx, "ProgrammingTask", pk, "mcu_type", lambda t, fw=fw: q.path(t, *fw, "mcu", "name"), n)
            for f, src in (("voltage", "prog_voltage"), ("datarate", "prog_datarate"), ("protocol", "prog_protocol")):
                eq(ctx, "ProgrammingTask", pk, f, lambda t, fw=fw, src=src: q.path(t, *fw, "mcu", src), n)
            files[n] = mk.get("firmware_file")
            ctx.check(files[n] == pk.get("firmware_file"), "T01-field", f"fw{n} file", "the programmed file is not the modified firmware")
            up, leaf = _dir_of(files[n] or ("k",))
            ctx.check(up == root and leaf is not None and T.contains(leaf, lambda x: x[0] == "attr" and x[2] == "name" and q.obs(x[1])), "T01-field", f"fw{n} file", "firmware file is not specific to observer and experiment")
        ctx.check(len(files) < 2 or files["1"] != files["2"], "T01-field", "firmware files", "both firmwares are written to the same file")
    ctx.check({("2", True), ("2", False)} <= combos, "T01-instance", "optional firmware", f"{combos}")
    # IO level converter: on exactly when pins are used
    for trace in (True, False):
        for act in (True, False):
            it = ctx.interp((), opaque=QUERIES)
            cfg = ("call", f"{DMQ}.experiment.experiment.Experiment.get_target_config", (xp, tid), ())
            facts = {("isnone", ("attr", cfg, "gpio_tracing")): not trace, ("isnone", ("attr", cfg, "gpio_actuation")): not act}
            for o in returns(ctx.run(f"{ctx.cls('EmulationTask').qualname}.from_xp", it=it, facts=facts)):
                e = _kw(strip(o.term), "EmulationTask") or {}
                val = truth(o.facts, e.get("enable_io"))
                ctx.check(val is (trace or act), "T01-io", f"tracing={trace} actuation={act}", f"IO is switched to {val}")
    # the testbed wide set
    tt = ctx.cls("TestbedTasks")
    oq = f"{ctx.cls('ObserverTasks').qualname}.from_xp"
    it = ctx.interp((), opaque={oq}, star_facts=True, keep=lambda a: a[0] == "isnone")
    for o in returns(ctx.run(f"{tt.qualname}.from_xp", it=it)):
        kw = _kw(strip(o.term), "TestbedTasks") or {}
        for f in ("name", "email_results", "owner_id"):
            eq(ctx, "TestbedTasks", kw, f, lambda t, f=f: q.path(t, xp, f))
        els = M.elements(kw.get("observer_tasks", ("k",)))
        ok = False
        if els and len(els) == 1 and not els[0][1] and els[0][0][0] == "call" and els[0][0][1] == oq:
            a = call_args(prog, els[0][0])
            ids = ("elem", ("attr", ("elem", ("attr", xp, "target_configs"), 0), "target_IDs"), 0)
            used = a.get("tb")
            none = o.facts.get(("isnone", tb))
            tb_ok = used == tb and none is False or _kw(used, "Testbed") == {} and none is True
            ok = a.get("xp") == xp and a.get("tgt_id") == ids and tb_ok
        ctx.check(ok, "T01-field", "TestbedTasks.observer_tasks", f"not one task set for each target: {T.show(kw.get('observer_tasks', T.k(None)))[:160]}")
    ob = ctx.cls("ObserverTasks")
    for o in returns(ctx.run(f"{ob.qualname}.get_output_paths", names=(), keep=lambda a: True)):
        emu = o.facts.get(("isinst", fld("emulation"), ctx.cls("EmulationTask").qualname))
        if emu is None:
            emu = _not(o.facts.get(("isnone", fld("emulation"))))
        want = ((fld("observer"), fld("emulation", "output_path")),)
        ctx.check(o.term == ("dict", want) if emu is not False else o.term == ("dict", ()), "T01-query", "output path", f"reports {T.show(o.term)[:100]}")


def _not(v):
    return None if v is None else not v


def truth(facts, t):
    if t is None:
        return None
    t = F._plain(t)
    if T.is_k(t):
        return bool(t[2])
    a, p = F.truth_atom(t)
    if isinstance(a, bool):
        return a == p
    d = F.decide(facts, a)
    return None if d is None else d == p


def eq(ctx, cls, kw, field, pred, n=""):
    t = kw.get(field)
    ctx.check(t is not None and pred(t), "T01-field", f"{cls}{n}.{field}", f"{field} is {T.show(t)[:140] if t is not None else 'not set'}")


def task_models(ctx):
    """the concrete task and task-set models"""
    return [c for c in ctx.prog.models() if c.module.name.startswith(f"{DMQ}.task.") and c.is_subclass_of(ctx.cls("ShpModel").qualname)]


def _tasks_before(names, kind, i):
    return [n for n in names[:i] if kind in n]


@rule("T02", floor=20, technique="path-sensitive abstract interpretation; case analysis over all task models, order of symbolic list entries")
def task_files(ctx):
    """extract_tasks is analysed once per task model found in the package (datatype assumed), prepare_task once per kind
    of input; get_tasks must list every present task, modification before programming before emulation."""
    prog = ctx.prog
    ex = ctx.func(f"{DMQ}.task.extract_tasks")
    gt = f"{ctx.cls('ObserverTasks').qualname}.get_tasks"
    ctx.func(gt)
    models = task_models(ctx)
    ctx.check(len(models) >= 6, "T02-instance", "task models", f"{len(models)} found")
    dt, pars = ("attr", ("param", "shp_wrap"), "datatype"), ("attr", ("param", "shp_wrap"), "parameters")
    rest = {}
    for ci in models:
        a, pol = F.cmp_atom("==", dt, T.k(ci.name))
        rest[a] = not pol
        for sets in (True, False):
            outs = ctx.run(ex, names=(), opaque={gt}, facts={a: pol, ("true", ("param", "no_task_sets")): sets})
            if ci.name == "TestbedTasks" and sets:
                ctx.check(not returns(outs), "T02-extract", "task set refused", "a set for several observers is extracted although not allowed")
                continue
            ctx.check(returns(outs) and not raises(outs), "T02-extract", ci.name, f"{ci.name} can not be extracted")
            for o in returns(outs):
                ok = False
                if ci.name == "ObserverTasks":
                    ok = o.term[0] == "call" and o.term[1] == gt and _from_dict(o.term[2][0], ci, pars)
                else:
                    els = M.elements(o.term)
                    ok = o.term[0] == "list" and els is not None and len(els) == 1 and not els[0][1] and _from_dict(els[0][0], ci, pars)
                ctx.check(ok, "T02-extract", ci.name, f"yields {T.show(o.term)[:120]}")
    dflt = dict(zip([a.arg for a in ex.node.args.kwonlyargs], ex.node.args.kw_defaults))
    pos = [a.arg for a in ex.node.args.args]
    dflt.update(zip(pos[len(pos) - len(ex.node.args.defaults):], ex.node.args.defaults))
    d = dflt.get("no_task_sets")
    ctx.check(d is None or (isinstance(d, ast.Constant) and bool(d.value)), "T02-extract", "default", "sets for several observers are extracted without being asked for")
    outs = ctx.run(ex, names=(), opaque={gt}, facts=rest)
    ctx.check(not returns(outs) and raises(outs), "T02-extract", "unknown type", "content of an unknown type is accepted")
    # order of the tasks of one observer
    ob = ctx.cls("ObserverTasks")
    parts = [n for n, fs in model_fields(prog, ob).items() if fs is not None and fs.base and _task_type(fs.base, models)]
    ctx.check(len(parts) >= 5, "T02-instance", "tasks of an observer", f"{parts}")
    seen = 0
    for o in returns(ctx.run(gt, names=(), keep=lambda a: True)):
        seen += 1
        if not ctx.check(o.term[0] == "list" and not any(x[0] in {"star", "unknown"} for x in o.term[1]), "T02-order", "list", f"tasks are {T.show(o.term)[:100]}"):
            continue
        got = [x[2] if x[0] == "attr" and x[1] == ("self",) else "?" for x in o.term[1]]
        for p in parts:
            absent = o.facts.get(("isnone", fld(p)))
            ctx.check(got.count(p) == (0 if absent is True else 1), "T02-order", f"{p} listed", f"present tasks {got}: {p} is " + ("absent" if absent else "present"))
        kinds = [_kind(prog, ob, g) for g in got]
        rank = {"FirmwareModTask": 0, "ProgrammingTask": 1, "EmulationTask": 2}
        order = [rank.get(k_, 9) for k_ in kinds]
        ctx.check("?" not in got and order == sorted(order), "T02-order", "order", f"order of tasks is {got}")
    ctx.check(seen >= 8, "T02-instance", "get_tasks", f"{seen} paths")
    # loading
    pt = ctx.func(f"{DMQ}.task.prepare_task")
    go = f"{ctx.cls('TestbedTasks').qualname}.get_observer_tasks"
    ctx.func(go)
    cfg, who = ("param", "config"), ("param", "observer")
    # queries
    oth = fld("observer_tasks")
    want = ("param", "observer")
    found = returns(ctx.run(f"{go}", names=(), keep=lambda a: True))
    ctx.check(any(o.term == ("elem", oth, 0) for o in found), "T02-query", "observer tasks", "no tasks are ever found for an observer")
    for o in found:
        same, _ = F.cmp_atom("==", want, ("attr", ("elem", oth, 0), "observer"))
        if o.term == T.k(None):
            ctx.check(o.facts.get(same) is not True, "T02-query", "observer tasks", "tasks of an observer are not found")
        else:
            ctx.check(o.term == ("elem", oth, 0) and o.facts.get(same) is True, "T02-query", "observer tasks", "tasks of another observer are returned")
    tt = ctx.cls("TestbedTasks").name
    from ..values import S

    shp = ctx.cls("ShpModel")
    for label, ty in (("path", ("ext", "pathlib.Path")), ("name", ("ext", "str")), ("model", ("cls", shp)), ("other", ("ext", "int"))):
        it = ctx.interp((), opaque={go}, keep=lambda a: True)
        outs = ctx.run(pt, it=it, args={"config": S(cfg, ty)}, facts={("isinst", cfg, shp.qualname): True} if label == "model" else {("isinst", cfg, shp.qualname): False})
        if label in {"model", "other"}:
            outs = [o for o in outs if o.facts.get(("isinst", cfg, "str")) is not True and o.facts.get(("isinst", cfg, "pathlib.Path")) is not True]
        if label == "other":
            ctx.check(not returns(outs), "T02-load", "neither path nor model", "something else than a path or model is accepted")
            continue
        some = set()
        for o in returns(outs):
            w = wrapped(ctx, o.term, cfg, label)
            if w is not None:
                some.add("as is")
                # passed on as it is: no set, or nobody asked for a single observer
                a, pol = F.cmp_atom("==", w, T.k(tt))
                whole = o.facts.get(("isnone", who)) is True
                a_no = any(_kind_no(o.facts, w, tt))
                ctx.check(whole or a_no, "T02-load", f"{label}: set for one observer", "the set of all observers is returned although one observer was given: " + ", ".join(f"{v} {T.show(x)[:70]}" for x, v in o.facts.items())[:300])
                continue
            kw = _kw(strip(o.term), "Wrapper") or {}
            some.add("single")
            src = None
            p = kw.get("parameters", ("k",))
            if p[0] == "mcall" and p[2] == "model_dump" and not p[3] and not p[4]:
                src = p[1]
            ok = False
            if src is not None and src[0] == "call" and src[1] == go:
                ca = call_args(prog, src)
                tb = _kw(ca.get("self", ("k",)), tt)
                ok = ca.get("observer") == who and tb is not None and set(tb) == {"*"} and kw.get("datatype") in {T.k("ObserverTasks"), ("attr", ("type", src), "__name__")}
            ctx.check(ok, "T02-load", f"{label}: set for one observer", f"yields {T.show(o.term)[:160]}")
            ctx.check(any(a[0] == "isnone" and a[1] == src and v is False for a, v in o.facts.items()) , "T02-load", f"{label}: unknown observer", "a missing task set for the observer is not reported")
        for o in outs:
            kw = _kw(strip(o.term), "Wrapper") if o in returns(outs) else None
            if o in returns(outs) and wrapped(ctx, o.term, cfg, label) is not None:
                continue
            one = any(a[0] == "eq" and v is True and F._plain(a[2]) == T.k(tt) for a, v in o.facts.items())
            asked = o.facts.get(("isnone", who)) is False
            ctx.check(one and asked, "T02-load", f"{label}: other content", ("is refused" if kw is None else "is replaced") + " although it is no set, or no single observer was asked for")
        ctx.check(some == {"as is", "single"}, "T02-instance", f"load {label}", f"{some}")


def _kind_no(facts, dtterm, name):
    for a, v in facts.items():
        if a[0] == "eq" and v is False and F._plain(a[2]) == T.k(name) and a[1] == dtterm:
            yield True
        if a[0] == "eq" and v is True and a[1] == dtterm and F._plain(a[2]) != T.k(name):
            yield True


def wrapped(ctx, t, cfg, label):
    """datatype term when t is the wrapped input itself"""
    kw = _kw(strip(t), "Wrapper")
    if kw is None:
        return None
    if label == "model":
        if kw.get("datatype") == ("attr", ("type", cfg), "__name__") and kw.get("parameters", ("k",))[:3] == ("mcall", cfg, "model_dump") and not kw["parameters"][3] and not kw["parameters"][4]:
            return kw["datatype"]
        return None
    if set(kw) == {"*"}:
        d = kw["*"]
        if d[0] == "call" and d[1] == "yaml.safe_load" and T.contains(d, lambda x: x == cfg):
            return ("attr", strip(t), "datatype")
    return None


def _task_type(ty, models):
    if ty[0] == "union":
        return any(_task_type(x, models) for x in ty[1])
    return ty[0] == "cls" and ty[1] in models


def _kind(prog, ci, field):
    fs = field_schema(prog, ci, field)
    if fs is None:
        return "?"
    opts = fs.base[1] if fs.base[0] == "union" else [fs.base]
    return next((x[1].name for x in opts if x[0] == "cls"), "?")


def _from_dict(t, ci, pars):
    kw = dict(t[2]) if t[0] == "new" and t[1] == ci.qualname else None
    return kw == {"*": pars}


class Source:
    """The declared schema behind a term: a chain of model fields, a query with a declared result, or a constant."""

    def __init__(self, ctx, roots):
        self.ctx, self.prog, self.roots = ctx, ctx.prog, roots

    def cls_of(self, t):
        if t in self.roots:
            return self.roots[t]
        if t[0] == "call":
            fi = _func(self.prog, t[1])
            if fi is None or fi.node.returns is None:
                return None
            return _one_class(self.prog.type_of(fi.module, fi.node.returns))
        fs = self.schema(t)
        return _one_class(fs.base) if fs is not None else None

    def schema(self, t):
        if t[0] == "attr":
            ci = self.cls_of(t[1])
            return None if ci is None or t[2] not in ci.all_fields() else field_schema(self.prog, ci, t[2])
        if t[0] == "call":
            fi = _func(self.prog, t[1])
            if fi is None or fi.node.returns is None:
                return None
            fs = FieldSchema("result")
            fs.base = self.prog.type_of(fi.module, fi.node.returns)
            _walk(self.prog, fi.module, fi.node.returns, fs)
            more = self._results(t, fi)
            if len(more) == 1:  # the one thing it hands out
                more[0].optional = more[0].optional or fs.optional
                return more[0]
            return fs
        if t[0] in {"item", "get", "elem"}:
            coll = self.schema(t[1])
            return None if coll is None else coll.items
        return None

    def _results(self, t, fi):
        """schemas of what a query can hand out (None aside)"""
        recv = dict(zip([a.arg for a in fi.node.args.args], t[2])).get("self")
        ci = None if recv is None else self.cls_of(recv)
        if ci is None:
            return []
        it = self.ctx.interp(())
        sub = Source(self.ctx, {("self",): ci})
        out = []
        for o in returns(self.ctx.run(fi, it=it, this=it.self_value(ci))):
            if F._plain(o.term) == T.k(None):
                continue
            s = sub.schema(strip(o.term))
            if s is None:
                return []
            if s not in out:
                out.append(copy.copy(s))
        first = [x for i, x in enumerate(out) if not any(x.__dict__ == y.__dict__ for y in out[:i])]
        return first


def _func(prog, qual):
    try:
        return prog.func(qual)
    except AnalysisError:
        return None


def _one_class(t):
    if t is None:
        return None
    if t[0] == "cls":
        return t[1]
    if t[0] == "union":
        cs = [x for x in t[1] if x != ("none",)]
        return cs[0][1] if len(cs) == 1 and cs[0] and cs[0][0] == "cls" else None
    return None


def _types(t):
    """alternatives of a declared type, without None"""
    if t is None:
        return None
    return [x for x in (t[1] if t[0] == "union" else (t,)) if x != ("none",)]


WIDER = {("builtins.int", "builtins.float"), ("int", "float"), ("bool", "int"), ("builtins.bool", "builtins.int")}


def _fits(src, dst):
    """may every value of one declared type be given where the other one is declared?"""
    a, b = _types(src), _types(dst)
    if a is None or b is None or None in a or None in b:
        return True
    for x in a:
        if not any(_fit1(x, y) for y in b):
            return False
    return True


def _fit1(x, y):
    if x == y:
        return True
    if x[0] == "cls" and y[0] == "cls":
        return x[1].is_subclass_of(y[1].qualname)
    if x[0] == "cls":  # a str-enum is a text
        return x[1].is_enum and any(getattr(m, "qualname", m) in {"str", "builtins.str"} for m in x[1].mro()) and y[1].split(".")[-1] == "str"
    if y[0] == "cls":
        return False
    if x[0] in {"list", "dict", "tuple"} or y[0] in {"list", "dict", "tuple"}:
        return x[0] == y[0] and (x[0] != "list" or _fits(x[1], y[1]))
    return (x[1], y[1]) in WIDER


def misfit(src, dst, present):
    """why a value valid for one field may be refused by the other; '' when it never is"""
    if not _fits(src.base, dst.base):
        return "its type differs"
    if src.optional and not dst.optional and not present:
        return "it may be missing, which is refused"
    for a in src.alts:
        whys = [misfit(a, d, True) for d in dst.alts or [dst]]
        if all(whys):
            return whys[0]
    if src.alts:
        return ""
    if dst.alts:
        whys = [misfit(src, d, True) for d in dst.alts]
        return whys[0] if all(whys) else ""
    (slo, slop, shi, shop), (dlo, dlop, dhi, dhop) = src.range(), dst.range()
    if dlo is not None and (slo is None or slo < dlo or (slo == dlo and dlop and not slop)):
        return f"it may be as low as {show(slo)}, limit {show(dlo)}"
    if dhi is not None and (shi is None or shi > dhi or (shi == dhi and dhop and not shop)):
        return f"it may be as high as {show(shi)}, limit {show(dhi)}{' (excluded)' if dhop else ''}"
    lo, hi = dst.cons.get("min_length"), dst.cons.get("max_length")
    if lo and (src.cons.get("min_length") or 0) < lo:
        return f"it may be shorter than {lo}"
    if hi is not None and (src.cons.get("max_length") is None or src.cons["max_length"] > hi):
        return f"it may be longer than {hi}"
    pat = dst.cons.get("pattern")
    if pat is not None and src.cons.get("pattern") != pat:
        return "its pattern is not the one that is asked for"
    mult = dst.cons.get("multiple_of")
    if mult and (not src.cons.get("multiple_of") or src.cons["multiple_of"] % mult):
        return f"it need not be a multiple of {mult}"
    if dst.items is not None:
        if src.items is None:
            return "it is no list"
        return misfit(src.items, dst.items, True)
    return ""


def show(x):
    return "unlimited" if x is None else str(float(x))


@rule("T03", floor=25, technique="abstract interpretation of the task construction; inclusion of the declared value ranges of every source field in those of the task field it fills")
def values_fit(ctx):
    """Every value an experiment (or the testbed) may hold in a field that is handed to a task must be allowed there:
    otherwise a valid experiment cannot be expressed by its tasks.  The sources come from the analysis of the real
    construction, the ranges from the declared fields."""
    prog = ctx.prog
    xp, tb, tid = ("param", "xp"), ("param", "tb"), ("param", "tgt_id")
    src = Source(ctx, {xp: ctx.cls("Experiment"), tb: ctx.cls("Testbed")})
    for qn in QUERIES:
        ctx.func(qn)
    seen, done = set(), set()
    runs = [("ObserverTasks", QUERIES), ("TestbedTasks", QUERIES | {f"{ctx.cls('ObserverTasks').qualname}.from_xp"})]
    for name, opaque in runs:
        it = ctx.interp((), opaque=opaque, keep=lambda a: a[0] in {"isnone", "isinst", "true"})
        for o in returns(ctx.run(f"{ctx.cls(name).qualname}.from_xp", it=it)):
            for t in T.subterms(strip(o.term)):
                if t[:1] != ("new",) or not t[1].startswith(f"{DMQ}.task."):
                    continue
                ci = prog.cls(t[1].split(".")[-1])
                if ci.name not in {"ObserverTasks", "TestbedTasks", "EmulationTask", "FirmwareModTask", "ProgrammingTask"}:
                    continue
                seen.add(ci.name)
                for f, v in t[2]:
                    dst = field_schema(prog, ci, f)
                    if dst is None:
                        continue
                    v = strip(v)
                    key = (ci.name, f, v, o.facts.get(("isnone", v)))
                    if key in done:
                        continue
                    done.add(key)
                    pv = F._plain(v)
                    if T.is_k(pv):
                        lo, lop, hi, hop = dst.range()
                        x = pv[2]
                        if x is None:
                            ctx.check(dst.optional, "T03-range", f"{ci.name}.{f}", "nothing is given where a value is needed")
                        elif isinstance(x, (int, float)) and not isinstance(x, bool):
                            x = T.frac(x)
                            ok = (lo is None or x > lo or (x == lo and not lop)) and (hi is None or x < hi or (x == hi and not hop))
                            ctx.check(ok, "T03-range", f"{ci.name}.{f}", f"the constant {x} is refused")
                        continue
                    s = src.schema(v)
                    if s is None:
                        continue
                    present = o.facts.get(("isnone", v)) is False
                    why = misfit(s, dst, present)
                    ctx.check(not why, "T03-range", f"{ci.name}.{f}", f"a valid experiment may be refused, {T.show(v)[-80:]}: {why}")
    ctx.check({"ObserverTasks", "TestbedTasks", "EmulationTask", "FirmwareModTask", "ProgrammingTask"} <= seen, "T03-instance", "tasks", f"{sorted(seen)}")


DT = "datetime.datetime"
START = "time_start"


def _given(t, root):
    """values["x"], values.get("x"), also of copies -> name"""
    t = strip(t)
    if t[0] in {"item", "get"} and t[1] == root and T.is_k(t[2]):
        return t[2][2]
    if t[0] == "mcall" and t[2] in {"get", "pop"} and t[1] == root and t[3] and T.is_k(t[3][0]):
        return t[3][0][2]
    return None


class When:
    """instant and zone of a time expression"""

    def __init__(self, root, facts):
        self.root = root
        self.facts = [(self.plain(a), v) for a, v in facts.items()]

    def plain(self, t):
        """the given start time becomes one name"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] in {"item", "get", "mcall"} and _given(t, self.root) == START:
            return ("V",)
        return tuple(self.plain(x) if isinstance(x, tuple) else x for x in t)

    def known(self, kind, t, *rest):
        for a, v in self.facts:
            if a[:2] == (kind, t) and (not rest or any(a[2] == r or str(a[2]).split(".")[-1] == r for r in rest)):
                return v
        return None

    def instant(self, t):
        while t[0] == "mcall" and t[2] == "astimezone":
            t = t[1]
        if t[0] == "call" and t[1].split(".")[-1] in {"fromtimestamp", "fromisoformat"} and t[2]:
            return (t[1].split(".")[-1], t[2][0])
        return ("same", t)

    def aware(self, t):
        if t[0] == "mcall" and t[2] == "astimezone":
            return True
        if t[0] == "call" and t[1].split(".")[-1] == "fromtimestamp":
            tz = t[2][1] if len(t[2]) > 1 else dict(t[3]).get("tz")
            return tz is not None and tz != T.k(None)
        v = self.known("isnone", ("attr", t, "tzinfo"))
        return None if v is None else not v

    def impossible(self):
        for a, v in self.facts:
            if a[0] == "isinst" and a[1][0] == "call" and a[1][1].split(".")[-1] in {"fromtimestamp", "fromisoformat"}:
                if v is not (str(a[2]).split(".")[-1] in {"datetime", "date", "object"}):
                    return True
            if a[0] == "isnone" and a[1][0] == "attr" and a[1][2] == "tzinfo" and a[1][1] != ("V",):
                known = When.aware(_Blank(), a[1][1])
                if known is not None and known is v:
                    return True
        return False

    def kinds(self):
        """what the given value can be on this path"""
        if self.known("isnone", ("V",)) is True:
            return ["none"]
        out = []
        num = [self.known("isinst", ("V",), n) for n in ("int", "float")]
        text, date = self.known("isinst", ("V",), "str"), self.known("isinst", ("V",), "datetime")
        if True in num:
            out = ["number"]
        elif text is True:
            out = ["text"]
        elif date is True:
            out = ["date"]
        else:
            if num != [False, False]:
                out.append("number")
            if text is not False:
                out.append("text")
            if date is not False:
                out.append("date")
        if self.known("isnone", ("V",)) is None and True not in num and text is not True and date is not True:
            out.append("none")
        return out


class _Blank:
    facts = ()

    def known(self, *_):
        return None


def final_item(o, root, key):
    """value under a key of the returned mapping: the stored one, or None when it is as given"""
    val = None
    ret = strip(o.term)
    if ret[0] == "dict":
        for x in ret[1]:
            if len(x) == 2 and x[0] == T.k(key):
                val = x[1]
        return val
    for e in o.events:
        if e.recv is None or strip(e.recv) != ret:
            continue
        if e.kind == "setitem" and e.args and e.args[0] == T.k(key):
            val = e.args[1]
        elif e.name == "update":
            kws = e.kws if isinstance(e.kws, dict) else dict(e.kws)
            val = kws.get(key, val)
            for a in e.args:
                for x in strip(a)[1] if strip(a)[0] == "dict" else ():
                    if len(x) == 2 and x[0] == T.k(key):
                        val = x[1]
    return val


@rule("T04", floor=10, technique="path-sensitive abstract interpretation of the input conversion of every task model with a start time; case analysis over the kind of input")
def start_times(ctx):
    """For every task model with a start time the conversion before validation is analysed on all paths; the value the
    path leaves behind must denote the given instant and carry a zone."""
    prog = ctx.prog
    n = 0
    for ci in task_models(ctx):
        fs = model_fields(prog, ci).get(START)
        if fs is None:
            continue
        n += 1
        seen = set()
        ctx.check(("ext", DT) in (_types(fs.base) or []), "T04-type", f"{ci.name}.{START}", "is no point in time")
        vals = validators(ci, "before")
        touched = False
        for m in vals:
            it = ctx.interp(("setitem", "update"), keep=lambda a: True)
            names = [a.arg for a in m.node.args.args]
            root = ("param", names[-1])
            outs = ctx.run(m, it=it)
            for o in outs:
                w = When(root, o.facts)
                if w.impossible():
                    continue
                if o not in returns(outs):
                    ctx.check(False, "T04-kept", f"{ci.name}", "the conversion refuses a start time")
                    continue
                val = final_item(o, root, START)
                t = w.plain(strip(val)) if val is not None else ("V",)
                touched = touched or val is not None
                for kind in w.kinds():
                    if kind == "none":
                        ctx.check(t in {("V",), T.k(None)}, "T04-kept", f"{ci.name} without start time", "a start time is made up, or the conversion fails without one")
                        continue
                    seen.add(kind)
                    want = {"number": ("fromtimestamp", ("V",)), "text": ("fromisoformat", ("V",)), "date": ("same", ("V",))}[kind]
                    ctx.check(w.instant(t) == want, "T04-instant", f"{ci.name} start time as {kind}", f"{T.show(t)[:120]} is not the given instant")
                    ctx.check(w.aware(t) is True, "T04-zone", f"{ci.name} start time as {kind}", "a time without zone stays without: it means another instant elsewhere")
        ctx.check(touched and {"number", "text", "date"} <= seen, "T04-instance", f"{ci.name}.{START}", f"converted: {touched}, {sorted(seen)}")
    ctx.check(n >= 2, "T04-instance", "tasks with start time", f"{n}")
