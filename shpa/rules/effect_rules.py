"""M01 immutable models, D01 fixture queries, A01 inputs stay untouched."""

import ast

from .. import facts as F
from .. import terms as T
from ..ctx import returns
from ..effects import Effects
from ..models import fld
from ..prog import AnalysisError, ClassInfo, dotted
from ..schema import model_fields
from . import rule
from .task_rules import call_args, strip

STRICT = {"frozen": True, "extra": "forbid", "validate_default": True, "allow_inf_nan": False}
# settings which would take the strictness away when present
OFF = {"arbitrary_types_allowed": False, "revalidate_instances": None, "hide_input_in_errors": None}
TRANSPORT = {"shepherd_core.data_models.base.wrapper.Wrapper"}
_cache = {}


def effects(prog):
    if "e" not in _cache:

        def protect(ci, name):
            if ci is None:
                return None
            if ci.is_model and name in ci.all_fields():
                return f"{ci.name}.{name}"
            return None

        _cache["e"] = Effects(prog, protect)
    return _cache["e"]


def const(prog, module, e, depth=0):
    """value of a constant expression"""
    if e is None or depth > 6:
        raise ValueError
    try:
        return ast.literal_eval(e)
    except ValueError:
        pass
    r = prog.resolve_expr(module, e)
    if r and r[0] == "assign":
        return const(prog, r[1], r[2], depth + 1)
    raise ValueError


def config_items(prog, module, e, depth=0):
    """(setting, value expression, module) of a model_config expression, in order of application"""
    if depth > 6 or e is None:
        raise AnalysisError("configuration of a model is not analysable")
    if isinstance(e, ast.Call) and dotted(e.func).split(".")[-1] in {"ConfigDict", "SettingsConfigDict", "dict"}:
        for a in e.args:
            yield from config_items(prog, module, a, depth + 1)
        for kw in e.keywords:
            if kw.arg is None:
                yield from config_items(prog, module, kw.value, depth + 1)
            else:
                yield kw.arg, kw.value, module
        return
    if isinstance(e, ast.Dict):
        for k_, v in zip(e.keys, e.values):
            if k_ is None:
                yield from config_items(prog, module, v, depth + 1)
            else:
                yield const(prog, module, k_), v, module
        return
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        yield from config_items(prog, module, e.left, depth + 1)
        yield from config_items(prog, module, e.right, depth + 1)
        return
    if isinstance(e, ast.Attribute) and e.attr == "model_config":
        r = prog.resolve_expr(module, e.value)
        if r and r[0] == "class":
            for k_, (v, m) in effective(prog, r[1]).items():
                yield k_, v, m
            return
    r = prog.resolve_expr(module, e)
    if r and r[0] == "assign":
        yield from config_items(prog, r[1], r[2], depth + 1)
        return
    raise AnalysisError(f"configuration of a model is not analysable: {ast.unparse(e)[:60]}")


def effective(prog, ci):
    """setting -> (expression, module): bases from left to right, own body, class keywords (the order of pydantic)"""
    out = {}
    for b in ci.bases:
        if isinstance(b, ClassInfo) and b.is_model:
            out.update(effective(prog, b))
    own = ci.fields.get("model_config")
    if own is not None and own[1] is not None:
        for k_, v, m in config_items(prog, ci.module, own[1]):
            out[k_] = (v, m)
    for st in ci.node.body:
        if isinstance(st, ast.ClassDef) and st.name == "Config":
            for x in st.body:
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            out[t.id] = (x.value, ci.module)
    for kw in ci.node.keywords:
        if kw.arg not in {None, "title", "metaclass"}:
            out[kw.arg] = (kw.value, ci.module)
    return out


@rule("M01", floor=150, technique="schema evaluation of every model (effective configuration over the class hierarchy) and whole-program alias and effect analysis")
def immutable_models(ctx):
    """Every pydantic model of both packages: effective settings, field-level weakenings; every function of both packages:
    no store into a model or into a container that belongs to one, no construction that goes around validation."""
    prog = ctx.prog
    base = ctx.cls("ShpModel")
    n = 0
    for ci in sorted(prog.models(), key=lambda c: c.qualname):
        if ci.qualname in TRANSPORT:
            continue
        n += 1
        ctx.check(ci.is_subclass_of(base.qualname), "M01-base", ci.name, "is no constant model: it does not use the common base", ci.loc)
        eff = effective(prog, ci)
        for s, want in STRICT.items():
            got = None
            if s in eff:
                try:
                    got = const(prog, eff[s][1], eff[s][0])
                except ValueError:
                    raise AnalysisError(f"{ci.name}.{s} is not constant") from None
            ctx.check(got == want, "M01-config", f"{ci.name}/{s}", f"{s} is {got!r} instead of {want!r}", ci.loc)
        for name, fs in model_fields(prog, ci).items():
            if fs is None:
                continue
            own = prog_field(ci, name)
            bad = weak(prog, own)
            ctx.check(bad is None, "M01-field", f"{ci.name}.{name}", f"validation is weakened by {bad}", ci.loc)
        for m in ("__setattr__", "__delattr__", "__setitem__", "__delitem__", "__init__", "__new__", "__hash__", "__eq__"):
            f = ci.methods.get(m)
            ctx.check(f is None, "M01-method", f"{ci.name}/{m}", f"{m} of the model is replaced", ci.loc)
    ctx.check(n >= 30, "M01-instance", "models", f"{n} models")
    # nobody goes around validation or changes a model in place
    eff = effects(prog)
    for f in prog.all_functions():
        ctx.functions.add(f.qualname)
        bad = None
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr in {"model_construct", "construct"}:
                    bad = f"{x.func.attr}() skips validation"
                elif x.func.attr in {"model_copy", "copy"} and any(k_.arg == "update" for k_ in x.keywords):
                    bad = f"{x.func.attr}(update=) skips validation"
                elif dotted(x.func) in {"object.__setattr__", "object.__delattr__", "BaseModel.__setattr__"}:
                    bad = f"{dotted(x.func)} circumvents the constant model"
            elif isinstance(x, ast.Attribute) and x.attr == "__dict__" and not isinstance(x.ctx, ast.Load):
                bad = "__dict__ is replaced"
            elif isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Attribute) and x.value.attr in {"__dict__", "__pydantic_fields_set__", "model_fields_set"}:
                bad = f"{x.value.attr} is modified"
            if bad:
                ctx.fail("M01-bypass", f.qualname, bad, f"{f.module.rel}:{x.lineno}")
                break
        hits = [(k_, v) for k_, v in eff.found.items() if k_[0] == f.qualname]
        for (_, lab, what), loc in hits:
            ctx.fail("M01-modify", f"{f.qualname}/{lab}", f"{what} changes a model in place", loc)
        if not hits and not bad:
            ctx.check(True, "M01-modify", f.qualname)
    ctx.note(f"{len(eff.sites)} modifying statements in {len(eff.fns)} functions")


def prog_field(ci, name):
    f = ci.find_field(name)
    return f


def weak(prog, f):
    if f is None:
        return None
    owner, ann, val, _ = f
    for e in (ann, val):
        if e is None:
            continue
        for x in ast.walk(e):
            n = dotted(x).split(".")[-1] if isinstance(x, (ast.Name, ast.Attribute)) else ""
            if n in {"SkipValidation", "InstanceOf", "PrivateAttr", "PlainValidator", "WrapValidator"}:
                return n
            if isinstance(x, ast.Call):
                for kw in x.keywords:
                    if kw.arg in {"allow_inf_nan", "validate_default"}:
                        try:
                            v = const(prog, owner.module, kw.value)
                        except ValueError:
                            return f"{kw.arg}=?"
                        if v is (kw.arg == "allow_inf_nan"):
                            return f"{kw.arg}={v}"
    # named types of the package may carry the same
    if ann is not None:
        for x in ast.walk(ann):
            if isinstance(x, ast.Name):
                r = prog.resolve(owner.module, x.id)
                if r and r[0] == "assign":
                    bad = weak(prog, (type("o", (), {"module": r[1]}), r[2], None, None))
                    if bad:
                        return bad
    return None


# ---------------------------------------------------------------------------------------------------- A01
OUT_PARAMS = {("downsample", "data_dst"), ("resample", "data_dst"), ("inheritance", "chain"), ("fill_in_user_data", "values")}


@rule("A01", floor=100, technique="whole-program alias and effect analysis with function summaries")
def inputs_untouched(ctx):
    """Every public function, constructor, validator and overriding method: no statement reachable from it modifies an object
    that came in through a parameter (documented output parameters excepted)."""
    prog = ctx.prog
    eff = effects(prog)
    callers = called_names(prog)
    for f in prog.all_functions():
        ctx.functions.add(f.qualname)
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if f.cls is not None and not f.is_static and params:
            params = params[1:]
        if not entry(prog, f, callers):
            continue
        mut = eff.sum[f.qualname].mut
        for p in params:
            hit = mut.get(("param", p)) or mut.get(("part", p))
            if (f.name, p) in OUT_PARAMS:
                continue
            ctx.check(hit is None, "A01-input", f"{f.qualname}/{p}", f"modifies what was handed in as '{p}': {hit[0] if hit else ''}", hit[1] if hit else f.loc)
    ctx.note(f"{len(eff.sites)} modifying statements in {len(eff.fns)} functions")


def called_names(prog):
    out = set()
    for f in prog.all_functions():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                out.add(dotted(x.func).split(".")[-1])
    return out


def entry(prog, f, callers):
    """callable from outside: not private; a helper that only the package itself calls is judged through its callers"""
    if f.name == "__init__":
        return not f.cls.name.startswith("_")
    deco = {dotted(d.func if isinstance(d, ast.Call) else d).split(".")[-1] for d in f.node.decorator_list}
    if deco & {"model_validator", "field_validator", "root_validator", "command", "callback"}:
        return True
    if f.name.startswith("_") and not f.name.startswith("__"):
        return False
    return f.cls is not None or f.name not in callers or f.name in exports(prog)


def exports(prog):
    out = set()
    for m in prog.modules.values():
        d = m.defs.get("__all__")
        if d and d[0] == "assign" and isinstance(d[1], (ast.List, ast.Tuple)):
            out |= {x.value for x in d[1].elts if isinstance(x, ast.Constant)}
    return out


# ---------------------------------------------------------------------------------------------------- D01
def layers(t, events, depth=0):
    """what a dict was put together from, the last one wins"""
    if depth > 8:
        return [t]
    if t[0] == "vn":
        t = T.expand1(t)
    out = None
    if t[0] == "call" and t[1] in {"copy.copy", "copy.deepcopy", "dict"} and len(t[2]) == 1:
        out = layers(t[2][0], events, depth + 1)
    elif t[0] == "mcall" and t[2] == "copy":
        out = layers(t[1], events, depth + 1)
    elif t[0] == "bitor":
        out = layers(t[1], events, depth + 1) + layers(t[2], events, depth + 1)
    elif t[0] == "dict":
        out = []
        for x in t[1]:
            if x[0] == "star" and isinstance(x[1], tuple) and x[1][0] == "keyof":
                out += layers(x[1][1], events, depth + 1)
            elif x[0] != "unknown" or not out:
                out.append(("entry", x))
    if out is None:
        out = [t]
    for e in events:
        if e.recv != t:
            continue
        if e.name == "update" and e.args:
            a = e.args[0]
            if a[0] == "mcall" and a[2] == "items":
                a = a[1]
            out += layers(a, events, depth + 1)
        elif e.kind == "setitem" and len(e.args) == 2:
            k_, v = e.args
            src = whole(k_, v)
            out.append(src if src is not None else ("entry", (k_, v)))
    return out


def whole(k_, v):
    """dst[k] = src[k] for each k of src"""
    if k_[0] == "each" or k_[0] == "elem":
        c = k_[1]
        c = c[1] if c[0] == "mcall" and c[2] == "keys" else c
        if v[0] == "item" and v[2] == k_ and v[1] == c:
            return c
    return None


@rule("D01", floor=40, technique="whole-program alias and effect analysis; path-sensitive abstract interpretation of lookup, insertion and inheritance")
def fixture_queries(ctx):
    """Stored fixtures are modified by inserting only; lookups ignore case and raise when nothing is found; what was given wins
    over what is inherited; a circle of inheritance is an error."""
    prog = ctx.prog
    eff = effects(prog)
    fx, fxs = ctx.cls("Fixture"), ctx.cls("Fixtures")
    clients = [c for c in prog.all_classes() if c.is_subclass_of(ctx.cls("AbcClient").qualname)]
    n = 0
    for ci in [fx, fxs, *clients]:
        for name, m in sorted(ci.methods.items()):
            if name.startswith("insert") or name in {"__init__", "_connect"} or m.is_static or only_from(prog, ci, name, "insert"):
                continue
            n += 1
            me = m.node.args.args[0].arg if m.node.args.args else "self"
            s = eff.sum[m.qualname]
            hit = s.mut.get(("part", me)) or s.mut.get(("param", me))
            ctx.check(hit is None, "D01-modify", f"{ci.name}.{name}", f"a query modifies what is stored: {hit[0] if hit else ''}", hit[1] if hit else m.loc)
            for x in ast.walk(m.node):
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                    an = ci.attr_annotation(x.attr)
                    ty = prog.type_of(an[0], an[1]) if an and an[2] else None
                    ctx.check(not (ty and ty[0] in {"dict"}), "D01-modify", f"{ci.name}.{name}/{x.attr}", "a query replaces what is stored", f"{m.module.rel}:{x.lineno}")
    ctx.check(n >= 12, "D01-instance", "queries", f"{n} queries")
    # the stores: dicts filled by insert
    q = fx.qualname
    dat = ("param", "data")
    pars = ("attr", dat, "parameters")
    same, pol = F.cmp_atom("==", ("mcall", ("attr", dat, "datatype"), "lower", (), ()), ("mcall", fld("model_type"), "lower", (), ()))
    stores = {}
    outs = returns(ctx.run(f"{q}.insert", names=("setitem",), facts={same: not pol}))
    ctx.check(outs and not any(o.events for o in outs), "D01-insert", "other type", "an element of another type is stored")
    for o in returns(ctx.run(f"{q}.insert", names=("setitem", "update", "setdefault"), facts={same: pol, ("in", T.k("name"), pars): True})):
        for e in o.events:
            if e.kind == "setitem" and e.recv[0] == "attr" and e.recv[1] == ("self",):
                key, val = e.args
                ctx.check(strip(val) == pars, "D01-insert", "stored data", f"stores {T.show(val)[:80]}", e.loc)
                by = "name" if T.contains(key, lambda x: x == T.k("name")) else "id" if T.contains(key, lambda x: x == T.k("id")) else "?"
                if by == "name":
                    ctx.check(T.contains(key, _lowered), "D01-insert", "name", "names are stored with case", e.loc)
                stores[by] = e.recv[2]
    if not ctx.check(set(stores) >= {"name", "id"}, "D01-insert", "both keys", f"elements are found by {sorted(stores)}"):
        return
    names, ids = fld(stores["name"]), fld(stores["id"])

    def lookup(meth, args, tag):
        got = 0
        for o in ctx.run(f"{q}.{meth}", names=(), keep=lambda a: True):
            if o.kind != "return":
                ctx.check(o.exc is not None and o.exc.name in {"ValueError", "KeyError", "?"}, "D01-lookup", f"{tag} unknown", f"unknown elements yield {o.exc.name if o.exc else ''}")
                continue
            t = strip(o.term)
            if t[0] == "get" and t[1] in {names, ids}:
                t = ("item", t[1], t[2])
            ok = t[0] == "item" and t[1] in {names, ids}
            if ok:
                key = t[2]
                ok = T.contains(key, lambda x: x == ("param", args)) or T.contains(key, lambda x: x == T.k(None))
                if t[1] == names:
                    ok = ok and T.contains(key, _lowered)
            got += ok
            ctx.check(ok, "D01-lookup", tag, f"yields {T.show(o.term)[:100]}")
        ctx.check(got >= 1, "D01-instance", tag, "never finds anything")
        # what is stored is found, what is not stored is refused
        a = ("param", args)
        low = ("mcall", a, "lower", (), ())
        istr = ("isinst", a, "str")
        cases = []
        if meth != "query_name":
            cases.append(("a stored ID", {istr: False, ("isinst", a, "int"): True, ("in", a, ids): True}, True))
            cases.append(("an unknown ID", {istr: False, ("isinst", a, "int"): True, ("in", a, ids): False}, False))
        if meth != "query_id":
            cases.append(("a stored name", {istr: True, ("in", low, names): True}, True))
            cases.append(("an unknown name", {istr: True, ("in", low, names): False, ("true", ("mcall", low, "isdigit", (), ())): False, **{("in", x, ids): False for x in (a, low, T.k(None))}}, False))
        for what, fs, found in cases:
            runs = ctx.run(f"{q}.{meth}", names=(), facts=fs, keep=lambda a: True)
            bad = next((o for o in runs if (o.kind == "return") is not found), None)
            ctx.check(runs and bad is None, "D01-lookup", f"{tag}: {what}", "is not found" if found else "yields an element", bad.loc if bad is not None and hasattr(bad, "loc") else None)

    lookup("query_id", "_id", "by ID")
    lookup("query_name", "name", "by name")
    lookup("__getitem__", "key", "by key")
    # completing a model that is only named
    ab = ctx.cls("AbcClient").qualname
    opq = {f"{ab}.query_item", f"{ab}.try_inheritance"}
    for key in ("id", "name"):
        x = ("param", "x")
        outs = ctx.run(f"{ab}.try_completing_model", names=(), opaque=opq, args={"values": _lit(((T.k(key), x),))}, keep=lambda a: True)
        for o in returns(outs):
            inner = [t for t in _subterms(o.term) if t[0] == "call" and t[1].endswith(".query_item")]
            ok = bool(inner) and call_args(prog, inner[0]).get("name" if key == "name" else "uid") == x
            ctx.check(ok, "D01-complete", f"only {key}", "a model which is only named does not come from the stored elements")
        ctx.check(returns(outs), "D01-instance", f"only {key}", "can not be completed")
    fc = ctx.cls("FixturesClient").qualname
    for o in returns(ctx.run(f"{fc}.query_item", names=(), opaque={f"{q}.query_id", f"{q}.query_name"}, keep=lambda a: True)):
        t = strip(o.term)
        if t[0] == "mcall" and prog.func(f"{q}.{t[2]}"):
            t = ("call", f"{q}.{t[2]}", (t[1], *t[3]), t[4])
        a = call_args(prog, t) if t[0] == "call" and prog.func(t[1]) else {}
        own = {f"{q}.query_id": ("_id", ("param", "uid")), f"{q}.query_name": ("name", ("param", "name"))}.get(t[1] if t[0] == "call" else "")
        if t[0] == "item" and a == {} and T.contains(t, lambda x: x == ("attr", ("self",), "_fixtures")):
            own, a = ("key", t[2]), {"key": t[2]}
            ctx.check(t[2] in {("param", "uid"), ("param", "name")}, "D01-lookup", "query_item", f"yields {T.show(o.term)[:100]}")
            continue
        ctx.check(own is not None and a.get(own[0]) == own[1], "D01-lookup", "query_item", f"yields {T.show(o.term)[:100]}")
    # inheritance
    inh = f"{q}.inheritance"
    val = ("param", "values")
    for first in (True, False):
        outs = ctx.run(inh, names=("setitem", "call", "update", "append", "extend", "insert", "add"), opaque={inh, f"{q}.__getitem__"}, facts={("isnone", ("param", "chain")): first}, keep=lambda a: True)
        good, bad = set(), {}
        for o in returns(outs):
            if not ctx.check(o.term[0] == "tuple" and len(o.term[1]) == 2, "D01-inherit", "result", f"yields {T.show(o.term)[:80]}"):
                continue
            res = o.term[1][0]
            ev = o.events
            rec = [e for e in ev if e.kind == "call" and e.name == inh]
            raw = layers(res, ev)
            ls = [_plain(x) for x in raw]
            base = None
            if len(ls) == 1 and ls[0][0] == "item" and rec:
                got = raw[0][1]
                base = call_args(prog, got).get("values") if got[0] == "call" else None
                if base is not None:
                    ls = [_plain(x) for x in layers(base, ev)]
            root = ls[0]
            if root[0] == "item" and root[1][0] == "call" and root[1][1] == inh:
                b0 = call_args(prog, raw[0][1]).get("values")
                root = _plain(layers(b0, ev)[0]) if b0 is not None else root
            key = (T.show(root)[:200], len(rec))
            if ls[-1] == val:
                good.add(key)
            else:
                bad[key] = ls
            # circles
            for e in rec:
                a = call_args(prog, ("call", e.name, e.args, e.kws))
                src = _plain(a.get("values", T.k(None)))
                if T.contains(src, _stored) or T.contains(src, _popped):
                    if not first:
                        known = [f for f, v in o.facts.items() if f[0] == "in" and v is False and T.contains(f, lambda x: x == ("param", "chain")) and T.contains(f, lambda x: _popped(x) or x == T.k("inherit_from"))]
                        ctx.check(known, "D01-circle", "inheritance", "inherits without looking for circles", e.loc)
                    ch = a.get("chain")
                    ctx.check(ch is not None and ch != T.k(None), "D01-circle", "chain", "the chain of inheritance is not passed on", e.loc)
                    if ch is not None and T.contains(src, _popped):
                        base = next(_plain(x) for x in T.subterms(src) if _popped(x))
                        noted = T.contains(ch, lambda x: _popped(x) and _plain(x) == base) or any(x.kind == "mcall" and x.name in {"append", "extend", "insert", "add"} and x.recv == ch and any(T.contains(y, lambda z: _popped(z) and _plain(z) == base) for y in x.args) for x in ev[: ev.index(e)])
                        ctx.check(noted, "D01-circle", "chain", "what is inherited from is not remembered in the chain", e.loc)
        for key in bad:
            if key not in good:
                ctx.fail("D01-inherit", "own values win", f"result {key[0][:80]} is made of {[T.show(x)[:50] for x in bad[key]]}: given values do not win")
        ctx.check(len(good) >= 3, "D01-inherit", "own values win", f"only {len(good)} ways to inherit")


def _plain(t):
    t = strip(t)
    return F._plain(t) if isinstance(t, tuple) and t else t


def _lowered(x):
    return len(x) > 2 and x[0] == "mcall" and x[2] in {"lower", "casefold"}


def _popped(x):
    return len(x) > 2 and x[0] == "mcall" and x[2] == "pop"


def _stored(x):
    return len(x) > 2 and x[0] == "call" and isinstance(x[1], str) and x[1].endswith("__getitem__")


def _lit(entries):
    from ..values import S

    return S(("dict", tuple(entries)), ("ext", "dict"))


def _subterms(t):
    if isinstance(t, tuple):
        if t and t[0] == "vn" and len(t) == 2:
            t = T.expand1(t)
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from _subterms(x)


def only_from(prog, ci, name, prefix):
    """a private helper of the methods with a prefix"""
    if not name.startswith("_") or name.startswith("__"):
        return False
    users = set()
    for m in ci.methods.values():
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and x.attr == name and m.name != name:
                users.add(m.name)
    return bool(users) and all(u.startswith(prefix) or u == "__init__" for u in users)
