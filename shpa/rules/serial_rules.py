"""M02 models survive storing, T03 source ranges fit task ranges, M04 bounded collections."""

import ast

from .. import facts as F
from .. import terms as T
from ..ctx import returns
from ..prog import AnalysisError, dotted
from ..schema import is_classvar
from . import rule
from .effect_rules import const, effective
from .task_rules import strip

# annotation -> classes its values have at runtime, None: nothing to represent
NATIVE = {
    "str", "int", "float", "bool", "bytes", "None", "dict", "list", "tuple", "set", "object",
    "datetime.datetime", "datetime.date", "typing.Any", "typing_extensions.Any", "any", "typing.Hashable",
}
LEAF = {
    "pydantic.UUID1": ["uuid.UUID"], "pydantic.UUID3": ["uuid.UUID"], "pydantic.UUID4": ["uuid.UUID"], "pydantic.UUID5": ["uuid.UUID"],
    "pydantic.IPvAnyAddress": ["ipaddress.IPv4Address", "ipaddress.IPv6Address"],
    "pydantic.networks.IPvAnyAddress": ["ipaddress.IPv4Address", "ipaddress.IPv6Address"],
    "pydantic.IPvAnyNetwork": ["ipaddress.IPv4Network", "ipaddress.IPv6Network"],
    "pydantic.IPvAnyInterface": ["ipaddress.IPv4Interface", "ipaddress.IPv6Interface"],
    "pathlib.Path": ["pathlib.PosixPath", "pathlib.WindowsPath"],
    "pydantic.FilePath": ["pathlib.PosixPath", "pathlib.WindowsPath"], "pydantic.DirectoryPath": ["pathlib.PosixPath", "pathlib.WindowsPath"],
    "pydantic.NewPath": ["pathlib.PosixPath", "pathlib.WindowsPath"],
}
# values of these are plain numbers, strings or bytes
PLAIN_END = {
    "EmailStr", "PositiveInt", "PositiveFloat", "NonNegativeInt", "NonNegativeFloat", "NegativeInt", "NegativeFloat", "NonPositiveInt",
    "NonPositiveFloat", "StrictStr", "StrictInt", "StrictFloat", "StrictBool", "StrictBytes", "FiniteFloat", "Base64Str", "Base64Bytes",
    "constr", "conint", "confloat", "conbytes", "PastDate", "FutureDate", "AwareDatetime", "NaiveDatetime", "PastDatetime", "FutureDatetime", "Literal",
    "NameEmail_", "MacAddress", "ByteSize",
}
WRAP = {"Optional", "Union", "List", "list", "Set", "set", "Dict", "dict", "Tuple", "tuple", "Sequence", "Mapping", "Iterable", "conlist", "conset", "Type", "Final"}


def leaves(prog, module, ann, depth=0):
    """(kind, what) of everything a value of this annotation can consist of"""
    if ann is None or depth > 12 or ann is Ellipsis:
        return
    if isinstance(ann, ast.Constant):
        if isinstance(ann.value, str):
            yield from leaves(prog, module, ast.parse(ann.value, mode="eval").body, depth + 1)
        return
    if isinstance(ann, (ast.Subscript, ast.Call)):
        n = dotted(ann.value if isinstance(ann, ast.Subscript) else ann.func).split(".")[-1]
        if isinstance(ann, ast.Subscript):
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        else:
            args = list(ann.args)
        if n == "Annotated":
            yield from leaves(prog, module, args[0], depth + 1)
        elif n in PLAIN_END:
            return
        elif n in WRAP:
            for a in args:
                yield from leaves(prog, module, a, depth + 1)
        else:
            yield ("ext", n)
        return
    if isinstance(ann, ast.BinOp):
        yield from leaves(prog, module, ann.left, depth + 1)
        yield from leaves(prog, module, ann.right, depth + 1)
        return
    r = prog.resolve_expr(module, ann)
    if r is None:
        raise AnalysisError(f"annotation {ast.unparse(ann)} is not resolved")
    if r[0] == "assign":
        yield from leaves(prog, r[1], r[2], depth + 1)
    elif r[0] == "class":
        yield ("enum" if r[1].is_enum else "model" if r[1].is_model else "class", r[1])
    elif r[0] == "ext":
        yield ("ext", r[1])


def registrations(prog):
    """(type name, representer FuncInfo, dumper name, multi, location) of the module level"""
    out = []
    for m in prog.modules.values():
        loops = {}
        for st in ast.walk(m.tree):
            if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, (ast.Tuple, ast.List, ast.Set)):
                for x in ast.walk(st):
                    if isinstance(x, ast.Call):
                        loops[id(x)] = (st.target.id, st.iter.elts, None)
            elif isinstance(st, ast.For) and isinstance(st.target, ast.Tuple) and isinstance(st.iter, (ast.Tuple, ast.List)) or (
                isinstance(st, ast.For) and isinstance(st.target, ast.Tuple) and isinstance(st.iter, ast.Call) and dotted(st.iter.func).endswith(".items")
            ):
                it = st.iter
                if isinstance(it, ast.Call):
                    d = it.func.value
                    if not isinstance(d, ast.Dict):
                        r = prog.resolve_expr(m, d)
                        d = r[2] if r and r[0] == "assign" else None
                    rows = [[a, b] for a, b in zip(d.keys, d.values)] if isinstance(d, ast.Dict) else None
                else:
                    rows = [e.elts for e in it.elts if isinstance(e, (ast.Tuple, ast.List))]
                for x in ast.walk(st):
                    if isinstance(x, ast.Call) and rows is not None:
                        loops[id(x)] = (None, rows, [t.id for t in st.target.elts if isinstance(t, ast.Name)])
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            n = dotted(x.func)
            end = n.split(".")[-1]
            if end not in {"add_representer", "add_multi_representer"}:
                continue
            args = {i: a for i, a in enumerate(x.args)}
            for kw in x.keywords:
                args[{"data_type": 0, "representer": 1, "Dumper": 2, "multi_representer": 1}.get(kw.arg, kw.arg)] = kw.value
            owner = prog.resolve_expr(m, x.func.value) if isinstance(x.func, ast.Attribute) else None
            if isinstance(x.func, ast.Name):
                owner = ("ext", "yaml")
            if owner and owner[0] == "ext" and owner[1].endswith("Dumper"):
                dumper = owner[1]
            else:
                d = prog.resolve_expr(m, args[2]) if 2 in args else ("ext", "yaml.Dumper")
                dumper = d[1] if d and d[0] == "ext" else "?"
            rows = [{}]
            if id(x) in loops:
                v, els, names = loops[id(x)]
                rows = [{v: e} for e in els] if names is None else [dict(zip(names, e)) for e in els]
            for env in rows:
                def look(e, env=env):
                    if isinstance(e, ast.Name) and e.id in env:
                        e = env[e.id]
                    return e, prog.resolve_expr(m, e)

                te, ty = look(args.get(0))
                fe, fn = look(args.get(1))
                name = ty[1] if ty and ty[0] == "ext" else ty[1].qualname if ty and ty[0] == "class" else None
                if name is None or not (fn and fn[0] == "func" or isinstance(fe, ast.Lambda)):
                    raise AnalysisError(f"registration of a yaml-representation at {m.rel}:{x.lineno} is not understood")
                out.append((name, fn[1] if fn and fn[0] == "func" else fe, dumper.split(".")[-1], end == "add_multi_representer", f"{m.rel}:{x.lineno}", m))
    return out


def representation(ctx, fn):
    """paths of a representer: (kind, tag, value term, facts)"""
    out = []
    a = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
    for o in ctx.run(fn, names=(), keep=lambda atom: True):
        if o.kind == "raise":
            out.append(("raise", None, None, o, a))
            continue
        t = strip(o.term)
        if t[0] != "mcall" or not t[2].startswith("represent_"):
            out.append(("?", None, t, o, a))
            continue
        kws = dict(t[4])
        if t[2] == "represent_scalar":
            tag = kws.get("tag", t[3][0] if t[3] else T.k("?"))
            val = kws.get("value", t[3][1] if len(t[3]) > 1 else T.k("?"))
            tag = tag[2].rsplit(":", 1)[-1] if T.is_k(tag) and isinstance(tag[2], str) else "?"
        else:
            tag, val = t[2][len("represent_"):], t[3][0] if t[3] else kws.get("data", T.k("?"))
        out.append(("ok", tag, val, o, a))
    return out


def unstr(t):
    """value below str() and f''"""
    t = strip(t)
    while t[0] == "fstr" and len(t[1]) == 1:
        t = strip(t[1][0])
    return t


def exact(ctx, name, tag, val, o, dat):
    """is the scalar a faithful image of the value?"""
    v = unstr(val)
    d = ("param", dat)
    if name.endswith("timedelta"):
        whole = [f for f, b in o.facts.items() if b and f[0] == "true" and f[1] == ("mcall", d, "is_integer", (), ())]
        secs = v == d or (v[0] == "mcall" and v[1] == d and v[2] == "total_seconds")
        if tag in {"float", "data"}:
            return secs
        if tag == "int":
            if v[0] == "call" and v[1] in {"int", "round"} and len(v[2]) == 1 and v[2][0] == d:
                eq = F.cmp_atom("==", v, d)
                mod = F.cmp_atom("==", ("mod", d, T.k(1)), T.k(0))
                return bool(whole) or o.facts.get(eq[0]) == eq[1] or o.facts.get(mod[0]) == mod[1]
        return False
    if tag not in {"str", "data"}:
        return False
    if v == d:
        return tag == "str" and val != d or tag == "str" and name.endswith("Path")
    if name.endswith("Path"):
        return v[0] == "mcall" and v[1] == d and v[2] in {"as_posix", "__str__"}
    if name.endswith("UUID"):
        return v in {("attr", d, "hex"), ("attr", d, "urn")}
    if "IPv" in name:
        return v in {("attr", d, "compressed"), ("attr", d, "exploded")}
    if name.endswith("Url"):
        return v[0] == "mcall" and v[1] == d and v[2] in {"unicode_string", "__str__"}
    return False


@rule("M02", floor=250, technique="type-reachability over all model fields against the registered representations; abstract interpretation of representers, storing and loading")
def models_survive_storing(ctx):
    """Every field type of every model has a faithful representation in the (safe) yaml format; storing writes the explicitly set
    content under the name of its class, loading builds the same class from exactly this content and refuses other classes."""
    prog = ctx.prog
    base = ctx.cls("ShpModel")
    regs = registrations(prog)
    core = base.module
    # which modules are imported together with the base model
    safe = {}
    for name, fn, dumper, multi, loc, m in regs:
        if isinstance(fn, ast.Lambda):
            raise AnalysisError(f"representation by a lambda at {loc}")
        if dumper in {"SafeDumper", "CSafeDumper"}:
            safe.setdefault(name, []).append((fn, loc, m))
        for kind, tag, val, o, a in representation(ctx, fn):
            if kind == "raise":
                ctx.fail("M02-represent", f"{m.name}/{name}", f"can not be stored: {o.exc.name if o.exc else ''}", loc)
                continue
            ok = kind == "ok" and len(a) >= 2 and exact(ctx, name, tag, val, o, a[1])
            ctx.check(ok, "M02-represent", f"{m.name}/{name}", f"is stored as {tag} {T.show(val)[:80] if val else ''}, which is not its exact value", loc)
    ctx.check(len(regs) >= 5, "M02-instance", "representations", f"{len(regs)} representations")

    def known(cls):
        return any(m is core or imports(prog, core, m) for _, _, m in safe.get(cls, []))

    n = 0
    for ci in sorted(prog.models(), key=lambda c: c.qualname):
        if not ci.is_subclass_of(base.qualname):
            continue
        eff = effective(prog, ci)
        alias_ok = False
        for s in ("populate_by_name", "validate_by_name"):
            if s in eff:
                alias_ok |= bool(const(prog, eff[s][1], eff[s][0]))
        gen = eff.get("alias_generator")
        ctx.check(gen is None or alias_ok, "M02-alias", ci.name, "fields are stored under names which are not accepted when loading", ci.loc)
        for name, (owner, ann, val, st) in ci.all_fields().items():
            if name.startswith("_") or name == "model_config" or is_classvar(ann):
                continue
            loc = f"{owner.module.rel}:{st.lineno}"
            n += 1
            bad = set()
            for kind, what in leaves(prog, owner.module, ann):
                if kind == "model":
                    continue
                if kind == "enum":
                    en = "use_enum_values" in eff and const(prog, eff["use_enum_values"][1], eff["use_enum_values"][0]) is True
                    vd = "validate_default" in eff and const(prog, eff["validate_default"][1], eff["validate_default"][0]) is True
                    if not (en and vd):
                        bad.add(what.name)
                elif kind == "class":
                    if not known(what.qualname):
                        bad.add(what.name)
                elif what in NATIVE or what.split(".")[-1] in PLAIN_END or what.startswith("typing.") and what.split(".")[-1] in WRAP:
                    continue
                else:
                    for c in LEAF.get(what, [what]):
                        if not known(c):
                            bad.add(c)
            for b in sorted(bad):
                ctx.fail("M02-type", f"{owner.name}.{name}", f"values of type {b} can not be stored or printed", loc)
            if not bad:
                ctx.check(True, "M02-type", f"{owner.name}.{name}", "", loc)
            for call in field_calls(prog, owner.module, ann, val):
                for kw in call.keywords:
                    on = not (isinstance(kw.value, ast.Constant) and kw.value.value in {None, False})
                    if kw.arg in {"exclude", "serialization_alias"} and on:
                        ctx.fail("M02-field", f"{owner.name}.{name}/{kw.arg}", "is not stored (under its name)", loc)
                    if kw.arg in {"alias", "validation_alias"} and on:
                        ctx.check(alias_ok, "M02-alias", f"{owner.name}.{name}", "is stored under a name which is not accepted when loading", loc)
        for m in ci.methods.values():
            for d in m.node.decorator_list:
                dn = dotted(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
                if dn in {"field_serializer", "model_serializer"}:
                    raise AnalysisError(f"{m.qualname}: custom serializers are not analysed")
    ctx.check(n >= 150, "M02-instance", "fields", f"{n} fields")
    # only the safe variants
    calls = 0
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            r = prog.resolve_expr(m, x.func)
            if not r or r[0] != "ext" or not r[1].startswith("yaml."):
                continue
            f = r[1].split(".", 1)[1]
            if f.split(".")[0] in {"add_representer", "add_multi_representer", "SafeDumper", "SafeLoader", "YAMLError"}:
                continue
            calls += 1
            ok = f in {"safe_load", "safe_dump", "safe_load_all", "safe_dump_all"}
            if not ok and f in {"load", "load_all", "dump", "dump_all"}:
                want = {"Loader", "Dumper"}
                e = next((k_.value for k_ in x.keywords if k_.arg in want), None) or (x.args[1] if f.startswith("load") and len(x.args) > 1 else x.args[2] if len(x.args) > 2 else None)
                er = prog.resolve_expr(m, e) if e is not None else None
                ok = bool(er) and er[0] == "ext" and er[1].split(".")[-1] in {"SafeLoader", "CSafeLoader", "SafeDumper", "CSafeDumper"}
            ctx.check(ok, "M02-safe", f"{m.name}/{f}", "does not use the safe variant of yaml", f"{m.rel}:{x.lineno}")
    ctx.check(calls >= 6, "M02-instance", "yaml calls", f"{calls} calls")
    # storing / loading, for every effective implementation
    for ci in sorted(prog.models(), key=lambda c: c.qualname):
        if ci.is_subclass_of(base.qualname):
            if "to_file" in ci.methods:
                storing(ctx, ci, ci.methods["to_file"])
            if "from_file" in ci.methods:
                loading(ctx, ci, ci.methods["from_file"])
    if not {"to_file", "from_file"} <= set(base.methods):
        raise AnalysisError("storing or loading of models vanished")


def field_calls(prog, module, ann, val):
    out = []
    seen = 0

    def rec(mod, e, depth=0):
        if e is None or depth > 8:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.Call) and dotted(x.func).split(".")[-1] == "Field":
                out.append(x)
            elif isinstance(x, ast.Name):
                r = prog.resolve_expr(mod, x)
                if r and r[0] == "assign" and isinstance(r[2], (ast.Subscript, ast.Call)):
                    rec(r[1], r[2], depth + 1)

    rec(module, ann)
    if isinstance(val, ast.Call):
        rec(module, val)
    return out


def imports(prog, a, b, _seen=None):
    """is b loaded whenever a is (import at module level, transitively)?"""
    seen = _seen if _seen is not None else set()
    if a is b:
        return True
    if a.name in seen:
        return False
    seen.add(a.name)
    for r in a.defs.values():
        if r[0] == "import":
            for nm in (r[1], f"{r[1]}.{r[2]}", r[1].rsplit(".", 1)[0]):
                m = prog.modules.get(nm)
                if m is not None and imports(prog, m, b, seen):
                    return True
    return False


def dump_flags(t):
    """keyword arguments of a model_dump term"""
    return dict(t[4])


def storing(ctx, ci, fn):
    q = f"{ci.name}.to_file"
    mini = ("param", "minimal")
    me = ("self",)
    outs = ctx.run(fn, names=("open", "write", "write_text", "write_bytes", "safe_dump", "dump", "yaml.safe_dump"), keep=lambda a: True)
    rets = returns(outs)
    for o in rets:
        wr = [e for e in o.events if e.name in {"write", "write_text"}]
        st = [e for e in o.events if e.name.split(".")[-1] in {"safe_dump", "dump"} and e.kind == "call"]
        streamed = [e for e in st if len(e.args) > 1 or any(k_ == "stream" for k_, _ in e.kws)]
        if not ctx.check(len(wr) + len(streamed) == 1, "M02-store", q, "does not write the model exactly once", fn.loc):
            continue
        opens = [e for e in o.events if e.name == "open"]
        modes = [x for e in opens for x in (list(e.args) + [v for k_, v in e.kws if k_ == "mode"]) if T.is_k(x) and isinstance(x[2], str) and x[2] in {"w", "wt", "x", "a", "r+", "r", "wb", "at", "a+", "w+"}]
        ctx.check(all(m[2] in {"w", "wt", "w+"} for m in modes), "M02-store", f"{q}/mode", "does not replace what was in the file", fn.loc)
        text = None
        if wr:
            text = strip(wr[0].args[0] if wr[0].args else dict(wr[0].kws).get("data", T.k("?")))
            target = wr[0].recv
        else:
            text = ("call", st[0].name, st[0].args, st[0].kws)
            target = streamed[0].args[1] if len(streamed[0].args) > 1 else dict(streamed[0].kws)["stream"]
        while target[0] == "mcall" and target[2] == "open":
            target = target[1]
        if target[0] == "call" and target[1] in {"open", "io.open"} and target[2]:
            target = target[2][0]
        ctx.check(T.contains(target, lambda x: x == ("param", "path")), "M02-store", f"{q}/path", "does not write to the given path", fn.loc)
        ctx.check(strip(o.term) == strip(target), "M02-store", f"{q}/result", "returns another path than the one written", fn.loc)
        if not ctx.check(text[0] == "call" and text[1].split(".")[-1] in {"safe_dump", "dump"} and text[2], "M02-store", f"{q}/content", f"writes {T.show(text)[:80]}", fn.loc):
            continue
        data = strip(text[2][0])
        if data[0] == "mcall" and data[2] in {"model_dump", "dict"}:
            keep = dump_flags(data)
            lossy = sorted(k_ for k_, v in keep.items() if not harmless(k_, v, mini))
            ctx.check(not lossy, "M02-store", f"{q}/wrapper", f"content is filtered by {lossy}", fn.loc)
            wrap = strip(data[1])
            kws = dict(wrap[2]) if wrap[0] == "new" else {}
        elif data[0] == "new":
            kws = dict(data[2])
        elif data[0] == "dict":
            kws = {k_[2]: v for k_, v in data[1] if T.is_k(k_)}
        else:
            kws = {}
        name = strip(kws.get("datatype", T.k(None)))
        good = name[0] == "attr" and name[2] in {"__name__", "__qualname__"} and name[1] in {("typeof", me), ("type", me)} or name in {("attr", ("call", "type", (me,), ()), "__name__"), ("attr", ("attr", me, "__class__"), "__name__"), T.k(ci.name)} and not (T.is_k(name) and len([c for c in ctx.prog.models() if c.is_subclass_of(ci.qualname)]) > 1)
        ctx.check(good, "M02-store", f"{q}/datatype", f"the name of the model is stored as {T.show(name)[:60]}", fn.loc)
        par = strip(kws.get("parameters", T.k(None)))
        ok = par[0] == "mcall" and par[1] == me and par[2] in {"model_dump", "dict"} and not par[3]
        if ctx.check(ok, "M02-store", f"{q}/parameters", f"the content is stored as {T.show(par)[:60]}", fn.loc):
            # a value set to the default of its field is content: elements completed by name would get the stored one instead
            lossy = sorted(k_ for k_, v in dump_flags(par).items() if not harmless(k_, v, mini) or k_ == "exclude_defaults" and v != T.k(False))
            ctx.check(not lossy, "M02-store", f"{q}/parameters", f"content is filtered by {lossy}", fn.loc)
    ctx.check(rets, "M02-instance", q, "storing never succeeds")


def harmless(kw, v, mini):
    if kw in {"exclude_unset", "exclude_defaults"}:
        return v in {mini, T.k(False)}
    if kw in {"warnings", "round_trip"}:
        return True
    if kw == "mode":
        return v in {T.k("python"), T.k("json")}
    return v in {T.k(None), T.k(False)}


def loading(ctx, ci, fn):
    q = f"{ci.name}.from_file"
    outs = ctx.run(fn, names=("construct", "open", "safe_load"), keep=lambda a: True)
    rets = returns(outs)
    for o in rets:
        t = strip(o.term)
        ok = t[0] == "new" and t[1] == ci.qualname and len(t[2]) == 1 and t[2][0][0] == "*"
        if not ctx.check(ok, "M02-load", q, f"yields {T.show(t)[:80]}", fn.loc):
            continue
        par = strip(t[2][0][1])
        wrap = strip(par[1]) if par[0] in {"attr", "item"} else par
        ok = par[0] in {"attr", "item"} and (par[2] == "parameters" or par[2] == T.k("parameters"))
        ctx.check(ok, "M02-load", f"{q}/parameters", f"the model is built from {T.show(par)[:80]}", fn.loc)
        ok = T.contains(wrap, lambda x: len(x) > 1 and x[0] == "call" and isinstance(x[1], str) and x[1].startswith("yaml.")) and T.contains(wrap, lambda x: x == ("param", "path"))
        ctx.check(ok, "M02-load", f"{q}/file", "the model does not come from the given file", fn.loc)
        typ = [("attr", wrap, "datatype"), ("item", wrap, T.k("datatype"))]
        known = False
        for ty in typ:
            for nm in (T.k(ci.name), ("attr", ("cls", ci.qualname), "__name__")):
                a, p = F.cmp_atom("==", ty, nm)
                known |= o.facts.get(a) == p
        ctx.check(known, "M02-load", f"{q}/datatype", "loads a model without checking the stored type", fn.loc)
    ctx.check(rets, "M02-instance", q, "loading never succeeds")
