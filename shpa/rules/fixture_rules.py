"""D02 loading of stored elements."""

from .. import facts as F
from .. import terms as T
from ..ctx import returns
from ..models import fld
from . import rule
from .effect_rules import _lowered
from .task_rules import call_args, strip
from .vsource_rules import attrs_after

DAY = 24 * 60 * 60


def known(o, e, pred, value):
    """a fact of this kind holds where e happens"""
    return any(v is value and pred(a) for a, v in (e.facts if e is not None else o.facts).items())


def method(a, name):
    """a call of a method of a path as condition"""
    return a[0] == "true" and a[1][0] == "mcall" and a[1][2] == name


def opened(t):
    """path of the file this term was opened from, and its mode"""
    for x in T.subterms(t):
        if x[:1] == ("mcall",) and x[2] == "open":
            return x[1], (x[3][0] if x[3] else dict(x[4]).get("mode", T.k("r")))
        if x[:2] == ("call", "open") and x[2]:
            return x[2][0], (x[2][1] if len(x[2]) > 1 else dict(x[3]).get("mode", T.k("r")))
    return None


@rule("D02", floor=40, technique="path-sensitive abstract interpretation of loading, caching and insertion of fixtures")
def loading(ctx):
    """Every way through the constructor is either a load of the cache, allowed only with the facts of the statement, or one
    insertion per file found; every insertion keeps what is there."""
    prog = ctx.prog
    fxs, fx = ctx.cls("Fixtures"), ctx.cls("Fixture")
    q = fxs.qualname
    par = ("param", "file_path")
    opq = {f"{q}.insert_file"}
    outs = ctx.run(f"{q}.__init__", names=("call", "mcall", "open", "load", "dump", "loop", "carry", "setattr", "setitem"), opaque=opq, keep=lambda a: True, want_setattr=True)
    n_load = n_file = n_dir = n_bad = 0
    caches = set()
    for o in outs:
        none = known(o, None, lambda a: a == ("isnone", par), True)
        given = known(o, None, lambda a: a == ("isnone", par), False)
        isfile = known(o, None, lambda a: method(a, "is_file"), True)
        isdir = known(o, None, lambda a: method(a, "is_dir"), True)
        neither = known(o, None, lambda a: method(a, "is_file"), False) and known(o, None, lambda a: method(a, "is_dir"), False)
        if o.kind != "return":
            ctx.check(o.exc is not None and (neither or o.exc.name == "?"), "D02-path", "constructor", f"raises {o.exc.name if o.exc else ''} for a proper path")
            n_bad += bool(neither)
            continue
        ctx.check(not neither, "D02-path", "neither file nor folder", "a path that leads nowhere is accepted")
        comp = attrs_after(o).get("components")
        cached = comp is not None and T.contains(comp, lambda x: x[:1] == ("call",) and x[1] in {"pickle.load", "pickle.loads"})
        inserts = [e for e in o.events if e.kind == "call" and e.name == f"{q}.insert_file"]
        if cached:
            n_load += 1
            what = "cached copy"
            e = next(e for e in o.events if e.kind == "setattr" and e.name == "components" and e.args[0] == comp)
            ctx.check(known(o, e, lambda a: a == ("isnone", par), True), "D02-cache", what, "the cached copy is used although a path was given", e.loc)
            ctx.check(known(o, e, lambda a: a == ("true", ("param", "reset")), False), "D02-cache", what, "the cached copy is used although a reset was requested", e.loc)
            age = [young(a, v) for a, v in e.facts.items()]
            ctx.check(any(age), "D02-cache", what, "the cached copy is used whatever its age", e.loc)
            got = opened(comp)
            ctx.check(got is not None, "D02-cache", what, "not read from a file", e.loc)
            if got:
                caches.add(strip(got[0]))
                ctx.check(any(v is True and method(a, "exists") and a[1][1] == got[0] for a, v in e.facts.items()), "D02-cache", what, "the cached copy may not exist", e.loc)
                ctx.check(not any(age) or strip(got[0]) in [strip(x) for x in age if x], "D02-cache", what, "the age of another file is checked", e.loc)
            ctx.check(not inserts, "D02-cache", what, "elements are mixed with those of the cached copy", e.loc)
            continue
        ctx.check(comp is not None and strip(comp)[0] == "dict" or comp is not None and T.contains(comp, lambda x: x[:1] == ("dict",)), "D02-fresh", "components", f"starts with {T.show(comp)[:60] if comp else 'nothing'}")
        ctx.check(none or given, "D02-path", "default", "given and default path are not told apart")
        if isfile:
            n_file += 1
            ok = len(inserts) == 1 and not inserts[0].loops
            p = arg(inserts[0]) if inserts else None
            ctx.check(ok and right(p, none, par), "D02-file", "single file", f"inserts {[T.show(arg(e))[:60] for e in inserts]}")
        elif isdir:
            n_dir += 1
            if not any(e.kind == "loop" for e in o.events):
                continue
            ctx.check(any(e.kind == "carry" for e in o.events), "D02-folder", "every file", "ends before the last file")
            ok = len(inserts) == 1 and len(inserts[0].loops) == 1
            p = arg(inserts[0]) if inserts else None
            ctx.check(ok and p[0] == "elem" and right(folder(p[1]), none, par), "D02-folder", "every file", f"inserts {[T.show(arg(e))[:90] for e in inserts]}")
        else:
            ctx.fail("D02-path", "constructor", "elements come from something that is no file or folder")
        for e in o.events:
            if e.kind == "call" and e.name in {"pickle.dump", "pickle.dumps"} and e.args:
                ctx.check(none, "D02-cache", "storing", "elements of another path are cached", e.loc)
                got = opened(T.k(0) if len(e.args) < 2 else e.args[1])
                ctx.check(got is not None and (not caches or strip(got[0]) in caches), "D02-cache", "storing", "cached in another file than it is read from", e.loc)
                later = [x for x in inserts if o.events.index(x) > o.events.index(e)]
                ctx.check(not later, "D02-cache", "storing", "cached before all elements are loaded", e.loc)
    ctx.check(n_file and n_dir and n_bad, "D02-instance", "constructor", f"{n_load} cached, {n_file} file, {n_dir} folder, {n_bad} refused")
    iteration(ctx, fx)
    # one file
    wr = ctx.cls("Wrapper").qualname
    outs = ctx.run(f"{q}.insert_file", names=("call", "loop", "carry", "construct", "setitem"), opaque={f"{q}.insert_model"}, keep=lambda a: True)
    n = 0
    for o in outs:
        if o.kind != "return":
            ctx.check(o.exc is not None and o.exc.name == "?", "D02-elements", "file", f"raises {o.exc.name if o.exc else ''}")
            continue
        if not any(e.kind == "loop" for e in o.events):
            continue
        ins = [e for e in o.events if e.kind == "call" and e.name == f"{q}.insert_model"]
        ctx.check(any(e.kind == "carry" for e in o.events), "D02-elements", "every element", f"ends before the last element: {show(o.facts)}")
        nodict = any(v is False and a[0] == "isinst" and a[1][0] == "elem" and a[2] in {"dict", "Mapping", "typing.Mapping", "collections.abc.Mapping", ("cls", "dict")} for a, v in o.facts.items())
        if nodict:
            ctx.check(not ins, "D02-elements", "no dict", "something that is no element is inserted")
            continue
        n += 1
        if not ctx.check(len(ins) == 1, "D02-elements", "every element", f"{len(ins)} insertions for an element of a file: {show(o.facts)}"):
            continue
        m = call_args(prog, ins[0].res).get("data", T.k(None))
        src = m
        ok = m[0] == "new" and m[1] == wr
        el = next((x for x in T.subterms(src) if x[:1] == ("elem",)), None)
        ok = ok and el is not None and strip(el[1])[0] in {"call", "item"} and T.contains(el[1], lambda x: x[:1] == ("call",) and x[1] in {"yaml.safe_load", "yaml.load"})
        got = opened(el[1]) if el is not None else None
        ctx.check(ok and got is not None and got[0] == ("param", "file"), "D02-elements", "every element", f"inserts {T.show(m)[:100]}", ins[0].loc)
    ctx.check(n >= 1, "D02-instance", "file", "no insertion found")
    # one element
    fi = f"{fx.qualname}.insert"
    low = ("mcall", ("attr", ("param", "data"), "datatype"), "lower", (), ())
    n = 0
    for o in ctx.run(f"{q}.insert_model", names=("call", "setitem", "construct", "setdefault", "pop", "clear", "setattr"), opaque={fi}, keep=lambda a: True, want_setattr=True):
        if o.kind != "return":
            ctx.check(o.exc is not None and o.exc.name == "?", "D02-insert", "element", f"raises {o.exc.name if o.exc else ''}")
            continue
        n += 1
        ins = [e for e in o.events if e.kind == "call" and e.name == fi]
        if not ctx.check(len(ins) == 1, "D02-insert", "element", f"{len(ins)} insertions"):
            continue
        tgt, what = strip(ins[0].args[0]), strip(call_args(prog, ins[0].res).get("data", T.k(None)))
        sets = [e for e in o.events if e.kind == "setitem" and e.recv == fld("components")]
        to = tgt[1] == fld("components") and tgt[2] == low if tgt[0] in {"item", "get"} else any(strip(e.args[1]) == tgt or e.args[1] == ins[0].args[0] for e in sets) if tgt[0] in {"new", "obj"} else T.contains(tgt, lambda x: x == fld("components")) and T.contains(tgt, lambda x: x == low)
        ctx.check(to and what == ("param", "data"), "D02-insert", "element", f"{T.show(what)[:50]} is inserted to {T.show(tgt)[:80]}", ins[0].loc)
        for e in sets:
            new = any((a[0] == "isnone" and v is True or a[0] == "in" and v is False and a[2] == fld("components") or a[0] in {"true", "none"} and v is (a[0] == "none")) and T.contains(a, lambda x: x == fld("components")) and T.contains(a, lambda x: x == low) for a, v in e.facts.items())
            ctx.check(new, "D02-insert", "type", "elements inserted before are lost", e.loc)
            ctx.check(e.args[0] == low, "D02-insert", "type", f"stored under {T.show(e.args[0])[:60]}", e.loc)
            val = strip(e.args[1])
            made = [c for c in o.events if c.kind == "construct" and c.name == fx.qualname]
            ok = val[0] in {"new", "obj"} and val[1] == fx.qualname and any(T.contains(v, lambda x: x == ("attr", ("param", "data"), "datatype")) for c in made for v in [*c.args, *dict(c.kws).values()])
            ctx.check(ok, "D02-insert", "type", f"a new collection is {T.show(val)[:80]}", e.loc)
        for e in o.events:
            ctx.check(not (e.name in {"pop", "clear"} and e.recv == fld("components")) and not (e.kind == "setattr" and e.name == "components"), "D02-insert", "element", "inserting removes other elements", e.loc)
    ctx.check(n >= 1, "D02-instance", "element", "never inserted")
    # access by type
    n = 0
    for o in ctx.run(f"{q}.__getitem__", names=(), keep=lambda a: True):
        if o.kind != "return":
            ctx.check(o.exc is not None and o.exc.name in {"ValueError", "KeyError", "?"}, "D02-type", "unknown type", f"yields {o.exc.name if o.exc else ''}")
            continue
        n += 1
        t = strip(o.term)
        ok = t[0] == "item" and t[1] == fld("components") and T.contains(t[2], _lowered) and T.contains(t[2], lambda x: x == ("param", "key"))
        ctx.check(ok, "D02-type", "access", f"yields {T.show(o.term)[:80]}")
    ctx.check(n >= 1, "D02-instance", "access", "never finds a type")


def values_of(t):
    """all entries of the stored elements"""
    t = strip(t)
    while t[0] in {"seq", "iter"} or t[0] == "call" and t[1] in {"list", "iter", "tuple"} and t[2]:
        t = strip(t[1] if t[0] != "call" else t[2][0])
    return t[0] == "mcall" and t[2] == "values" and t[1] in {fld("elements_by_name"), fld("elements_by_id")}


def iteration(ctx, fx):
    """going through a type begins at the first element, ends after the last and leaves none out"""
    q = fx.qualname
    for o in returns(ctx.run(f"{q}.__iter__", names=("setattr",), keep=lambda a: True, want_setattr=True)):
        if o.term != ("self",):
            ctx.check(values_of(o.term), "D02-iterate", "begin", f"goes through {T.show(o.term)[:80]}")
            continue
        first = attrs_after(o)
        if "__next__" not in fx.methods:
            ctx.fail("D02-iterate", "begin", "there is no next element")
            return
        n = {"item": 0, "end": 0}
        for x in ctx.run(f"{q}.__next__", names=("setattr",), keep=lambda a: True, want_setattr=True):
            if x.kind != "return":
                if x.exc is not None and x.exc.name == "StopIteration":
                    n["end"] += 1
                    done = any(F_done(a, v, first) for a, v in x.facts.items())
                    ctx.check(done, "D02-iterate", "end", f"ends while {show(x.facts)}")
                continue
            n["item"] += 1
            t = x.term
            ok = t[0] == "item" and t[1][0] == "attr" and t[2][0] == "attr"
            if not ctx.check(ok, "D02-iterate", "next", f"yields {T.show(t)[:80]}"):
                continue
            lst, idx = t[1][2], t[2][2]
            ctx.check(values_of(first.get(lst, T.k(None))), "D02-iterate", "begin", f"goes through {T.show(first.get(lst, T.k(None)))[:60]}")
            ctx.check(first.get(idx) == T.k(0), "D02-iterate", "begin", f"begins at {T.show(first.get(idx, T.k(None)))[:40]}")
            ctx.check(attrs_after(x).get(idx) == T.add(t[2], T.k(1)), "D02-iterate", "next", f"continues with {T.show(attrs_after(x).get(idx, T.k(None)))[:60]}")
            inside = any(a == ("pos", T.sub(("len", t[1]), t[2])) and v for a, v in x.facts.items()) or any(F_done(a, not v, first) for a, v in x.facts.items())
            ctx.check(inside, "D02-iterate", "next", f"yields an element while {show(x.facts)}")
        ctx.check(n["item"] and n["end"], "D02-instance", "iteration", f"{n}")


def F_done(a, v, first):
    """the position is at or behind the end of the list"""
    if a[0] not in {"pos", "zero"}:
        return False
    p = T.to_poly(a[1])
    co = {}
    for mono, c in p.items():
        if not mono:
            co["1"] = c
            continue
        x = mono[0][0]
        if x[0] == "attr" and x[1] == ("self",):
            co["idx"] = c
        elif T.contains(x, lambda y: y[:1] == ("attr",) and y[2] in first):
            co["len"] = c
    if a[0] == "zero":
        return v and co in ({"idx": 1, "len": -1}, {"idx": -1, "len": 1})
    return not v and co == {"idx": -1, "len": 1} or v and co == {"idx": 1, "len": -1, "1": 1}


def young(a, v):
    """the file which is known to be changed less than one day ago: not (now - limit > changed)"""
    if a[0] != "pos":
        return None
    sign = -1 if v else 1
    path, now, limit, other = None, None, T.frac(0), False
    for mono, c in T.to_poly(a[1]).items():
        c = c * sign
        if not mono:
            limit = -c
            continue
        x = mono[0][0]
        if T.contains(x, lambda y: y[:1] == ("attr",) and y[2] == "st_mtime"):
            stat = next(y[1] for y in T.subterms(x) if y[:1] == ("attr",) and y[2] == "st_mtime")
            path = stat[1] if stat[0] == "mcall" and stat[2] == "stat" and c == -1 else None
        elif str(x[1] if x[0] in {"call", "ext"} else x[2] if x[0] == "mcall" else "").split(".")[-1] in {"now", "time", "local_now"}:
            now = c
        else:
            other = True
    return path if path is not None and now == 1 and not other and 0 <= limit <= DAY else None


def arg(e):
    a = e.args[1:] if e.args and e.args[0] == ("self",) else e.args
    return a[0] if a else dict(e.kws if isinstance(e.kws, (list, tuple)) else e.kws.items()).get("file", T.k(None))


def right(p, none, par):
    """the path that was asked for"""
    if p is None:
        return False
    p = strip(p)
    if none:
        return not T.contains(p, lambda x: x == par) and T.contains(p, lambda x: x == T.k("data_models"))
    return p == par


def folder(t):
    """the folder of which these are all fixture files"""
    t = strip(t)
    while t[0] in {"list", "seq", "call"} and t[0] != "mcall":
        if t[0] == "call" and t[1] in {"list", "sorted", "tuple"} and t[2]:
            t = t[2][0]
        elif t[0] == "seq":
            t = t[1]
        else:
            return None
    if t[0] == "mcall" and t[2] in {"glob", "rglob"} and len(t[3]) == 1:
        p = F._plain(t[3][0])
        if T.is_k(p) and ("**/" + p[2] if t[2] == "rglob" else p[2]) == "**/*.yaml":
            return t[1]
    return None


def show(fs):
    return ", ".join(("" if v else "not ") + T.show(a)[:60] for a, v in fs.items())[:200]
