"""Command line of shepherd-data (P01)."""

import ast

from .. import facts as F
from .. import models as M
from .. import terms as T
from ..ctx import bound_args, raises, returns
from ..schema import const_num
from . import rule

CLI = "shepherd_data.cli"
BAD_FILE = ["TypeError", "ValueError", "KeyError", "OSError"]
OPTIONS = {"start_s": "start", "end_s": "end", "separator": "separator", "raw": "raw", "width": "width", "height": "height", "only_pwr": "only_power"}
FACTORS = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]


def dotted(n):
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else f"{b}.{n.attr}"
    return n.id if isinstance(n, ast.Name) else None


def commands(ctx):
    """functions that are registered as command and take a path"""
    m = ctx.prog.module(CLI)
    out = []
    for kind, f, *_ in (d for d in m.defs.values() if isinstance(d, tuple)):
        if kind == "func" and any((dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] == "command" for d in f.node.decorator_list):
            names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
            if "in_data" in names:
                out.append((f, names))
    return out


def reader_methods(ctx, skip=("__enter__", "__exit__")):
    return {m.qualname for m in ctx.prog.all_functions() if m.cls is not None and m.cls.name == "Reader" and m.name not in skip and not m.is_property}


def outer_loops(body):
    for n in body:
        if isinstance(n, ast.For):
            yield n
        elif not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for f in ("body", "orelse", "finalbody"):
                yield from outer_loops(getattr(n, f, []) or [])


def leaves(body):
    """statements which end a loop early"""
    for n in body:
        if isinstance(n, (ast.Break, ast.Return)):
            yield n
        elif isinstance(n, (ast.For, ast.While)):
            yield from (x for x in leaves(n.body + n.orelse) if isinstance(x, ast.Return))
        elif not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for f in ("body", "orelse", "finalbody"):
                yield from leaves(getattr(n, f, []) or [])
            for h in getattr(n, "handlers", []):
                yield from leaves(h.body)


def bval(t, env):
    """truth of a boolean term; None when unknown"""
    t = F._plain(t)
    if t in env:
        return env[t]
    if T.is_k(t):
        return bool(t[2])
    if t[0] in {"bitand", "bitor", "and", "or"}:
        a = [bval(x, env) for x in (t[1:] if not isinstance(t[1], tuple) or not t[1] or isinstance(t[1][0], str) else t[1])]
        stop = t[0] in {"bitor", "or"}
        return stop if stop in a else None if None in a else not stop
    if t[0] == "not":
        v = bval(t[1], env)
        return None if v is None else not v
    if t[0] in {"atom", "natom"}:
        v = aval(t[1], env)
        return None if v is None else v == (t[0] == "atom")
    if t[0] == "call" and t[1] in {"int", "bool"} and len(t[2]) == 1:
        return bval(t[2][0], env)
    return None


def aval(a, env):
    if a[0] == "true":
        return bval(a[1], env)
    if a[0] == "zero":
        v = bval(a[1], env)
        return None if v is None else not v
    return bval(a, env) if a in env else None


def rounds(o):
    """(events of a round, its carry event) for the outer loop of a path"""
    start = None
    for i, e in enumerate(o.events):
        if e.kind == "loop" and start is None:
            start = (i, e.name)
        if e.kind == "carry" and start is not None and e.name == start[1]:
            return o.events[start[0] + 1 : i], e
    return (o.events[start[0] + 1 :], None) if start is not None else ([], None)


@rule("P01", floor=60, technique="path-sensitive abstract interpretation of every command with every call into the reader failing at will; boolean case analysis of the exit code, loop-carried state, argument flow")
def command_line(ctx):
    """Every command over recordings is analysed with the reader's methods opaque, each of which may fail on a damaged
    file: no failure may leave the loop over the files, no state may flow from one file to the next, the options must
    arrive where they belong, and the exit code of the validation is judged for every combination of results."""
    prog = ctx.prog
    flist = f"{CLI}.path_to_flist"
    file_list(ctx, flist)
    cmds = commands(ctx)
    ctx.check(len(cmds) >= 7, "P01-instance", "commands", f"{[f.name for f, _ in cmds]}")
    opq = reader_methods(ctx)
    ctx.check(len(opq) >= 25, "P01-instance", "reader methods", f"{len(opq)}")
    files = ("call", flist, (("param", "in_data"),), (("recurse", ("param", "recurse")),))
    one = ("elem", files, 0)
    for fi, names in cmds:
        nm = fi.name
        keep = (lambda a: True) if nm == "validate" else (lambda a: T.contains(a, lambda x: x in {("param", "ds_factor"), ("param", "sample_rate"), ("param", "multiplot")}))
        it = ctx.interp(opaque=opq | {flist, "shepherd_core.logger.get_verbose_level"}, keep=keep, unroll=3)
        it.ev_filter = lambda k, n: True
        it.throws = {q: BAD_FILE for q in opq}
        outs = ctx.run(fi, it=it)
        for lp in outer_loops(fi.node.body):
            for x in leaves(lp.body):
                ctx.check(False, "P01-every", nm, "the remaining files are not processed", loc=f"{fi.module.rel}:{x.lineno}")
        # failures
        for o in raises(outs):
            if o.exc.name in BAD_FILE:
                if o.exc.name == "ValueError" and not o.events:
                    continue
                inside = any(e.kind == "loop" for e in o.events) and any(e.kind == "construct" for e in o.events)
                ctx.check(not inside or _after(o), "P01-isolate", f"{nm}: {o.exc.name}", "a damaged file ends the whole command: the remaining ones are not processed", loc=str(o.exc.loc))
        ctx.check(True, "P01-isolate", nm)
        # each file once
        done = [o for o in outs if o.exc is None or o.exc.name == "SystemExit"]
        opened = 0
        for o in done:
            evs, carry = rounds(o)
            if not any(e.kind == "loop" for e in o.events):
                continue
            got = [e for e in evs if e.kind == "construct" and e.name.endswith(".Reader")]
            mine = [e for e in got if e.args and e.args[0] == one]
            ctx.check(len(mine) == 1, "P01-every", nm, f"a file of the list is opened {len(mine)} times")
            opened += len(mine)
            for e in got:
                if e in mine:
                    continue
                src = e.args[0] if e.args else ("k",)
                ctx.check(src[0] == "call" and src[1].endswith(".cut_and_downsample_to_file"), "P01-every", f"{nm}: other file", f"another file is opened: {T.show(src)[:80]}")
            arguments(ctx, nm, names, evs)
            # nothing but collected data flows from file to file
            for e in evs:
                if e.kind == "call" and ".Reader." in e.name and not e.name.endswith("multiplot_to_file"):
                    ctx.check(not any(T.contains(x, lambda y: y[:1] == ("lv",)) for x in (*e.args[1:], *(v for _, v in _kws(e)))), "P01-carry", f"{nm}: {e.name.split('.')[-1]}", "depends on the files before")
        ctx.check(opened > 0, "P01-instance", f"{nm}: opened", "no file is opened")
        if nm == "validate":
            exit_code(ctx, outs)
        elif not any(e.name.endswith(("is_valid",)) for o in done for e in o.events if e.kind == "call"):
            work(ctx, nm, names, done)


def _kws(e):
    return tuple(e.kws.items()) if isinstance(e.kws, dict) else tuple(e.kws)


def _after(o):
    """raised after the loop over the files has ended"""
    return rounds(o)[1] is not None and o.events[-1].kind not in {"carry"} and not o.events[-1].loops


def file_list(ctx, flist):
    fi = ctx.func(flist)
    pn = fi.node.args.args[0].arg
    outs = returns(ctx.run(fi, names=(), keep=lambda a: True, star_facts=True))
    ctx.check(not raises(outs) and len(outs) >= 3, "P01-instance", "list of files", f"{len(outs)} paths")
    seen = set()
    for o in outs:
        isf = isd = h5 = None
        for a, v in o.facts.items():
            if a[0] == "true" and a[1][0] == "mcall" and T.contains(a[1][1], lambda x: x == ("param", pn)):
                if a[1][2] == "is_file" and not T.contains(a[1], lambda x: x[:1] == ("elem",)):
                    isf = v
                if a[1][2] == "is_dir":
                    isd = v
            if a[0] == "eq" and F._plain(a[2]) == T.k(".h5"):
                h5 = v
        els = M.elements(o.term)
        if isf and h5:
            seen.add("file")
            ok = els is not None and len(els) == 1 and not els[0][1] and _same_path(els[0][0], pn)
            ctx.check(ok, "P01-list", "a file", f"yields {T.show(o.term)[:100]}")
        elif isd:
            seen.add("dir")
            rec = o.facts.get(("true", ("param", "recurse")))
            ok = False
            if els is not None and len(els) == 1:
                val, when = els[0]
                if val[0] == "elem":
                    g = val[1]
                    while g[0] == "call" and g[1] in {"list", "sorted"}:
                        g = g[2][0]
                    pat = _pattern(g, pn)
                    want = {True: ("**/*.h5",), False: ("*.h5",), None: ()}[rec]
                    conds = [a for a, v in when]
                    ok = pat in want and all(a[0] == "true" and a[1] == ("mcall", val, "is_file", (), ()) and v for a, v in when) and bool(conds)
            ctx.check(ok, "P01-list", f"a directory, sub-folders {rec}", f"yields {T.show(o.term)[:140]}")
        else:
            seen.add("none")
            ctx.check(els == [], "P01-list", "neither", f"yields {T.show(o.term)[:100]}")
    ctx.check(seen == {"file", "dir", "none"}, "P01-instance", "kinds of path", f"{seen}")


def _same_path(t, pn):
    while t[0] in {"mcall", "path", "call"}:
        if t[0] == "mcall" and t[2] in {"resolve", "absolute"}:
            t = t[1]
        elif t[0] == "path":
            t = t[1]
        elif t[0] == "call" and t[1].split(".")[-1] == "Path" and len(t[2]) == 1:
            t = t[2][0]
        else:
            return False
    return t == ("param", pn)


def _pattern(g, pn):
    if g[0] == "mcall" and g[2] in {"glob", "rglob"} and _same_path(g[1], pn) and len(g[3]) == 1:
        p = F._plain(g[3][0])
        if T.is_k(p):
            return p[2] if g[2] == "glob" else "**/" + p[2]
    return None


def exit_code(ctx, outs):
    """zero exactly when every file was opened, valid and without time jump: all
    states the flags can be in after any sequence of files are enumerated"""
    n = 0
    cases = set()
    rnds = []  # what one round can look like
    starts = []
    for o in outs:
        if o.exc is not None and o.exc.name != "SystemExit":
            continue
        evs, carry = rounds(o)
        code = next((e for e in reversed(o.events) if e.kind == "exit" or e.name == "exit"), None)
        term = T.k(0) if code is None or not code.args else code.args[0]
        if not any(e.kind == "loop" for e in o.events):
            n += 1
            cases.add("none")
            got = bval(term, {})
            ctx.check(got is False, "P01-exit", "no file", f"exit code is {'unknown' if got is None else 'non-zero'}")
            continue
        res = {}
        for e in evs:
            if e.kind == "call" and e.name.split(".")[-1] in {"is_valid", "check_timediffs"}:
                res[e.name.split(".")[-1]] = e.res
        failed = any(e.kind in {"thrown", "caught"} for e in evs)
        after = dict(_kws(carry)) if carry else None
        lvs = set()
        for t in [term, *(after or {}).values(), *o.facts]:
            lvs |= {x for x in T.subterms(t) if x[:1] == ("lv",)}
        # the flags which tell about the files before: start as given before the loop
        start = {}
        for e in o.events:
            if e.kind == "loop":
                start = dict(_kws(e))
        if start not in starts:
            starts.append(start)
        rnds.append((o, term, res, failed, after, lvs))
    names = sorted({x[2] for r in rnds for x in r[5]}, key=repr)
    todo = [(tuple(bval(st[v], {}) if v in st else None for v in names), True) for st in starts]
    seen = set(todo)
    while todo and len(seen) < 300:
        state, before = todo.pop()
        flags = dict(zip(names, state))
        for o, term, res, failed, after, lvs in rnds:
            env = {x: flags[x[2]] for x in lvs}
            for valid in (True, False) if "is_valid" in res else (None,):
                for steps in (True, False) if "check_timediffs" in res else (None,):
                    ev = dict(env)
                    if valid is not None:
                        ev[res["is_valid"]] = valid
                    if steps is not None:
                        ev[res["check_timediffs"]] = steps
                    if any(aval(a, ev) not in {None, v} for a, v in o.facts.items()):
                        continue
                    ok = before and not failed and valid is True and steps is True
                    got = bval(term, ev)
                    cases.add((before, valid, steps, failed))
                    n += 1
                    what = f"files before {'fine' if before else 'bad'}, this one {'damaged' if failed else f'valid={valid} steps={steps}'}"
                    ctx.check(got is (not ok), "P01-exit", what, f"exit code is {'unknown' if got is None else 'non-zero' if got else 'zero'}")
                    if after is not None:
                        nxt = (tuple(bval(after[v], ev) if v in after else flags[v] for v in names), ok)
                        if nxt not in seen:
                            seen.add(nxt)
                            todo.append(nxt)
    ctx.check(n >= 8 and any(c[3] for c in cases - {"none"}) and {(True, True, True, False), (False, True, True, False)} <= cases, "P01-instance", "exit code", f"{n} cases")


def arguments(ctx, nm, names, evs):
    for e in evs:
        if e.kind != "call" or ".Reader." not in e.name:
            continue
        b = bound_args(ctx.prog, e)
        for p, opt in OPTIONS.items():
            if opt not in names or p not in _params(ctx, e.name):
                continue
            ctx.check(b.get(p) == ("param", opt), "P01-option", f"{nm}: {e.name.split('.')[-1]}({p})", f"option '{opt}' does not arrive: {T.show(b[p])[:60] if p in b else 'not given'}")


def _params(ctx, qual):
    a = ctx.prog.func(qual).node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def work(ctx, nm, names, done):
    """what is done with each readable file"""
    if "ds_factor" in names:
        factor(ctx, nm, names, done)
    written(ctx, nm, names, done)
    full = [o for o in done if any(e.kind == "construct" for e in o.events)]
    kinds = set()
    for o in full:
        kinds |= {e.name.split(".")[-1] for e in rounds(o)[0] if e.kind == "call" and ".Reader." in e.name}
    if nm == "extract_uart":
        uart_lines(ctx, nm, done)
    if nm == "plot":
        multi = ("param", "multiplot")
        shown = False
        for o in full:
            evs, _ = rounds(o)
            here = {e.name.split(".")[-1] for e in evs if e.kind == "call" and ".Reader." in e.name}
            late = [e for e in o.events if e.kind == "call" and e.name.endswith("multiplot_to_file")]
            one = "plot_to_file" in here
            ctx.check(not (one and late), "P01-plot", "kind of plot", "a single and a common plot are made")
            arguments(ctx, nm, names, late)
            for e in late:
                els = M.elements(bound_args(ctx.prog, e).get("data", ("k",)))
                none = not any(e.kind == "loop" for e in o.events) or any(x.kind in {"caught", "thrown"} for x in evs) or any(a[0] == "isnone" and v and a[1][0] == "call" and a[1][1].endswith(".generate_plot_data") for a, v in o.facts.items())
                shown |= bool(els)
                raw = bound_args(ctx.prog, e).get("data", ("k",))
                if raw[0] == "list" and els:
                    ctx.check(any(x[0] == "star" for x in raw[1]), "P01-plot", "common plot", "only shows one file")
                ctx.check(els is None or (bool(els) or none) and all(x[0] == "call" and x[1].endswith(".generate_plot_data") for x, _ in els), "P01-plot", "common plot", "does not show all files")
            if late:
                ctx.check(o.facts.get(("true", multi)) is True, "P01-plot", "common plot", "made without being asked for")
            elif o.facts.get(("true", multi)) is False:
                ctx.check("generate_plot_data" not in here, "P01-plot", "single plots", "files are not plotted")
        ctx.check(shown and {"plot_to_file", "generate_plot_data"} <= kinds, "P01-instance", "plot", f"{kinds}")
    need = {"extract": {"cut_and_downsample_to_file", "save_csv"}, "extract_meta": {"save_metadata", "save_csv", "save_log"}, "extract_uart": {"gpio_to_uart"}, "extract_gpio": {"gpio_to_waveforms", "waveform_to_csv"}, "downsample": {"cut_and_downsample_to_file"}, "plot": {"plot_to_file", "generate_plot_data"}}.get(nm, set())
    ctx.check(need <= kinds, "P01-work", nm, f"does not do its work, only {sorted(kinds)}")
    for o in full:
        for e in rounds(o)[0]:
            if e.kind != "call" or ".Reader." not in e.name:
                continue
            b = bound_args(ctx.prog, e)
            short = e.name.split(".")[-1]
            if short in {"save_csv", "save_log"} and nm == "extract_meta":
                d = b.get("data", b.get("h5_group", ("k",)))
                key = d[2][1] if d[0] == "call" and len(d[2]) == 2 else None
                ctx.check(any(a[0] == "in" and a[1] == key and v for a, v in e.facts.items()), "P01-work", f"{nm}: {short}", f"another group is stored than the one that was found: {T.show(d)[:60]}")
            if short == "waveform_to_csv":
                src = [v for k, v in b.items() if k != "self"][:2]
                ok = len(src) == 2 and _key_and_value(src[0], src[1])
                ctx.check(ok, "P01-work", f"{nm}: waveform", f"a name is stored with another waveform: {T.show(src[0])[:60]} / {T.show(src[1])[:60]}")


def written(ctx, nm, names, done):
    """files the commands write on their own"""
    for o in done:
        for e in rounds(o)[0]:
            if e.kind not in {"mcall", "call", "ext"} or e.name.split(".")[-1] not in {"open", "write_text", "write_bytes"}:
                continue
            mode = F._plain(e.args[0]) if e.name.endswith("open") and e.args else T.k("r") if e.name.endswith("open") else T.k("w")
            if mode == T.k("r"):
                continue
            p = e.recv
            ok = p is not None and p[0] == "mcall" and p[2] == "with_suffix" and T.is_k(F._plain(p[3][0])) and F._plain(p[3][0])[2] not in {"", ".h5"}
            there = any(a[0] == "true" and a[1] == ("mcall", p, "exists", (), ()) and not v for a, v in e.facts.items())
            ctx.check(ok and there, "P01-output", nm, f"might overwrite {T.show(p)[:80] if p else '?'}")


def uart_lines(ctx, nm, done):
    """time and text of each line of the UART come from the same entry"""
    seen = set()
    for o in done:
        for e in rounds(o)[0]:
            if e.kind != "mcall" or e.name != "write" or not e.args:
                continue
            for x in T.subterms(e.args[0]):
                if x[:1] == ("item",) and x[1][:1] == ("elem",) and T.contains(x[1], lambda y: y[:1] == ("call",) and y[1].endswith(".gpio_to_uart")):
                    when = T.contains(e.args[0], lambda y: y[:1] == ("call",) and y[1].endswith(".fromtimestamp"))
                    k = F._plain(x[2])
                    seen.add(k)
                    ctx.check(k == T.k(0 if when else 1), "P01-work", f"{nm}: {'time' if when else 'text'}", f"written is {T.show(x)[:60]}")
    ctx.check(len(seen) == 2, "P01-instance", f"{nm}: lines", f"{len(seen)} parts")


def _key_and_value(a, b):
    if a[0] == "key" and b[0] in {"val", "item"}:
        return a[1:] == b[1:] or b[1] == a[1]
    if a[0] == "item" and b[0] == "item" and a[1] == b[1]:
        return (F._plain(a[2]), F._plain(b[2])) == (T.k(0), T.k(1))
    if a[0] == "elem":
        return b[0] in {"item", "get"} and b[2] == a
    return False


def factor(ctx, nm, names, done):
    """the factor for down-sampling: the option, or the one that gives the requested rate, or the series"""
    ds, rate = ("param", "ds_factor"), ("param", "sample_rate")
    seen = set()
    for o in done:
        for e in rounds(o)[0]:
            if e.kind != "call" or not e.name.endswith(".cut_and_downsample_to_file"):
                continue
            b = bound_args(ctx.prog, e)
            f = b.get("ds_factor")
            facts = e.facts
            given = not facts.get(("isnone", ds), False)
            low = F.decide(facts, F.pos(T.sub(T.k(1), ds)))
            els = _entries(f)
            if "sample_rate" not in names:
                odd = low is True or any(a[0] == "isa" and a[1] == ds and not v for a, v in facts.items())
                ok = f == ds and low is not True or T.is_k(F._plain(f)) and F._plain(f)[2] >= 1 and odd
                ctx.check(ok, "P01-factor", nm, f"down-sampled by {T.show(f)[:60]}")
                seen.add("given")
            elif given and low is False:
                seen.add("given")
                ctx.check(f == ds or els == [ds], "P01-factor", f"{nm} factor given", f"down-sampled by {T.show(f)[:80]}")
            elif not given and facts.get(("isnone", rate)) is False and els is not None and len(els) == 1 or (f is not None and f[0] == "poly"):
                x = els[0] if els else f
                p = T.to_poly(x)
                ms = list(p.items())
                ok = len(ms) == 1 and ms[0][1] == 1 and dict((t[-1] if t[0] == "attr" else t, n) for t, n in ms[0][0]) == {"samplerate_sps": 1, rate: -1}
                seen.add("rate")
                ctx.check(ok, "P01-factor", f"{nm} rate given", f"down-sampled by {T.show(x)[:80]}")
            elif els is not None:
                vals = [F._plain(x)[2] if T.is_k(F._plain(x)) else None for x in els]
                seen.add("series")
                ctx.check(len(vals) >= 2 and None not in vals and sorted(set(vals)) == vals and vals[0] > 1, "P01-factor", f"{nm} series", f"down-sampled by {vals}")
    ctx.check(("given" in seen) and ("sample_rate" not in names or {"rate", "series"} <= seen), "P01-instance", f"{nm}: factor", f"{seen}")


def _entries(f):
    if f is None or f[0] != "elem":
        return None
    els = M.elements(f[1])
    return None if els is None else [x for x, _ in els]
