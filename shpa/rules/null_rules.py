"""E01 values that may be missing are never used as if they were there."""

import ast
import multiprocessing
import signal

from .. import terms as T
from ..absint import Interp
from ..calls import own_nodes
from ..prog import AnalysisError
from ..values import FALSE, TRUE
from . import rule

LIMIT = 150  # seconds for one function


def private(fi):
    return fi.name.startswith("_") and not fi.name.startswith("__")


def small(fi):
    n = [x for x in ast.walk(fi.node) if isinstance(x, ast.stmt)]
    return len(n) <= 12 and not any(isinstance(x, (ast.For, ast.While, ast.Try, ast.With)) for x in n)


class Absence:
    """Analysis of one function after the other, with summaries for the others."""

    def __init__(self, prog):
        self.prog = prog
        fs = [f for f in prog.all_functions()]
        called = self.referenced()
        # helpers are analysed where they are called, with what is known there
        self.entries = [f for f in fs if not (private(f) and f.name in called)]
        self.big = {f.qualname for f in fs if not private(f) and not small(f)}
        self.for_init = {q for q in self.big if not q.endswith(".__init__")}
        self.every = {f.qualname for f in fs if not private(f)}
        self.there = set()
        self._needs, self._gives = {}, {}
        self.established()

    def referenced(self):
        """Names that are used by functions (not only by the body of a module)."""
        out = set()
        for f in self.prog.all_functions():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    out.add(n.attr)
                elif isinstance(n, ast.Name):
                    out.add(n.id)
        return out

    def interp(self, fi, coarse=False):
        op = self.every if coarse else self.for_init if fi.name == "__init__" else self.big
        it = Interp(self.prog, ev_filter=lambda k, n: k == "absent", keep=None if coarse == 2 else lambda a: a[0] == "isnone", max_states=400, opaque=op - {fi.qualname})
        it.nullness = True
        it.always_there = self.there
        it.needs = self.needs
        it.gives_none = self.gives_none
        it.ext_hooks["hasattr"] = self.hasattr
        return it

    def hasattr(self, it, name, args, kws, st, node):
        """A new object has only the attributes that were stored before."""
        if len(args) != 2 or not it.stack[0].endswith(".__init__") or not T.is_k(it.term(args[1], st)) or it.ident(args[0]) != ("self",):
            return None
        ci = self.prog.func(it.stack[0]).cls
        attr = it.term(args[1], st)[2]
        return [(st, TRUE if (("self",), attr) in st.store or ci.find_method(attr) or ci.find_field(attr) else FALSE)]

    def established(self):
        """Attributes that are never None once the constructor is through, and never set to None later."""
        for ci in self.prog.all_classes():
            init = ci.methods.get("__init__")
            if ci.is_model or init is None:
                continue
            attrs = {n.attr for m in self.construction(ci) for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            attrs = {a for a in attrs if ci.may_store_none(a) and not self.reset(ci, a)}
            if not attrs:
                continue
            it = self.interp(init)
            try:
                outs = [o for o in it.run(init) if o.kind == "return"]
            except AnalysisError:
                continue
            for a in attrs:
                if outs and all((("self",), a) in o.st.store and not it.is_absent(o.st.store[(("self",), a)], o.st) for o in outs):
                    self.there |= {(c.qualname, a) for c in self.prog.all_classes() if c is ci or any(b is ci for b in c.mro() if not isinstance(b, str))}

    def construction(self, ci):
        """The constructor, with the private methods of the class that are only called from there."""
        parts = [m for m in ci.methods.values() if m.name == "__init__"]
        done = False
        while parts and not done:
            done = True
            for m in ci.methods.values():
                if m not in parts and private(m):
                    users = [f for f in self.prog.all_functions() if f is not m and any(isinstance(n, ast.Attribute) and n.attr == m.name for n in ast.walk(f.node))]
                    if users and all(u in parts for u in users):
                        parts.append(m)
                        done = False
        return parts

    def reset(self, ci, attr):
        for c in self.prog.all_classes():
            if c is not ci and not any(b is ci for b in c.mro() if not isinstance(b, str)) and not any(b is c for b in ci.mro() if not isinstance(b, str)):
                continue
            parts = self.construction(c)
            for m in c.methods.values():
                if m in parts:
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr:
                        return True
        return False

    def needs(self, fi, arg):
        """Does the function use this argument without looking whether it is there?"""
        k = (fi.qualname, arg)
        if k not in self._needs:
            self._needs[k] = False
            it = self.interp(fi, coarse=True)
            x = next(x for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs if x.arg == arg)
            ty = (self.prog.type_of(fi.module, x.annotation) if x.annotation is not None else None) or ("ext", "object")
            try:
                outs = it.run(fi, args={arg: it.param(arg, ("union", (ty, ("none",))))})
                self._needs[k] = any(e.args[0] == ("param", arg) for o in outs for e in o.events)
            except AnalysisError:
                pass
        return self._needs[k]

    @staticmethod
    def always_something(fn):
        """Every return statement has a value that is never None, and the last statement is one of them."""
        there = (ast.JoinedStr, ast.Compare, ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp, ast.DictComp, ast.SetComp)
        rets = [n for n in own_nodes(fn) if isinstance(n, ast.Return)]
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn)):
            return False
        return isinstance(fn.body[-1], ast.Return) and all(isinstance(r.value, there) or isinstance(r.value, ast.Constant) and r.value.value is not None for r in rets)

    def gives_none(self, fi):
        k = fi.qualname
        if k not in self._gives:
            self._gives[k] = True
            if self.always_something(fi.node):
                self._gives[k] = False
                return False
            it = self.interp(fi)
            try:
                self._gives[k] = any(o.kind == "return" and it.is_absent(o.val, o.st) for o in it.run(fi))
            except AnalysisError:
                pass
        return self._gives[k]

    def one(self, fi):
        """-> (uses that were looked at, violations, error)"""
        err = None
        for coarse in (0, 1, 2):
            it = self.interp(fi, coarse)
            try:
                outs = it.run(fi)
            except AnalysisError as e:
                err = str(e)
                continue
            bad = sorted({(e.loc, e.name, T.show(e.args[0])[:90], (e.stack or (fi.qualname,))[-1]) for o in outs for e in o.events}, key=str)
            return len(outs), sorted(it.uses), bad, None
        return 0, [], [], err


STATE = None


def work(qual):
    def stop(*_):
        raise AnalysisError("time is used up")

    signal.signal(signal.SIGALRM, stop)
    signal.alarm(LIMIT)
    try:
        return qual, STATE.one(STATE.prog.func(qual))
    except (AnalysisError, RecursionError) as e:
        return qual, (0, [], [], str(e))
    finally:
        signal.alarm(0)


@rule("E01", floor=300, technique="path-sensitive nullness analysis of every function: values that may be None by their declared type, default or lookup, with summaries for what other functions return, need and store")
def missing(ctx):
    """Every use (attribute, entry, calculation, order, iteration, call) of a value that may be None is preceded by a test on its path."""
    global STATE
    STATE = Absence(ctx.prog)
    quals = [f.qualname for f in STATE.entries]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = dict(pool.imap_unordered(work, quals))
    failed = []
    uses, seen = set(), set()
    for q in quals:
        paths, u, bad, err = res[q]
        fi = ctx.prog.func(q)
        ctx.functions.add(q)
        if err is not None:
            failed.append(q)
            ctx.note(f"{q}: not analysed ({err})")
            continue
        uses |= {tuple(x) for x in u}
        ctx.check(True, "E01-function", f"{q}: {paths} paths", "", fi.loc if hasattr(fi, "loc") else "")
        for loc, what, term, where in bad:
            if (loc, what, where) in seen:
                continue
            seen.add((loc, what, where))
            ctx.check(False, "E01-use", f"{where}: {what}", f"{term} may be missing here" if term != "None" else "nothing is there on a path that leads here", loc)
    for loc, what in sorted(uses):
        if not any(x[0] == loc and x[1] == what for x in seen):
            ctx.check(True, "E01-use", f"{loc}: {what}", "", loc)
    if len(failed) > len(quals) // 10:
        raise AnalysisError(f"{len(failed)} functions could not be analysed, first {failed[0]}")
    ctx.assume("entries of untyped containers and results of external functions are taken as present unless the lookup says otherwise")
