"""Statement part of the abstract interpreter."""

import ast
import builtins

from . import facts as F
from . import terms as T
from .values import NONE, Cls, Exc, Ext, Fn, HObj, K, Ref, S, Star, Tup, copied

def _caught(e):
    """names of the exceptions a handler catches"""
    if e is None:
        return ["BaseException"]
    if isinstance(e, ast.Tuple):
        return [x for y in e.elts for x in _caught(y)]
    if isinstance(e, ast.Attribute):
        return [e.attr]
    return [e.id] if isinstance(e, ast.Name) else []


SWALLOW = {"contextlib.suppress", "suppress"}


class StmtMixin:
    # outcomes: list of (kind, state, value)
    def exec_block(self, body, st):
        cur = [st]
        done = []
        for stmt in body:
            nxt = []
            for s in cur:
                for kind, s2, v in self.exec(stmt, s):
                    if kind == "normal":
                        nxt.append(s2)
                    else:
                        done.append((kind, s2, v))
            cur = self.merge_states(nxt)
            if not cur:
                break
        return done + [("normal", s, None) for s in cur]

    def exec(self, stmt, st):
        m = getattr(self, "do_" + type(stmt).__name__, None)
        if m is None:
            return [("normal", st, None)]
        self.steps += 1
        if self.steps > self.max_steps:
            from .prog import AnalysisError

            raise AnalysisError(f"analysis budget exceeded in {self.stack[:3]} at {self.loc(stmt)}")
        return m(stmt, st)

    def do_Pass(self, n, st):
        return [("normal", st, None)]

    do_Import = do_ImportFrom = do_Nonlocal = do_Pass

    def do_Import(self, n, st):  # noqa: F811
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else nm
            st.frames[self.fid][nm] = self.import_value(full)
        return [("normal", st, None)]

    def do_ImportFrom(self, n, st):  # noqa: F811
        base = self.module._abs(n.module, n.level)
        for a in n.names:
            if base in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[base], a.name)
                v = self.from_resolved(r, a.name, st) if r else S(("global", f"{base}.{a.name}"))
            else:
                v = self.ext_value(f"{base}.{a.name}")
            st.frames[self.fid][a.asname or a.name] = v
        return [("normal", st, None)]

    def import_value(self, name):
        from .values import Mod

        return Mod(self.prog.modules[name]) if name in self.prog.modules else self.ext_value(name)

    def do_Global(self, n, st):
        fr = st.frames[self.fid]
        fr["!globals"] = tuple(fr.get("!globals", ())) + tuple(n.names)
        return [("normal", st, None)]

    def do_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [("normal", st, None)]
        return [("normal", s, None) for s, _ in self.ev(n.value, st)]

    def do_Return(self, n, st):
        if n.value is None:
            return [("return", st, NONE)]
        return [("return", s, v) for s, v in self.ev(n.value, st)]

    def do_Break(self, n, st):
        return [("break", st, None)]

    def do_Continue(self, n, st):
        return [("continue", st, None)]

    def do_Delete(self, n, st):
        out = [st]
        for t in n.targets:
            if isinstance(t, ast.Name):
                for s in out:
                    s.frames[self.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                nxt = []
                for s in out:
                    for s2, v in self.ev(t.value, s):
                        for s3, i in self.ev(t.slice, s2):
                            if isinstance(v, Ref) and s3.heap.get(v.oid) is not None:
                                o = s3.heap[v.oid]
                                ti = self.term(i, s3)
                                if o.kind == "dict":
                                    s3.heap[v.oid] = o.with_items([x for x in o.items if isinstance(x, Star) or self.term(x[0], s3) != ti])
                                else:
                                    s3.heap[v.oid] = o.with_items((), True)
                            else:
                                self.emit(s3, "delitem", "del", recv=self.term(v, s3), args=(self.term(i, s3),), loc=self.loc(n))
                            nxt.append(s3)
                out = nxt
        return [("normal", s, None) for s in out]

    def do_Assert(self, n, st):
        t, f = self.branch(n.test, st)
        for s in f:
            self.raise_exc(s, Exc("AssertionError", loc=self.loc(n)))
        return [("normal", s, None) for s in t]

    def do_FunctionDef(self, n, st):
        from .prog import FunctionInfo

        key = id(n)
        if key not in self._nested:
            self._nested[key] = FunctionInfo(n, self.module, parent=self.fi)
        st.frames[self.fid][n.name] = Fn(self._nested[key], None, self.fid)
        st.frames[self.fid]["!keep"] = True
        return [("normal", st, None)]

    def do_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(t, v, s2, n)]
            out.extend(("normal", z, None) for z in cur)
        return out

    def do_AnnAssign(self, n, st):
        if n.value is None:
            return [("normal", st, None)]
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, S) and v.ty is None and not v.const:
                ty = self.prog.type_of(self.module, n.annotation)
                v = S(v.t, ty if v.t[0] == "get" else self.present(ty))
            out.extend(("normal", z, None) for z in self.assign(n.target, v, s, n))
        return out

    def do_AugAssign(self, n, st):
        from .expr import BINOPS

        op = BINOPS[type(n.op)]
        load = ast.copy_location(_as_load(n.target), n.target)
        out = []
        if isinstance(n.target, ast.Subscript):
            for s, base in self.ev(n.target.value, st):
                for s2, i in self.ev(n.target.slice, s):
                    for s3, old in self.getitem(base, i, s2, n):
                        for s4, v in self.ev(n.value, s3):
                            new = self.binop(op, old, v, s4)
                            self.set_item(base, i, new, s4, n)
                            out.append(("normal", s4, None))
            return out
        for s, old in self.ev(load, st):
            for s2, v in self.ev(n.value, s):
                if isinstance(old, Ref) and op == "+" and s2.heap.get(old.oid) is not None and s2.heap[old.oid].kind == "list":
                    self.heap_method(old, "extend", [v], [], s2, n)
                    out.append(("normal", s2, None))
                    continue
                new = self.binop(op, old, v, s2)
                told = self.term(old, s2)
                if not T.is_k(told) and told[0] not in {"poly", "lv"}:
                    self.emit(s2, "inplace", op, recv=told, args=(self.term(v, s2),), loc=self.loc(n))
                out.extend(("normal", z, None) for z in self.assign(n.target, new, s2, n))
        return out

    def assign(self, target, v, st, node):
        """-> list of states."""
        if isinstance(target, ast.Name):
            fr = st.frames[self.fid]
            if target.id in fr.get("!globals", ()):
                key = (("modglobal", self.module.name), target.id)
                st.store[key] = v
                self.emit(st, "setglobal", f"{self.module.name}.{target.id}", args=(self.term(v, st),), loc=self.loc(node))
            else:
                fr[target.id] = v
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            self.assign_target(target, v, st)
            return [st]
        if isinstance(target, ast.Attribute):
            out = []
            for s, o in self.ev(target.value, st):
                self.set_attr(o, target.attr, v, s, node)
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, o in self.ev(target.value, st):
                for s2, i in self.ev(target.slice, s):
                    self.set_item(o, i, v, s2, node)
                    out.append(s2)
            return out
        return [st]

    def assign_target(self, target, v, st):
        """Bind loop targets / unpacking; returns False if impossible."""
        if isinstance(target, ast.Name):
            st.frames[self.fid][target.id] = v
            return True
        if isinstance(target, (ast.Tuple, ast.List)):
            items = self.known_items(v, st)
            if items is not None and not any(isinstance(e, ast.Starred) for e in target.elts):
                if len(items) != len(target.elts):
                    return False
                for e, x in zip(target.elts, items):
                    self.assign_target(e, x, st)
                return True
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    self.assign_target(e.value, S(("rest", self.term(v, st), i)), st)
                else:
                    r = self.getitem(v, K(i), st)
                    self.assign_target(e, r[0][1] if r else S(("item", self.term(v, st), T.k(i))), st)
            return True
        if isinstance(target, (ast.Attribute, ast.Subscript)):
            self.assign(target, v, st, target)
            return True
        return True

    def set_attr(self, o, attr, v, st, node):
        oid = self.ident(o)
        if isinstance(o, Cls):
            oid = ("cls", o.ci.qualname)
        ci = self.class_of(o)
        if ci is not None and ci.find_method(attr) is not None and any(d.endswith(".setter") for d in ci.find_method(attr).decorators):
            pass
        st.store[(oid, attr)] = v
        self.emit(st, "setattr", attr, recv=oid, args=(self.term(v, st),), loc=self.loc(node))

    def set_item(self, o, i, v, st, node):
        ti = self.term(i, st)
        if isinstance(o, Ref):
            ob = st.heap.get(o.oid)
            if ob is not None and ob.kind == "dict":
                if T.is_k(ti) or not ob.items:
                    if T.is_k(ti):
                        st.heap[o.oid] = ob.with_items(self._dict_put(list(ob.items), (i, v)))
                    else:
                        st.heap[o.oid] = ob.with_items([*ob.items, (i, v)])
                else:
                    st.heap[o.oid] = ob.with_items(self._dict_put(list(ob.items), (i, v)))
                return
            if ob is not None and ob.kind == "list":
                ci = int(ti[2]) if T.is_k(ti) and ti[1] == "num" else None
                if ci is not None and ob.exact and -len(ob.items) <= ci < len(ob.items):
                    its = list(ob.items)
                    its[ci] = v
                    st.heap[o.oid] = ob.with_items(its)
                elif len(ob.items) == 1 and isinstance(ob.items[0], Star) and ob.items[0].val == v:
                    pass
                else:
                    # may be any entry: every entry is one of these
                    vals = []
                    for x in [*ob.items, Star(v)]:
                        x = x if isinstance(x, Star) else Star(x)
                        if x not in vals:
                            vals.append(x)
                    st.heap[o.oid] = ob.with_items(vals)
                    self.emit(st, "setitem", "[]", recv=("ref", o.oid), args=(ti, self.term(v, st)), loc=self.loc(node))
                return
        ci = self.class_of(o)
        if ci is not None and ci.find_method("__setitem__"):
            r = self.call_repo(ci.find_method("__setitem__"), [o, i, v], [], st, node)
            return
        rt = self.ident(o)
        if ti[0] != "slice":
            # forget what was stored under keys which may coincide
            for key in [x for x in st.store if len(x) == 3 and x[0] == rt and x[2] != ti]:
                if not (T.is_k(key[2]) and T.is_k(ti)):
                    del st.store[key]
            st.store[(rt, "[]", ti)] = v
        else:
            for key in [x for x in st.store if len(x) == 3 and x[0] == rt]:
                del st.store[key]
        self.emit(st, "setitem", "[]", recv=rt, args=(ti, self.term(v, st)), loc=self.loc(node))

    # ------------------------------------------------------------ branches
    def do_If(self, n, st):
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Assign) and len(n.body[0].targets) == 1:
            t = n.body[0].targets[0]
            if isinstance(t, (ast.Name, ast.Attribute)):  # `if x > e: x = e` is x = min(x, e)
                own = ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else ast.Attribute(t.value, t.attr, ast.Load())
                if self.min_or_max(n.test, n.body[0].value, own) is not None:
                    e = ast.copy_location(ast.IfExp(n.test, n.body[0].value, ast.copy_location(own, t)), n)
                    return self.exec_block([ast.copy_location(ast.Assign([t], e), n)], st)
        t, f = self.branch(n.test, st)
        out = []
        for s in self.merge_states(t):
            out.extend(self.exec_block(n.body, s))
        for s in self.merge_states(f):
            if n.orelse:
                out.extend(self.exec_block(n.orelse, s))
            else:
                out.append(("normal", s, None))
        return out

    # ------------------------------------------------------------ exceptions
    def raise_exc(self, st, exc):
        self.sink.append((st, exc))

    def maybe_raise(self, st, node):
        if self.try_depth > 0 or self.implicit:
            if self.sink:
                s0, e0 = self.sink[-1]
                if e0.name == "?" and s0.evh == st.evh and s0.nev == st.nev and s0.facts == st.facts and not self.implicit:
                    return
            self.sink.append((st.copy(), Exc("?", loc=self.loc(node))))

    def do_Raise(self, n, st):
        if n.exc is None:
            exc = st.cur_exc or Exc("?", loc=self.loc(n))
            self.raise_exc(st, exc)
            return []
        for s, v in self.ev(n.exc, st):
            name, ci = "?", None
            if isinstance(v, S):
                if v.t[0] == "call":
                    name = v.t[1].split(".")[-1]
                elif v.t[0] == "new":
                    name = v.t[1].split(".")[-1]
                    ci = self.class_of(v)
                elif s.cur_exc is not None and v.t[0] == "exc":
                    name, ci = s.cur_exc.name, s.cur_exc.ci
            elif isinstance(v, Ext):
                name = v.name.split(".")[-1]
            elif isinstance(v, Cls):
                name, ci = v.ci.name, v.ci
            self.raise_exc(s, Exc(name, val=self.term(v, s), ci=ci, loc=self.loc(n)))
        return []

    def exc_matches(self, exc, types):
        """True / False / None (maybe)."""
        res = False
        for t in types:
            if isinstance(t, (Ext, Cls)):
                tn = t.name.split(".")[-1] if isinstance(t, Ext) else t.ci.name
            else:
                res = None if res is False else res
                continue
            if tn == "BaseException":
                return True
            if tn == "Exception":
                if exc.name in {"SystemExit", "KeyboardInterrupt", "GeneratorExit"}:
                    continue
                return True
            if exc.name == "?":
                res = None
                continue
            if exc.name == tn:
                return True
            a, b = getattr(builtins, exc.name, None), getattr(builtins, tn, None)
            if isinstance(a, type) and isinstance(b, type):
                if issubclass(a, b):
                    return True
            elif exc.ci is not None and exc.ci.is_subclass_of(tn):
                return True
            else:
                base = exc.name
                while base in EXC_BASES:
                    base = EXC_BASES[base]
                    if base == tn:
                        return True
        return res

    def do_Try(self, n, st):
        outer = self.sink
        self.sink = []
        if n.handlers or n.finalbody:
            self.try_depth += 1
        self.guards.append(frozenset(x for h in n.handlers for x in _caught(h.type)))
        try:
            outs = self.exec_block(n.body, st)
        finally:
            self.guards.pop()
            if n.handlers or n.finalbody:
                self.try_depth -= 1
            raised, self.sink = self.sink, []
        # else-block is not protected by handlers
        if n.orelse:
            nxt = []
            for kind, s, v in outs:
                nxt.extend(self.exec_block(n.orelse, s) if kind == "normal" else [(kind, s, v)])
            outs = nxt
        pending = self.sink
        self.sink = []
        uncaught = []
        raised = self.merge_raises(raised)
        for s, exc in raised:
            alive = True
            for h in n.handlers:
                if h.type is None:
                    m = True
                else:
                    tv = self.ev(h.type, s.copy())[0][1]
                    m = self.exc_matches(exc, list(tv.items) if isinstance(tv, Tup) else [tv])
                if m is False:
                    continue
                s2 = s.copy()
                caught = exc
                if exc.name == "?" and h.type is not None:
                    nm = ast.unparse(h.type)
                    caught = Exc(nm.split(".")[-1] if "," not in nm else "?", loc=exc.loc)
                prev = s2.cur_exc
                s2.cur_exc = caught
                self.emit(s2, "caught", caught.name, loc=exc.loc)
                if h.name:
                    s2.frames[self.fid][h.name] = S(("exc", caught.name, exc.loc))
                for kind, s3, v in self.exec_block(h.body, s2):
                    s3.cur_exc = prev
                    outs.append((kind, s3, v))
                if m is True:
                    alive = False
                    break
            if alive:
                uncaught.append((s, exc))
        uncaught += pending + self.sink
        self.sink = outer
        if n.finalbody:
            res = []
            for kind, s, v in outs:
                for k2, s2, v2 in self.exec_block(n.finalbody, s):
                    res.append((kind, s2, v) if k2 == "normal" else (k2, s2, v2))
            for s, exc in self.merge_raises(uncaught):
                for k2, s2, v2 in self.exec_block(n.finalbody, s):
                    if k2 == "normal":
                        self.raise_exc(s2, exc)
                    else:
                        res.append((k2, s2, v2))
            return res
        for s, exc in uncaught:
            self.raise_exc(s, exc)
        return outs

    def do_With(self, n, st):
        return self.with_items(n.items, n.body, st, n)

    def with_items(self, items, body, st, node):
        if not items:
            return self.exec_block(body, st)
        it = items[0]
        out = []
        for s, cm in self.ev(it.context_expr, st):
            for s2, v in self.cm_enter(cm, s, node):
                cur = [s2]
                if it.optional_vars is not None:
                    cur = self.assign(it.optional_vars, v, s2, node)
                for s3 in cur:
                    out.extend(self.with_body(cm, items[1:], body, s3, node))
        return out

    def cm_enter(self, cm, st, node):
        ci = self.class_of(cm)
        if ci is not None and ci.find_method("__enter__"):
            return self.call_repo(ci.find_method("__enter__"), [cm], [], st, node)
        self.emit(st, "cm_enter", "__enter__", recv=self.term(cm, st), loc=self.loc(node))
        return [(st, cm)]

    def with_body(self, cm, rest, body, st, node):
        outer = self.sink
        self.sink = []
        ci = self.class_of(cm)
        term = self.term(cm, st)
        swallow = term[0] == "call" and term[1] in SWALLOW
        if swallow or self.cm_needs_exit(cm, st):
            self.try_depth += 1
        self.guards.append(frozenset(a[1].split(".")[-1] for a in term[2] if a[0] in {"ext", "cls"}) if swallow else frozenset())
        try:
            outs = self.with_items(rest, body, st, node)
        finally:
            self.guards.pop()
            if swallow or self.cm_needs_exit(cm, st):
                self.try_depth -= 1
            raised, self.sink = self.sink, outer
        res = []
        for kind, s, v in outs:
            for s2, _ in self.cm_exit(cm, s, node, False):
                res.append((kind, s2, v))
        for s, exc in self.merge_raises(raised):
            if swallow:
                types = []
                for a in term[2]:
                    types.append(Ext(a[1]) if a[0] == "ext" else a)
                m = self.exc_matches(exc, types)
                if m is not False:
                    res.append(("normal", s.copy(), None))
                if m is True:
                    continue
            prev = s.cur_exc
            s.cur_exc = exc
            for s2, _ in self.cm_exit(cm, s, node, True):
                s2.cur_exc = prev
                self.raise_exc(s2, exc)
        return res

    def cm_needs_exit(self, cm, st):
        return False

    def cm_exit(self, cm, st, node, exc):
        term = self.term(cm, st)
        if term[0] == "exitstack":
            cur = [st]
            cms = st.store.get((self.ident(cm), "!cms"), Tup(()))
            self.emit(st, "cm_exit", "__exit__", recv=term, loc=self.loc(node), extra=exc)
            for c in reversed(cms.items):
                cur = [s2 for s in cur for s2, _ in self.cm_exit(c, s, node, exc)]
            return [(s, NONE) for s in cur]
        ci = self.class_of(cm)
        if ci is not None and ci.find_method("__exit__"):
            return self.call_repo(ci.find_method("__exit__"), [cm, NONE, NONE, NONE], [], st, node)
        self.emit(st, "cm_exit", "__exit__", recv=term, loc=self.loc(node), extra=exc)
        return [(st, NONE)]

    # ------------------------------------------------------------ loops
    def do_For(self, n, st):
        out = []
        for s, coll in self.ev(n.iter, st):
            out.extend(self.for_over(n, copied(coll), s))
        return out

    def for_over(self, n, coll, st):
        self.absent(coll, "iteration", st, n)
        items = self.iter_items(coll, st)
        if items is not None and len(items) <= self.unroll and not (len(items) > 0 and all(isinstance(i, Star) for i in items) and len(items) == 1):
            cur, done = [st], []
            for it in items:
                nxt = []
                for s in cur:
                    if isinstance(it, Star):
                        for kind, s2, v in self.sym_loop(n, lambda z, x=it: [z] if self.assign_target(n.target, x.val, z) else [], s, self.term(it.val, s), None, orelse=False, bound=it.bound, when=it.facts):
                            (nxt.append(s2) if kind == "normal" else done.append((kind, s2, v)))
                        continue
                    if not self.assign_target(n.target, it, s):
                        continue
                    for kind, s2, v in self.exec_block(n.body, s):
                        if kind in {"normal", "continue"}:
                            nxt.append(s2)
                        else:
                            done.append((kind, s2, v))
                cur = self.merge_states(nxt)
            res = []
            for s in cur:
                res.extend(self.exec_block(n.orelse, s) if n.orelse else [("normal", s, None)])
            for kind, s, v in done:
                res.append(("normal", s, None) if kind == "break" else (kind, s, v))
            return res
        el = self.elem_of(coll, st)
        elt = self.term(el, st)

        def bind(z):
            return [z] if self.assign_target(n.target, el, z) else []

        src = self.spread(coll, st)
        return self.sym_loop(n, bind, st, elt, coll, bound=src.bound, when=src.facts)

    def do_While(self, n, st):
        const = n.test.value if isinstance(n.test, ast.Constant) else None

        def head(z):
            if const:
                return [z]
            return self.branch(n.test, z)[0]

        return self.sym_loop(n, head, st, ("while", self.loc(n)), None, while_test=None if const else n.test, infinite=bool(const), bound=(("while", self.loc(n)),))

    def sym_loop(self, n, head, st, marker, coll, orelse=True, while_test=None, infinite=False, bound=(), when=None):
        lid = f"{(self.fi.qualname if self.fi else '?').split('.')[-1]}#{self.loop_ordinal(n)}"
        changed = {}
        self.forget(st, lid, marker)
        for _ in range(6):
            probe = self.havoc(st.copy(), changed, lid)
            app = {}
            self.app_stack.append(app)
            n0 = len(self.sink)
            probe.loops = (*probe.loops, marker)
            outs = []
            for z in head(probe):
                outs.extend(self.exec_block(n.body, z))
            ends = [s for k_, s, _ in outs if k_ in {"normal", "continue"}]
            del self.sink[n0:]
            self.app_stack.pop()
            new = dict(changed)
            base = self.havoc(st.copy(), changed, lid)
            # what holds after every finished round is no filter
            sure = {a: v for a, v in ends[0].facts.items() if all(z.facts.get(a) is v for z in ends)} if ends else {}
            for s in ends:
                self.diff(base, s, new, app, bound, sure, when or {})
            if new == changed:
                break
            changed = new
        final = self.havoc(st.copy(), changed, lid)
        carried = sorted((key[1], key[2]) for key, how in changed.items() if key[0] == "env" and how is True)
        self.emit_loop("loop", lid, carried, st, final)
        app = {}
        self.app_stack.append(app)
        grown = {key[1]: self.term(Ref(key[1]), final) for key, how in changed.items() if key[0] == "heap" and how != "?"}
        saved_loops = st.loops
        final.loops = (*final.loops, marker)
        n0 = len(self.sink)
        outs = []
        own = {a: v for a, v in (when or {}).items() if a not in final.facts} if self.star_facts else {}
        if own:  # the entries met the conditions of the list
            final.facts = {**final.facts, **own}
        for z in head(final):
            outs.extend(self.exec_block(n.body, z))
        if own:
            for _, s, _ in outs:
                s.facts = {a: v for a, v in s.facts.items() if a not in own}
        self.app_stack.pop()
        distinct = [t for oid, t in grown.items() if self.all_new(oid, app, st)]
        res, ends = [], []
        for kind, s, v in outs:
            s.loops = saved_loops
            if kind in {"normal", "continue"}:
                self.emit_loop("carry", lid, carried, s, s)
                self.settle(s, st, changed)
                ends.append(s)
            elif kind == "break":
                # other elements may not have been visited
                s.facts = {**s.facts, ("broke", marker): True}
                res.append(("normal", s, None))
            else:
                res.append((kind, s, v))
        for s, _ in self.sink[n0:]:
            s.loops = saved_loops
        # zero iterations
        st0 = st
        for s in (st0, *ends):
            for t in distinct:
                s.facts = {**s.facts, ("distinct", t): True}
        ends = self.merge_states(ends)
        self.settle(st0, st, changed)
        exits = []
        if while_test is not None:
            exits.extend(self.branch(while_test, st0)[1])
            for s in ends:
                exits.extend(self.branch(while_test, s)[1])
        elif not infinite:
            st0.facts = st0.facts
            exits = [st0, *ends]
            if isinstance(coll, S) and ends and self.not_empty(coll.t, st0):
                exits = ends
        exits = self.merge_states(exits)
        for s in exits:
            if n.orelse and orelse:
                res.extend(self.exec_block(n.orelse, s))
            else:
                res.append(("normal", s, None))
        return res

    def emit_loop(self, kind, lid, carried, st, to):
        """Values of the variables a loop changes: before it, and after each round."""
        if self.ev_filter is None or not self.ev_filter(kind, lid):
            return
        kws = []
        for fid, name in carried:
            v = st.frames.get(fid, {}).get(name)
            if v is not None:
                kws.append((name, self.term(v, st)))
        self.emit(to, kind, lid, kws=tuple(kws), loc="")

    def all_new(self, oid, app, st):
        """Is every entry added to the container known to be new (checked against the container just before)?"""
        was = st.heap.get(oid)
        if oid not in app or was is None or was.items or was.unknown:
            return False
        return all(app[oid])

    def not_empty(self, t, st):
        while t[0] == "enumerate":
            t = t[1]
        if t[0] == "call" and t[1] in {"list", "tuple", "set", "sorted", "reversed"} and len(t[2]) == 1 or t[0] == "seq":
            return self.not_empty(t[2][0] if t[0] == "call" else t[1], st)
        return F.decide(st.facts, F.pos(("call", "len", (t,), ())), self.declared) is True

    def loop_ordinal(self, n):
        fnode = self.fi.node if self.fi is not None else None
        if fnode is None:
            return 0
        key = id(fnode)
        if key not in self._loops:
            self._loops[key] = {id(x): i for i, x in enumerate(z for z in ast.walk(fnode) if isinstance(z, (ast.For, ast.While)))}
        return self._loops[key].get(id(n), -1)

    def diff(self, base, s, changed, app=None, bound=(), sure=None, when=None):
        for fid, fr in base.frames.items():
            fr2 = s.frames.get(fid)
            if fr2 is None:
                continue
            for name, v in fr.items():
                if name.startswith("!"):
                    continue
                v2 = fr2.get(name)
                if v2 is not None and v2 != v:
                    key = ("env", fid, name)
                    oa = base.heap.get(v.oid) if isinstance(v, Ref) else None
                    ob = s.heap.get(v2.oid) if isinstance(v2, Ref) else None
                    if oa is not None and ob is not None and oa.kind == ob.kind == "list" and not ob.unknown and ob.items[: len(oa.items)] == oa.items and changed.get(key) is not True:
                        # rebound to the old entries and more
                        changed[key] = self.grow(changed.get(key), ob.items[len(oa.items) :], v2.oid, "list", app, base, bound, sure, when, s)
                    else:
                        changed[key] = True
        for key, v in s.store.items():
            if key not in base.store:
                changed.setdefault(("store", key), True)
            elif base.store[key] != v:
                changed.setdefault(("store", key), True)
        for key in base.store:
            if key not in s.store:
                changed.setdefault(("storedel", key), True)
        for oid, o in base.heap.items():
            o2 = s.heap.get(oid)
            if o2 is None or o2 == o:
                continue
            pre = o.items
            prev = changed.get(("heap", oid))
            if prev != "?" and not o2.unknown and o2.kind == o.kind and o2.items[: len(pre)] == pre and o.kind in {"list", "set", "dict"}:
                changed[("heap", oid)] = self.grow(prev, o2.items[len(pre) :], oid, o.kind, app, base, bound, sure, when, s)
            elif prev != "?":
                changed[("heap", oid)] = "?"

    def frozen(self, x, s, base):
        """Entry added in a loop: containers that were made in the round are spelled out"""
        if isinstance(x.val, Ref) and x.val.oid not in base.heap and x.val.oid in s.heap and s.heap[x.val.oid].kind != "opaque":
            y = Star(S(self.term(x.val, s)), key=x.key)
            y.bound, y.facts = x.bound, x.facts
            return y
        return x

    def grow(self, prev, items, oid, kind, app, base, bound, sure, when, s):
        out = list(prev) if prev else []
        for it in items:
            x = it if isinstance(it, Star) else Star(it[1], key=it[0]) if kind == "dict" else Star(it)
            if app and (oid, x.val) in app:
                x = x.over(bound, {**when, **x.facts, **{a: v for a, v in app[(oid, x.val)].items() if base.facts.get(a) is not v and sure.get(a) is not v}})
            else:
                x = x.over(bound, {**when, **x.facts})
            x = self.frozen(x, s, base)
            if x in out:
                out[out.index(x)] = x
            else:
                out.append(x)
        return tuple(out)

    def forget(self, s, lid, marker):
        """Facts about the element / loop variables of an earlier run of this loop."""
        elems = {x for x in T.subterms(marker) if x and x[0] in {"elem", "idx"} and (x == marker or marker[0] == "tuple" or x[0] == "elem" and T.contains(marker, lambda y: y == x))} if marker[0] != "while" else set()
        # only the outermost element terms belong to this loop
        if marker[0] in {"elem", "item"}:
            elems = {marker}
        bad = [a for a in s.facts if isinstance(a, tuple) and (T.free_elems(a) & elems or T.contains(a, lambda x: x and x[0] == "lv" and len(x) > 1 and x[1] == lid))]
        if bad:
            s.facts = {a: v for a, v in s.facts.items() if a not in bad}
        return s

    def havoc(self, s, changed, lid):
        for key, how in changed.items():
            if key[0] == "env":
                _, fid, name = key
                fr = s.frames.get(fid)
                if fr is not None and name in fr:
                    old = fr[name]
                    if how is not True:
                        o = s.heap[old.oid]
                        fr[name] = self.new_heap(s, o.with_items([*o.items, *[x for x in how if x not in o.items]]))
                    elif isinstance(old, Tup):
                        fr[name] = Tup([S(("lv", lid, f"{name}.{i}")) for i in range(len(old.items))])
                    else:
                        if isinstance(old, S) and self.is_str(old):
                            self.str_lvs.add(("lv", lid, name))
                        fr[name] = S(("lv", lid, name), getattr(old, "ty", None))
            elif key[0] == "store":
                old = s.store.get(key[1])
                nm = key[1][1] if len(key[1]) == 2 else "[]"
                t = ("lv", lid, T._key(key[1][0]) if False else key[1][0], nm, key[1][2] if len(key[1]) == 3 else ())
                s.store[key[1]] = S(t, getattr(old, "ty", None))
            elif key[0] == "storedel":
                s.store.pop(key[1], None)
            elif key[0] == "heap":
                o = s.heap.get(key[1])
                if o is None:
                    continue
                if how == "?":
                    s.heap[key[1]] = HObj(o.kind, (), True)
                else:
                    s.heap[key[1]] = o.with_items([*o.items, *[x for x in how if x not in o.items]])
        return s

    def settle(self, s, st, changed):
        """After the loop: grown containers hold 'zero or more' of the appended entries."""
        for key, how in changed.items():
            oid = None
            if key[0] == "heap" and how != "?":
                oid = key[1]
            elif key[0] == "env" and how is not True:
                v = s.frames.get(key[1], {}).get(key[2])
                oid = v.oid if isinstance(v, Ref) else None
                if oid is not None and s is st:
                    # zero rounds: keep the object itself as it is
                    s.frames[key[1]][key[2]] = self.new_heap(s, s.heap[oid])
                    oid = s.frames[key[1]][key[2]].oid
            if oid is not None:
                o = s.heap.get(oid)
                if o is None:
                    continue
                items = []
                for x in o.items:
                    starred = x
                    if not isinstance(x, Star):
                        cand = self.frozen(Star(x[1], key=x[0]) if o.kind == "dict" else Star(x), s, st)
                        if cand in how:
                            starred = how[how.index(cand)]
                    if isinstance(starred, Star) and starred in items:
                        continue
                    items.append(starred)
                for x in how:
                    if x not in items:
                        items.append(x)
                s.heap[oid] = o.with_items(items)
        return s


# of exceptions from other packages
EXC_BASES = {
    "ValidationError": "ValueError", "Error": "ValueError", "HexReaderError": "IntelHexError", "HexRecordError": "HexReaderError",
    "ELFParseError": "ELFError", "ParserError": "YAMLError", "ScannerError": "YAMLError",
}  # fmt: skip


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    return t
