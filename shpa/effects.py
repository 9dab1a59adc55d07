"""Alias and effect analysis: which functions may modify, in place, something that belongs to a model, a store or a caller.

Flow-sensitive over the statements of each function; every value has a type and a set of origins.  Origins are
("param", name) - (part of) the argument, ("own", label) - the content of a protected object.  Function summaries say which
parameters a function modifies and which it returns (a part of); they are iterated to a fixpoint over the call graph.
"""

import ast

from .prog import ClassInfo, dotted

MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "add", "discard", "setdefault", "popitem",
    "intersection_update", "difference_update", "symmetric_difference_update", "fill", "put", "itemset", "resize", "partition", "setflags",
    "__setitem__", "__delitem__", "__setattr__", "__delattr__", "__iadd__",
}
# methods which hand out (parts of) their object
PARTS = {"get", "values", "items", "keys", "__getitem__", "setdefault", "pop", "popitem", "__iter__", "view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "T", "flat", "next", "__next__"}
VIEWS = {"iter", "next", "enumerate", "zip", "reversed", "numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.atleast_1d", "numpy.frombuffer", "filter", "itertools.chain", "typing.cast", "contextlib.nullcontext", "vars", "memoryview"}
SHALLOW = {"list", "tuple", "sorted", "set", "dict", "copy.copy", "frozenset"}  # new container, same elements
IMMUTABLE = {"int", "float", "str", "bytes", "bool", "complex", "pathlib.Path", "datetime.datetime", "datetime.timedelta", "Path", "datetime", "timedelta"}


class Val:
    """type (as of Program.type_of), origins of the object itself, origins of what it contains"""

    __slots__ = ("ty", "org", "sub", "elts")

    def __init__(self, ty=None, org=frozenset(), sub=None, elts=None):
        self.ty, self.org = ty, frozenset(org)
        self.sub = self.org if sub is None else frozenset(sub)
        self.elts = elts  # of a tuple whose members are known

    def part(self, ty=None):
        if self is BOT:
            return self
        return Val(ty, self.sub, self.sub)

    def join(self, o):
        if self is BOT or o is BOT:
            return o if self is BOT else self
        el = None
        if self.elts and o.elts and len(self.elts) == len(o.elts):
            el = tuple(a.join(b) for a, b in zip(self.elts, o.elts))
        return Val(self.ty if self.ty == o.ty else _uni(self.ty, o.ty), self.org | o.org, self.sub | o.sub, el)

    def __eq__(self, o):
        return (self.ty, self.org, self.sub) == (o.ty, o.org, o.sub)


BOT = Val()
FRESH = Val()


def _uni(a, b):
    if a is None or b is None:
        return None
    out = []
    for t in (a, b):
        out += list(t[1]) if t[0] == "union" else [t]
    uniq = []
    for t in out:
        if t not in uniq:
            uniq.append(t)
    return uniq[0] if len(uniq) == 1 else ("union", tuple(uniq))


def alts(ty):
    if ty is None:
        return []
    return list(ty[1]) if ty[0] == "union" else [ty]


def classes_in(ty):
    return [t[1] for t in alts(ty) if t and t[0] == "cls"]


def immutable(ty):
    a = [t for t in alts(ty) if t and t != ("none",)]
    return bool(a) and all(t[0] == "ext" and t[1] in IMMUTABLE or t[0] == "cls" and t[1].is_enum for t in a)


class Summary:
    def __init__(self):
        self.mut = {}  # param -> (what, location)
        self.ret = frozenset()  # params that (a part of) the result may belong to
        self.retsub = frozenset()
        self.elts = None  # list of (ret, retsub) for functions that return a tuple of known length
        self.any = False
        self.capt = frozenset()  # what a method stores in its object

    def key(self):
        return (self.capt, frozenset(self.mut), self.ret, self.retsub, tuple(self.elts or ()))


class Effects:
    def __init__(self, prog, protect=None):
        """protect(class, field name) -> label of the protected content or None; called for typed attribute reads"""
        self.prog = prog
        self.protect = protect or (lambda ci, name: None)
        self.sum = {}
        self.found = {}  # (qualname, label, construct) -> location
        self.sites = set()
        self.fns = list(prog.all_functions())
        for f in self.fns:
            self.sum[f.qualname] = Summary()
        for _ in range(8):
            before = {q: s.key() for q, s in self.sum.items()}
            for f in self.fns:
                _Fn(self, f).run()
            if before == {q: s.key() for q, s in self.sum.items()}:
                break


    def targets(self, classes, name):
        """methods a call may reach: the one of the static class and the ones which replace it"""
        out = []
        for c in classes:
            m = c.find_method(name)
            if m is None:
                continue
            cands = [m] if not m.is_abstract else []
            cands += [s.methods[name] for s in self.subs(c) if name in s.methods and not s.methods[name].is_abstract]
            out += [x for x in cands or [m] if x not in out]
        return out

    def subs(self, c):
        if not hasattr(self, "_subs"):
            self._subs = {}
            for x in self.prog.all_classes():
                for b in x.mro()[1:]:
                    if isinstance(b, ClassInfo):
                        self._subs.setdefault(b.qualname, []).append(x)
        return self._subs.get(c.qualname, [])


class _Fn:
    def __init__(self, eff, fi):
        self.e, self.fi, self.prog = eff, fi, eff.prog
        self.summary = eff.sum[fi.qualname]

    # ------------------------------------------------------------ driver
    def run(self):
        a = self.fi.node.args
        env = {}
        pos = a.posonlyargs + a.args
        for i, p in enumerate(pos + a.kwonlyargs):
            ty = self.ann(p.annotation)
            if i == 0 and self.fi.cls is not None and not self.fi.is_static:
                ty = ("cls", self.fi.cls)
                env[p.arg] = Val(ty) if self.fi.is_class else Val(ty, (("param", p.arg),), (("part", p.arg),))
                continue
            env[p.arg] = Val(ty) if immutable(ty) else Val(ty, (("param", p.arg),), (("part", p.arg),))
        for p in (a.vararg, a.kwarg):
            if p is not None:
                env[p.arg] = Val(None, (), (("part", p.arg),))
        self.block(self.fi.node.body, env)

    def ann(self, a):
        """annotated type; a type variable stands for the types it is limited to"""
        if isinstance(a, ast.Name):
            r = self.prog.resolve(self.fi.module, a.id)
            if r and r[0] == "assign" and isinstance(r[2], ast.Call) and dotted(r[2].func).split(".")[-1] == "TypeVar" and len(r[2].args) > 2:
                return ("union", tuple(self.prog.type_of(r[1], x) for x in r[2].args[1:]))
        return self.prog.type_of(self.fi.module, a)

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def merge(self, env, *others):
        for o in others:
            for k_, v in o.items():
                env[k_] = env[k_].join(v) if k_ in env else v

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.bind(t, v, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                v = self.ev(st.value, env)
                ty = self.prog.type_of(self.fi.module, st.annotation) or v.ty
                # the entries of an array are numbers
                self.bind(st.target, Val(ty, v.org, v.org if is_array(ty) else v.sub), env)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value, env)
            if isinstance(st.target, ast.Name):
                old = env.get(st.target.id, FRESH)
                if not immutable(old.ty) and isinstance(st.op, (ast.Add, ast.Mult, ast.BitOr, ast.Sub, ast.Div, ast.BitAnd, ast.FloorDiv, ast.Pow, ast.Mod)) and (old.ty is not None and any(t[0] in {"list", "dict"} or t[0] == "ext" and t[1].split(".")[-1] in {"ndarray", "NDArray", "DataFrame", "Series", "list", "dict", "set", "bytearray"} for t in alts(old.ty) if t)):
                    self.mutated(old, "augmented assignment", st)
                env[st.target.id] = Val(old.ty, old.org, old.sub | v.sub)
            else:
                self.store(st.target, v, env)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.store(t, FRESH, env)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env)
            for _ in range(2):
                before = dict(env)
                self.bind(st.target, self.element(it), env)
                self.block(st.body, env)
                self.merge(env, before)
            self.block(st.orelse, env)
        elif isinstance(st, ast.While):
            for _ in range(2):
                before = dict(env)
                self.ev(st.test, env)
                self.block(st.body, env)
                self.merge(env, before)
            self.block(st.orelse, env)
        elif isinstance(st, ast.If):
            self.ev(st.test, env)
            a, b = dict(env), dict(env)
            self.narrow(st.test, a, b)
            self.block(st.body, a)
            self.block(st.orelse, b)
            env.clear()
            da, db = _ends(st.body), _ends(st.orelse)
            live = [x for x, d in ((a, da), (b, db)) if not d] or [a, b]
            env.update(live[0])
            self.merge(env, *live[1:])
        elif isinstance(st, ast.Try):
            before = dict(env)
            self.block(st.body, env)
            self.merge(env, before)
            outs = []
            for h in st.handlers:
                x = dict(env)
                self.block(h.body, x)
                outs.append(x)
            self.block(st.orelse, env)
            self.merge(env, *outs)
            self.block(st.finalbody, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            self.block(st.body, env)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.returned(self.ev(st.value, env))
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.block(st.body, dict(env))
        elif isinstance(st, ast.Match):
            self.ev(st.subject, env)
            outs = []
            for c in st.cases:
                x = dict(env)
                self.block(c.body, x)
                outs.append(x)
            self.merge(env, *outs)
        else:
            for ch in ast.iter_child_nodes(st):
                if isinstance(ch, ast.expr):
                    self.ev(ch, env)

    def narrow(self, test, a, b):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.narrow(test.operand, b, a)
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and isinstance(test.args[0], ast.Name):
            n = test.args[0].id
            ts = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            tys = [self.prog.type_of(self.fi.module, t) for t in ts]
            if n in a and all(tys):
                ty = tys[0] if len(tys) == 1 else ("union", tuple(tys))
                v = a[n]
                a[n] = Val(ty, () if immutable(ty) else v.org, () if immutable(ty) else v.sub)
                rest = [t for t in alts(b[n].ty) if t not in tys]
                if rest and b[n].ty is not None:
                    ty = rest[0] if len(rest) == 1 else ("union", tuple(rest))
                    b[n] = Val(ty, () if immutable(ty) else b[n].org, () if immutable(ty) else b[n].sub)

    # ------------------------------------------------------------ effects
    def mutated(self, v, what, node):
        loc = f"{self.fi.module.rel}:{getattr(node, 'lineno', 0)}"
        self.e.sites.add((self.fi.qualname, loc, what))
        for o in v.org:
            if o[0] in {"param", "part"}:
                self.summary.mut.setdefault(o, (what, loc))
            else:
                self.e.found.setdefault((self.fi.qualname, o[1], what), loc)

    def store(self, t, v, env):
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if any(c.is_model for c in classes_in(o.ty)):
                self.e.sites.add((self.fi.qualname, f"{self.fi.module.rel}:{t.lineno}", "attribute"))
                self.e.found.setdefault((self.fi.qualname, "model attribute", f"assignment to .{t.attr}"), f"{self.fi.module.rel}:{t.lineno}")
            elif isinstance(t.value, ast.Name) and t.value.id == "self" and self.fi.cls is not None:
                an = self.fi.cls.attr_annotation(t.attr)
                if an is not None and an[2] and v.ty is None and v is not BOT:
                    ty = self.prog.type_of(an[0], an[1])
                    v = Val(ty, v.org, v.org if is_array(ty) else v.sub)
                env["self." + t.attr] = v
                env["self"] = Val(o.ty, o.org, o.sub | v.org | v.sub)
                self.summary.capt = self.summary.capt | v.org | v.sub
            elif t.attr in {"shape", "dtype", "flags", "real", "imag", "flat"}:
                self.mutated(o, f"assignment to .{t.attr}", t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.ev(t.slice, env)
            if not any(c.find_method("__setitem__") for c in classes_in(o.ty)):
                self.mutated(o, "item assignment", t)
            root = t.value
            if isinstance(root, ast.Name) and root.id in env:
                old = env[root.id]
                env[root.id] = Val(old.ty, old.org, old.sub | v.org | v.sub)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, env)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif v is BOT and isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, BOT, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.elts and len(v.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.bind(x, y, env)
                return
            tys = v.ty[1] if v.ty and v.ty[0] == "tuple" and len(v.ty[1]) == len(t.elts) else [None] * len(t.elts)
            for x, ty in zip(t.elts, tys):
                self.bind(x, v.part(ty) if not immutable(ty) else Val(ty), env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, Val(None, (), v.sub), env)
        else:
            self.store(t, v, env)

    def returned(self, v):
        if v is BOT:
            return
        s = self.summary
        s.ret = s.ret | v.org
        s.retsub = s.retsub | v.sub
        if v.elts and not s.any:
            s.elts = [(x.org, x.sub) for x in v.elts]
        elif v.elts and s.elts and len(s.elts) == len(v.elts):
            s.elts = [(a | x.org, b | x.sub) for (a, b), x in zip(s.elts, v.elts)]
        else:
            s.elts = None
        s.any = True

    # ------------------------------------------------------------ expressions
    def element(self, v):
        tys = [t[1] if t and t[0] == "list" else None for t in alts(v.ty)]
        ty = tys[0] if len(tys) == 1 else None
        if any(t and t[0] == "ext" and t[1].split(".")[-1] == "ndarray" for t in alts(v.ty)):
            return Val(("ext", "float"))
        return v.part(ty) if not immutable(ty) else Val(ty)

    def ev(self, e, env):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch, env)
        return FRESH

    def x_Constant(self, e, env):
        return Val(("ext", type(e.value).__name__)) if e.value is not None else Val(("none",))

    def x_JoinedStr(self, e, env):
        for ch in ast.walk(e):
            if isinstance(ch, ast.FormattedValue):
                self.ev(ch.value, env)
        return Val(("ext", "str"))

    def x_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        r = self.prog.resolve(self.fi.module, e.id)
        if r and r[0] == "assign":
            ty = self.prog.type_of(r[1], r[3]) if r[3] is not None else None
            if ty is None and isinstance(r[2], ast.Call):
                c = self.prog.resolve_expr(r[1], r[2].func)
                ty = ("cls", c[1]) if c and c[0] == "class" else None
            elif ty is None and isinstance(r[2], (ast.Dict, ast.DictComp)):
                ty = ("ext", "dict")
            elif ty is None and isinstance(r[2], (ast.List, ast.ListComp)):
                ty = ("ext", "list")
            lab = self.e.protect(None, f"{r[1].name}.{e.id}")
            return Val(ty, (("own", lab),) if lab else ())
        return FRESH

    def x_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.bind(e.target, v, env)
        return v

    def x_Attribute(self, e, env):
        o = self.ev(e.value, env)
        if o is BOT:
            return BOT
        if isinstance(e.value, ast.Name) and e.value.id == "self" and "self." + e.attr in env:
            v = env["self." + e.attr]
            if v.ty is not None or not classes_in(o.ty):
                return v
        out = None
        for c in classes_in(o.ty):
            ty = None
            m = c.find_method(e.attr)
            lab = None
            org = o.sub
            if m is not None:
                if not m.is_property:
                    continue
                ty = self.prog.type_of(m.module, m.node.returns)
                s = self.e.sum.get(m.qualname)
                self_name = m.node.args.args[0].arg if m.node.args.args else "self"
                org = frozenset(x for x in s.ret if x[0] == "own") | (o.sub if s and {("param", self_name), ("part", self_name)} & s.ret else frozenset())
            else:
                f = c.find_field(e.attr)
                if f is not None and f[1] is not None:
                    ty = self.prog.type_of(f[0].module, f[1])
                else:
                    an = c.attr_annotation(e.attr)
                    if an is not None:
                        if an[2]:
                            ty = self.prog.type_of(an[0], an[1])
                        else:
                            r = self.prog.resolve_expr(an[0], an[1])
                            ty = ("cls", r[1]) if r and r[0] == "class" else None
                lab = self.e.protect(c, e.attr)
            if immutable(ty):
                v = Val(ty)
            else:
                v = Val(ty, org | ({("own", lab)} if lab else frozenset()))
            out = v if out is None else out.join(v)
        if out is not None:
            return out
        if is_array(o.ty):
            return Val(o.ty, o.org, o.sub)
        if not classes_in(o.ty):
            return o.part()
        return FRESH

    def x_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if o is BOT:
            return BOT
        self.ev(e.slice, env)
        if o.elts and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(o.elts) <= e.slice.value < len(o.elts):
            return o.elts[e.slice.value]
        nd = is_array(o.ty)
        if isinstance(e.slice, ast.Slice):
            if nd or o.ty is None:
                return Val(o.ty, o.org, o.sub)
            return Val(o.ty, (), o.sub)
        if nd:
            return Val(o.ty, o.org, o.sub)
        for c in classes_in(o.ty):
            if c.is_model:
                labs = {self.e.protect(c, n) for n in c.all_fields()} - {None}
                return Val(None, o.sub | {("own", x) for x in labs})
            m = c.find_method("__getitem__")
            if m is not None:
                return self.call_repo(m, [o, FRESH], {}, e, env)
        tys = [t[1] if t[0] == "list" else t[2] if t[0] == "dict" else None for t in alts(o.ty) if t]
        ty = tys[0] if len(tys) == 1 else None
        return o.part(ty) if not immutable(ty) else Val(ty)

    def x_Starred(self, e, env):
        return self.ev(e.value, env)

    def x_IfExp(self, e, env):
        self.ev(e.test, env)
        a, b = dict(env), dict(env)
        self.narrow(e.test, a, b)
        return self.ev(e.body, a).join(self.ev(e.orelse, b))

    def x_BoolOp(self, e, env):
        out = None
        for v in e.values:
            x = self.ev(v, env)
            out = x if out is None else out.join(x)
        return out

    def x_BinOp(self, e, env):
        l, r = self.ev(e.left, env), self.ev(e.right, env)
        lst = any(t and t[0] in {"list"} or t == ("ext", "list") for v in (l, r) for t in alts(v.ty))
        return Val(l.ty or r.ty if lst else None, (), l.sub | r.sub if lst else ())

    def _coll(self, elts, env):
        sub = frozenset()
        tys = []
        for x in elts:
            if x is None:
                continue
            v = self.ev(x, env)
            sub |= v.sub if isinstance(x, ast.Starred) else v.org | v.sub
            tys.append(v.ty)
        return sub, tys

    def x_List(self, e, env):
        sub, tys = self._coll(e.elts, env)
        return Val(("list", tys[0]) if tys and all(t == tys[0] for t in tys) else ("ext", "list"), (), sub)

    def x_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return Val(None, (), self._coll(e.elts, env)[0])
        vs = tuple(self.ev(x, env) for x in e.elts)
        return Val(("tuple", tuple(v.ty for v in vs)), (), frozenset().union(*[v.org | v.sub for v in vs]) if vs else (), vs)

    def x_Set(self, e, env):
        sub, _ = self._coll(e.elts, env)
        return Val(None, (), sub)

    def x_Dict(self, e, env):
        sub = frozenset()
        for k_, v in zip(e.keys, e.values):
            x = self.ev(v, env)
            sub |= x.sub if k_ is None else x.org | x.sub
        return Val(("ext", "dict"), (), sub)

    def _comp(self, e, env, outs):
        env = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, env)
            self.bind(g.target, self.element(it), env)
            for c in g.ifs:
                self.ev(c, env)
        sub = frozenset()
        ty = None
        for o in outs:
            v = self.ev(o, env)
            sub |= v.org | v.sub
            ty = v.ty
        return sub, ty

    def x_ListComp(self, e, env):
        sub, ty = self._comp(e, env, [e.elt])
        return Val(("list", ty), (), sub)

    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e, env):
        sub, ty = self._comp(e, env, [e.key, e.value])
        return Val(("dict", None, ty), (), sub)

    def x_Lambda(self, e, env):
        return FRESH

    def x_Yield(self, e, env):
        self.summary.any = True
        if e.value is not None:
            v = self.ev(e.value, env)
            self.summary.retsub = self.summary.retsub | v.org | v.sub
        return FRESH

    def x_YieldFrom(self, e, env):
        self.summary.any = True
        v = self.ev(e.value, env)
        self.summary.retsub = self.summary.retsub | v.sub
        return FRESH

    def x_Await(self, e, env):
        return self.ev(e.value, env)

    # ------------------------------------------------------------ calls
    def x_Call(self, e, env):
        f = e.func
        args = [self.ev(a, env) for a in e.args]
        kws = {kw.arg: self.ev(kw.value, env) for kw in e.keywords}
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.fi.cls is not None:
                m = self.fi.cls.find_method(f.attr, after=self.fi.cls)
                first = self.fi.node.args.args[0].arg if self.fi.node.args.args else None
                return self.call_repo(m, [env.get(first, FRESH), *args], kws, e, env) if m else FRESH
            r = self.prog.resolve_expr(self.fi.module, f) if _static(f, env) else None
            if r is not None:
                return self.call_static(r, args, kws, e, env)
            o = self.ev(f.value, env)
            if o is BOT:
                return BOT
            cl = classes_in(o.ty)
            out, met = None, False
            for m in self.e.targets(cl, f.attr):
                x = self.call_repo(m, args if m.is_static else [o, *args], kws, e, env)
                if self.e.sum[m.qualname].any:  # else it never returns anything
                    out = x if out is None else out.join(x)
                met = True
            if met:
                return out or BOT
            if f.attr in MUTATORS and not (cl and not any(c.is_model for c in cl)):
                self.mutated(o, f".{f.attr}()", e)
                if isinstance(f.value, ast.Name) and f.value.id in env:
                    old = env[f.value.id]
                    more = frozenset().union(*[a.org | a.sub for a in [*args, *kws.values()]]) if args or kws else frozenset()
                    env[f.value.id] = Val(old.ty, old.org, old.sub | more)
            if any(c.is_model for c in cl) and f.attr in {"model_copy", "copy"}:
                deep = kws.get("deep")
                return Val(o.ty, (), () if deep is not None else o.sub)
            if any(c.is_model for c in cl) and f.attr in {"__getattribute__", "__getattr__"}:
                labs = {self.e.protect(c, n) for c in cl for n in c.all_fields()} - {None}
                return Val(None, o.sub | {("own", x) for x in labs})
            if f.attr == "copy" and is_array(o.ty):
                return Val(o.ty)
            if f.attr in {"set_index", "reset_index", "apply", "resample", "interpolate", "to_numpy", "astype", "drop", "iterrows", "mean", "dropna"} and is_array(o.ty):
                return Val(o.ty)
            if f.attr == "copy":
                return Val(o.ty, (), o.sub)
            if f.attr in PARTS:
                ty = None
                for t in alts(o.ty):
                    if t and t[0] == "dict":
                        ty = t[2] if f.attr in {"get", "pop", "setdefault"} else ("list", t[2]) if f.attr == "values" else ("list", ("tuple", (t[1], t[2]))) if f.attr == "items" else None
                if f.attr in {"values", "items", "keys"}:
                    return Val(ty, (), o.sub)
                return o.part(ty) if not immutable(ty) else Val(ty)
            return FRESH
        if isinstance(f, ast.Name):
            if f.id in env:
                return FRESH
            r = self.prog.resolve_expr(self.fi.module, f)
            if r is not None:
                return self.call_static(r, args, kws, e, env)
        return FRESH

    def call_static(self, r, args, kws, e, env):
        if r[0] == "func":
            m = r[1]
            if m.cls is not None and m.is_class:
                args = [Val(("cls", m.cls)), *args]
            return self.call_repo(m, args, kws, e, env)
        if r[0] == "class":
            c = r[1]
            if not c.is_model:
                m = c.find_method("__init__")
                if m is not None:
                    return Val(("cls", c), (), self.call_repo(m, [Val(("cls", c)), *args], kws, e, env).sub)
            return Val(("cls", c))
        if r[0] == "ext":
            n = r[1]
            if n == "getattr" and args:
                labs = {self.e.protect(c, x) for c in classes_in(args[0].ty) for x in c.all_fields()} - {None}
                return Val(None, args[0].sub | {("own", x) for x in labs})
            if n in {"setattr", "delattr", "object.__setattr__", "object.__delattr__"} and args:
                self.e.sites.add((self.fi.qualname, f"{self.fi.module.rel}:{e.lineno}", n))
                if any(c.is_model for c in classes_in(args[0].ty)):
                    self.e.found.setdefault((self.fi.qualname, "model attribute", n), f"{self.fi.module.rel}:{e.lineno}")
                return FRESH
            if n in SHALLOW and args:
                a = args[0]
                ty = a.ty if n in {"list", "sorted", "copy.copy"} else None
                sub = a.sub.union(*[x.org | x.sub for x in kws.values()]) if kws else a.sub
                return Val(ty, (), sub)
            if n in VIEWS and args:
                org = frozenset().union(*[a.sub for a in args])
                ty = args[0].ty if n.startswith("numpy.") else ("list", ("tuple", (("ext", "int"), _elty(args[0].ty)))) if n == "enumerate" else ("list", ("tuple", tuple(_elty(a.ty) for a in args))) if n == "zip" else args[0].ty if n == "reversed" else None
                return Val(ty, org if n.startswith("numpy.") or n == "vars" else (), org)
            if n.split(".")[-1] in {"shuffle"} and args or n in {"heapq.heappush", "heapq.heapify", "heapq.heappop", "bisect.insort", "numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask"} and args:
                self.mutated(args[0], n, e)
            out = kws.get("out")
            if out is not None:
                self.mutated(out, f"{n}(out=)", e)
        return FRESH

    def call_repo(self, m, args, kws, e, env):
        s = self.e.sum.get(m.qualname)
        a = m.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        got = dict(zip(names, args))
        got.update({k_: v for k_, v in kws.items() if k_ is not None})
        org, sub = frozenset(), frozenset()
        if s is not None:
            for p, (what, loc) in s.mut.items():
                if p[1] in got:
                    hit = got[p[1]].org if p[0] == "param" else got[p[1]].sub
                    if hit:
                        self.mutated(Val(None, hit), f"call of {m.name}", e)
            sub_of = lambda os: frozenset().union(*[{o} if o[0] == "own" else frozenset() if o[1] not in got else got[o[1]].org if o[0] == "param" else got[o[1]].sub for o in os]) if os else frozenset()  # noqa: E731
            if s.capt and names and names[0] in got and m.cls is not None and not m.is_static:
                base = got[names[0]]
                held = sub_of({o for o in s.capt if o[1] != names[0]})
                if held and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in env:
                    env[e.func.value.id] = Val(base.ty, base.org, base.sub | held)
                if m.name == "__init__":
                    return Val(base.ty, (), held)
            org, sub = sub_of(s.ret), sub_of(s.retsub)
            if not s.any and m.name != "__init__":
                return BOT
            if s.elts:
                return Val(None, org, sub, tuple(Val(None, sub_of(a), sub_of(b)) for a, b in s.elts))
        ty = self.prog.type_of(m.module, m.node.returns)
        if ty is not None and any(t == ("ext", "typing_extensions.Self") or t and t[0] == "ext" and t[1].endswith("Self") for t in alts(ty)) and m.cls is not None:
            ty = ("cls", m.cls)
        if m.name == "__init__":
            return FRESH
        if immutable(ty):
            return Val(ty)
        return Val(ty, org, sub)


def is_array(ty):
    return any(t and t[0] == "ext" and t[1].split(".")[-1] in {"ndarray", "DataFrame", "Series", "NDArray"} for t in alts(ty))


def _elty(ty):
    return ty[1] if ty and ty[0] == "list" else None


def _static(f, env):
    while isinstance(f, ast.Attribute):
        f = f.value
    return isinstance(f, ast.Name) and f.id not in env


def _ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
