"""Calls: repository functions are inlined, external ones become terms and events."""

import ast
import string
import builtins
from fractions import Fraction

from . import facts as F
from . import terms as T
from .expr import PATH_TY, PATHISH_METH, is_pathish
from .values import FALSE, NONE, TRUE, Cls, Exc, Ext, Fn, HObj, K, Lam, Meth, Mod, Ref, S, Star, Super, Tup

LOG_METHODS = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log", "setLevel", "addHandler", "isEnabledFor"}
PURE_METHODS = {
    "exists", "is_file", "is_dir", "is_absolute", "as_posix", "keys", "values", "items", "get", "lower", "upper",
    "strip", "lstrip", "rstrip", "split", "startswith", "endswith", "join", "replace", "format", "encode", "decode",
    "total_seconds", "isoformat", "strftime", "timestamp", "astype", "mean", "sum", "min", "max", "copy", "reshape",
    "bit_length", "model_dump", "model_dump_json", "hexdigest", "digest", "stat", "iterdir", "glob", "rglob", "index",
    "count", "isnumeric", "isdigit", "item", "tolist", "ravel", "flatten", "transpose", "astimezone", "replace", "any",
    "all", "argmax", "argmin", "title", "casefold", "zfill", "to_bytes", "tobytes", "utcoffset", "schema", "issubset",
    "difference", "union", "intersection", "hex", "is_integer", "conjugate", "nonzero", "std", "var", "cumsum", "group",
    "match", "model_fields", "weekday", "date", "as_uri", "samefile", "owner", "partition", "rpartition", "rsplit",
    "with_traceback", "dict", "view", "squeeze", "diff", "T", "get_node_by_name", "getsize", "isoweekday", "prod", "round", "clip",
} | PATHISH_METH
PURE_PREFIX = ("numpy.", "math.", "datetime.", "typing.", "pathlib.", "os.path.", "itertools.", "functools.", "scipy.", "hashlib.", "base64.", "enum.", "collections.", "string.", "platform.", "sys.", "re.", "ipaddress.", "pydantic.", "typing_extensions.", "annotated_types.")
PURE_EXT = {
    "str", "int", "float", "bool", "list", "dict", "set", "tuple", "len", "range", "enumerate", "zip", "isinstance", "issubclass",
    "min", "max", "abs", "round", "sum", "any", "all", "sorted", "reversed", "map", "filter", "hasattr", "type", "id", "repr",
    "bytes", "bytearray", "hash", "chr", "ord", "hex", "bin", "callable", "divmod", "pow", "iter", "slice", "frozenset", "getattr",
    "timedelta", "tqdm.tqdm", "tqdm.trange", "os.getcwd", "time.time", "print", "vars", "dir", "format", "memoryview", "object", "os.strerror",
}  # fmt: skip
IDENT_EXT = {"tqdm.tqdm", "iter", "typing.cast"}
HANDLE_EXT = {"h5py.File": ("ext", "h5py.File")}


def dict_literal(t):
    """entries of a dict made of constant keys only, if nothing else can be in it"""
    if t[0] == "dict" and all(len(e) == 2 and T.is_k(e[0]) for e in t[1]):
        return dict(t[1])
    return None


def _keys_of(t):
    if t[0] == "mcall" and t[2] == "keys" and not t[3]:
        return t[1]
    if t[0] == "call" and t[1] in {"list", "iter"} and len(t[2]) == 1:
        return _keys_of(t[2][0])
    return t


def _is_exc(name):
    b = getattr(builtins, name, None)
    return (isinstance(b, type) and issubclass(b, BaseException)) or name.endswith(("Error", "Exception"))


NEEDS_VALUE = {"len", "int", "float", "abs", "round", "sum", "sorted", "enumerate", "zip", "iter", "next", "list", "tuple", "set", "dict", "range", "min", "max", "pathlib.Path", "open", "divmod", "pow", "math.log", "math.log2", "math.log10", "math.sqrt", "math.exp", "math.floor", "math.ceil", "reversed", "any", "all", "bytes", "bytearray", "chr", "ord"}


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


class CallMixin:
    def ev_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fi = self.fi
            if e.args:
                outs = []
                for s, vals in self.ev_many(e.args, st):
                    outs.append((s, Super(vals[1], vals[0].ci if isinstance(vals[0], Cls) else None)))
                return outs
            fr, fid = st.frames[self.fid], self.fid
            this = fr.get("!this")
            return [(st, Super(this, fi.cls))]
        if isinstance(e.func, ast.Name) and e.func.id in {"map", "filter"} and len(e.args) == 2 and not e.keywords and not isinstance(e.args[1], ast.Starred) and e.func.id not in st.frames[self.fid]:
            if id(e) not in self._desugared:
                self._desugared[id(e)] = (e, self.as_generator(e))
            return self.ev(self._desugared[id(e)][1], st)
        out = []
        if isinstance(e.func, ast.Attribute):
            funcs = [(s2, fv, rv) for s, rv in self.ev(e.func.value, st) for s2, fv in self.getattr(rv, e.func.attr, s, e.func)]
        else:
            funcs = [(s, fv, None) for s, fv in self.ev(e.func, st)]
        for s, fv, rv in funcs:
            for s2, args in self.ev_many(e.args, s):
                for s3, kws in self.ev_kwargs(e.keywords, s2):
                    out.extend(self.call(fv, args, kws, s3, e, rv))
        return self.limit(out)

    @staticmethod
    def as_generator(e):
        """map / filter call as generator expression"""
        f, src = e.args
        x = ast.Name("!x", ast.Load())
        call = ast.Call(f, [x], [])
        gen = ast.comprehension(ast.Name("!x", ast.Store()), src, [], 0)
        if e.func.id == "filter":
            gen.ifs = [x if isinstance(f, ast.Constant) and f.value is None else call]
        g = ast.GeneratorExp(call if e.func.id == "map" else x, [gen])
        for n in ast.walk(g):
            if "lineno" not in n.__dict__ and isinstance(n, (ast.expr, ast.comprehension)):
                ast.copy_location(n, e)
        return g

    def ev_kwargs(self, kws, st):
        res = [(st, [])]
        for kw in kws:
            nxt = []
            for s, acc in res:
                for s2, v in self.ev(kw.value, s):
                    if kw.arg is not None:
                        nxt.append((s2, [*acc, (kw.arg, v)]))
                        continue
                    o = s2.heap.get(v.oid) if isinstance(v, Ref) else None
                    if o is not None and o.kind == "dict":
                        extra = []
                        for it in o.items:
                            if isinstance(it, Star):
                                extra.append(("*", it))
                            else:
                                kt = self.term(it[0], s2)
                                extra.append((kt[2] if T.is_k(kt) and kt[1] == "str" else "*", it[1]))
                        if o.unknown:
                            extra.append(("*", v))
                        nxt.append((s2, acc + extra))
                    else:
                        nxt.append((s2, [*acc, ("*", v)]))
            res = nxt
        return res

    # ------------------------------------------------------------ dispatch
    def call(self, f, args, kws, st, node, recv=None):
        if isinstance(f, Fn):
            a = list(args)
            if f.this is not None:
                a = [f.this, *a]
            return self.call_repo(f.fi, a, kws, st, node, closure=f.fid)
        if isinstance(f, Lam):
            return self.call_lambda(f, args, kws, st, node)
        if isinstance(f, Cls):
            return self.construct(f.ci, args, kws, st, node)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kws, st, node)
        if isinstance(f, Meth):
            return self.call_method(f.recv, f.name, args, kws, st, node)
        if isinstance(f, S):
            if f.t[0] == "attr":
                if not isinstance(recv, S) or recv.t != f.t[1]:
                    recv = S(f.t[1], self.tyhint.get(f.t[1]))
                return self.call_method(recv, f.t[2], args, kws, st, node)
            self.absent(f, "call", st, node)
            ci = self.class_of(f)
            if ci is not None and ci.find_method("__call__"):
                return self.call_repo(ci.find_method("__call__"), [f, *args], kws, st, node)
            if f.t[0] == "type":
                return self.opaque("call", T.show(f.t), None, args, kws, st, node)
            return self.opaque("call", T.show(f.t), None, [f, *args], kws, st, node)
        return self.opaque("call", "?", None, args, kws, st, node)

    def call_lambda(self, f, args, kws, st, node):
        saved = self.enter_scope(f.module)
        self.fi = saved[2]
        fid = self.fid
        st.frames[fid] = {"!parent": f.fid}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, args):
            st.frames[fid][n] = v
        for n, v in kws:
            st.frames[fid][n] = v
        try:
            for n, d in zip(names[len(names) - len(a.defaults) :], a.defaults):
                if n not in st.frames[fid]:
                    r = self.ev(d, st)
                    st = r[0][0]
                    st.frames[fid][n] = r[0][1]
            res = self.ev(f.node.body, st)
        finally:
            self.leave_scope(saved)
        for s, _ in res:
            s.frames.pop(fid, None)
        return res

    def enter_scope(self, module, fi=None):
        saved = (self.module, self.fid, self.fi)
        self.module = module
        self.fidc += 1
        self.fid = self.fidc
        self.fi = fi
        return saved

    def leave_scope(self, saved):
        self.module, self.fid, self.fi = saved

    def is_opaque(self, fi):
        q = fi.qualname
        if q in self.opaque_set:
            return True
        return any(q.startswith(p) for p in self.opaque_prefix)

    def call_repo(self, fi, args, kws, st, node, closure=None):
        args = list(args)
        loc = self.loc(node)
        targs = tuple(self.term(a, st) for a in args)
        tkws = tuple(sorted((n, self.term(v, st)) for n, v in kws))
        if fi.qualname in self.stub:
            r = self.stub[fi.qualname](self, fi, args, kws, st, node)
            if r is not None:
                return r
        if any(isinstance(a, Star) for a in args):
            # unknown number of positionals: bind what is known
            args = [S(("stararg", self.term(a.val, st))) if isinstance(a, Star) else a for a in args]
        recursive = fi.qualname in self.stack or len(self.stack) > self.max_depth
        if recursive or self.is_opaque(fi) or fi.is_generator or fi.is_abstract and not self._has_body(fi):
            cargs, ckws = list(targs), dict(tkws)
            names = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
            while len(cargs) < len(names) and names[len(cargs)] in ckws:
                cargs.append(ckws.pop(names[len(cargs)]))
            t = ("call", fi.qualname, tuple(cargs), tuple(sorted(ckws.items())))
            self.emit(st, "call", fi.qualname, args=targs, kws=tkws, loc=loc, res=t)
            if fi.qualname in self.throws:
                for x in self.throws[fi.qualname]:
                    s2 = st.copy()
                    self.emit(s2, "thrown", fi.qualname, loc=loc, extra=x)
                    self.raise_exc(s2, Exc(x, loc=loc))
            else:
                self.maybe_raise(st, node)
            ty = self.ret_type(fi, args)
            if self.nullness:
                ty = self.check_absent_args(fi, args, kws, ty, st, node)
            if ty is not None:
                self.tyhint[t] = ty
            return [(st, S(t, ty))]
        self.emit(st, "enter", fi.qualname, args=targs, kws=tkws, loc=loc)
        self.calls_inlined.add(fi.qualname)
        saved = self.enter_scope(fi.module, fi)
        fid = self.fid
        fr = {}
        if closure is not None:
            fr["!parent"] = closure
        st.frames[fid] = fr
        self.stack.append(fi.qualname)
        try:
            self.bind(fi, args, kws, st, fid)
            outs = self.exec_block(fi.node.body, st)
        finally:
            self.stack.pop()
            self.leave_scope(saved)
        res = []
        for kind, s, v in outs:
            if not s.frames.get(fid, {}).get("!keep"):
                s.frames.pop(fid, None)
            if kind == "return":
                if isinstance(v, S) and v.ty is None:
                    ty = self.present(self.ret_type(fi, args))
                    if ty is not None and v.t[0] != "k":
                        v = S(v.t, ty)
                res.append((s, v))
            elif kind == "normal":
                res.append((s, NONE))
        return self.merge_pairs(res)

    @staticmethod
    def _has_body(fi):
        body = [b for b in fi.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        return bool(body) and not all(isinstance(b, (ast.Pass, ast.Raise)) or isinstance(b, ast.Assign) and isinstance(b.value, ast.Constant) and all(isinstance(x, ast.Name) for x in b.targets) for b in body)

    @staticmethod
    def parts_of(fi):
        """Nodes of a method and of the methods it calls on the same object, each with the name of the object."""
        todo, seen = [fi], {fi.qualname}
        while todo:
            f = todo.pop()
            names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            if not names or f.is_static:
                continue
            for n in own_nodes(f.node):
                yield n, names[0]
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == names[0]:
                    m = fi.cls.find_method(n.func.attr)
                    if m is not None and m.qualname not in seen:
                        seen.add(m.qualname)
                        todo.append(m)

    def check_absent_args(self, fi, args, kws, ty, st, node):
        """Arguments of a function which is analysed on its own; -> type of its result."""
        a = fi.node.args
        pos = a.posonlyargs + a.args
        if not any("validate_call" in ast.dump(d) for d in fi.node.decorator_list):
            given = list(zip(pos, args)) + [(x, v) for n, v in kws for x in pos + a.kwonlyargs if x.arg == n]
            if fi.cls is not None and not fi.is_static:
                given = [(x, v) for x, v in given if x is not pos[0]]
            for x, v in given:
                want = self.with_default(fi, x, self.prog.type_of(fi.module, x.annotation) if x.annotation is not None else None)
                if want is not None and want[0] == "union" and any(y is None or y == ("none",) for y in want[1]):
                    continue
                if isinstance(v, S) and (v.t == NONE.t or not v.const) and self.needs is not None and self.needs(fi, x.arg):
                    self.absent(v, f"argument {x.arg} of {fi.name}", st, node)
        if fi.cls is not None and args and not fi.cls.is_model and not fi.is_static:
            # what the method stores in its object
            this = self.ident(args[0])
            for n, me in self.parts_of(fi):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                    for x in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and (fi.cls.qualname, x.attr) not in self.always_there and fi.cls.may_store_none(x.attr):
                            st.store.pop((this, x.attr), None)
                            st.facts = {**st.facts, ("isnone", ("attr", this, x.attr)): False}
        if fi.is_generator:
            return ty
        rets = [n for n in own_nodes(fi.node) if isinstance(n, ast.Return)]
        nones = [n for n in rets if n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None]
        if ty is None or ty[0] != "union":
            if nones and len(nones) < len(rets) and (self.gives_none is None or self.gives_none(fi)):
                return ("union", (ty or ("ext", "object"), ("none",)))
        elif ("none",) in ty[1] and self.gives_none is not None and not self.gives_none(fi):
            # annotated more than what it returns
            return self.present(ty)
        return ty

    def ret_type(self, fi, args):
        r = fi.node.returns
        if r is None:
            return None
        ty = self.prog.type_of(fi.module, r)
        if ty and ty[0] == "ext" and ty[1].split(".")[-1] == "Self" and args:
            a = args[0]
            if isinstance(a, Cls):
                return ("cls", a.ci)
            if isinstance(a, S) and a.ty is not None and a.ty[0] == "cls":
                return a.ty
        return ty

    def bind(self, fi, args, kws, st, fid):
        a = fi.node.args
        fr = st.frames[fid]
        pos = [x for x in a.posonlyargs + a.args]
        if fi.cls is not None and not fi.is_static and args:
            fr["!this"] = args[0]
        names = [x.arg for x in pos]
        rest = args[len(names) :]
        for x, v in zip(pos, args):
            fr[x.arg] = self.typed(v, fi, x)
        kwd = {}
        for n, v in kws:
            if n == "*":
                continue
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                x = next(y for y in pos + a.kwonlyargs if y.arg == n)
                fr[n] = self.typed(v, fi, x)
            else:
                kwd[n] = v
        if a.vararg:
            fr[a.vararg.arg] = Tup(rest)
        star = any(n == "*" for n, _ in kws)
        if a.kwarg:
            fr[a.kwarg.arg] = self.new_heap(st, HObj("dict", [(K(n), v) for n, v in kwd.items()], star))
        defaults = list(zip(names[len(names) - len(a.defaults) :], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defaults:
            if n not in fr:
                if star:
                    fr[n] = S(("kwarg", fi.qualname, n))
                    continue
                saved = self.enter_scope(fi.module)
                st.frames[self.fid] = {}
                tmp = self.fid
                try:
                    r = self.ev(d, st)
                finally:
                    self.leave_scope(saved)
                st.frames.pop(tmp, None)
                fr[n] = r[0][1]
        for x in pos + a.kwonlyargs:
            if x.arg not in fr:
                fr[x.arg] = self.typed(S(("param", x.arg) if not self.stack[:-1] else ("missing", fi.qualname, x.arg)), fi, x)

    def typed(self, v, fi, argnode):
        """Attach annotated type to an untyped symbolic value."""
        if isinstance(v, S) and v.ty is None and argnode.annotation is not None and not v.const:
            ty = self.present(self.prog.type_of(fi.module, argnode.annotation))
            if ty is not None:
                self.tyhint.setdefault(v.t, ty)
                return S(v.t, ty)
        return v

    # ------------------------------------------------------------ construction
    def construct(self, ci, args, kws, st, node):
        loc = self.loc(node)
        if ci.is_enum:
            t = self.term(args[0], st) if args else ("?",)
            if T.is_k(t):
                for n, (c, v) in ci.enum_members().items():
                    if t[1] == "enum" and t[2][0] == ci.qualname:
                        return [(st, args[0])]
                    if K(v).t == F._plain(t):
                        return [(st, self.enum_value(ci, c))]
                self.raise_exc(st, Exc("ValueError", loc=loc))
                return []
            self.maybe_raise(st, node)
            return [(st, S(("call", ci.qualname, (t,), ()), ("cls", ci)))]
        tkws = {}
        for n, v in kws:
            tkws.setdefault(n, self.term(v, st))
        init = ci.find_method("__init__")
        is_exc = any(isinstance(c, str) and (c.endswith(("Error", "Exception", "Warning"))) for c in ci.mro())
        if ci.is_model or init is None or is_exc:
            if init is None and not ci.is_model and args:
                names = list(ci.all_fields())
                for n, v in zip(names, args):
                    tkws[n] = self.term(v, st)
            elif args:
                for i, v in enumerate(args):
                    tkws[f"#{i}"] = self.term(v, st)
            t = ("new", ci.qualname, tuple(sorted(tkws.items())))
            self.newvals[t] = {n: v for n, v in kws if n != "*" and isinstance(v, S)}
            self.emit(st, "construct", ci.qualname, args=tuple(self.term(a, st) for a in args), kws=tuple(sorted(tkws.items())), loc=loc, res=t)
            self.maybe_raise(st, node)
            return [(st, S(t, ("cls", ci)))]
        self.oid += 1
        obj = S(("obj", ci.qualname, self.oid), ("cls", ci))
        self.emit(st, "construct", ci.qualname, args=tuple(self.term(a, st) for a in args), kws=tuple(sorted(tkws.items())), loc=loc, res=obj.t)
        return [(s, obj) for s, _ in self.call_repo(init, [obj, *args], kws, st, node)]

    # ------------------------------------------------------------ external calls
    def opaque(self, kind, name, recv, args, kws, st, node, ty=None, pure=False):
        targs = tuple(self.term(a, st) for a in args)
        tkws = tuple(sorted((n, self.term(v, st)) for n, v in kws))
        if kind == "mcall":
            rt = self.term(recv, st)
            t = ("mcall", rt, name, targs, tkws)
        else:
            rt = None
            t = ("call", name, targs, tkws)
        if not pure:
            self.emit(st, kind, name, recv=rt, args=targs, kws=tkws, loc=self.loc(node), res=t)
            # what is handed out may be changed
            for a in list(args) + [v for _, v in kws]:
                self.escape(a, st)
        elif self.want_pure and name.split(".")[-1] in self.want_pure:
            self.emit(st, "pure", name, recv=rt, args=targs, kws=tkws, loc=self.loc(node), res=t)
        named = self.throws.get(name.split(".")[-1])
        if named is not None:
            for x in named:
                self.raise_exc(st.copy(), Exc(x, loc=self.loc(node)))
        else:
            self.maybe_raise(st, node)
        if ty is not None:
            self.tyhint[t] = ty
        return [(st, S(t, ty))]

    def escape(self, v, st):
        return None

    def is_logger(self, recv):
        if not isinstance(recv, S):
            return isinstance(recv, Ext) and recv.name in {"logging"}
        t = recv.t
        nm = None
        if recv.ty is not None and recv.ty[0] == "ext" and recv.ty[1].split(".")[-1] == "Logger":
            return True
        if t[0] == "phi":
            return all(self.is_logger(S(x)) for x in t[1])
        if t[0] == "global":
            nm = t[1].split(".")[-1]
        elif t[0] == "attr":
            nm = t[2]
        elif t[0] == "param":
            nm = t[1]
        elif t[0] == "call":
            return t[1].endswith("getLogger")
        return nm is not None and nm.strip("_").lower() in {"log", "logger", "log_"}

    def call_method(self, recv, name, args, kws, st, node):
        if name in LOG_METHODS and self.is_logger(recv):
            return [(st, NONE)]
        if isinstance(recv, Ref):
            r = self.heap_method(recv, name, args, kws, st, node)
            if r is not None:
                return r
        if isinstance(recv, Cls):
            if name == "__members__":
                pass
            return self.opaque("call", f"{recv.ci.qualname}.{name}", None, args, kws, st, node, ty=("cls", recv.ci) if recv.ci.is_model and name in {"model_validate", "model_construct"} else None)
        if name == "total_seconds" and isinstance(recv, S) and not args:
            return [(st, S(recv.t, ("ext", "float")))]
        if name == "__getattribute__" and len(args) == 1 and isinstance(args[0], S) and args[0].const and isinstance(args[0].t[2], str):
            return self.getattr(recv, args[0].t[2], st, node)
        if isinstance(recv, S):
            if recv.t[0] == "k" and recv.t[1] in {"str", "bytes", "num"} and all(isinstance(a, S) and a.const and a.t[1] != "num" for a in args) and not kws:
                try:
                    r = getattr(recv.t[2], name)(*[a.t[2] for a in args])
                    if isinstance(r, (str, bytes, int, bool)):
                        return [(st, K(r))]
                    if isinstance(r, (list, tuple)):
                        return [(st, self.new_heap(st, HObj("list", [K(x) for x in r])))]
                except (AttributeError, TypeError, ValueError):
                    pass
            ci = self.class_of(recv, name)
            if ci is not None and ci.find_method(name) is not None:
                return self.call_repo(ci.find_method(name), [recv, *args], kws, st, node)
            if is_pathish(recv) and name in PATHISH_METH:
                if name == "joinpath":
                    t = recv.t
                    for a in args:
                        t = ("pathjoin", t, self.term(a, st))
                    return [(st, S(t, PATH_TY))]
                if name in {"absolute", "resolve", "expanduser"}:
                    return [(st, S(("mcall", recv.t, "absolute", (), ()), PATH_TY))]
                return self.opaque("mcall", name, recv, args, kws, st, node, ty=PATH_TY, pure=True)
            if name == "format" and recv.t[0] == "k":
                r = self.format_parts(recv.t[2], args, dict(kws), st)
                if r is not None:
                    return [(st, r)]
                return [(st, S(("fmt", recv.t, tuple(self.term(a, st) for a in args), tuple(sorted((n, self.term(v, st)) for n, v in kws))), ("ext", "str")))]
            if name == "enter_context" and args:
                return self.enter_context(recv, args[0], st, node)
            if name == "get" and len(args) >= 1 and not kws:
                d = self.term(args[1], st) if len(args) > 1 else NONE.t
                k_, lit = self.term(args[0], st), dict_literal(recv.t)
                if lit is not None and T.is_k(k_) and not any(x[0] == recv.t for x in st.store):
                    return [(st, S(lit[k_]) if k_ in lit else args[1] if len(args) > 1 else NONE)]
                t = ("get", recv.t, k_, d)
                ty = recv.ty[2] if recv.ty and recv.ty[0] == "dict" else None
                if ty is not None and d == NONE.t:
                    ty = ("union", (*(ty[1] if ty[0] == "union" else (ty,)), ("none",)))
                return [(st, S(t, ty))]
            if recv.t[0] == "get" and False:
                pass
        if self.row_functions and name == "apply" and args and isinstance(args[0], (Lam, Fn)) and isinstance(recv, S):
            # function of each row of a table
            return [(s, S(("rows", recv.t, self.term(v, s)))) for s, v in self.call(args[0], [S(("row", recv.t))], [], st, node)]
        pure = name in PURE_METHODS
        ty = None
        if name in {"lower", "upper", "strip", "decode", "as_posix", "isoformat", "strftime", "join", "format", "hexdigest"}:
            ty = ("ext", "str")
        if name == "open" and is_pathish(recv):
            pure = False
        if name in {"glob", "rglob", "iterdir"}:
            ty = ("list", PATH_TY)
        if name == "copy" and isinstance(recv, S):
            ty = recv.ty
        if name == "create_dataset" or name == "require_dataset" or name == "create_group":
            pass
        return self.opaque("mcall", name, recv, args, kws, st, node, ty=ty, pure=pure)

    def enter_context(self, stack_v, cm, st, node):
        res = self.cm_enter(cm, st, node)
        key = (self.ident(stack_v), "!cms")
        out = []
        for s, v in res:
            old = s.store.get(key, Tup(()))
            s.store[key] = Tup((*old.items, cm))
            self.emit(s, "enter_context", "enter_context", recv=self.term(stack_v, s), args=(self.term(cm, s),), loc=self.loc(node))
            out.append((s, v))
        return out

    def note_added(self, oid, vals, st):
        """Remember under which facts entries were added during the running loops."""
        for app in self.app_stack:
            for v in vals:
                v = v.val if isinstance(v, Star) else v
                was = app.get((oid, v))
                app[(oid, v)] = dict(st.facts) if was is None else {a: x for a, x in was.items() if st.facts.get(a) is x}

    def heap_method(self, ref, name, args, kws, st, node):
        o = st.heap.get(ref.oid)
        if o is None or o.kind == "opaque":
            return None
        put = lambda ob: st.heap.__setitem__(ref.oid, ob)  # noqa: E731
        if o.kind in {"list", "set"}:
            if self.want_added and name in {"append", "add", "extend", "insert"}:
                self.emit(st, "added", name, recv=("obj", ref.oid), args=tuple(self.term(a, st) for a in args), loc=self.loc(node))
            if name in {"append", "add"} and len(args) == 1:
                if self.app_stack:
                    new = st.facts.get(("in", self.term(args[0], st), self.term(ref, st))) is False
                    for app in self.app_stack:
                        app.setdefault(ref.oid, []).append(new)
                    self.note_added(ref.oid, args[:1], st)
                if o.kind == "set" and args[0] in o.items:
                    return [(st, NONE)]
                put(o.with_items((*o.items, args[0])))
                return [(st, NONE)]
            if name in {"extend", "update"} and len(args) == 1:
                its = self.iter_items(args[0], st)
                put(o.with_items((*o.items, *its) if its is not None else (*o.items, self.spread(args[0], st))))
                return [(st, NONE)]
            if name == "insert" and len(args) == 2 and isinstance(args[0], S) and args[0].const and o.exact:
                its = list(o.items)
                its.insert(int(args[0].t[2]), args[1])
                put(o.with_items(its))
                return [(st, NONE)]
            if name == "copy":
                return [(st, self.new_heap(st, o))]
            if name == "pop" and o.exact and o.items and not args:
                put(o.with_items(o.items[:-1]))
                return [(st, o.items[-1])]
            if name in {"pop", "remove", "discard", "clear", "insert", "reverse", "sort"}:
                if name in {"sort", "reverse"}:
                    put(o.with_items([i if isinstance(i, Star) else Star(i) for i in o.items]))
                    return [(st, NONE)]
                if name == "clear":
                    put(HObj(o.kind))
                    return [(st, NONE)]
                if name in {"remove", "discard"} and len(args) == 1 and o.items and not o.unknown and all(isinstance(i, Star) for i in o.items):
                    gone = ("removed", self.term(args[0], st))
                    put(o.with_items([Star(i.val, {**i.facts, gone: True}, i.key, i.bound) for i in o.items]))
                    return [(st, NONE)]
                put(o.with_items((), unknown=True))
                return [(st, S(("mcall", self.term(ref, None), name, tuple(self.term(a, st) for a in args), ())))]
            if name in {"index", "count", "issubset", "union", "intersection", "difference"}:
                return [(st, S(("mcall", self.term(ref, st), name, tuple(self.term(a, st) for a in args), ())))]
        if o.kind == "dict":
            if name == "get" and args:
                outs = []
                atom_t = self.term(args[0], st)
                default = args[1] if len(args) > 1 else NONE
                cur = st
                for it in o.items:
                    if isinstance(it, Star):
                        continue
                    atom, pol = F.cmp_atom("==", atom_t, self.term(it[0], cur))
                    t, f = self.split_atom(atom, pol, cur)
                    outs.extend((s, it[1]) for s in t)
                    if not f:
                        return outs
                    cur = f[0]
                if o.exact:
                    ci = self.class_of(args[0]) if self.nullness and isinstance(args[0], S) else None
                    if ci is not None and ci.is_enum:
                        known = {F._plain(self.term(it[0], cur)) for it in o.items if not isinstance(it, Star)}
                        if all(K(v).t in known for _c, v in ci.enum_members().values()):
                            return outs
                    return [*outs, (cur, default)]
                return [*outs, (cur, S(("get", self.term(ref, cur), atom_t, self.term(default, cur))))]
            if name in {"keys", "values", "items"} and not args:
                if o.exact:
                    its = {"keys": lambda i: i[0], "values": lambda i: i[1], "items": lambda i: Tup(i)}[name]
                    return [(st, self.new_heap(st, HObj("list", [its(i) for i in o.items])))]
                if not o.unknown:
                    mk = {
                        "keys": lambda i: Star(i.key, bound=i.bound) if isinstance(i, Star) else i[0],
                        "values": lambda i: Star(i.val, bound=i.bound) if isinstance(i, Star) else i[1],
                        "items": lambda i: Star(Tup((i.key, i.val)), bound=i.bound) if isinstance(i, Star) else Tup(i),
                    }[name]
                    return [(st, self.new_heap(st, HObj("list", [mk(i) for i in o.items])))]
            if name == "copy":
                return [(st, self.new_heap(st, o))]
            if name == "update":
                items, unk = list(o.items), o.unknown
                src = list(kws)
                if args:
                    od = st.heap.get(args[0].oid) if isinstance(args[0], Ref) else None
                    if od is not None and od.kind == "dict":
                        for it in od.items:
                            items = self._dict_put(items, it) if not isinstance(it, Star) else [*items, it]
                        unk = unk or od.unknown
                    else:
                        items = [Star(S(("valof", self.term(args[0], st))), key=S(("keyof", self.term(args[0], st))))]
                        unk = True
                for n, v in src:
                    items = self._dict_put(items, (K(n), v))
                put(o.with_items(items, unk))
                return [(st, NONE)]
            if name in {"pop", "setdefault", "clear", "popitem"}:
                t = self.term(args[0], st) if args else None
                if name == "pop" and t is not None and T.is_k(t):
                    hit = [it for it in o.items if not isinstance(it, Star) and self.term(it[0], st) == t]
                    put(o.with_items([it for it in o.items if it not in hit]))
                    if hit:
                        return [(st, hit[0][1])]
                    if o.exact:
                        if len(args) > 1:
                            return [(st, args[1])]
                        self.raise_exc(st, Exc("KeyError", loc=self.loc(node)))
                        return []
                put(o.with_items(o.items, True))
                return [(st, S(("mcall", self.term(ref, None), name, (t,) if t else (), ())))]
        return None

    # ------------------------------------------------------------ builtins & known libs
    def call_ext(self, name, args, kws, st, node):
        short = name.split(".")[-1]
        if self.nullness and name in NEEDS_VALUE:
            for a in args:
                self.absent(a, f"{name}()", st, node)
        h = self.ext_hooks.get(name)
        if h is not None:
            r = h(self, name, args, kws, st, node)
            if r is not None:
                return r
        m = getattr(self, "x_" + name.replace(".", "_"), None)
        if m is not None and not any(isinstance(a, Star) for a in args):
            r = m(args, kws, st, node)
            if r is not None:
                return r
        if name in IDENT_EXT and args:
            return [(st, args[0])]
        if name.startswith("logging.") or short in {"getLogger"}:
            return [(st, S(("call", name, tuple(self.term(a, st) for a in args), ()), ("ext", "logging.Logger")))]
        ty = HANDLE_EXT.get(name)
        if name == "contextlib.ExitStack":
            self.oid += 1
            return [(st, S(("exitstack", self.oid)))]
        if name in {"sys.exit", "exit", "quit", "os._exit"}:
            self.emit(st, "exit", "exit", args=tuple(self.term(a, st) for a in args), loc=self.loc(node))
            self.raise_exc(st, Exc("SystemExit", loc=self.loc(node)))
            return []
        if self.record_div and args and name in {"math.log", "math.log2", "math.log10", "math.sqrt"} and not isinstance(args[0], Star):
            self.emit(st, "domain", name, args=(self.term(args[0], st),), loc=self.loc(node), extra=frozenset().union(*self.guards))
        pure = name in PURE_EXT or _is_exc(name) or name.startswith(PURE_PREFIX)
        if name.startswith("numpy.") and (any(n == "out" for n, _ in kws) or short in {"copyto", "put", "save", "savetxt", "savez", "place", "putmask"}):
            pure = False
        if name.startswith("numpy.random"):
            pure = False
        return self.opaque("call", name, None, args, kws, st, node, ty=ty, pure=pure)

    def x_pathlib_Path(self, args, kws, st, node):
        if not args:
            return [(st, S(("path", T.k(".")), PATH_TY))]
        t = self.term(args[0], st)
        if not is_pathish(args[0]):
            t = ("path", t) if T.is_k(t) else t
        for a in args[1:]:
            t = ("pathjoin", t, self.term(a, st))
        return [(st, S(t, PATH_TY))]

    def format_parts(self, text, args, kws, st):
        """The term of text.format(...); None when the fields are not plain"""
        vals, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(text):
                vals.append(T.k(lit))
                if field is None:
                    continue
                if field == "":
                    field, auto = str(auto), auto + 1
                if field.isdigit():
                    v = args[int(field)]
                elif field in kws:
                    v = kws[field]
                else:
                    return None
                t = self.term(v, st)
                plain = not spec and not conv
                if t[0] == "k" and t[1] == "num" and plain:
                    t = T.k(str(int(t[2]) if t[2].denominator == 1 else float(t[2])))
                vals.append(t)
        except (ValueError, IndexError, TypeError, AttributeError):
            return None
        return self.join_str(vals)

    def join_str(self, vals):
        parts = []
        for t in vals:
            for p in t[1] if t[0] == "fstr" else (t,):
                if p == T.k(""):
                    continue
                if parts and p[0] == "k" and p[1] == "str" and parts[-1][0] == "k" and parts[-1][1] == "str":
                    parts[-1] = T.k(parts[-1][2] + p[2])
                else:
                    parts.append(p)
        if not parts:
            return K("")
        if len(parts) == 1 and parts[0][0] == "k" and parts[0][1] == "str":
            return S(parts[0])
        return S(("fstr", tuple(parts)), ("ext", "str"))

    def _minmax(self, op, args, st):
        flat = []
        for a in args:
            t = self.num(a, st)
            flat.extend(t[1] if t[0] == op else [t])
        ks = [t for t in flat if T.is_k(t) and t[1] == "num"]
        rest = []
        for t in flat:
            if t not in ks and t not in rest:
                rest.append(t)
        if ks:
            pick = (min if op == "min" else max)(x[2] for x in ks)
            rest.append(T.k(pick))
        if len(rest) == 1:
            return S(rest[0])
        return S((op, tuple(sorted(rest, key=T._key))))

    def x_min(self, args, kws, st, node):
        return self._mm("min", args, kws, st)

    def x_max(self, args, kws, st, node):
        return self._mm("max", args, kws, st)

    def _mm(self, op, args, kws, st):
        if kws:
            return None
        if len(args) >= 2:
            self.emit(st, "scalar", op, args=tuple(self.term(a, st) for a in args))
            return [(st, self._minmax(op, args, st))]
        its = self.known_items(args[0], st)
        if its:
            return [(st, self._minmax(op, its, st))]
        return None

    def x_numpy_minimum(self, args, kws, st, node):
        return [(st, self._minmax("min", args, st))] if len(args) == 2 and not kws else None

    def x_numpy_maximum(self, args, kws, st, node):
        return [(st, self._minmax("max", args, st))] if len(args) == 2 and not kws else None

    def x_numpy_clip(self, args, kws, st, node):
        kw = dict(kws)
        if "out" in kw:
            return None
        lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min", NONE))
        hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max", NONE))
        v = args[0] if args else kw.get("a")
        if v is None:
            return None
        if lo != NONE:
            v = self._minmax("max", [v, lo], st)
        if hi != NONE:
            v = self._minmax("min", [v, hi], st)
        return [(st, v)]

    def x_abs(self, args, kws, st, node):
        t = self.num(args[0], st)
        if T.is_k(t) and t[1] == "num":
            return [(st, K(abs(t[2])))]
        return [(st, S(T.absolute(t)))]

    x_numpy_abs = x_abs
    x_numpy_absolute = x_abs
    x_math_fabs = x_abs

    def x_float(self, args, kws, st, node):
        if not args:
            return [(st, K(0))]
        t = self.num(args[0], st)
        if T.is_k(t) and t[1] == "num":
            return [(st, args[0])]
        if T.is_k(t) and t[1] == "str" and t[2] in {"inf", "nan"}:
            return [(st, S(("ext", t[2])))]
        if self.is_str(args[0]):
            return None
        self.emit(st, "scalar", "float", args=(t,))
        return [(st, S(t))]

    def x_int(self, args, kws, st, node):
        if len(args) == 1:
            t = self.num(args[0], st)
            self.emit(st, "scalar", "int", args=(t,))
            if T.is_k(t) and t[1] in {"num", "bool"}:
                return [(st, K(int(t[2])))]
            if t[0] == "call" and t[1] in {"int", "round", "len", "math.floor", "math.ceil"} and len(t[2]) == 1:
                return [(st, S(t))]
        return None

    def x_round(self, args, kws, st, node):
        t = self.num(args[0], st)
        if len(args) == 1 and not kws:
            if T.is_k(t) and t[1] == "num":
                return [(st, K(round(t[2])))]
            if node is not None and isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
                self.emit(st, "scalar", "round", args=(t,))
            return [(st, S(("call", "round", (t,), ())))]
        return None

    def x_numpy_round(self, args, kws, st, node):
        return self.x_round(args, kws, st, node)

    def x_bool(self, args, kws, st, node):
        if not args:
            return [(st, FALSE)]
        t, f = self.split(args[0], st)
        return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]

    def x_str(self, args, kws, st, node):
        if not args:
            return [(st, K(""))]
        t = self.term(args[0], st)
        if T.is_k(t) and t[1] == "str":
            return [(st, args[0])]
        if T.is_k(t) and t[1] == "num" and t[2].denominator == 1:
            return [(st, K(str(int(t[2]))))]
        if t[0] == "fstr":
            return [(st, args[0])]
        return [(st, S(("fstr", (t,)), ("ext", "str")))]

    def x_len(self, args, kws, st, node):
        v = args[0]
        its = self.known_items(v, st)
        if its is not None:
            return [(st, K(len(its)))]
        lit = dict_literal(_keys_of(self.term(v, st)))
        if lit is not None:
            return [(st, K(len(lit)))]
        return [(st, S(("call", "len", (self.term(v, st),), ())))]

    def x_next(self, args, kws, st, node):
        lit = dict_literal(_keys_of(self.term(args[0], st)))
        if lit:
            return [(st, S(next(iter(lit))))]
        return None

    def x_range(self, args, kws, st, node):
        ts = [self.num(a, st) for a in args]
        if len(ts) == 1:
            ts = [T.k(0), ts[0], T.k(1)]
        elif len(ts) == 2:
            ts = [*ts, T.k(1)]
        return [(st, S(("range", *ts)))]

    def x_tqdm_trange(self, args, kws, st, node):
        return self.x_range(args, [], st, node)

    def x_enumerate(self, args, kws, st, node):
        start = args[1] if len(args) > 1 else dict(kws).get("start", K(0))
        its = self.known_items(args[0], st)
        if its is not None and isinstance(start, S) and start.const:
            s0 = int(start.t[2])
            return [(st, self.new_heap(st, HObj("list", [Tup([K(i + s0), v]) for i, v in enumerate(its)])))]
        t = self.term(args[0], st)
        if isinstance(args[0], S) and args[0].ty is not None:
            self.tyhint[t] = args[0].ty
        return [(st, S(("enumerate", t, self.term(start, st))))]

    def x_zip(self, args, kws, st, node):
        all_its = [self.known_items(a, st) for a in args]
        if all(i is not None for i in all_its):
            return [(st, self.new_heap(st, HObj("list", [Tup(x) for x in zip(*all_its)])))]
        for a in args:
            if isinstance(a, S) and a.ty is not None:
                self.tyhint[a.t] = a.ty
        return [(st, S(("zip", tuple(self.term(a, st) for a in args))))]

    def x_itertools_product(self, args, kws, st, node):
        import itertools

        its = [self.known_items(a, st) for a in args]
        if not kws and all(i is not None for i in its):
            combos = list(itertools.product(*its))
            if len(combos) <= self.unroll:
                return [(st, self.new_heap(st, HObj("list", [Tup(x) for x in combos])))]
        return self.opaque("call", "itertools.product", None, args, kws, st, node, pure=True)

    def _to_seq(self, kind, args, st):
        if not args:
            return [(st, self.new_heap(st, HObj(kind)))]
        v = args[0]
        its = self.iter_items(v, st)
        if its is not None:
            if kind == "set":
                uniq = []
                for i in its:
                    if i not in uniq:
                        uniq.append(i)
                its = uniq
            return [(st, self.new_heap(st, HObj(kind, its)))]
        return None

    def x_list(self, args, kws, st, node):
        r = self._to_seq("list", args, st)
        if r is None:
            v = args[0]
            if isinstance(v, Ref):
                return [(st, self.new_heap(st, HObj("list", [self.spread(v, st)])))]
            return [(st, S(("seq", self.term(v, st)), v.ty if isinstance(v, S) else None))]
        return r

    def x_tuple(self, args, kws, st, node):
        if not args:
            return [(st, Tup(()))]
        its = self.known_items(args[0], st)
        return [(st, Tup(its))] if its is not None else None

    def x_set(self, args, kws, st, node):
        r = self._to_seq("set", args, st)
        if r is None:
            return [(st, S(("call", "set", (self.term(args[0], st),), ())))]
        if args:
            # elements may coincide
            o = st.heap[r[0][1].oid]
            if len(o.items) > 1 and not all(isinstance(i, S) and i.const for i in o.items):
                return [(st, S(("call", "set", (self.term(args[0], st),), ())))]
        return r

    def x_dict(self, args, kws, st, node):
        if args:
            o = st.heap.get(args[0].oid) if isinstance(args[0], Ref) else None
            if o is not None and o.kind == "dict":
                ref = self.new_heap(st, o)
                for n, v in kws:
                    self.heap_method(ref, "update", [], [(n, v)], st, node)
                return [(st, ref)]
            return None
        if any(n == "*" for n, _ in kws):
            return [(st, self.new_heap(st, HObj("dict", [(K(n), v) for n, v in kws if n != "*"], True)))]
        return [(st, self.new_heap(st, HObj("dict", [(K(n), v) for n, v in kws])))]

    def x_sum(self, args, kws, st, node):
        its = self.known_items(args[0], st)
        if its is not None and len(args) == 1:
            acc = T.k(0)
            for i in its:
                acc = T.add(acc, self.num(i, st))
            return [(st, S(acc))]
        return None

    def _anyall(self, op, args, st):
        its = self.known_items(args[0], st)
        if its is None:
            v = args[0]
            o = st.heap.get(v.oid) if isinstance(v, Ref) else None
            if o is not None and len(o.items) == 1 and isinstance(o.items[0], Star):
                t = self.term(o.items[0].val, st)
                c = tuple(sorted(((a, b) for a, b in o.items[0].facts.items()), key=repr))
                atom, pol = F.truth_atom(t)
                if op == "all":
                    return [(st, self.atom_value(("exists", atom, not pol, c), False))]
                return [(st, self.atom_value(("exists", atom, pol, c), True))]
            return None
        res, cur = [], [st]
        for i in its:
            nxt = []
            for s in cur:
                t, f = self.split(i, s)
                if op == "any":
                    res.extend((z, TRUE) for z in t)
                    nxt.extend(f)
                else:
                    res.extend((z, FALSE) for z in f)
                    nxt.extend(t)
            cur = nxt
        return res + [(z, FALSE if op == "any" else TRUE) for z in cur]

    def x_any(self, args, kws, st, node):
        return self._anyall("any", args, st)

    def x_all(self, args, kws, st, node):
        return self._anyall("all", args, st)

    def x_sorted(self, args, kws, st, node):
        return None

    def x_isinstance(self, args, kws, st, node):
        v, c = args
        classes = list(c.items) if isinstance(c, Tup) else [c]
        true, cur = [], st
        if isinstance(v, S):
            v = self.refine(v, st)
        tv = self.term(v, st)
        for k_ in classes:
            d = self.isinst(v, k_, cur)
            name = k_.ci.qualname if isinstance(k_, Cls) else (k_.name if isinstance(k_, Ext) else T.show(self.term(k_, st)))
            t, f = self.split_atom(d if d is not None else ("isinst", tv, name), True, cur)
            if self.nullness and "NoneType" not in name and isinstance(v, S) and self.may_be_none(v):
                for s in t:
                    s.facts = {**s.facts, ("isnone", tv): False}
            true.extend((s, TRUE) for s in t)
            if not f:
                return true
            cur = f[0]
        return [*true, (cur, FALSE)]

    def isinst(self, v, c, st):
        if isinstance(v, S) and v.const:
            if isinstance(c, Ext):
                if v.t[1] == "num":
                    return {"int": v.t[2].denominator == 1, "float": v.t[2].denominator != 1}.get(c.name, False)
                if v.t[1] == "enum":
                    return c.name == "str" and v.t[2][3]
                return {"str": v.t[1] == "str", "bool": v.t[1] == "bool", "bytes": v.t[1] == "bytes"}.get(c.name, False)
            return isinstance(c, Cls) and v.t[1] == "enum" and v.t[2][0] == c.ci.qualname
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if o is not None and o.kind in {"list", "dict", "set"} and isinstance(c, Ext):
                return o.kind == c.name
        if isinstance(v, Tup) and isinstance(c, Ext):
            return c.name == "tuple"
        if not self.trust_types or not isinstance(v, S) or v.ty is None:
            return None
        if v.ty[0] == "cls" and isinstance(c, Ext) and v.ty[1].is_enum and c.name in {"str", "int", "float", "bytes", "pathlib.Path"}:
            return c.name == "str" and v.ty[1].is_str_enum
        if v.ty[0] == "ext" and isinstance(c, Ext):
            basic = {"str", "int", "float", "bytes", "pathlib.Path"}
            if v.ty[1] == c.name and c.name in basic:
                return True
            if v.ty[1] in {"str", "bytes", "pathlib.Path"} and c.name in basic | {"bool", "list", "dict", "numpy.ndarray"}:
                return False
        if v.ty[0] == "ext" and v.ty[1] in {"str", "bytes", "int", "float"} and isinstance(c, Cls) and not c.ci.is_enum:
            return False
        if v.ty[0] == "cls" and isinstance(c, Cls):
            if v.ty[1].is_subclass_of(c.ci.qualname):
                return True
            if c.ci.is_subclass_of(v.ty[1].qualname):
                return None
            return False
        return None

    def x_hasattr(self, args, kws, st, node):
        if isinstance(args[1], S) and args[1].const:
            if (self.ident(args[0]), args[1].t[2]) in st.store:
                return [(st, K(True))]
            ci = self.class_of(args[0])
            if ci is not None and not ci.is_enum and ci.find_method(args[1].t[2]) is not None:
                return [(st, K(True))]
            if ci is not None and ci.is_model and ci.find_field(args[1].t[2]) is not None:
                return [(st, K(True))]
        return [(st, S(("atom", ("hasattr", self.term(args[0], st), self.term(args[1], st)))))]

    def x_getattr(self, args, kws, st, node):
        if isinstance(args[1], S) and args[1].const and len(args) == 2:
            return self.getattr(args[0], args[1].t[2], st, node)
        if isinstance(args[1], S) and args[1].const and len(args) == 3:
            ci = self.class_of(args[0])
            if ci is not None and ci.is_model and ci.find_field(args[1].t[2]) is not None:
                return self.getattr(args[0], args[1].t[2], st, node)
        return None

    def x_setattr(self, args, kws, st, node):
        if isinstance(args[1], S) and args[1].const:
            self.set_attr(args[0], args[1].t[2], args[2], st, node)
            return [(st, NONE)]
        return None

    def x_type(self, args, kws, st, node):
        if len(args) == 1:
            ci = self.class_of(args[0])
            if ci is not None and isinstance(args[0], S) and args[0].t[0] not in {"new", "obj", "k"} and any(c is not ci and c.is_subclass_of(ci.qualname) for c in self.prog.all_classes()):
                ci = None  # may be a subclass
            return [(st, Cls(ci) if ci else S(("type", self.term(args[0], st))))]
        return None

    def x_print(self, args, kws, st, node):
        return [(st, NONE)]

    def x_object___setattr__(self, args, kws, st, node):
        return self.x_setattr(args, kws, st, node)

    def x_datetime_timedelta(self, args, kws, st, node):
        """Durations are numbers of seconds."""
        units = {"days": 86400, "seconds": 1, "microseconds": Fraction(1, 10**6), "milliseconds": Fraction(1, 1000), "minutes": 60, "hours": 3600, "weeks": 604800}
        acc = T.k(0)
        for n, v in [*zip(units, args), *kws]:
            if n not in units:
                return None
            acc = T.add(acc, T.mul(self.num(v, st), T.k(units[n])))
        return [(st, S(acc, ("ext", "datetime.timedelta")))]

    def x_time_sleep(self, args, kws, st, node):
        return [(st, NONE)]


_ = (Mod, Meth, Exc, F)
