"""Program model: parses the repository's packages and resolves names.

Nothing in here imports or runs code of the repository, everything is read from the
abstract syntax trees of the current working tree.
"""

import ast
import os
from pathlib import Path

REPO = Path(os.environ.get("SHPA_REPO", "/repo"))
PACKAGES = {
    "shepherd_core": "shepherd_core/shepherd_core",
    "shepherd_data": "shepherd_data/shepherd_data",
}


class AnalysisError(Exception):
    """The analysis could not be carried out (vanished anchor, unparsable file)."""


class FunctionInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        pre = f"{cls.qualname}." if cls else (f"{parent.qualname}.<locals>." if parent else f"{module.name}.")
        self.qualname = pre + self.name
        self.decorators = [_dotted(d) for d in getattr(node, "decorator_list", [])]
        self._gen = None

    @property
    def is_static(self):
        return any(d.split(".")[-1] == "staticmethod" for d in self.decorators)

    @property
    def is_class(self):
        return any(d.split(".")[-1] == "classmethod" for d in self.decorators)

    @property
    def is_property(self):
        return any(d.split(".")[-1] in {"property", "cached_property", "computed_field"} for d in self.decorators)

    @property
    def is_abstract(self):
        return any(d.split(".")[-1] == "abstractmethod" for d in self.decorators)

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(self.node)
            )
        return self._gen

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<fn {self.qualname}>"


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qualname = f"{module.name}.{node.name}"
        self.methods = {}
        self.fields = {}  # name -> (annotation | None, value | None, stmt)
        for st in node.body:
            self._add(st)
        self._attr_types = None

    def _add(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.methods[st.name] = FunctionInfo(st, self.module, cls=self)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            self.fields[st.target.id] = (st.annotation, st.value, st)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.fields[t.id] = (None, st.value, st)
        elif isinstance(st, (ast.If, ast.Try, ast.With)):
            for sub in ast.iter_child_nodes(st):
                if isinstance(sub, ast.stmt):
                    self._add(sub)

    @property
    def bases(self):
        """Resolved bases: ClassInfo or dotted string of something external."""
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = self.module.prog.resolve_expr(self.module, b)
            out.append(r[1] if r and r[0] == "class" else (r[1] if r and r[0] == "ext" else _dotted(b)))
        return out

    def mro(self):
        out, seen = [self], {self.qualname}
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    key = c.qualname if isinstance(c, ClassInfo) else c
                    if key not in seen:
                        seen.add(key)
                        out.append(c)
            elif b not in seen:
                seen.add(b)
                out.append(b)
        return out

    def find_method(self, name, after=None):
        mro = self.mro()
        if after is not None:
            idx = [i for i, c in enumerate(mro) if c is after]
            mro = mro[idx[0] + 1 :] if idx else mro
        for c in mro:
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_field(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.fields:
                return (c, *c.fields[name])
        return None

    def all_fields(self):
        """Annotated class attributes, base classes first (pydantic model fields)."""
        out = {}
        for c in reversed(self.mro()):
            if isinstance(c, ClassInfo):
                for n, (ann, val, st) in c.fields.items():
                    if ann is not None:
                        out[n] = (c, ann, val, st)
        return out

    def is_subclass_of(self, qual):
        for c in self.mro():
            n = c.qualname if isinstance(c, ClassInfo) else c
            if n == qual or n.split(".")[-1] == qual:
                return True
        return False

    @property
    def is_enum(self):
        return any(isinstance(c, str) and c.split(".")[-1] in {"Enum", "IntEnum", "StrEnum"} for c in self.mro())

    @property
    def is_str_enum(self):
        return self.is_enum and any(isinstance(c, str) and c in {"str", "builtins.str"} for c in self.mro())

    @property
    def is_model(self):
        return any(isinstance(c, str) and c.endswith("BaseModel") for c in self.mro())

    def enum_members(self):
        """name -> (canonical name, value)."""
        out, by_val = {}, {}
        for c in reversed(self.mro()):
            if not isinstance(c, ClassInfo):
                continue
            for st in c.node.body:
                if isinstance(st, ast.Assign):
                    try:
                        val = ast.literal_eval(st.value)
                    except ValueError:
                        continue
                    if isinstance(val, tuple) and len(val) == 1:
                        val = val[0]  # Enum calls str(*args)
                    for t in st.targets:
                        if isinstance(t, ast.Name) and not t.id.startswith("_"):
                            key = (type(val).__name__, val)
                            canon = by_val.setdefault(key, t.id)
                            out[t.id] = (canon, val)
        return out

    def may_store_none(self, name):
        """Does any method (or the class) store None in the attribute of an instance?"""
        if not hasattr(self, "_may_none"):
            self._may_none = {}
        if name not in self._may_none:
            self._may_none[name] = self._may_store_none(name)
        return self._may_none[name]

    def _may_store_none(self, name):
        f = self.find_field(name)
        if f is not None and isinstance(f[2], ast.Constant) and f[2].value is None:
            return True
        for c in self.mro():
            if not isinstance(c, ClassInfo):
                continue
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        if any(_is_self_attr(t, name) for t in ts) and any(isinstance(v, ast.Constant) and v.value is None for v in _alternatives(n.value)):
                            return True
        return False

    def attr_annotation(self, name):
        """(module, annotation-or-constructor expr, is_annotation) for an instance attribute."""
        if self._attr_types is None:
            self._attr_types = {}
        if name not in self._attr_types:
            self._attr_types[name] = self._attr_annotation(name)
        return self._attr_types[name]

    def _attr_annotation(self, name):
        f = self.find_field(name)
        if f and f[1] is not None:
            return (f[0].module, f[1], True)
        for c in self.mro():
            if not isinstance(c, ClassInfo):
                continue
            best = None
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.AnnAssign) and _is_self_attr(n.target, name):
                        return (c.module, n.annotation, True)
                    if isinstance(n, ast.Assign) and any(_is_self_attr(t, name) for t in n.targets):
                        best = best or next(_kinds(c.module, m.node, n.value), None)
            if best:
                return best
        return None

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<class {self.qualname}>"


def _kinds(module, fn, e, depth=0):
    """(module, annotation or constructor, is annotation) an expression in a function can be"""
    for v in _alternatives(e):
        if isinstance(v, ast.Call):
            h = module.defs.get(v.func.id) if isinstance(v.func, ast.Name) else None
            if h is not None and h[0] == "func" and h[1].node.returns is None and depth < 4:
                hn = h[1].node
                given = dict(zip([a.arg for a in hn.args.posonlyargs + hn.args.args], v.args))
                given.update({k.arg: k.value for k in v.keywords})
                for r in ast.walk(hn):
                    if isinstance(r, ast.Return) and r.value is not None:
                        for y in _alternatives(r.value):
                            if isinstance(y, ast.Name) and y.id in given:
                                yield from _kinds(module, fn, given[y.id], depth + 1)
                            else:
                                yield from _kinds(module, hn, y, depth + 1)
            elif h is not None and h[0] == "func" and h[1].node.returns is not None:
                yield (module, h[1].node.returns, True)
            else:
                yield (module, v.func, False)
        elif isinstance(v, ast.Name):
            for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
                if a.arg == v.id and a.annotation is not None:
                    yield (module, a.annotation, True)
            if depth < 4:
                for n in ast.walk(fn):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets) and not (isinstance(n.value, ast.Name) and n.value.id == v.id):
                        yield from _kinds(module, fn, n.value, depth + 1)


def _alternatives(e):
    if isinstance(e, ast.IfExp):
        return _alternatives(e.body) + _alternatives(e.orelse)
    if isinstance(e, ast.BoolOp):
        return [x for v in e.values for x in _alternatives(v)]
    return [e]


def _is_self_attr(node, name):
    return isinstance(node, ast.Attribute) and node.attr == name and isinstance(node.value, ast.Name) and node.value.id == "self"


def unalias(tree):
    """Names imported under another name get their own name back (where it is free)."""
    taken = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            taken.add(n.id)
        elif isinstance(n, ast.arg):
            taken.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.ExceptHandler)) and n.name:
            taken.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            taken |= {a.asname or a.name for a in n.names}
    names = {}
    for st in tree.body:
        if isinstance(st, ast.ImportFrom):
            for a in list(st.names):
                if a.asname and a.asname != a.name and a.name not in taken:
                    names[a.asname] = a.name
                    taken.add(a.name)
                    st.names.append(ast.alias(a.name, None))
    stores = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id in names and n.id not in stores:
            n.id = names[n.id]


class Loops(ast.NodeTransformer):
    """Loops that walk a collection by position, or carry a position nobody uses, become plain loops."""

    def __init__(self):
        self.fn = []

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def loads(self, name, without=()):
        skip = {id(x) for w in without for x in ast.walk(w)}
        return [x for x in ast.walk(self.fn[-1]) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in skip]

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if self.fn and isinstance(b, list) and len(b) > 1:
                self.counting(b)
        return n

    def counting(self, b):
        """i = lo; while i < hi: ...; i += step"""
        for j, w in enumerate(b):
            if not (isinstance(w, ast.While) and not w.orelse and isinstance(w.test, ast.Compare) and len(w.test.ops) == 1):
                continue
            op, left, right = w.test.ops[0], w.test.left, w.test.comparators[0]
            if isinstance(op, ast.Gt):
                op, left, right = ast.Lt(), right, left
            last = w.body[-1]
            if not (isinstance(op, ast.Lt) and isinstance(left, ast.Name) and isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add)):
                continue
            i = left.id
            if not (isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.value, ast.Constant) and type(last.value.value) is int and last.value.value > 0):
                continue
            init = [k for k in range(j) if _sets(b[k], i)]
            if not init or not (isinstance(b[init[-1]], ast.Assign) and len(b[init[-1]].targets) == 1 and isinstance(b[init[-1]].targets[0], ast.Name)):
                continue
            st = b[init[-1]]
            inner = w.body[:-1]
            if not inner or any(_sets(x, i) for x in inner) or any(isinstance(x, (ast.Continue, ast.FunctionDef, ast.Lambda)) for y in inner for x in ast.walk(y)):
                continue
            if any(_reads(b[k], i) for k in range(init[-1] + 1, j)) or self.loads(i, [w]):
                continue
            if not _fixed(right, [*inner]) or any(_sets(b[k], x.id) for k in range(init[-1] + 1, j) for x in ast.walk(st.value) if isinstance(x, ast.Name)) or not _plain(st.value):
                continue
            args = [right] if isinstance(st.value, ast.Constant) and st.value.value == 0 and last.value.value == 1 else [st.value, right]
            if last.value.value != 1:
                args.append(last.value)
            new = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), args, []), inner, [])
            new = ast.fix_missing_locations(ast.copy_location(new, w))
            b[j] = self.one(new)
            del b[init[-1]]
            self.counting(b)
            return

    def visit_For(self, n):
        self.generic_visit(n)
        return self.one(n) if self.fn else n

    def one(self, n):
        it = n.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords and not n.orelse):
            return n
        if it.func.id == "enumerate" and len(it.args) == 1 and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name):
            if not self.loads(n.target.elts[0].id):
                n.iter, n.target = it.args[0], n.target.elts[1]
            return n
        if it.func.id == "range" and len(it.args) == 1 and isinstance(n.target, ast.Name):
            size = it.args[0]
            if not (isinstance(size, ast.Call) and isinstance(size.func, ast.Name) and size.func.id == "len" and len(size.args) == 1 and _plain(size.args[0])):
                return n
            coll = size.args[0]
            text = ast.dump(coll)
            i = n.target.id
            at = [x for y in n.body for x in ast.walk(y) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == i and ast.dump(x.value) == text]
            if not at or any(not isinstance(x.ctx, ast.Load) for x in at) or any(_sets(y, i) for y in n.body) or not _fixed(coll, n.body):
                return n
            if {id(x) for x in self.loads(i)} != {id(x.slice) for x in at}:
                return n
            first = n.body[0]
            if isinstance(first, ast.Assign) and first.value is at[0] and len(at) == 1 and len(first.targets) == 1:
                n.target, n.body = first.targets[0], n.body[1:] or [ast.copy_location(ast.Pass(), first)]
            else:
                ids = {id(x) for x in at}

                class Put(ast.NodeTransformer):
                    def visit_Subscript(self, x):
                        return ast.copy_location(ast.Name(i, ast.Load()), x) if id(x) in ids else self.generic_visit(x)

                n.body = [Put().visit(x) for x in n.body]
            n.iter = coll
        return n


def _sets(n, name):
    return any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load) or isinstance(x, ast.ExceptHandler) and x.name == name for x in ast.walk(n))


def _reads(n, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n))


def _plain(e):
    """names and their attributes"""
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.BinOp, ast.operator)) for x in ast.walk(e))


def _fixed(e, body):
    """nothing in the body changes the expression"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
        return _fixed(e.args[0], body)
    if not _plain(e):
        return False
    names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    attrs = {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute)}
    for y in body:
        for x in ast.walk(y):
            if isinstance(x, ast.Name) and x.id in names and not isinstance(x.ctx, ast.Load):
                return False
            if isinstance(x, ast.Attribute) and x.attr in attrs and not isinstance(x.ctx, ast.Load):
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in {"append", "pop", "insert", "extend", "remove", "clear"} and ast.dump(x.func.value) == ast.dump(e):
                return False
    return True


class Module:
    def __init__(self, prog, name, path):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = str(path.relative_to(REPO))
        self.source = path.read_text(encoding="utf-8")
        try:
            self.tree = ast.parse(self.source, str(path))
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {self.rel}: {e}") from e
        self.is_pkg = path.name == "__init__.py"
        if not self.is_pkg:
            unalias(self.tree)
        Loops().visit(self.tree)
        self.defs = {}
        self.functions = []
        self.classes = {}
        for st in self.tree.body:
            self._collect(st)

    def _collect(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = FunctionInfo(st, self)
            self.defs[st.name] = ("func", fi)
        elif isinstance(st, ast.ClassDef):
            ci = ClassInfo(st, self)
            self.classes[st.name] = ci
            self.defs[st.name] = ("class", ci)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    self.defs[a.asname] = ("import", a.name, None)
                else:
                    top = a.name.split(".")[0]
                    self.defs[top] = ("import", top, None)
        elif isinstance(st, ast.ImportFrom):
            base = self._abs(st.module, st.level)
            for a in st.names:
                key = a.asname or a.name
                # a placeholder value (None) in an except-clause does not replace an import
                self.defs[key] = ("import", base, a.name)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            targets = st.targets if isinstance(st, ast.Assign) else [st.target]
            if st.value is None:
                return
            for t in targets:
                if isinstance(t, ast.Name):
                    if self.defs.get(t.id, ("",))[0] == "import":
                        continue
                    self.defs[t.id] = ("assign", st.value, getattr(st, "annotation", None))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            self.defs[e.id] = ("assign", ast.copy_location(ast.Subscript(st.value, ast.Constant(i), ast.Load()), st), None)
        elif isinstance(st, (ast.If, ast.Try, ast.With)):
            for sub in ast.iter_child_nodes(st):
                if isinstance(sub, ast.stmt):
                    self._collect(sub)
                elif isinstance(sub, ast.ExceptHandler):
                    for s in sub.body:
                        self._collect(s)

    def _abs(self, mod, level):
        if level == 0:
            return mod
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return ".".join(parts + ([mod] if mod else []))

    def __repr__(self):
        return f"<module {self.name}>"


class Program:
    def __init__(self, extra=None):
        self.modules = {}
        self._rcache = {}
        for pkg, sub in PACKAGES.items():
            root = REPO / sub
            if not root.is_dir():
                raise AnalysisError(f"package directory {root} not found")
            for p in sorted(root.rglob("*.py")):
                rel = p.relative_to(root)
                parts = [pkg, *rel.with_suffix("").parts]
                if parts[-1] == "__init__":
                    parts = parts[:-1]
                name = ".".join(parts)
                self.modules[name] = Module(self, name, p)

    # ---- lookups
    def module(self, name):
        if name not in self.modules:
            raise AnalysisError(f"module '{name}' not found")
        return self.modules[name]

    def all_functions(self):
        for m in self.modules.values():
            yield from self.functions_of(m)

    def functions_of(self, m):
        for d in m.defs.values():
            if d[0] == "func" and d[1].module is m:
                yield d[1]
            elif d[0] == "class" and d[1].module is m:
                yield from d[1].methods.values()

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def models(self):
        return [c for c in self.all_classes() if c.is_model]

    def cls(self, name):
        """Find class by (unique) simple name or qualified name."""
        found = [c for c in self.all_classes() if c.qualname == name] or [c for c in self.all_classes() if c.name == name]
        if not found:
            raise AnalysisError(f"class '{name}' not found (anchor vanished)")
        if len(found) > 1:
            # prefer the core package
            found.sort(key=lambda c: (not c.module.name.startswith("shepherd_core"), c.qualname))
        return found[0]

    def func(self, qual):
        """'pkg.mod.func' or 'pkg.mod.Class.method' - also through re-exports and inheritance."""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                r = self.resolve(self.modules[mod], parts[i])
                rest = parts[i + 1 :]
                if r and r[0] == "func" and not rest:
                    return r[1]
                if r and r[0] == "class" and len(rest) == 1:
                    m = r[1].find_method(rest[0])
                    if m:
                        return m
                break
        raise AnalysisError(f"function '{qual}' not found (anchor vanished)")

    def resolve(self, module, name, _seen=None):
        """Resolve a global name.

        -> ('func', fi) ('class', ci) ('module', m) ('assign', module, expr, annotation) ('ext', dotted)
        """
        key = (module.name, name)
        if key in self._rcache:
            return self._rcache[key]
        _seen = _seen or set()
        if key in _seen:
            return None
        _seen.add(key)
        d = module.defs.get(name)
        r = None
        if d is None:
            sub = f"{module.name}.{name}"
            if sub in self.modules:
                r = ("module", self.modules[sub])
        elif d[0] in {"func", "class"}:
            r = d
        elif d[0] == "assign":
            r = ("assign", module, d[1], d[2])
        elif d[0] == "import":
            base, attr = d[1], d[2]
            if attr is None:
                r = ("module", self.modules[base]) if base in self.modules else ("ext", base)
            elif f"{base}.{attr}" in self.modules and not (base in self.modules and attr in self.modules[base].defs):
                r = ("module", self.modules[f"{base}.{attr}"])
            elif base in self.modules:
                r = self.resolve(self.modules[base], attr, _seen)
            else:
                r = ("ext", f"{base}.{attr}")
        self._rcache[key] = r
        return r

    def resolve_expr(self, module, expr):
        """Resolve Name / dotted Attribute expressions statically."""
        if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
            try:
                expr = ast.parse(expr.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(expr, ast.Name):
            r = self.resolve(module, expr.id)
            if r is None:
                import builtins

                if hasattr(builtins, expr.id):
                    return ("ext", expr.id)
            return r
        if isinstance(expr, ast.Attribute):
            r = self.resolve_expr(module, expr.value)
            if r is None:
                return None
            if r[0] == "module":
                return self.resolve(r[1], expr.attr)
            if r[0] == "ext":
                return ("ext", f"{r[1]}.{expr.attr}")
            if r[0] == "class":
                m = r[1].find_method(expr.attr)
                return ("func", m) if m else None
        return None

    # ---- types from annotations
    def type_of(self, module, ann, _depth=0):
        """Resolve annotation to a small type-term.

        ('cls', ClassInfo) ('ext', name) ('opt', t) ('union', (..)) ('list', t) ('dict', k, v) ('tuple', ..)
        """
        if ann is None or _depth > 20:
            return None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return ("none",)
            if isinstance(ann.value, str):
                try:
                    return self.type_of(module, ast.parse(ann.value, mode="eval").body, _depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return _union([self.type_of(module, ann.left, _depth + 1), self.type_of(module, ann.right, _depth + 1)])
        if isinstance(ann, ast.Subscript):
            r = self.resolve_expr(module, ann.value)
            n = (r[1] if r and r[0] == "ext" else _dotted(ann.value)).split(".")[-1]
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if n == "Optional":
                return _union([self.type_of(module, args[0], _depth + 1), ("none",)])
            if n == "Union":
                return _union([self.type_of(module, a, _depth + 1) for a in args])
            if n in {"Annotated", "ClassVar", "Final", "Type"}:
                return self.type_of(module, args[0], _depth + 1)
            if n in {"List", "list", "Sequence", "Iterable", "Set", "set", "Generator", "Iterator"}:
                return ("list", self.type_of(module, args[0], _depth + 1))
            if n in {"Dict", "dict", "Mapping"} and len(args) == 2:
                return ("dict", self.type_of(module, args[0], _depth + 1), self.type_of(module, args[1], _depth + 1))
            if n in {"Tuple", "tuple"}:
                return ("tuple", tuple(self.type_of(module, a, _depth + 1) for a in args))
            return ("ext", n)
        r = self.resolve_expr(module, ann)
        if r is None:
            return None
        if r[0] == "class":
            return ("cls", r[1])
        if r[0] == "assign":
            return self.type_of(r[1], r[2], _depth + 1)
        if r[0] == "ext":
            return ("ext", r[1]) if r[1].split(".")[-1] not in {"object", "Any"} else None
        return None


def _union(ts):
    flat = []
    for t in ts:
        if t and t[0] == "union":
            flat.extend(t[1])
        else:
            flat.append(t)
    uniq = []
    for t in flat:
        if t not in uniq:
            uniq.append(t)
    return uniq[0] if len(uniq) == 1 else ("union", tuple(uniq))


def _dotted(e):
    if isinstance(e, ast.Call):
        return _dotted(e.func)
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return f"{_dotted(e.value)}.{e.attr}"
    return "?"


dotted = _dotted


def walk_scope(fn):
    """Walk a function without descending into nested functions / classes / lambdas."""
    stack = list(ast.iter_child_nodes(fn))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))
