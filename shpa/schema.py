"""Declared constraints of pydantic model fields."""

import ast
from fractions import Fraction

from . import terms as T
from .prog import ClassInfo, dotted


def default_expr(val):
    """Expression of the default value of a field, None if there is none (required / factory)."""
    if val is None:
        return None
    if isinstance(val, ast.Call) and dotted(val.func).split(".")[-1] == "Field":
        for kw in val.keywords:
            if kw.arg == "default":
                return kw.value
        if val.args and not (isinstance(val.args[0], ast.Constant) and val.args[0].value is Ellipsis):
            return val.args[0]
        return None
    return val


def const_num(prog, module, expr):
    """Numeric constant value of an expression (module constants are followed)."""
    try:
        if isinstance(expr, ast.Constant):
            return T.frac(expr.value) if not isinstance(expr.value, (str, bool, type(None))) else None
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub):
            v = const_num(prog, module, expr.operand)
            return None if v is None else -v
        if isinstance(expr, ast.BinOp):
            a, b = const_num(prog, module, expr.left), const_num(prog, module, expr.right)
            if a is None or b is None:
                return None
            if isinstance(expr.op, ast.Add):
                return a + b
            if isinstance(expr.op, ast.Sub):
                return a - b
            if isinstance(expr.op, ast.Mult):
                return a * b
            if isinstance(expr.op, ast.Div):
                return a / b
            if isinstance(expr.op, ast.Pow):
                return a ** int(b)
            if isinstance(expr.op, ast.LShift):
                return Fraction(int(a) << int(b))
            return None
        if isinstance(expr, (ast.Name, ast.Attribute)):
            r = prog.resolve_expr(module, expr)
            if r and r[0] == "assign":
                return const_num(prog, r[1], r[2])
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    return None


BOUND_KW = {"ge", "gt", "le", "lt", "multiple_of", "min_length", "max_length", "pattern", "regex"}
NAMED = {
    "PositiveInt": {"gt": Fraction(0)},
    "PositiveFloat": {"gt": Fraction(0)},
    "NonNegativeInt": {"ge": Fraction(0)},
    "NonNegativeFloat": {"ge": Fraction(0)},
    "NegativeInt": {"lt": Fraction(0)},
    "NegativeFloat": {"lt": Fraction(0)},
}


class FieldSchema:
    def __init__(self, name):
        self.name = name
        self.base = None  # type-term
        self.cons = {}  # own constraints: ge/gt/le/lt -> Fraction; min_length, max_length -> int; pattern
        self.items = None  # FieldSchema of items for lists
        self.alts = []  # FieldSchemas of the alternatives of a union
        self.optional = False
        self.default = None
        self.required = False
        self.exclude = False
        self.owner = None
        self.node = None

    def range(self):
        lo, lopen, hi, hopen = None, True, None, True
        if self.cons.get("ge") is not None:
            lo, lopen = self.cons["ge"], False
        if self.cons.get("gt") is not None and (lo is None or self.cons["gt"] >= lo):
            lo, lopen = self.cons["gt"], True
        if self.cons.get("le") is not None:
            hi, hopen = self.cons["le"], False
        if self.cons.get("lt") is not None and (hi is None or self.cons["lt"] <= hi):
            hi, hopen = self.cons["lt"], True
        return (lo, lopen, hi, hopen)


def _apply(prog, module, fs, call):
    for kw in call.keywords:
        if kw.arg in {"ge", "gt", "le", "lt", "multiple_of"}:
            v = const_num(prog, module, kw.value)
            if v is not None:
                fs.cons[kw.arg] = v
            elif not (isinstance(kw.value, ast.Constant) and kw.value.value is None):
                fs.cons.setdefault("other", []).append((kw.arg, ast.unparse(kw.value)))
        elif kw.arg in {"min_length", "max_length"}:
            v = const_num(prog, module, kw.value)
            if v is not None:
                fs.cons[kw.arg] = v
        elif kw.arg in {"pattern", "regex"}:
            if isinstance(kw.value, ast.Constant):
                fs.cons["pattern"] = kw.value.value
            else:
                r = prog.resolve_expr(module, kw.value)
                if r and r[0] == "assign" and isinstance(r[2], ast.Constant):
                    fs.cons["pattern"] = r[2].value
                else:
                    fs.cons["pattern"] = "?"
        elif kw.arg == "exclude":
            fs.exclude = isinstance(kw.value, ast.Constant) and bool(kw.value.value)


def _walk(prog, module, ann, fs, depth=0):
    if depth > 12 or ann is None:
        return
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        ann = ast.parse(ann.value, mode="eval").body
    if isinstance(ann, ast.Subscript):
        n = dotted(ann.value).split(".")[-1]
        args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if n == "Annotated":
            _walk(prog, module, args[0], fs, depth + 1)
            for a in args[1:]:
                if isinstance(a, ast.Call):
                    _apply(prog, module, fs, a)
            return
        if n == "Optional":
            fs.optional = True
            _walk(prog, module, args[0], fs, depth + 1)
            return
        if n == "Union":
            rest = [a for a in args if not (isinstance(a, ast.Constant) and a.value is None)]
            if len(rest) < len(args):
                fs.optional = True
            if len(rest) == 1:
                _walk(prog, module, rest[0], fs, depth + 1)
            else:
                for a in rest:
                    alt = FieldSchema(fs.name)
                    alt.base = prog.type_of(module, a)
                    _walk(prog, module, a, alt, depth + 1)
                    fs.alts.append(alt)
            return
        if n in {"List", "list", "Set", "set", "Sequence"}:
            fs.items = FieldSchema("item")
            _walk(prog, module, args[0], fs.items, depth + 1)
            return
        return
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        sides = [ann.left, ann.right]
        rest = [a for a in sides if not (isinstance(a, ast.Constant) and a.value is None)]
        if len(rest) < 2:
            fs.optional = True
            _walk(prog, module, rest[0], fs, depth + 1)
        return
    if isinstance(ann, ast.Call):
        # conint(...) style
        _apply(prog, module, fs, ann)
        return
    r = prog.resolve_expr(module, ann)
    if r is None:
        return
    if r[0] == "assign":
        _walk(prog, r[1], r[2], fs, depth + 1)
    elif r[0] == "ext":
        for kk, v in NAMED.get(r[1].split(".")[-1], {}).items():
            fs.cons[kk] = v


_cache = {}


def field_schema(prog, ci, name):
    key = (id(prog), ci.qualname, name)
    if key in _cache:
        return _cache[key]
    f = ci.all_fields().get(name)
    res = None
    if f is not None:
        owner, ann, val, st = f
        fs = FieldSchema(name)
        fs.owner, fs.node = owner, st
        fs.base = prog.type_of(owner.module, ann)
        _walk(prog, owner.module, ann, fs)
        if isinstance(val, ast.Call) and dotted(val.func).split(".")[-1] == "Field":
            _apply(prog, owner.module, fs, val)
        fs.default = default_expr(val)
        fs.required = val is None or (
            fs.default is None and isinstance(val, ast.Call) and not any(kw.arg == "default_factory" for kw in val.keywords)
        )
        res = fs
    _cache[key] = res
    return res


def field_range(prog, ci, name):
    fs = field_schema(prog, ci, name)
    if fs is None:
        return None
    r = fs.range()
    return None if r == (None, True, None, True) else r


def is_classvar(ann):
    return isinstance(ann, ast.Subscript) and dotted(ann.value).split(".")[-1] == "ClassVar"


def model_fields(prog, ci):
    out = {}
    for n, (owner, ann, _v, _s) in ci.all_fields().items():
        if n.startswith("_") or is_classvar(ann) or n == "model_config":
            continue
        if not owner.is_model and not isinstance(owner, ClassInfo):
            continue
        out[n] = field_schema(prog, ci, n)
    return out


def validators(ci, mode):
    """effective model validators (a method of the same name in a subclass replaces the one of the base)"""
    out, seen = [], set()
    for c in ci.mro():
        if not isinstance(c, ClassInfo):
            continue
        for name, m in c.methods.items():
            if name in seen:
                continue
            seen.add(name)
            for d in m.node.decorator_list:
                if isinstance(d, ast.Call) and dotted(d.func).split(".")[-1] in {"model_validator", "root_validator"}:
                    md = next((k.value.value for k in d.keywords if k.arg == "mode" and isinstance(k.value, ast.Constant)), "after")
                    if md == mode:
                        out.append(m)
    return out
