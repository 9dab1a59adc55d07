"""Expression part of the abstract interpreter."""

import ast
import re
import builtins

from . import facts as F
from . import terms as T
from .prog import AnalysisError, FunctionInfo
from .schema import field_range, field_schema, validators
from .values import FALSE, NONE, TRUE, Cls, Exc, Ext, Fn, HObj, K, Lam, Meth, Mod, Ref, S, Star, State, Super, Tup, copied

PATHISH_METH = {"with_suffix", "resolve", "absolute", "joinpath", "with_name", "relative_to", "expanduser", "with_stem"}
PATHISH_ATTR = {"parent"}
PATH_TY = ("ext", "pathlib.Path")
IGNORED_EXT = ("logging.", "shepherd_core.logger")
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not"}


def is_pathish(v):
    if isinstance(v, S):
        if v.ty == PATH_TY:
            return True
        if v.ty and v.ty[0] == "union" and PATH_TY in v.ty[1]:
            return True
        return v.t[0] == "pathjoin"
    return False


class ExprMixin:
    # ------------------------------------------------------------ terms of values
    def term(self, v, st=None):
        """Term naming a value; heap objects are spelled out when a state is given."""
        if isinstance(v, S):
            return v.t
        if isinstance(v, Tup):
            return ("tuple", tuple(self.term(i, st) for i in v.items))
        if isinstance(v, Ref):
            o = st.heap.get(v.oid) if st is not None else None
            if o is None:
                return ("ref", v.oid)
            if o.kind == "opaque":
                return ("ref", v.oid)
            if o.kind == "dict":
                body = []
                for it in o.items:
                    if isinstance(it, Star):
                        body.append(("star", self.term(it.key, st) if it.key is not None else None, self.term(it.val, st)))
                    else:
                        body.append((self.term(it[0], st), self.term(it[1], st)))
            else:
                body = [self.star_term(i, st) if isinstance(i, Star) else self.term(i, st) for i in o.items]
            if o.unknown:
                body.append(("unknown", v.oid))
            return (o.kind, tuple(body))
        if isinstance(v, Fn):
            return ("fn", v.fi.qualname) if v.this is None else ("fn", v.fi.qualname, self.term(v.this, None))
        if isinstance(v, Cls):
            return ("cls", v.ci.qualname)
        if isinstance(v, Mod):
            return ("mod", v.m.name)
        if isinstance(v, Ext):
            return ("ext", v.name)
        if isinstance(v, Meth):
            return ("meth", self.term(v.recv, None), v.name)
        if isinstance(v, Lam):
            return ("lam", v.node.lineno, v.node.col_offset)
        if isinstance(v, Super):
            return ("super", self.term(v.this, None))
        if isinstance(v, Star):
            return ("star", self.term(v.val, st))
        raise AnalysisError(f"no term for {v!r}")

    def star_term(self, i, st):
        more = (("for", tuple(sorted(i.bound, key=repr))),) if i.bound else ()
        if self.star_facts and i.facts:
            return ("star", self.term(i.val, st), ("when", tuple(sorted(i.facts.items(), key=repr))), *more)
        return ("star", self.term(i.val, st), *more)

    def new_elems(self, el, coll, st):
        """loop elements introduced by iterating over coll"""
        return tuple(T.free_elems(self.term(el, st)) - T.free_elems(self.term(coll, st)))

    def spread(self, v, st):
        """entries of v as one star item"""
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if o is not None and o.kind in {"list", "set"} and len(o.items) == 1 and isinstance(o.items[0], Star) and not o.unknown:
            return o.items[0]
        el = self.elem_of(v, st)
        return Star(el, bound=self.new_elems(el, v, st))

    def ident(self, v):
        """Term used for identity (attribute store): objects keep their reference."""
        return self.term(v, None)

    def num(self, v, st):
        return self.term(v, st)

    # ------------------------------------------------------------ evaluation
    def ev(self, e, st):
        """Evaluate -> list of (state, value). Takes ownership of state."""
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return [(st, S(("expr", type(e).__name__, self.loc(e))))]
        return m(e, st)

    def ev_many(self, exprs, st):
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vals in res:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        items = self.known_items(v, s2)
                        if items is None:
                            nxt.append((s2, [*vals, Star(v)]))
                        else:
                            nxt.append((s2, vals + items))
                else:
                    for s2, v in self.ev(e, s):
                        nxt.append((s2, [*vals, v]))
            res = self.limit(nxt)
        return res

    def known_items(self, v, st):
        """List of items if the collection is exactly known."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if o is not None and o.exact:
                if o.kind == "dict":
                    return [it[0] for it in o.items]
                if o.kind in {"list", "set"}:
                    return list(o.items)
        if isinstance(v, S):
            t = v.t
            if t[0] == "range" and all(T.is_k(x) for x in t[1:]):
                r = range(int(t[1][2]), int(t[2][2]), int(t[3][2]))
                if len(r) <= self.unroll_range:
                    return [K(i) for i in r]
            if t[0] == "k" and t[1] == "str" and len(t[2]) <= 64:
                return [K(c) for c in t[2]]
        if isinstance(v, Cls) and v.ci.is_enum:
            return [self.enum_value(v.ci, n) for n, (c, _) in v.ci.enum_members().items() if n == c]
        return None

    def ev_Constant(self, e, st):
        return [(st, K(e.value))]

    def ev_Name(self, e, st):
        return [(st, self.lookup(e.id, st))]

    def lookup(self, name, st):
        fid = self.fid
        while fid is not None:
            fr = st.frames.get(fid)
            if fr is None:
                break
            if name in fr and name not in fr.get("!globals", ()):
                return fr[name]
            fid = fr.get("!parent")
        return self.global_value(self.module, name, st)

    def global_value(self, module, name, st):
        key = (("modglobal", module.name), name)
        if key in st.store:
            return st.store[key]
        r = self.prog.resolve(module, name)
        if r is None:
            if hasattr(builtins, name):
                return Ext(name)
            return S(("global", f"{module.name}.{name}"))
        return self.from_resolved(r, name, st)

    def from_resolved(self, r, name, st):
        if r[0] == "func":
            return Fn(r[1])
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "module":
            return Mod(r[1])
        if r[0] == "ext":
            return self.ext_value(r[1])
        if r[0] == "assign":
            return self.module_assign(r[1], r[2], r[3], name, st)
        return S(("global", name))

    def ext_value(self, name):
        if name in {"math.inf", "numpy.inf"}:
            return S(("ext", "inf"))
        if name == "math.pi":
            return S(("ext", "pi"))
        return Ext(name)

    def module_assign(self, module, expr, ann, name, st):
        key = (module.name, name)
        if key in self.gcache:
            val, heap = self.gcache[key]
            for oid, o in heap.items():
                st.heap.setdefault(oid, o)
            return val
        self.gcache[key] = (S(("global", f"{module.name}.{name}"), self.prog.type_of(module, ann)), {})
        saved = self.enter_scope(module)
        sub = State()
        sub.frames[self.fid] = {}
        try:
            res = self.ev(expr, sub)
        finally:
            self.leave_scope(saved)
        if len(res) == 1 and not (isinstance(res[0][1], S) and res[0][1].t[0] in {"call", "mcall"}):
            self.gcache[key] = (res[0][1], dict(res[0][0].heap))
        else:
            # keep what is known of the value's type
            ty = self.prog.type_of(module, ann)
            if len(res) == 1 and isinstance(res[0][1], S):
                ty = ty or res[0][1].ty
            self.gcache[key] = (S(("global", f"{module.name}.{name}"), ty), {})
        val, heap = self.gcache[key]
        for oid, o in heap.items():
            st.heap.setdefault(oid, o)
        return val

    # ------------------------------------------------------------ collections
    def new_heap(self, st, obj):
        self.oid += 1
        st.heap[self.oid] = obj
        return Ref(self.oid)

    def ev_List(self, e, st):
        return [(s, self.mk_seq("list", vals, s)) for s, vals in self.ev_many(e.elts, st)]

    def ev_Set(self, e, st):
        return [(s, self.mk_seq("set", vals, s)) for s, vals in self.ev_many(e.elts, st)]

    def mk_seq(self, kind, vals, st):
        items, unknown = [], False
        for v in vals:
            if isinstance(v, Star) and isinstance(v.val, S):
                items.append(self.spread(v.val, st))
            elif isinstance(v, Star):
                o = st.heap.get(v.val.oid) if isinstance(v.val, Ref) else None
                if o is not None and o.kind in {"list", "set", "tuple"} and not o.unknown:
                    items.extend(o.items)
                else:
                    unknown = True
            else:
                items.append(v)
        return self.new_heap(st, HObj(kind, items, unknown))

    def ev_Tuple(self, e, st):
        return [(s, Tup(vals) if not any(isinstance(v, Star) for v in vals) else S(("tuplex", tuple(self.term(v, s) for v in vals)))) for s, vals in self.ev_many(e.elts, st)]

    def ev_Dict(self, e, st):
        res = [(st, [], False)]
        for kx, vx in zip(e.keys, e.values):
            nxt = []
            for s, items, unk in res:
                if kx is None:
                    for s2, v in self.ev(vx, s):
                        o = s2.heap.get(v.oid) if isinstance(v, Ref) else None
                        if o is not None and o.kind == "dict":
                            its = list(items)
                            for it in o.items:
                                its = self._dict_put(its, it) if not isinstance(it, Star) else [*its, it]
                            nxt.append((s2, its, unk or o.unknown))
                        else:
                            nxt.append((s2, [*items, Star(S(("valof", self.term(v, s2))), key=S(("keyof", self.term(v, s2))))], True))
                else:
                    for s2, kv in self.ev(kx, s):
                        for s3, vv in self.ev(vx, s2):
                            nxt.append((s3, self._dict_put(list(items), (kv, vv)), unk))
            res = nxt
        return [(s, self.new_heap(s, HObj("dict", items, unk))) for s, items, unk in res]

    def _dict_put(self, items, pair):
        key = F._plain(self.term(pair[0], None))
        for i, it in enumerate(items):
            if not isinstance(it, Star) and F._plain(self.term(it[0], None)) == key:
                items[i] = pair
                return items
        return [*items, pair]

    def ev_JoinedStr(self, e, st):
        parts_e = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        out = []
        for s, vals in self.ev_many(parts_e, st):
            parts = []
            for node, v in zip(e.values, vals):
                t = self.term(v, s)
                if t[0] == "k" and (isinstance(node, ast.Constant) or (t[1] == "str" and node.format_spec is None and node.conversion == -1)):
                    if parts and parts[-1][0] == "k" and parts[-1][1] == "str":
                        parts[-1] = T.k(parts[-1][2] + str(t[2]))
                    else:
                        parts.append(T.k(str(t[2])))
                    continue
                if t[0] == "k" and t[1] == "num" and getattr(node, "format_spec", None) is None:
                    v_ = t[2]
                    parts.append(T.k(str(int(v_) if v_.denominator == 1 else float(v_))))
                    continue
                if t[0] == "fstr":
                    parts.extend(t[1])
                    continue
                parts.append(t)
            merged = []
            for p in parts:
                if merged and p[0] == "k" and merged[-1][0] == "k" and merged[-1][1] == p[1] == "str":
                    merged[-1] = T.k(merged[-1][2] + p[2])
                else:
                    merged.append(p)
            if len(merged) == 1 and merged[0][0] == "k":
                out.append((s, S(merged[0])))
            elif not merged:
                out.append((s, K("")))
            else:
                out.append((s, S(("fstr", tuple(merged)), ("ext", "str"))))
        return out

    # ------------------------------------------------------------ operators
    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            t, f = self.branch(e.operand, st)
            if len(t) == 1 and len(f) == 1:
                # keep as atom, do not split
                st2 = t[0]
            out = [(s, FALSE) for s in t] + [(s, TRUE) for s in f]
            return out
        out = []
        for s, v in self.ev(e.operand, st):
            t = self.num(v, s)
            if isinstance(e.op, ast.USub):
                if t == ("ext", "inf"):
                    out.append((s, S(("ext", "-inf"))))
                else:
                    out.append((s, S(T.neg(t), getattr(v, "ty", None))))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            elif T.is_k(t) and t[1] == "num":
                out.append((s, K(~int(t[2]))))
            else:
                out.append((s, S(("invert", t))))
        return out

    def ev_BinOp(self, e, st):
        out = []
        for s, a in self.ev(e.left, st):
            for s2, b in self.ev(e.right, s):
                self.at = e
                out.append((s2, self.binop(BINOPS[type(e.op)], a, b, s2)))
        return out

    def binop(self, op, a, b, st):
        if self.nullness:
            self.absent(a, f"operand of {op}", st)
            self.absent(b, f"operand of {op}", st)
        if isinstance(a, S):
            a = self.refine(a, st)
        if isinstance(b, S):
            b = self.refine(b, st)
        ta, tb = self.num(a, st), self.num(b, st)
        ka, kb = T.is_k(ta), T.is_k(tb)
        # sequences
        if op == "+":
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Ref) or isinstance(b, Ref):
                oa = st.heap.get(a.oid) if isinstance(a, Ref) else None
                ob = st.heap.get(b.oid) if isinstance(b, Ref) else None
                items, unk = [], False
                for o, v in ((oa, a), (ob, b)):
                    if o is not None and o.kind == "list":
                        items += list(o.items)
                        unk = unk or o.unknown
                    else:
                        items.append(self.spread(v, st))
                ref = self.new_heap(st, HObj("list", items, unk))
                self.note_added(ref.oid, items[len(oa.items) if oa is not None else 1 :], st)
                return ref
            if self.is_str(a) or self.is_str(b):
                if ka and kb and ta[1] == tb[1] == "str":
                    return K(ta[2] + tb[2])
                parts = []
                for t in (ta, tb):
                    for p in t[1] if t[0] == "fstr" else (t,):
                        if parts and p[0] == "k" and p[1] == "str" and parts[-1][0] == "k" and parts[-1][1] == "str":
                            parts[-1] = T.k(parts[-1][2] + p[2])
                        else:
                            parts.append(p)
                return S(("fstr", tuple(parts)), ("ext", "str"))
        if op == "/" and (is_pathish(a) or is_pathish(b) or (kb and tb[1] == "str") or tb[0] == "fstr" or (ta[0] == "call" and ta[1] == "pathlib.Path")):
            return S(("pathjoin", ta, tb), PATH_TY)
        if op == "%" and (self.is_str(a)):
            if ka and len(re.findall("%", ta[2])) == len(re.findall("%[sd]", ta[2])):
                given = b.items if isinstance(b, Tup) else [b]
                r = self.format_parts(re.sub("%[sd]", "{}", ta[2].replace("{", "{{").replace("}", "}}")), given, {}, st) if len(given) == ta[2].count("%") else None
                if r is not None:
                    return r
            return S(("fmt", ta, tb), ("ext", "str"))
        if op == "*" and (self.is_str(a) or isinstance(a, Ref)):
            if isinstance(a, Ref):
                o = st.heap.get(a.oid)
                if o is not None and o.kind == "list":
                    if o.exact and kb and tb[1] == "num" and len(o.items) * int(tb[2]) <= 64:
                        return self.new_heap(st, HObj("list", list(o.items) * int(tb[2])))
                    return self.new_heap(st, HObj("list", [Star(i) if not isinstance(i, Star) else i for i in o.items[:1]]))
            return S(("repeat", ta, tb))
        if op == "|" and isinstance(a, Ref) and isinstance(b, Ref):
            return S(("bitor", ta, tb))
        isnum = lambda t: t[0] == "k" and t[1] in {"num", "bool"}  # noqa: E731
        if isnum(ta) and isnum(tb):
            r = self.const_op(op, T.frac(ta[2] if ta[1] == "num" else int(ta[2])), T.frac(tb[2] if tb[1] == "num" else int(tb[2])))
            if r is not None:
                return K(r)
            if op == "/":
                return S(("call", "ZeroDivision", (), ()))
        for x in (ta, tb):
            if x in {("ext", "inf"), ("ext", "-inf")}:
                return S(("bin", op, ta, tb))
        ty = a.ty if isinstance(a, S) and a.ty is not None and a.ty[0] == "ext" else None
        if op == "+":
            return S(T.add(ta, tb), ty)
        if op == "-":
            return S(T.sub(ta, tb), ty)
        if op == "*":
            return S(T.mul(ta, tb), ty)
        if op == "/":
            if tb == T.k(0):
                return S(("bin", "/", ta, tb))
            self.note_div(ta, tb, st)
            return S(T.div(ta, tb), ty)
        if op == "**":
            if kb and tb[1] == "num" and tb[2].denominator == 1 and abs(tb[2]) <= 8:
                return S(T.power(ta, int(tb[2])), ty)
            return S(("pow", ta, tb))
        if op == "<<":
            if kb and tb[1] == "num":
                return S(T.mul(ta, T.k(2 ** int(tb[2]))))
            if ka and ta[1] == "num":
                return S(T.mul(ta, ("pow", T.k(2), tb)))
            return S(("shl", ta, tb))
        if op == ">>":
            if kb and tb[1] == "num":
                return S(("floordiv", ta, T.k(2 ** int(tb[2]))))
            return S(("floordiv", ta, ("pow", T.k(2), tb)))
        if op == "//":
            self.note_div(ta, tb, st)
            return S(("floordiv", ta, tb))
        if op == "%":
            self.note_div(ta, tb, st)
            return S(("mod", ta, tb))
        if op in {"&", "|", "^"}:
            nm = {"&": "bitand", "|": "bitor", "^": "bitxor"}[op]
            if T._key(ta) > T._key(tb):
                ta, tb = tb, ta
            return S((nm, ta, tb))
        return S(("bin", op, ta, tb))

    def note_div(self, ta, tb, st):
        if self.record_div and not T.is_k(tb):
            self.emit(st, "div", "/", args=(ta, tb), loc=self.loc(None), extra=frozenset().union(*self.guards))

    @staticmethod
    def const_op(op, x, y):
        try:
            if op == "+":
                return x + y
            if op == "-":
                return x - y
            if op == "*":
                return x * y
            if op == "/":
                return x / y
            if op == "//":
                return T.frac(x // y)
            if op == "%":
                return x % y
            if op == "**":
                if y.denominator == 1 and abs(y) < 512:
                    return x ** int(y)
                return T.frac(float(x) ** float(y))
            if x.denominator == 1 and y.denominator == 1:
                x, y = int(x), int(y)
                if op == "<<":
                    return x << y
                if op == ">>":
                    return x >> y
                if op == "&":
                    return x & y
                if op == "|":
                    return x | y
                if op == "^":
                    return x ^ y
        except (ZeroDivisionError, OverflowError, ValueError):
            return None
        return None

    def is_str(self, v):
        if not isinstance(v, S):
            return False
        return (v.t[0] == "k" and v.t[1] == "str") or v.t[0] in {"fstr", "fmt"} or v.ty == ("ext", "str") or v.t in self.str_lvs

    def refine(self, v, st):
        """Replace by a constant if facts say so."""
        if v.t[0] == "k":
            return v
        for f, val in st.facts.items():
            if val and f[0] == "eq" and f[1] == v.t and T.is_k(f[2]):
                if v.ty is not None and v.ty[0] == "cls" and v.ty[1].is_enum and f[2][1] != "enum":
                    for name, (_canon, val_) in v.ty[1].enum_members().items():
                        if f[2] == T.k(val_):
                            return self.enum_value(v.ty[1], name)
                return S(f[2], v.ty)
            if val and f[0] == "isnone" and f[1] == v.t:
                return NONE
        return v

    # ------------------------------------------------------------ conditions
    def ev_BoolOp(self, e, st):
        res, cur = [], [st]
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                if last:
                    res.extend(self.ev(x, s))
                else:
                    for s2, v in self.ev(x, s):
                        t, f = self.split(v, s2)
                        go, stop = (t, f) if is_and else (f, t)
                        nxt.extend(go)
                        stopval = v
                        tv = self.term(v, s2)
                        if tv[0] in {"atom", "natom"}:
                            stopval = FALSE if is_and else TRUE
                        res.extend((z, stopval) for z in stop)
            cur = self.limit_states(nxt)
        return res

    def ev_Compare(self, e, st):
        if len(e.ops) == 1:
            out = []
            for s, a in self.ev(e.left, st):
                for s2, b in self.ev(e.comparators[0], s):
                    self.at = e
                    out.extend(self.cmp_value(e.ops[0], a, b, s2))
            return out
        t, f = self.branch(e, st)
        return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]

    def cmp_value(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            t, f = self.branch_in(a, b, st, self.at)
            pol = isinstance(op, ast.In)
            if len(t) == 1 and len(f) == 1:
                pass
            return [(s, TRUE if pol else FALSE) for s in t] + [(s, FALSE if pol else TRUE) for s in f]
        if self.nullness and type(op) in {ast.Lt, ast.LtE, ast.Gt, ast.GtE}:
            self.absent(a, "order", st)
            self.absent(b, "order", st)
        atom, pol = self.cmp_atom(CMPOPS[type(op)], a, b, st)
        return [(st, self.atom_value(atom, pol))]

    @staticmethod
    def atom_value(atom, pol):
        if isinstance(atom, bool):
            return TRUE if atom == pol else FALSE
        return S(("atom" if pol else "natom", atom))

    def cmp_atom(self, op, a, b, st):
        ta, tb = self.term(a, st), self.term(b, st)
        if op in {"is", "is not"} and NONE.t in {ta, tb}:
            x = a if tb == NONE.t else b
            if isinstance(x, (Ref, Tup, Fn, Cls, Mod, Ext, Lam)):
                return (False, op == "is")
            if self.never_none(x):
                return (False, op == "is")
            # constants known by facts
        atom, pol = F.cmp_atom(op, ta, tb)
        return atom, pol

    def never_none(self, v):
        if not isinstance(v, S) or v.ty is None:
            return False
        if v.ty[0] == "none":
            return False
        if v.ty[0] == "union":
            return not any(x is None or x == ("none",) for x in v.ty[1])
        return self.trust_types

    def branch_in(self, a, b, st, node=None):
        self.absent(b, "search", st, node)
        items = self.known_items(b, st)
        ta = self.term(a, st)
        if T.is_k(ta) and isinstance(b, S) and T.is_k(b.t) and b.t[1] == ta[1] == "str":
            return ([st], []) if ta[2] in b.t[2] else ([], [st])
        if items is None and T.is_k(ta):
            o = st.heap.get(b.oid) if isinstance(b, Ref) else None
            if o is not None and o.kind == "dict" and any(not isinstance(i, Star) and self.term(i[0], st) == ta for i in o.items):
                return [st], []
        if items is not None and len(items) <= 16 and not (isinstance(b, S) and b.t[0] == "k"):
            true, cur = [], st
            for it in items:
                atom, pol = F.cmp_atom("==", ta, self.term(it, st))
                t, f = self.split_atom(atom, pol, cur)
                true.extend(t)
                if not f:
                    return true, []
                cur = f[0]
            return true, [cur]
        if isinstance(b, S) and (self.ident(b), "[]", ta) in st.store:
            return [st], []
        return self.split_atom(("in", ta, self.term(b, st)), True, st)

    def branch(self, e, st):
        """-> (states where true, states where false)."""
        if isinstance(e, ast.BoolOp):
            cur, stop = [st], []
            is_and = isinstance(e.op, ast.And)
            for x in e.values:
                nxt = []
                for s in cur:
                    t, f = self.branch(x, s)
                    nxt.extend(t if is_and else f)
                    stop.extend(f if is_and else t)
                cur = nxt
            return (cur, stop) if is_and else (stop, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch(e.operand, st)
            return f, t
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # a < b < c
            true, false = [], []
            cur = [(s, v) for s, v in self.ev(e.left, st)]
            for op, ce in zip(e.ops, e.comparators):
                nxt = []
                for s, a in cur:
                    for s2, b in self.ev(ce, s):
                        for s3, v in self.cmp_value(op, a, b, s2):
                            t, f = self.split(v, s3)
                            nxt.extend((z, b) for z in t)
                            false.extend(f)
                cur = nxt
            true = [s for s, _ in cur]
            return true, false
        true, false = [], []
        for s, v in self.ev(e, st):
            t, f = self.split(v, s)
            true.extend(t)
            false.extend(f)
        return true, false

    def split(self, v, st):
        if isinstance(v, Tup):
            return ([st], []) if v.items else ([], [st])
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if o is not None and o.kind != "opaque":
                if any(not isinstance(i, Star) for i in o.items):
                    return [st], []
                if o.exact:
                    return [], [st]
                return self.split_atom(("true", ("ref", v.oid)), True, st)
            return [st], []
        if isinstance(v, (Fn, Cls, Mod, Lam)):
            return [st], []
        if isinstance(v, Ext):
            return self.split_atom(("true", ("ext", v.name)), True, st) if v.name not in dir(builtins) else ([st], [])
        if isinstance(v, S):
            v = self.refine(v, st)
            if v.ty is not None and not v.const and self.trust_types:
                opts = v.ty[1] if v.ty[0] == "union" else [v.ty]
                if all(x == ("none",) or self.always_true(x) for x in opts):
                    if ("none",) not in opts:
                        return [st], []
                    return self.split_atom(("isnone", self.term(v, st)), False, st)
        atom, pol = F.truth_atom(self.term(v, st))
        return self.split_atom(atom, pol, st)

    def always_true(self, ty):
        if ty is None:
            return False
        if ty[0] == "ext":
            return ty[1] in {"datetime.datetime", "datetime.date", "pathlib.Path", "uuid.UUID"}
        if ty[0] == "cls":
            ci = ty[1]
            return ci.is_model and not ci.is_enum and ci.find_method("__len__") is None and ci.find_method("__bool__") is None
        return False

    def split_atom(self, atom, pol, st):
        d = F.decide(st.facts, atom, self.declared)
        if d is not None:
            return ([st], []) if d == pol else ([], [st])
        s2 = st.copy()
        st.facts = {**st.facts, atom: pol}
        s2.facts = {**s2.facts, atom: not pol}
        return [st], [s2]

    def min_or_max(self, test, body, orelse):
        """`a if a < b else b` and its variants: ("min"/"max", a, b)"""
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
            return None
        a, op, b = test.left, type(test.ops[0]), test.comparators[0]
        if any(isinstance(x, (ast.NamedExpr, ast.Constant)) and not isinstance(getattr(x, "value", 0), (int, float)) for x in (a, b)):
            return None
        if op in {ast.Gt, ast.GtE}:
            a, b = b, a
        elif op not in {ast.Lt, ast.LtE}:
            return None
        da, db, x, y = ast.dump(a), ast.dump(b), ast.dump(body), ast.dump(orelse)
        if (x, y) == (da, db):
            return "min", a, b
        if (x, y) == (db, da):
            return "max", a, b
        return None

    def ev_IfExp(self, e, st):
        mm = self.min_or_max(e.test, e.body, e.orelse)
        if mm is not None:
            return [(s, self._minmax(mm[0], vals, s)) for s, vals in self.ev_many([mm[1], mm[2]], st)]
        t, f = self.branch(e.test, st)
        out = []
        for s in t:
            out.extend(self.ev(e.body, s))
        for s in f:
            out.extend(self.ev(e.orelse, s))
        return out

    def ev_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            s.frames[self.fid][e.target.id] = v
            out.append((s, v))
        return out

    def ev_Lambda(self, e, st):
        st.frames[self.fid]["!keep"] = True
        return [(st, Lam(e, self.module, self.fid))]

    def ev_Starred(self, e, st):
        return [(s, Star(v)) for s, v in self.ev(e.value, st)]

    def ev_Await(self, e, st):
        return self.ev(e.value, st)

    def ev_Yield(self, e, st):
        out = []
        for s, v in self.ev(e.value, st) if e.value is not None else [(st, NONE)]:
            self.emit(s, "yield", "yield", args=(self.term(v, s),), loc=self.loc(e))
            out.append((s, S(("sent", self.loc(e)))))
        return out

    def ev_YieldFrom(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            self.emit(s, "yield", "yield_from", args=(self.term(v, s),), loc=self.loc(e))
            out.append((s, S(("sent", self.loc(e)))))
        return out

    # ------------------------------------------------------------ attributes
    def ev_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            out.extend(self.getattr(v, e.attr, s, e))
        return out

    def enum_value(self, ci, name):
        canon, val = ci.enum_members()[name]
        return S(("k", "enum", (ci.qualname, canon, val, ci.is_str_enum)), ("cls", ci))

    def getattr(self, v, attr, st, node=None):
        """-> list of (state, value)."""
        key = (self.ident(v), attr)
        if key in st.store:
            got = st.store[key]
            if isinstance(got, S) and got.ty is None and not got.const:
                ty = self.attr_ty(v, attr)
                got = S(got.t, self.present(ty) if self.nullness and not self.may_be_none(got) else ty)
            return [(st, got)]
        if isinstance(v, S):
            v = self.refine(v, st)
        if isinstance(v, Mod):
            r = self.prog.resolve(v.m, attr)
            if r is not None:
                return [(st, self.from_resolved(r, attr, st))]
            return [(st, S(("global", f"{v.m.name}.{attr}")))]
        self.absent(v, f".{attr}", st, node)
        if isinstance(v, Ext):
            return [(st, self.ext_value(f"{v.name}.{attr}"))]
        if isinstance(v, Cls):
            return [(st, self.class_attr(v.ci, attr, st))]
        if isinstance(v, Super):
            this = v.this
            ci = this.ci if isinstance(this, Cls) else self.class_of(this)
            m = ci.find_method(attr, after=v.after) if ci else None
            if m is not None:
                if m.is_static:
                    return [(st, Fn(m))]
                if m.is_property:
                    return self.call_repo(m, [this], [], st, node)
                return [(st, Fn(m, this))]
            return [(st, Meth(S(("super", self.ident(this))), attr))]
        if isinstance(v, Fn) and attr == "__name__":
            return [(st, K(v.fi.name))]
        if isinstance(v, S):
            if v.t[0] == "k" and v.t[1] == "enum":
                if attr == "value":
                    return [(st, K(v.t[2][2]))]
                if attr == "name":
                    return [(st, K(v.t[2][1]))]
            if attr == "__class__":
                ci = self.class_of(v)
                return [(st, Cls(ci) if ci else S(("type", v.t)))]
            if v.t[0] == "new":
                for n, x in v.t[2]:
                    if n == attr and n != "*":
                        kept = self.newvals.get(v.t, {}).get(attr)
                        return [(st, kept if kept is not None else S(x))]
            ci = self.class_of(v, attr)
            if ci is not None:
                return self.inst_attr(v, ci, attr, st, node)
            if v.ty == PATH_TY and attr in PATHISH_ATTR:
                return [(st, S(("attr", v.t, attr), PATH_TY))]
            if v.ty == PATH_TY and attr == "parents":
                return [(st, S(("attr", v.t, attr), ("list", PATH_TY)))]
            return [(st, S(("attr", v.t, attr)))]
        if isinstance(v, Ref):
            return [(st, Meth(v, attr))]
        return [(st, S(("attr", self.term(v, None), attr)))]

    def class_of(self, v, attr=None):
        if not isinstance(v, S) or v.ty is None:
            return None
        ty = v.ty
        if ty[0] == "cls":
            return ty[1]
        if ty[0] == "union":
            cands = [t[1] for t in ty[1] if t and t[0] == "cls"]
            if attr is not None:
                cands = [c for c in cands if c.find_method(attr) or c.find_field(attr) or c.attr_annotation(attr)]
            return cands[0] if cands else None
        return None

    def class_attr(self, ci, attr, st):
        if attr == "__name__":
            return K(ci.name)
        if ci.is_enum and attr in ci.enum_members():
            return self.enum_value(ci, attr)
        m = ci.find_method(attr)
        if m is not None:
            return Fn(m, Cls(ci)) if m.is_class else Fn(m)
        f = ci.find_field(attr)
        if f is not None:
            key = (("cls", f[0].qualname), attr)
            if key in st.store:
                return st.store[key]
            if f[2] is not None:
                return self.class_const(f[0], attr, f[2], f[1], st)
        return Meth(Cls(ci), attr) if f is None else S(("attr", ("cls", ci.qualname), attr))

    def class_const(self, ci, attr, expr, ann, st):
        key = ("class", ci.qualname, attr)
        if key not in self.gcache:
            self.gcache[key] = (S(("attr", ("cls", ci.qualname), attr)), {})
            saved = self.enter_scope(ci.module)
            sub = State()
            sub.frames[self.fid] = _ClassNS(self, ci, sub)
            try:
                res = self.ev(expr, sub)
            finally:
                self.leave_scope(saved)
            if len(res) == 1:
                v = res[0][1]
                if isinstance(v, S) and v.ty is None:
                    v = S(v.t, self.prog.type_of(ci.module, ann))
                self.gcache[key] = (v, dict(res[0][0].heap))
        val, heap = self.gcache[key]
        for oid, o in heap.items():
            st.heap.setdefault(oid, o)
        return val

    def inst_attr(self, v, ci, attr, st, node):
        m = ci.find_method(attr)
        if m is not None:
            if m.is_property:
                return self.call_repo(m, [v], [], st, node)
            if m.is_static:
                return [(st, Fn(m))]
            if m.is_class:
                return [(st, Fn(m, Cls(ci)))]
            return [(st, Fn(m, v))]
        if ci.is_enum:
            return [(st, S(("attr", v.t, attr)))]
        t = ("attr", v.t, attr)
        f = ci.find_field(attr)
        if f is not None and not ci.is_model and f[2] is not None and not self.assigned_in_methods(ci, attr):
            return [(st, self.class_attr(ci, attr, st))]
        if v.t[0] == "obj" and f is not None and f[2] is not None and not ci.is_model:
            # fresh object, attribute not written (yet): class default
            return [(st, self.class_attr(ci, attr, st))]
        if v.t[0] == "new" and f is not None and f[2] is not None and "*" not in dict(v.t[2]) and not validators(ci, "before"):
            d = self.field_default(f, st)
            if d is not None:
                return [(st, d)]
        ann = ci.attr_annotation(attr)
        ty = self.attr_ty(v, attr)
        if ci.is_model and ty is not None and self.enum_by_value:
            pass
        if ci.is_model:
            self.declare_field(t, ci, attr)
        if f is None and ann is None and not ci.find_method("__getattr__"):
            if any(isinstance(b, str) and b not in {"object", "abc.ABC", "ABC"} for b in ci.mro()):
                return [(st, Meth(v, attr))]
        return [(st, S(t, ty))]

    def attr_ty(self, v, attr):
        ci = self.class_of(v, attr)
        ann = ci.attr_annotation(attr) if ci is not None else None
        if ann is None:
            return None
        if ann[2]:
            ty = self.prog.type_of(ann[0], ann[1])
            if self.nullness and not ci.is_model and ((ci.qualname, attr) in self.always_there or not ci.may_store_none(attr)):
                ty = self.present(ty)
            return ty
        r = self.prog.resolve_expr(ann[0], ann[1])
        if r and r[0] == "class":
            return ("cls", r[1])
        if r and r[0] == "ext" and r[1] in {"h5py.File", "pathlib.Path"}:
            return ("ext", r[1])
        return None

    def field_default(self, f, st):
        from .schema import default_expr

        d = default_expr(f[2])
        if d is None:
            return None
        val = self.class_const(f[0], f"!default:{id(d)}", d, f[1], st)
        if isinstance(val, S) and val.const:
            return val
        return None

    def declare_field(self, t, ci, attr):
        if t in self.declared_seen:
            return
        self.declared_seen.add(t)
        rng = field_range(self.prog, ci, attr)
        if rng is not None:
            self.declared[t] = rng
        fs = field_schema(self.prog, ci, attr)
        if fs is not None and ("min_length" in fs.cons or "max_length" in fs.cons):
            self.declared[("call", "len", (t,), ())] = (fs.cons.get("min_length", 0), False, fs.cons.get("max_length"), fs.cons.get("max_length") is None)

    def assigned_in_methods(self, ci, attr):
        key = (ci.qualname, attr)
        if key not in self._assigned:
            found = False
            classes = [c for c in ci.mro() if not isinstance(c, str)]
            # subclasses may write it as well
            for c in self.prog.all_classes():
                if c is not ci and any(b is ci for b in c.mro() if not isinstance(b, str)):
                    classes.append(c)
            for c in classes:
                for m in c.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, (ast.Store, ast.Del)):
                            found = True
            self._assigned[key] = found
        return self._assigned[key]

    # ------------------------------------------------------------ subscripts
    def ev_Slice(self, e, st):
        parts = [e.lower, e.upper, e.step]
        res = [(st, [])]
        for p in parts:
            nxt = []
            for s, vals in res:
                if p is None:
                    nxt.append((s, [*vals, NONE]))
                else:
                    nxt.extend((s2, [*vals, v]) for s2, v in self.ev(p, s))
            res = nxt
        out = []
        for s, v in res:
            a, b, c = (self.term(x, s) for x in v)
            if a == NONE.t:
                a = T.k(0) if c == NONE.t or (T.is_k(c) and c[1] == "num" and c[2] > 0) else a
            if c == T.k(1):
                c = NONE.t
            out.append((s, S(("slice", a, b, c))))
        return out

    def ev_Subscript(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            for s2, i in self.ev(e.slice, s):
                out.extend(self.getitem(v, i, s2, e))
        return out

    def getitem(self, v, i, st, node=None):
        self.absent(v, "[]", st, node)
        if isinstance(i, S):
            i = self.refine(i, st)
        if isinstance(v, (Cls, Ext)) :
            if isinstance(v, Cls) and v.ci.is_enum and isinstance(i, S) and i.const and i.t[2] in v.ci.enum_members():
                return [(st, self.enum_value(v.ci, i.t[2]))]
            return [(st, v if not (isinstance(v, Cls) and v.ci.is_enum) else S(("item", self.term(v), self.term(i, st)), ("cls", v.ci)))]
        ti = self.term(i, st)
        key = (self.ident(v), "[]", ti)
        if key in st.store:
            return [(st, st.store[key])]
        cint = int(ti[2]) if T.is_k(ti) and ti[1] == "num" and ti[2].denominator == 1 else None
        if ti[0] == "slice" and (isinstance(v, Tup) or (isinstance(v, Ref) and st.heap.get(v.oid) is not None and st.heap[v.oid].kind == "list")):
            items = self.known_items(v, st)
            if items is not None and all(x in {NONE.t, None} or (T.is_k(x) and x[1] == "num") for x in ti[1:]):
                sl = slice(*[None if x == NONE.t else int(x[2]) for x in ti[1:]])
                items = items[sl]
                return [(st, Tup(items) if isinstance(v, Tup) else self.new_heap(st, HObj("list", items)))]
            if isinstance(v, Ref) and all(isinstance(x, Star) for x in st.heap[v.oid].items):
                return [(st, self.new_heap(st, st.heap[v.oid]))]
        if isinstance(v, Tup) and cint is not None and -len(v.items) <= cint < len(v.items):
            return [(st, v.items[cint])]
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if o is not None and o.kind == "list" and cint is not None:
                pre = []
                seq = o.items if cint >= 0 else o.items[::-1]
                n = cint if cint >= 0 else -cint - 1
                for it in seq:
                    if isinstance(it, Star):
                        break
                    pre.append(it)
                if n < len(pre) and not (o.unknown and cint < 0):
                    return [(st, pre[n])]
                if o.exact:
                    self.raise_exc(st, Exc("IndexError", loc=self.loc(node)))
                    return []
                stars = [x for x in o.items if isinstance(x, Star)]
                if len(o.items) == 1 and stars:
                    return [(st, stars[0].val)]
            if o is not None and o.kind == "list" and cint is None and ti[0] != "slice":
                if len(o.items) == 1 and isinstance(o.items[0], Star):
                    return [(st, o.items[0].val)]
            if o is not None and o.kind == "dict":
                out = []
                cur = st
                tk = F._plain(ti)
                for it in o.items:
                    if isinstance(it, Star):
                        if self.term(it.key, st) == ti if it.key is not None else False:
                            return [*out, (cur, it.val)]
                        continue
                    k_ = F._plain(self.term(it[0], cur))
                    atom, pol = F.cmp_atom("==", tk, k_)
                    t, f = self.split_atom(atom, pol, cur)
                    out.extend((s, it[1]) for s in t)
                    if not f:
                        return out
                    cur = f[0]
                if o.exact:
                    self.raise_exc(cur, Exc("KeyError", loc=self.loc(node)))
                    return out
                if len(o.items) == 1 and isinstance(o.items[0], Star) and not o.unknown:
                    return [*out, (cur, o.items[0].val)]
                return [*out, (cur, S(("item", self.term(v, cur), ti)))]
        if isinstance(v, S):
            t = v.t
            if t[0] == "attr" and t[2] == "parents" and cint == 0:
                return [(st, S(("attr", t[1], "parent"), PATH_TY))]
            if t[0] == "tuple" and cint is not None and -len(t[1]) <= cint < len(t[1]):
                return [(st, S(t[1][cint]))]
            if t[0] == "k" and t[1] in {"str", "bytes"} and cint is not None and -len(t[2]) <= cint < len(t[2]):
                return [(st, K(t[2][cint]))]
            ty = None
            if v.ty is not None:
                if v.ty[0] == "list" and ti[0] != "slice":
                    ty = v.ty[1]
                elif v.ty[0] == "list":
                    ty = v.ty
                elif v.ty[0] == "dict":
                    ty = v.ty[2]
                elif v.ty[0] == "tuple" and cint is not None and 0 <= cint < len(v.ty[1]):
                    ty = v.ty[1][cint]
                elif v.ty[0] == "cls":
                    m = v.ty[1].find_method("__getitem__")
                    if m is not None:
                        return self.call_repo(m, [v, i], [], st, node)
            self.maybe_raise(st, node)
            if t[0] == "slice_of":
                pass
            # slice of a slice from the same start
            return [(st, S(("item", t, ti), ty))]
        self.maybe_raise(st, node)
        return [(st, S(("item", self.term(v, st), ti)))]

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(self, e, st):
        return self.comprehension(e, st, "list")

    def ev_SetComp(self, e, st):
        return self.comprehension(e, st, "set")

    def ev_GeneratorExp(self, e, st):
        return self.comprehension(e, st, "list")

    def ev_DictComp(self, e, st):
        return self.comprehension(e, st, "dict")

    def comprehension(self, e, st, kind):
        """Unrolled for known collections, otherwise one symbolic element."""
        start = [(st, [], False)]

        def rec(gi, s, sym):
            """-> list of (state, [items], sym)."""
            if gi == len(e.generators):
                out = []
                if kind == "dict":
                    for s1, kv in self.ev(e.key, s):
                        for s2, vv in self.ev(e.value, s1):
                            out.append((s2, [(kv, vv)]))
                else:
                    for s1, v in self.ev(e.elt, s):
                        out.append((s1, [v]))
                return out
            g = e.generators[gi]
            res = []
            for s1, coll in self.ev(g.iter, s):
                coll = copied(coll)
                items = self.iter_items(coll, s1)
                if items is not None:
                    cur = [(s1, [])]
                    for it in items:
                        nxt = []
                        for s2, acc in cur:
                            if isinstance(it, Star):
                                nxt.append((s2, acc + self._comp_sym(g, gi, it.val, s2, rec, kind, it.bound, it.facts)))
                                continue
                            if not self.assign_target(g.target, it, s2):
                                continue
                            ok, no = [s2], []
                            for c in g.ifs:
                                ok2 = []
                                for z in ok:
                                    t, f = self.branch(c, z)
                                    ok2.extend(t)
                                    no.extend(f)
                                ok = ok2
                            nxt.extend((z, acc) for z in no)
                            for z in ok:
                                for s3, its in rec(gi + 1, z, sym):
                                    nxt.append((s3, acc + its))
                        cur = self.limit(nxt)
                    res.extend(cur)
                else:
                    el = self.elem_of(coll, s1)
                    res.append((s1, self._comp_sym(g, gi, el, s1, rec, kind, self.spread(coll, s1).bound, self.spread(coll, s1).facts)))
            return res

        out = []
        saved = dict(st.frames[self.fid])
        for s, items in rec(0, st, False):
            fr = s.frames[self.fid]
            for n in list(fr):
                if n not in saved:
                    del fr[n]
                elif fr[n] != saved[n]:
                    fr[n] = saved[n]
            fixed = []
            for it in items:
                if kind == "dict" and not isinstance(it, Star):
                    fixed = self._dict_put(fixed, it)
                elif it not in fixed or kind == "list":
                    fixed.append(it)
            out.append((s, self.new_heap(s, HObj(kind, fixed))))
        return out

    def _comp_sym(self, g, gi, el, s, rec, kind, bound=(), when=None):
        """Symbolic element: evaluate on a copy, keep events, return Star items."""
        base = s.facts
        probe = s.copy()
        probe.loops = (*probe.loops, self.term(el, s))
        if not self.assign_target(g.target, el, probe):
            return []
        ok = [probe]
        for c in g.ifs:
            ok = [t for z in ok for t in self.branch(c, z)[0]]
        stars = []
        for z in ok:
            for s3, its in rec(gi + 1, z, True):
                new = {**(when or {}), **{a: v for a, v in s3.facts.items() if a not in base}}
                for it in its:
                    if isinstance(it, Star):
                        stars.append(it.over(bound, {**new, **it.facts}))
                    elif kind == "dict":
                        stars.append(Star(it[1], new, key=it[0], bound=bound))
                    else:
                        stars.append(Star(it, new, bound=bound))
                # keep effects
                evs = s3.events()[s.nev:] if s3.nev > s.nev else []
                for ev in evs:
                    s.emit(ev)
                for oid, o in s3.heap.items():
                    s.heap.setdefault(oid, o)
        uniq = []
        for x in stars:
            if x not in uniq:
                uniq.append(x)
        return uniq

    def iter_items(self, v, st):
        """Items for iteration incl. Star entries, None if it is unknown."""
        it = self.known_items(v, st)
        if it is not None:
            return it
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if o is not None and not o.unknown and o.kind in {"list", "set"} and any(isinstance(i, Star) for i in o.items):
                return None if len(o.items) == 1 else list(o.items)
        return None

    def elem_of(self, v, st):
        """Symbolic element of an iterable."""
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if o is not None and o.kind in {"list", "set"} and len(o.items) == 1 and isinstance(o.items[0], Star) and not o.unknown:
                return o.items[0].val
            if o is not None and o.kind == "dict" and len(o.items) == 1 and isinstance(o.items[0], Star) and o.items[0].key is not None:
                return o.items[0].key
            t = self.term(v, st)
            return S(("elem", t, st.loops.count(("elem", t, 0))))
        t = self.term(v, st)
        n = sum(1 for x in st.loops if x[0] == "elem" and x[1] == t)
        if t[0] == "enumerate":
            return Tup([S(("idx", t[1], n)) if t[2] == T.k(0) else S(T.add(("idx", t[1], n), t[2])), self.elem_of(S(t[1], self.tyhint.get(t[1])), st)])
        if t[0] == "zip":
            return Tup([self.elem_of(S(x, self.tyhint.get(x)), st) for x in t[1]])
        if t[0] == "mcall" and t[2] == "items" and not t[3]:
            key = S(("elem", ("mcall", t[1], "keys", (), ()), n), self._kty(t[1]))
            return Tup([key, S(("item", t[1], key.t), self._vty(t[1]))])
        if t[0] == "mcall" and t[2] == "values" and not t[3]:
            key = ("elem", ("mcall", t[1], "keys", (), ()), n)
            return S(("item", t[1], key), self._vty(t[1]))
        ty = None
        if isinstance(v, S) and v.ty is not None:
            if v.ty[0] == "list":
                ty = v.ty[1]
            elif v.ty[0] == "dict":
                ty = v.ty[1]
                return S(("elem", ("mcall", t, "keys", (), ()), n), ty)
            elif v.ty[0] == "union":
                for x in v.ty[1]:
                    if x and x[0] == "list":
                        ty = x[1]
        return S(("elem", t, n), ty)

    def _kty(self, t):
        ty = self.tyhint.get(t)
        return ty[1] if ty and ty[0] == "dict" else None

    def _vty(self, t):
        ty = self.tyhint.get(t)
        return ty[2] if ty and ty[0] == "dict" else None


class _ClassNS(dict):
    """Namespace for class-level expressions: earlier class attributes are visible."""

    def __init__(self, interp, ci, st):
        super().__init__()
        self.i, self.ci, self.st = interp, ci, st

    def __contains__(self, name):
        if dict.__contains__(self, name):
            return True
        f = self.ci.fields.get(name)
        return f is not None and f[1] is not None

    def __getitem__(self, name):
        if dict.__contains__(self, name):
            return dict.__getitem__(self, name)
        f = self.ci.fields[name]
        return self.i.class_const(self.ci, name, f[1], f[0], self.st)

    def get(self, name, default=None):
        return self[name] if name in self else default


__all__ = ["ExprMixin", "FunctionInfo"]
