"""Forward abstract interpreter with trace partitioning over the term domain.

It never runs repository code.  Every path through a function (loops: any number of rounds,
cut by widening to fresh terms) is covered by some partition; each partition carries the
facts that select it and the effects (events) it performs.
"""

import ast

from . import facts as F
from . import terms as T
from .calls import CallMixin
from .expr import ExprMixin
from .prog import AnalysisError
from .stmts import StmtMixin
from .values import NONE, Ev, Exc, HObj, Ref, S, State, Tup


class Outcome:
    def __init__(self, kind, st, val, term):
        self.kind = kind  # return / raise
        self.st = st
        self.val = val
        self.term = term
        self.facts = st.facts
        self.events = st.events()

    @property
    def exc(self):
        return self.val if isinstance(self.val, Exc) else None

    def __repr__(self):
        return f"<{self.kind} {self.val!r} {len(self.events)} events>"


NONE_OR_RESULT = {"os.environ.get", "os.getenv", "re.match", "re.search", "re.fullmatch", "shutil.which", "importlib.util.find_spec", "inspect.getdoc", "mimetypes.guess_type"}


class Interp(ExprMixin, CallMixin, StmtMixin):
    def __init__(self, prog, opaque=(), opaque_prefix=(), implicit=False, unroll=12, max_depth=25, max_states=3000, max_steps=300000, trust_types=True, stub=None, record_div=False, watch=(), ev_filter=None, join_at=48, want_setattr=False, keep=None, star_facts=False, want_added=False, row_functions=False):
        self.row_functions = row_functions
        self.nullness = False
        self.at = None
        self.always_there = set()
        self.uses = set()
        self.needs = None
        self.gives_none = None
        self.keep = keep
        self.star_facts = star_facts
        self.want_added = want_added
        self.str_lvs = set()
        self.app_stack = []
        self._desugared = {}
        self.prog = prog
        self.opaque_set = set(opaque)
        self.opaque_prefix = tuple(opaque_prefix)
        self.implicit = implicit
        self.unroll = unroll
        self.unroll_range = 4
        self.max_depth = max_depth
        self.max_states = max_states
        self.max_steps = max_steps
        self.trust_types = trust_types
        self.stub = stub or {}
        self.record_div = record_div
        self.enum_by_value = True
        self.ext_hooks = {}
        self.watch = set(watch)
        self.ev_filter = ev_filter
        self.join_at = join_at
        self.joins = 0
        self.want_setattr = want_setattr
        self.want_pure = ()
        self.throws = {}
        self.steps = 0
        self.oid = 0
        self.fidc = 0
        self.fid = 0
        self.module = None
        self.fi = None
        self.stack = []
        self.sink = []
        self.try_depth = 0
        self.guards = []
        self.gcache = {}
        self.newvals = {}
        self.tyhint = {}
        self.declared = {}
        self.declared_seen = set()
        self._assigned = {}
        self._nested = {}
        self._loops = {}
        self.calls_inlined = set()

    # ------------------------------------------------------------ helpers
    def loc(self, node):
        ln = getattr(node, "lineno", "?")
        return f"{self.module.rel if self.module else '?'}:{ln}"

    def emit(self, st, kind, name, recv=None, args=(), kws=(), loc="", res=None, extra=None):
        if kind == "enter" and name not in self.watch:
            return
        if kind == "setattr" and not self.want_setattr:
            return
        if self.ev_filter is not None and not self.ev_filter(kind, name):
            return
        st.emit(Ev(kind, name, recv, args, kws, loc, st.facts, st.loops, tuple(self.stack), res, extra))

    def is_absent(self, v, st):
        """May the value be None on this path?"""
        if not isinstance(v, S):
            return False
        t = v.t
        if t == NONE.t:
            return not any(val and f[0] == "in" and f[1] == t for f, val in st.facts.items())
        if v.const or not self.may_be_none(v) or F.decide(st.facts, ("isnone", t), self.declared) is False:
            return False
        atom, pol = F.truth_atom(t)
        if F.decide(st.facts, atom, self.declared) == pol:
            return False
        for f, val in st.facts.items():
            if val and f[0] in {"eq", "isinst", "in"} and len(f) > 2 and f[1] == t and (f[0] != "eq" or T.is_k(f[2]) and f[2] != NONE.t):
                return False
        return True

    def absent(self, v, what, st, node=None):
        """Report the use of a value which may be missing on this path."""
        if not self.nullness or not isinstance(v, S) or not (v.t == NONE.t or self.may_be_none(v)):
            return
        if any(g & {"TypeError", "AttributeError", "Exception", "BaseException"} for g in self.guards):
            return
        self.uses.add((self.loc(node or self.at), what))
        if self.is_absent(v, st):
            self.emit(st, "absent", what, args=(v.t,), loc=self.loc(node or self.at))

    @staticmethod
    def may_be_none(v):
        t = v.t
        if t[0] == "call" and isinstance(t[1], str) and t[1] in NONE_OR_RESULT:
            return len(t[2]) < 2 or "match" in t[1] or "search" in t[1] or t[2][1] == NONE.t
        if v.ty is None:
            return t[0] == "get" and len(t) > 3 and t[3] == NONE.t
        return v.ty == ("none",) or (v.ty[0] == "union" and any(x is None or x == ("none",) for x in v.ty[1]))

    @staticmethod
    def with_default(fi, x, ty):
        """Type of a parameter which is None when it is left out."""
        a = fi.node.args
        pos = a.posonlyargs + a.args
        d = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults) :]], a.defaults))
        d.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        v = d.get(x.arg)
        if not (isinstance(v, ast.Constant) and v.value is None):
            return ty
        if ty is None:
            return ("union", (("ext", "object"), ("none",)))
        if ty[0] == "union":
            return ty if ("none",) in ty[1] else ("union", (*ty[1], ("none",)))
        return ("union", (ty, ("none",)))

    def present(self, ty):
        """Type without None: the value at hand is the one which is calculated, not a free one."""
        if not self.nullness or ty is None or ty[0] != "union":
            return ty
        rest = tuple(x for x in ty[1] if x != ("none",))
        return rest[0] if len(rest) == 1 else ("union", rest)

    def limit(self, pairs):
        if len(pairs) > 1:
            pairs = self.merge_pairs(pairs)
        if len(pairs) > self.max_states:
            raise AnalysisError(f"too many partitions in {self.stack[-2:]}")
        return pairs

    def limit_states(self, sts):
        sts = self.merge_states(sts)
        if len(sts) > self.max_states:
            raise AnalysisError(f"too many partitions in {self.stack[-2:]}")
        return sts

    def _same(self, a, b):
        return (
            a.nev == b.nev
            and a.evh == b.evh
            and a.store == b.store
            and a.loops == b.loops
            and a.frames == b.frames
            and a.heap == b.heap
            and self._same_types(a, b)
            and (self.keep is None or self._kept(a) == self._kept(b))
        )

    @staticmethod
    def _same_types(a, b):
        for fid, fr in a.frames.items():
            fr2 = b.frames[fid]
            for n, v in fr.items():
                if isinstance(v, S) and v.ty is not None and v.ty != fr2[n].ty and fr2[n].ty is not None:
                    return False
        return True

    def _kept(self, st):
        return {x: v for x, v in st.facts.items() if self.keep(x)}

    @staticmethod
    def _join_facts(a, b):
        if a is b:
            return a
        return {k: v for k, v in a.items() if b.get(k) is v}

    def merge_pairs(self, pairs):
        if len(pairs) < 2:
            return pairs
        out = []
        for s, v in pairs:
            for i, (s2, v2) in enumerate(out):
                if self._val_same(v, s, v2, s2) and self._same(s, s2):
                    s2.facts = self._join_facts(s2.facts, s.facts)
                    break
            else:
                out.append((s, v))
        if len(out) > self.join_at:
            out = self.join_pairs(out)
        return out

    def join_pairs(self, pairs):
        """Widen the partitioning: one partition per history of effects."""
        groups = {}
        for s, v in pairs:
            key = (s.nev, s.evh, s.loops, tuple(s.frames), s.cur_exc, type(v))
            if self.keep is not None:
                key += (frozenset(self._kept(s).items()),)
            groups.setdefault(key, []).append((s, v))
        out = []
        for grp in groups.values():
            if len(grp) == 1:
                out.append(grp[0])
                continue
            self.joins += 1
            sts = [s for s, _ in grp]
            base = sts[0]
            memo = {}
            for fid in list(base.frames):
                fr = base.frames[fid]
                for name in list(fr):
                    vs = [s.frames[fid].get(name) for s in sts]
                    if name.startswith("!"):
                        continue
                    if any(x is None for x in vs):
                        del fr[name]
                    else:
                        fr[name] = self.phi(vs, sts, memo)
            keys = set(base.store)
            for s in sts[1:]:
                keys |= set(s.store)
            for key in keys:
                vs = [s.store.get(key) for s in sts]
                if any(x is None for x in vs):
                    orig = S(("attr", *key) if len(key) == 2 else ("item", key[0], key[2]))
                    vs = [orig if x is None else x for x in vs]
                base.store[key] = self.phi(vs, sts, memo)
            oids = set(base.heap)
            for s in sts[1:]:
                oids |= set(s.heap)
            for oid in oids:
                objs = [s.heap[oid] for s in sts if oid in s.heap]
                if all(o == objs[0] for o in objs):
                    base.heap[oid] = objs[0]
                else:
                    base.heap[oid] = HObj(objs[0].kind, (), True)
            facts = base.facts
            for s in sts[1:]:
                facts = self._join_facts(facts, s.facts)
            base.facts = facts
            out.append((base, self.phi([v for _, v in grp], sts, memo)))
        return out

    def phi(self, vs, sts, memo):
        if all(type(x) is type(vs[0]) and x == vs[0] for x in vs):
            return vs[0]
        if all(isinstance(x, Tup) and len(x.items) == len(vs[0].items) for x in vs):
            return Tup([self.phi([x.items[i] for x in vs], sts, memo) for i in range(len(vs[0].items))])
        ts = tuple(self.term(x, s) for x, s in zip(vs, sts))
        if ts in memo:
            return memo[ts]
        uniq = []
        for t in ts:
            if t not in uniq:
                uniq.append(t)
        if len(uniq) == 1 and isinstance(vs[0], S):
            memo[ts] = vs[0]
            return vs[0]
        ty = None
        tys = [getattr(x, "ty", None) for x in vs if not (isinstance(x, S) and x.t == NONE.t)]
        if tys and all(x == tys[0] for x in tys):
            ty = tys[0]
        if len(uniq) > 6:
            uniq = [("many", self.joins, len(memo))]
        r = S(("phi", tuple(uniq), self.joins, len(memo)), ty)
        memo[ts] = r
        return r

    @staticmethod
    def _val_same(v, s, v2, s2):
        if type(v) is not type(v2):
            return False
        if isinstance(v, Ref):
            return v == v2
        return v == v2

    def merge_states(self, sts):
        return [s for s, _ in self.merge_pairs([(s, NONE) for s in sts])]

    def merge_raises(self, raised):
        out = []
        for s, e in raised:
            for s2, e2 in out:
                if e == e2 and e.loc == e2.loc and self._same(s, s2):
                    s2.facts = self._join_facts(s2.facts, s.facts)
                    break
            else:
                out.append((s, e))
        if len(out) > self.join_at:
            groups = {}
            for s, e in out:
                groups.setdefault((e.name, e.loc if e.name != "?" else None), []).append(s)
            out = []
            for (name, _), sts in groups.items():
                e = next(x for s, x in raised if x.name == name and (name == "?" or x.loc == _))
                if len(sts) > 8:
                    sts = [s for s, _v in self.join_pairs([(s, NONE) for s in sts])]
                out.extend((s, e) for s in sts)
        return out

    # ------------------------------------------------------------ entry
    def param(self, name, ty=None):
        t = ("param", name)
        if ty is not None:
            self.tyhint[t] = ty
        return S(t, ty)

    def self_value(self, ci):
        self.tyhint[("self",)] = ("cls", ci)
        return S(("self",), ("cls", ci))

    def run(self, fi, args=None, facts=None, this=None, prep=None):
        """Analyse a function from symbolic arguments.

        args: name -> value (others are free symbols of their annotated type).
        """
        st = State()
        st.facts = dict(facts or {})
        self.sink = []
        self.stack = []
        a = fi.node.args
        pos = a.posonlyargs + a.args
        argl, kwl = [], []
        args = dict(args or {})
        self.module = fi.module
        if fi.cls is not None and not fi.is_static:
            if this is None:
                from .values import Cls

                this = Cls(fi.cls) if fi.is_class else self.self_value(fi.cls)
            argl.append(this)
            pos = pos[1:]
        for x in pos + a.kwonlyargs:
            v = args.get(x.arg)
            if v is None:
                v = S(("param", x.arg))
                ty = self.prog.type_of(fi.module, x.annotation) if x.annotation is not None else None
                if self.nullness:
                    ty = self.with_default(fi, x, ty)
                if ty is not None:
                    v = self.param(x.arg, ty)
            kwl.append((x.arg, v))
        if prep is not None:
            prep(self, st)
        saved = self.enter_scope(fi.module, fi)
        fid = self.fid
        st.frames[fid] = {}
        self.stack.append(fi.qualname)
        outs = []
        try:
            self.bind(fi, argl, kwl, st, fid)
            if a.vararg:
                st.frames[fid][a.vararg.arg] = S(("param", a.vararg.arg), ("list", None))
            if a.kwarg:
                st.frames[fid][a.kwarg.arg] = args.get(a.kwarg.arg, S(("param", a.kwarg.arg), ("dict", None, None)))
            for kind, s, v in self.exec_block(fi.node.body, st):
                if kind == "normal":
                    kind, v = "return", NONE
                outs.append(Outcome(kind, s, v, self.term(v, s)))
        finally:
            self.stack.pop()
            self.leave_scope(saved)
        for s, exc in self.merge_raises(self.sink):
            outs.append(Outcome("raise", s, exc, ("exc", exc.name)))
        self.sink = []
        return outs
