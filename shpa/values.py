"""Abstract values, heap objects and states of the interpreter."""

from . import terms as T


class S:
    """Scalar / opaque value, named by its term."""

    __slots__ = ("t", "ty")

    def __init__(self, t, ty=None):
        self.t = T.cut(t)
        self.ty = ty

    @property
    def const(self):
        return self.t[0] == "k"

    def __eq__(self, o):
        return isinstance(o, S) and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f"S<{T.show(self.t)}>"


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return f"Tup{self.items}"


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return f"Ref({self.oid})"


class Fn:
    __slots__ = ("fi", "this", "fid")

    def __init__(self, fi, this=None, fid=None):
        self.fi, self.this, self.fid = fi, this, fid

    def __eq__(self, o):
        return isinstance(o, Fn) and o.fi is self.fi and o.this == self.this

    def __hash__(self):
        return hash(self.fi.qualname)

    def __repr__(self):
        return f"Fn({self.fi.qualname})"


class Lam:
    __slots__ = ("node", "module", "fid")

    def __init__(self, node, module, fid):
        self.node, self.module, self.fid = node, module, fid

    def __eq__(self, o):
        return isinstance(o, Lam) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))


class Cls:
    __slots__ = ("ci",)

    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, Cls) and o.ci is self.ci

    def __hash__(self):
        return hash(self.ci.qualname)

    def __repr__(self):
        return f"Cls({self.ci.qualname})"


class Mod:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Mod) and o.m is self.m

    def __hash__(self):
        return hash(self.m.name)


class Ext:
    """Something external, by dotted name."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"Ext({self.name})"


class Meth:
    """Method of an opaque value."""

    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, Meth) and (o.recv, o.name) == (self.recv, self.name)

    def __hash__(self):
        return hash((self.recv, self.name))


class Super:
    __slots__ = ("this", "after")

    def __init__(self, this, after):
        self.this, self.after = this, after

    def __eq__(self, o):
        return isinstance(o, Super) and o.this == self.this

    def __hash__(self):
        return 7


class Star:
    """Zero or more list entries of the given form."""

    __slots__ = ("val", "facts", "key", "bound")

    def __init__(self, val, facts=None, key=None, bound=()):
        # bound: the loop elements the entries range over
        self.val, self.facts, self.key, self.bound = val, facts or {}, key, tuple(bound)

    def over(self, bound, facts=None):
        return Star(self.val, self.facts if facts is None else facts, self.key, (*self.bound, *[b for b in bound if b not in self.bound]))

    def __eq__(self, o):
        return isinstance(o, Star) and (o.val, o.key) == (self.val, self.key)

    def __hash__(self):
        return hash(("star", self.val))

    def __repr__(self):
        return f"Star({self.key}: {self.val})" if self.key is not None else f"Star({self.val})"


class HObj:
    """Heap object: list / set (items) or dict (pairs)."""

    __slots__ = ("kind", "items", "unknown")

    def __init__(self, kind, items=(), unknown=False):
        self.kind, self.items, self.unknown = kind, tuple(items), unknown

    def __eq__(self, o):
        return isinstance(o, HObj) and (o.kind, o.items, o.unknown) == (self.kind, self.items, self.unknown)

    def __hash__(self):
        return hash((self.kind, self.items))

    @property
    def exact(self):
        return not self.unknown and not any(isinstance(i, Star) for i in self.items)

    def with_items(self, items, unknown=None):
        return HObj(self.kind, items, self.unknown if unknown is None else unknown)

    def __repr__(self):
        return f"H{self.kind}{self.items}{'?' if self.unknown else ''}"


class Exc:
    """Exception: name of class ('?' = anything) and value."""

    __slots__ = ("name", "val", "ci", "loc")

    def __init__(self, name, val=None, ci=None, loc=None):
        self.name, self.val, self.ci, self.loc = name, val, ci, loc

    def __eq__(self, o):
        return isinstance(o, Exc) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"Exc({self.name}@{self.loc})"


class Ev:
    """Event: an observable effect on a path."""

    __slots__ = ("kind", "name", "recv", "args", "kws", "loc", "facts", "loops", "stack", "res", "extra")

    def __init__(self, kind, name, recv=None, args=(), kws=(), loc="", facts=None, loops=(), stack=(), res=None, extra=None):
        self.kind, self.name, self.recv, self.args, self.kws = kind, name, recv, args, kws
        self.loc, self.facts, self.loops, self.stack, self.res = loc, facts or {}, loops, stack, res
        self.extra = extra

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        for n, v in self.kws:
            if n == name:
                return v
        return default

    def sig(self):
        return (self.kind, self.name, self.recv, self.args, self.kws, self.loc)

    def __repr__(self):
        r = f"{T.show(self.recv)}." if self.recv is not None else ""
        a = ", ".join([T.show(x) for x in self.args] + [f"{n}={T.show(v)}" for n, v in self.kws])
        return f"[{self.kind} {r}{self.name}({a}) @{self.loc}]"


class State:
    __slots__ = ("frames", "heap", "store", "facts", "ev", "nev", "loops", "cur_exc", "evh")

    def __init__(self):
        self.evh = 0
        self.frames = {}
        self.heap = {}
        self.store = {}
        self.facts = {}
        self.ev = None  # linked list (prev, event)
        self.nev = 0
        self.loops = ()
        self.cur_exc = None

    def copy(self):
        n = State()
        n.frames = {k: dict(v) for k, v in self.frames.items()}
        n.heap = dict(self.heap)
        n.store = dict(self.store)
        n.facts = self.facts
        n.ev, n.nev, n.loops, n.cur_exc, n.evh = self.ev, self.nev, self.loops, self.cur_exc, self.evh
        return n

    def emit(self, ev):
        self.ev = (self.ev, ev)
        self.nev += 1
        self.evh = hash((self.evh, ev.sig()))

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


NONE = S(T.k(None))
TRUE = S(T.k(True))
FALSE = S(T.k(False))


def K(v):
    return S(T.k(v))


def copied(v):
    """A list made of something holds the same elements."""
    while isinstance(v, S) and v.t[0] == "seq":
        v = S(v.t[1], v.ty)
    return v
