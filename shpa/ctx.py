"""Per-property context: collects obligations, violations and evidence."""

from . import terms as T
from .absint import Interp
from .prog import AnalysisError


class Ctx:
    def __init__(self, prog, pid, tier):
        self.prog = prog
        self.pid = pid
        self.tier = tier
        self.obligations = []  # (rule, construct, ok, msg, loc)
        self.functions = set()
        self.notes = []
        self.assumptions = []
        self._keys = {}
        self.where = None  # function analysed last

    # -------------------------------------------------------------- reporting
    def check(self, ok, rule, construct, msg="", loc=""):
        """One obligation.  key = rule|construct (no line numbers)."""
        self.obligations.append((rule, construct, bool(ok), msg, loc or (str(self.where.loc) if self.where is not None else "")))
        return bool(ok)

    def fail(self, rule, construct, msg="", loc=""):
        return self.check(False, rule, construct, msg, loc)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def violations(self):
        seen = {}
        for rule, con, ok, msg, loc in self.obligations:
            if not ok:
                seen.setdefault(f"{rule}|{con}", (rule, con, msg, loc))
        return seen

    # -------------------------------------------------------------- analysis
    def func(self, qual):
        fi = self.prog.func(qual)
        if fi is None:
            raise AnalysisError(f"anchor vanished: function {qual}")
        return fi

    def cls(self, name):
        ci = self.prog.cls(name)
        if ci is None:
            raise AnalysisError(f"anchor vanished: class {name}")
        return ci

    def interp(self, names=None, **kw):
        if names is not None:
            ns = set(names)
            kw["ev_filter"] = lambda kind, name: name in ns or kind in ns
        return Interp(self.prog, **kw)

    def run(self, qual, names=None, args=None, facts=None, this=None, prep=None, it=None, **kw):
        fi = self.func(qual) if isinstance(qual, str) else qual
        it = it or self.interp(names, **kw)
        self.where = fi
        outs = it.run(fi, args=args, facts=facts, this=this, prep=prep)
        self.functions.add(fi.qualname)
        self.functions |= set(it.calls_inlined)
        self.last = it
        if not outs:
            raise AnalysisError(f"no path found through {fi.qualname}")
        return outs


def returns(outs):
    return [o for o in outs if o.kind == "return"]


def raises(outs):
    return [o for o in outs if o.kind == "raise"]


def show(t):
    try:
        return T.show(t)
    except Exception:
        return repr(t)[:200]


def bound_args(prog, e):
    """param name -> term of an opaque call event to a repo function (self excluded by name)."""
    fi = prog.func(e.name)
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    args = list(e.args)
    if e.kind == "mcall" and e.recv is not None and fi.cls is not None and not fi.is_static:
        args = [e.recv, *args]
    out = {}
    for n, v in zip(names, args):
        out[n] = v
    for n, v in e.kws:
        out[n] = v
    return out
