"""Properties of the recording reader."""

from .. import facts as F
from .. import terms as T
from ..ctx import returns
from ..values import S
from . import rule
from .recording import CH, CORE_R, attr_loc, convs, h5path

HARD = (
    [("group", ("root",), "data"), ("attr", ("root",), "mode")]
    + [("attr", ("root", "data"), a) for a in ("window_samples", "datatype")]
    + [("group", ("root", "data"), c) for c in CH]
    + [("attr", ("root", "data", c), a) for c in CH for a in ("gain", "offset")]
)
ALLOWED = {("harvester", "ivsample"), ("harvester", "ivcurve"), ("harvester", "isc_voc"), ("emulator", "ivsample")}


def presence(facts):
    """{(kind, loc, name): bool} from the `in` facts"""
    out = {}
    for a, v in facts.items():
        if a[0] != "in" or a[1][0] != "k":
            continue
        nm = F._plain(a[1])[2]
        loc = attr_loc(a[2])
        if loc is not None:
            out[("attr", loc, nm)] = v
            continue
        b = a[2]
        if b[0] in {"call", "mcall"} and ((b[0] == "mcall" and b[2] == "keys") or b[1] in {"list", "set", "tuple"}):
            b = b[1] if b[0] == "mcall" else b[2][0]
        loc = h5path(b)
        if loc is not None:
            out[("group", loc, nm)] = v
    return out


def attr_value(facts, loc, key):
    """(known value, excluded values) of an attribute"""
    val, excl = None, set()
    for a, v in facts.items():
        if a[0] != "eq":
            continue
        x, y = a[1], F._plain(a[2])
        if y[0] != "k":
            continue
        _, base = convs(x)
        if base[0] == "item" and attr_loc(base[1]) == loc and F._plain(base[2]) == T.k(key):
            if v:
                val = y[2]
            else:
                excl.add(y[2])
    return val, excl


@rule("R02", floor=40, technique="path-sensitive abstract interpretation of the validity check")
def validity(ctx):
    """Every path that reports a file valid must have established each mandatory criterion as a branch fact (groups,
    attributes, datasets with gain and offset, supported mode, data type allowed for that mode, window of at least one
    sample for curves); every path that reports it invalid must have established that one of them is violated."""

    def keep(a):
        return a[0] == "in" or a[0] in {"eq", "pos", "zero", "true"} and any(x in repr(a) for x in ("'mode'", "'datatype'", "'window_samples'", "'gain'", "'offset'"))

    # the data-type query is deterministic (its own agreement with the writer is W03)
    term = ("item", ("cls", "EnergyDType"), ("item", ("attr", ("item", ("attr", ("self",), "h5file"), T.k("data")), "attrs"), T.k("datatype")))
    ty = ("union", (("cls", ctx.cls("EnergyDType")), ("none",)))
    stub = {f"{CORE_R}.get_datatype": lambda it, fi, a, kw, st, node: [(st, S(term, ty))]}
    outs = returns(ctx.run(f"{CORE_R}.is_valid", names=(), keep=keep, stub=stub, opaque={f"{CORE_R}.count_errors_in_log", f"{CORE_R}.get_hostname"}))
    pos = neg = 0
    for o in outs:
        pres = presence(o.facts)
        mode, mex = attr_value(o.facts, ("root",), "mode")
        dt, dex = attr_value(o.facts, ("root", "data"), "datatype")
        win = None
        for a in o.facts:
            for x in T.subterms(a):
                if x and x[0] == "item" and attr_loc(x[1]) == ("root", "data") and F._plain(x[2]) == T.k("window_samples"):
                    win = x
        wt = None
        if win is not None:
            for a in o.facts:
                for x in T.subterms(a):
                    if x and x[0] == "call" and x[1] == "int" and x[2] and x[2][0] == win:
                        wt = x
            wt = wt or win
        lo = hi = None
        if wt is not None:
            lo, _, hi, hio = F.bounds(o.facts).of(wt)
        dt_n = dt if dt is not None else None
        if o.term == T.k(True):
            pos += 1
            for req in HARD:
                ctx.check(pres.get(req) is True, "R02-required", f"{req[1][-1]}/{req[2]}", f"a file without '{req[2]}' in {'/'.join(req[1])} can be reported valid")
            ctx.check(mode is not None and any(mode == m for m, _ in ALLOWED), "R02-mode", "supported mode", f"a file with mode {mode} can be reported valid")
            ctx.check((mode, dt_n) in ALLOWED, "R02-pair", "data type allowed for mode", f"mode {mode} with data type {dt_n} can be reported valid")
            if dt_n == "ivcurve":
                ctx.check(lo is not None and lo > 0, "R02-window", "curve needs a window", f"ivcurve file with window from {lo} can be reported valid")
        elif o.term == T.k(False):
            neg += 1
            reason = any(pres.get(r) is False for r in HARD)
            reason = reason or {m for m, _ in ALLOWED} <= mex
            if mode is not None:
                ok_types = {d for m, d in ALLOWED if m == mode}
                reason = reason or not ok_types or (dt_n is not None and dt_n not in ok_types) or ok_types <= dex
            reason = reason or (dt_n == "ivcurve" and hi is not None and (hi < 1 or (hi == 1 and hio)))
            ctx.check(reason, "R02-no-false-alarm", _why(o), "a file meeting every mandatory criterion can be reported invalid: " + ", ".join(f"{v} {T.show(a)}" for a, v in o.facts.items() if a[0] != "in")[:600])
        else:
            ctx.fail("R02-verdict", "verdict", f"returns {T.show(o.term)[:60]}")
    ctx.check(pos > 0 and neg > 0, "R02-instance", "verdicts", f"{pos} valid / {neg} invalid paths")


def _why(o):
    return "rejecting path"
