#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current source.

usage: check.py ID [--tier quick|thorough] [-v]
exit 0: held on everything analysed; 1: VIOLATION line; 2: the analysis could not give an answer
"""

import json
import os
import pathlib
import sys
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(20000)

from shpa.ctx import Ctx  # noqa: E402
from shpa.prog import AnalysisError, Program  # noqa: E402
from shpa.rules import load  # noqa: E402


def known(pid):
    out = {}
    p = HERE / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("KNOWN "):
                _, ppid, rest = line.split(" ", 2)
                key, _, text = rest.partition(" :: ")
                if ppid == f"property={pid}":
                    out[key.strip()] = text.strip()
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rules = load()
    if pid not in rules:
        print(f"no rule for {pid}")
        return 2
    prog = Program()
    ctx = Ctx(prog, pid, tier)
    explain, techniques = [], []
    err = None
    for fn, floor, technique, text in rules[pid]:
        before = len(ctx.obligations)
        try:
            fn(ctx)
        except AnalysisError as e:
            err = f"{fn.__name__}: {e}"
            if verbose:
                traceback.print_exc()
        except Exception as e:  # noqa: BLE001
            err = f"{fn.__name__}: {type(e).__name__}: {e}"
            traceback.print_exc()
        n = len(ctx.obligations) - before
        if n < floor and err is None:
            err = f"{fn.__name__}: only {n} instances found, expected at least {floor}"
        explain.append(text or (fn.__doc__ or "").strip())
        techniques.append(technique)
    viol = ctx.violations()
    kn = known(pid)
    new = {k: v for k, v in viol.items() if k not in kn}
    old = {k: v for k, v in viol.items() if k in kn}
    ok = [o for o in ctx.obligations if o[2]]
    distinct = {(o[0], o[1]) for o in ctx.obligations}
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": " ".join(explain),
            "rule": "; ".join(sorted({o[0] for o in ctx.obligations})),
            "obligations": len(ctx.obligations),
            "discharged": len(ok),
            "distinct_instances": len(distinct),
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions),
            "samples": [f"{o[0]}: {o[1]} [{o[4]}] {'ok' if o[2] else 'FAIL ' + o[3]}" for o in ctx.obligations[:40]],
            "notes": ctx.notes,
        },
        "assumptions": ctx.assumptions,
        "violations": len(new),
        "wall_s": round(time.time() - t0, 2),
    }
    evd = pathlib.Path(os.environ.get("SHPA_OUT", HERE / "evidence"))
    evd.mkdir(exist_ok=True)
    (evd / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    print(f"{pid}: {len(ctx.obligations)} obligations ({len(distinct)} distinct) over {len(ctx.functions)} functions, {len(ok)} discharged, {ev['wall_s']} s")
    if verbose:
        for o in sorted({(o[0], o[1], o[2], o[4]) for o in ctx.obligations}):
            print("  ", "ok  " if o[2] else "FAIL", o[0], "|", o[1], "|", o[3])
    for n in ctx.notes:
        print("note:", n)
    for key, (rule, con, msg, loc) in sorted(old.items()):
        print(f"KNOWN-FINDING: property={pid} {key} {kn[key]} [{loc}]")
    if new:
        rp = evd / f"{pid}.violations.txt"
        rp.write_text("\n".join(f"{k}\n   at {v[3]}\n   {v[2]}" for k, v in sorted(new.items())) + "\n")
        for key, (rule, con, msg, loc) in sorted(new.items()):
            print(f"  rule {rule}: {con} at {loc}: {msg}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if err is not None:
        print(f"ANALYSIS ERROR {pid}: {err}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
