#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""

import json
import pathlib

import props

here = pathlib.Path(__file__).resolve().parent


def entry(p):
    r = {
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    }
    assert len(p["title"]) <= 80, p["id"]
    return r


allp = sorted(props.P + props.NA, key=lambda p: p["id"])
assert len({p["id"] for p in allp}) == len(allp)
(here / "properties.jsonl").write_text("".join(json.dumps(entry(p)) + "\n" for p in allp))
man = {
    "version": 1,
    "setup_cmd": "python3-vt -m compileall -q /verif/shpa /verif/check.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3-vt check.py {p['id']}",
            "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
            "technique": "static analysis: " + p["tech"],
            "level": "other",
            "level_note": p["note"],
        }
        for p in sorted(props.P, key=lambda p: p["id"])
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(props.NA, key=lambda p: p["id"])],
}
(here / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(props.P), "claimed,", len(props.NA), "not applicable")
