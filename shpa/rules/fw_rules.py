"""F01 embedded firmware, F02 patching of firmware, F03 detection of firmware."""

import ast

from .. import facts as F
from .. import terms as T
from ..cases import Judge
from ..ctx import bound_args, raises, returns
from ..prog import AnalysisError, dotted
from ..schema import FieldSchema, _walk, const_num, field_range
from . import rule

K = T.k
TECH = "path-sensitive abstract interpretation; inverse pairs by term rewriting"

INVERSE = {("b64decode", "b64encode"), ("decompress", "compress"), ("standard_b64decode", "standard_b64encode"), ("b64decode", "standard_b64encode"), ("standard_b64decode", "b64encode")}
WRITES = {"write", "write_bytes", "write_text", "copy", "copyfile", "copy2", "copyfileobj", "save", "rename", "replace", "unlink", "touch", "truncate"}


def last(name):
    return name.split(".")[-1]


def path_of(t):
    """without changes which keep the file"""
    while True:
        if t[0] == "mcall" and t[2] in {"absolute", "resolve", "expanduser", "as_posix"} and not t[3]:
            t = t[1]
        elif t[0] == "call" and last(t[1]) in {"Path", "str", "PurePath", "fspath"} and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def opened(t):
    """(path, mode) of an open file"""
    if t[0] == "mcall" and t[2] == "open":
        args, kws, p = t[3], dict(t[4]), t[1]
    elif t[0] == "call" and last(t[1]) == "open" and t[2]:
        args, kws, p = t[2][1:], dict(t[3]), t[2][0]
    else:
        return None
    mode = args[0] if args else kws.get("mode", K("r"))
    return path_of(p), T.kval(mode) if T.is_k(mode) else "?"


def norm(t):
    """content of files, inverse pairs, bytes"""
    if not isinstance(t, tuple) or not t or t[0] == "k":
        return t
    t = T.expand1(t)
    t = tuple(norm(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "mcall":
        if t[2] == "read" and not t[3] and not t[4]:
            o = opened(t[1])
            if o and o[1] in {"rb", "br", "rb+", "r+b"}:
                return ("content", o[0])
        if t[2] == "read_bytes":
            return ("content", path_of(t[1]))
        if t[2] in {"decode", "encode"} and t[3][:1] in {(K("ascii"),), (K("utf-8"),), (K("utf8"),), ()} and t[1][0] == "call" and "b64" in t[1][1]:
            return t[1]  # same characters
        inner = t[3][0] if t[3] else None
        if inner is not None and inner[0] == "mcall" and (t[2], inner[2]) in INVERSE and inner[3]:
            return inner[3][0]
        if t[2] == "hexdigest" and t[1][0] == "call":
            return ("digest", last(t[1][1]), t[1][2])
    if t[0] == "call":
        inner = t[2][0] if t[2] else None
        if inner is not None and inner[0] == "call" and (last(t[1]), last(inner[1])) in INVERSE and inner[2]:
            return inner[2][0]
        if inner is not None and inner[0] == "call" and last(t[1]) in {"str", "bytes"} and "b64" in inner[1]:
            return inner
    return t


def written(o):
    """[(path, content)] of everything a path writes"""
    out = []
    for e in o.events:
        nm = last(e.name)
        if nm == "write" and e.recv is not None:
            f = opened(e.recv)
            out.append((f[0] if f and f[1] in {"wb", "bw", "xb", "wb+"} else ("?",), norm(e.args[0]) if e.args else None))
        elif nm == "write_bytes":
            out.append((path_of(e.recv), norm(e.args[0]) if e.args else None))
        elif nm in {"copy", "copyfile", "copy2"} and e.kind == "call":
            a = list(e.args) + [v for _, v in e.kws]
            out.append((path_of(a[1]), ("content", path_of(a[0]))) if len(a) == 2 else (("?",), None))
        elif nm in WRITES:
            out.append((("?", nm), None))
    return out


@rule("F01", floor=60, technique=TECH)
def embedded(ctx):
    """Firmware survives embedding, and is what its hash and type promise."""
    cv = next((m for m in ctx.prog.modules.values() if "file_to_base64" in m.defs and m.defs["file_to_base64"][0] == "func" and m.defs["file_to_base64"][1].module is m), None)
    if cv is None:
        raise AnalysisError("anchor vanished: file_to_base64")
    q = {n: cv.defs[n][1] for n in ("file_to_base64", "base64_to_file", "file_to_hash", "base64_to_hash", "extract_firmware")}
    par = lambda fi, n: ("param", [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args][n])  # noqa: E731

    def mapped(t, m):
        return norm(T.subst(T.subst(t, {}), m))

    src = ("param", "src")
    ev = ("call", "mcall")
    enc = [o for o in returns(ctx.run(q["file_to_base64"], names=ev))]
    codes = set()
    for o in enc:
        codes.add(T.subst(T.subst(o.term, {}), {par(q["file_to_base64"], 0): src}))
        ctx.check(not written(o), "F01-embed", "file_to_base64", "writes files")
    ctx.check(len(codes) == 1, "F01-embed", "file_to_base64", f"{len(codes)} different encodings")
    code = codes.pop()
    # ------------------------------------------------------------ decoding to a file
    fi = q["base64_to_file"]
    outs = returns(ctx.run(fi, names=ev))
    for o in outs:
        got = [(p, mapped(c, {par(fi, 0): code}) if c is not None else None) for p, c in written(o)]
        ctx.check(got == [(par(fi, 1), ("content", src))], "F01-embed", "base64_to_file", f"restores {[T.show(c)[:120] if c else c for _, c in got]} to {[T.show(p)[:60] for p, _ in got]}")
    ctx.check(bool(outs), "F01-embed", "base64_to_file", "never succeeds")
    # ------------------------------------------------------------ hashes
    fi = q["file_to_hash"]
    hashes = {norm(T.subst(T.subst(o.term, {}), {par(fi, 0): src})) for o in returns(ctx.run(fi, names=ev))}
    ok = len(hashes) == 1 and (h := next(iter(hashes)))[0] == "digest" and h[2] == (("content", src),)
    ctx.check(ok, "F01-hash", "file_to_hash", f"is {[T.show(x)[:120] for x in hashes]}")
    fi = q["base64_to_hash"]
    h2 = {mapped(o.term, {par(fi, 0): code}) for o in returns(ctx.run(fi, names=ev))}
    ctx.check(h2 == hashes, "F01-hash", "base64_to_hash", f"is {[T.show(x)[:120] for x in h2]}, expected {[T.show(x)[:120] for x in hashes]}")
    # ------------------------------------------------------------ extraction
    fi = q["extract_firmware"]
    data, dt, file = (par(fi, n) for n in range(3))
    outs = ctx.run(fi, names=ev, keep=lambda a: True, opaque={q["base64_to_file"].qualname})
    types = {"base64_elf": ".elf", "base64_hex": ".hex", "path_elf": ".elf", "path_hex": ".hex"}
    enum = ctx.cls("FirmwareDType")
    vals = enum_values(ctx, enum)
    ctx.check(set(types) <= set(vals), "F01-instance", "FirmwareDType", f"has {sorted(vals)}")
    seen = set()
    for o in returns(outs):
        here = [n for n in types if F.decide(o.facts, ("eq", dt, K(vals[n])), {}) is True]
        if not ctx.check(len(here) == 1, "F01-extract", "types", f"{here} share an extraction"):
            continue
        n = here[0]
        seen.add(n)
        want = ("mcall", file, "with_suffix", (K(types[n]),), ())
        ctx.check(o.term == want, "F01-extract", f"file of {n}", f"is {T.show(o.term)[:100]}")
        dec = [bound_args(ctx.prog, e) for e in o.events if e.name == q["base64_to_file"].qualname]
        if n.startswith("base64"):
            ok = len(dec) == 1 and list(dec[0].values()) in ([data, want],) and not written(o)
        else:
            ok = not dec and written(o) == [(want, ("content", path_of(data)))]
        ctx.check(ok, "F01-extract", f"content of {n}", f"is {[list(map(T.show, d.values())) for d in dec] or written(o)}")
    ctx.check(seen == set(types), "F01-extract", "types", f"only {sorted(seen)} can be extracted")
    ctx.check(bool(raises(outs)), "F01-extract", "other types", "are not refused")
    firmware_model(ctx, q, vals)


def enum_values(ctx, ci):
    return {t.id: ast.literal_eval(st.value) for st in ci.node.body if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) for t in st.targets if isinstance(t, ast.Name)} | {st.target.id: st.value.value for st in ci.node.body if isinstance(st, ast.AnnAssign) and isinstance(st.value, ast.Constant)}


def firmware_model(ctx, q, vals):
    fw = ctx.cls("Firmware")
    ab = ctx.cls("AbcClient").qualname
    h64, hfile = q["base64_to_hash"].qualname, q["file_to_hash"].qualname
    keep = lambda a: True  # noqa: E731
    # ------------------------------------------------------------ creation with embedded content
    fi = ctx.func(f"{fw.qualname}.query_database")
    it = ctx.interp(names=("call",), opaque={f"{ab}.try_completing_model", f"{ab}.fill_in_user_data", h64}, keep=keep)
    outs = ctx.run(fi, it=it)
    n = 0
    for o in returns(outs):
        done = [e for e in o.events if e.name.endswith("try_completing_model")]
        if not ctx.check(len(done) == 1, "F01-verify", "stored elements", "are not looked up"):
            continue
        values = ("item", done[0].res, K(0))
        get = lambda k: ("get", values, K(k), K(None))  # noqa: E731
        j = Judge()
        types = {}
        for name in ("base64_hex", "base64_elf"):
            d = [j.decide(o.facts, ("eq", x, K(vals[name]))) for x in (get("data_type"), ("item", values, K("data_type")))]
            types[name] = True if True in d else False if False in d else None
        if set(types.values()) == {False}:
            continue
        n += 1
        hs = [e for e in o.events if e.name == h64]
        ok = any(list(bound_args(ctx.prog, e).values()) in ([get("data")], [("item", values, K("data"))]) for e in hs)
        ctx.check(ok, "F01-verify", "content", "of embedded firmware is not verified")
        none = j.decide(o.facts, ("isnone", get("data_hash")))
        same = any(j.decide(o.facts, F.zero(T.sub(e.res, get("data_hash")))) is True for e in hs)
        ctx.check(none is True or same, "F01-verify", "hash", "is accepted although it differs from the content")
        ctx.check(o.term[0] == "call" and o.term[1].endswith("fill_in_user_data") and o.term[2][-1] == values, "F01-verify", "values", f"become {T.show(o.term)[:100]}")
    ctx.check(n >= 2, "F01-instance", "query_database", f"{n} paths with embedded firmware")
    it = ctx.interp(names=("call",), opaque={f"{ab}.try_completing_model", f"{ab}.fill_in_user_data"}, keep=keep)
    it.throws = {"b64decode": ["Error"], "decompress": ["ZstdError"]}
    for o in raises(ctx.run(fi, it=it)):
        ctx.check(o.exc.name in {"ValueError", "?", "Error", "ValidationError", "TypeError"}, "F01-verify", "corrupted content", f"ends in {o.exc.name}, which is no refusal of the model")
    # ------------------------------------------------------------ comparing
    fi = ctx.func(f"{fw.qualname}.compare_hash")
    outs = ctx.run(fi, names=("call",), opaque={h64, hfile}, keep=keep)
    own = ("attr", ("self",), "data_hash")
    p, d = ("param", "path"), ("attr", ("self",), "data")
    for o in returns(outs):
        none = F.decide(o.facts, ("isnone", own))
        eqs = {e.res: e for e in o.events if e.name in {h64, hfile}}
        if none is True:
            ctx.check(o.term == K(True), "F01-compare", "no hash", f"is {T.show(o.term)}")
            continue
        embedded = {F.decide(o.facts, ("eq", ("attr", ("self",), "data_type"), K(vals[x]))) for x in ("base64_hex", "base64_elf")}
        use = [e for e in eqs.values() if T.contains(o.term, lambda x, r=e.res: x == r)]
        if not use:
            ctx.check(o.term == K(False), "F01-compare", "nothing to compare", f"is {T.show(o.term)[:100]}")
            # only when there is nothing: neither embedded, nor a file
            files = [v for a, v in o.facts.items() if a[0] == "true" and a[1][0] == "mcall" and a[1][2] in {"is_file", "exists"}]
            ctx.check(embedded == {False} and files and not any(files), "F01-compare", "nothing to compare", "is assumed although there is content")
            continue
        e = use[0]
        a = path_of(list(bound_args(ctx.prog, e).values())[0])
        ctx.check(len(use) == 1 and o.term in (("atom", F.zero(T.sub(own, e.res))), ("atom", F.zero(T.sub(e.res, own)))), "F01-compare", "result", f"is {T.show(o.term)[:120]}")
        given = F.decide(o.facts, ("isnone", p)) is False or F.decide(o.facts, ("true", p)) is True
        if e.name == hfile:
            ctx.check(a == p or a == d and embedded == {False} and not given, "F01-compare", "file", f"is {T.show(a)}")
        else:
            ctx.check(a == d and True in embedded | {None} and embedded != {False}, "F01-compare", "embedded content", f"is {T.show(a)}, although the data may be a path")
            isf = [v for x, v in o.facts.items() if x[0] == "true" and x[1] == ("mcall", p, "is_file", (), ())]
            ctx.check(not any(isf), "F01-compare", "embedded content", "is compared instead of the given file")
    ctx.check(len(returns(outs)) >= 4, "F01-instance", "compare_hash", "too few paths")
    # ------------------------------------------------------------ extraction by model
    fi = ctx.func(f"{fw.qualname}.extract_firmware")
    ex, cmp_ = q["extract_firmware"].qualname, f"{fw.qualname}.compare_hash"
    outs = ctx.run(fi, names=("call",), opaque={ex, cmp_}, keep=keep)
    f = ("param", "file")
    for o in returns(outs):
        es = [e for e in o.events if e.name == ex]
        isdir = F.decide(o.facts, ("true", ("mcall", f, "is_dir", (), ())))
        want = ("op", "Div", f, ("attr", ("self",), "name")) if isdir else f
        ok = len(es) == 1
        if ok:
            b = list(bound_args(ctx.prog, es[0]).values())
            ok = b[:2] == [d, ("attr", ("self",), "data_type")] and (b[2] == f if isdir is False else T.contains(b[2], lambda x: x == f) and T.contains(b[2], lambda x: x == ("attr", ("self",), "name")))
            ctx.check(o.term == es[0].res, "F01-extract", "result of the model", f"is {T.show(o.term)[:100]}")
            cs = [e for e in o.events if e.name == cmp_]
            ctx.check(len(cs) == 1 and bound_args(ctx.prog, cs[0]).get("path") == es[0].res, "F01-extract", "verification", "of the extracted file is missing")
        ctx.check(ok and isdir is not None, "F01-extract", "Firmware.extract_firmware", f"does not extract data to {T.show(want)[:80]}")
    # ------------------------------------------------------------ task by model
    fi = ctx.func(f"{ctx.cls('FirmwareModTask').qualname}.from_firmware")
    outs = ctx.run(fi, names=("setitem", "construct", "call"), opaque={cmp_}, keep=keep)
    kw, src, where = ("param", "kwargs"), ("param", "fw"), ("get", ("param", "kwargs"), K("firmware_file"), K(None))
    for o in returns(outs):
        sets = {T.kval(e.args[0]): e.args[1] for e in o.events if e.kind == "setitem" and e.recv == kw}
        for name in ("data", "data_type"):
            ctx.check(sets.get(name) == ("attr", src, name), "F01-task", name, f"is {T.show(sets.get(name, K(None)))[:60]}")
        isdir = F.decide(o.facts, ("true", ("mcall", where, "is_dir", (), ())))
        to = sets.get("firmware_file")
        ok = to is not None and T.contains(to, lambda x: x == where) and T.contains(to, lambda x: x == ("attr", src, "name")) if isdir else to is None
        ctx.check(ok, "F01-task", f"file {'in a directory' if isdir else 'as given'}", f"is {T.show(to or K(None))[:80]}")
        cons = [e for e in o.events if e.kind == "construct"]
        ctx.check(len(cons) == 1 and dict(cons[0].kws).get("*") == kw, "F01-task", "model", "is not built from the collected values")
    ctx.check(len(returns(outs)) >= 2, "F01-instance", "FirmwareModTask.from_firmware", "too few paths")
    # ------------------------------------------------------------ creation from a file
    fi = ctx.func(f"{fw.qualname}.from_firmware")
    pre = cv_prefix(q)
    outs = ctx.run(fi, names=("setitem", "construct", "call"), opaque_prefix=(pre,), keep=keep)
    kw, src = ("param", "kwargs"), ("param", "file")
    inv = {v: k for k, v in vals.items()}
    suffix = {".hex": "base64_hex", ".ihex": "base64_hex", ".ihx": "base64_hex"}
    n = 0
    for o in returns(outs):
        sets = {}
        for e in o.events:
            if e.kind == "setitem" and e.recv == kw:
                sets[T.kval(e.args[0])] = e.args[1]
        n += 1
        emb = F.decide(o.facts, ("true", ("param", "embed")))
        calls = {e.res: last(e.name) for e in o.events if e.kind == "call"}
        isfn = lambda t, name: t is not None and t[0] == "call" and last(t[1]) == name and path_of(t[2][0]) == src  # noqa: E731
        ctx.check(isfn(sets.get("data_hash"), "file_to_hash"), "F01-create", "hash", "is not the one of the file")
        ok = isfn(sets.get("data"), "file_to_base64") if emb else sets.get("data") is not None and path_of(sets["data"]) == src
        ctx.check(ok and emb is not None, "F01-create", f"data {'embedded' if emb else 'by path'}", f"is {T.show(sets.get('data', K(None)))[:80]}")
        ctx.check(sets.get("data_local") == K(not emb), "F01-create", "data_local", f"is {T.show(sets.get('data_local', K(None)))}")
        given = F.decide(o.facts, ("in", K("data_type"), kw))
        t = sets.get("data_type", ("item", kw, K("data_type")))
        sfx = [T.kval(a[2]) for a, v in o.facts.items() if v is True and a[0] == "eq" and a[1] == ("mcall", ("attr", src, "suffix"), "lower", (), ()) and T.is_k(a[2])]
        if given is False and T.is_k(t):
            name = inv.get(T.kval(F._plain(t)), "?")
            want = suffix.get(sfx[0], "base64_elf") if len(sfx) == 1 else "?"
            want = want if emb else want.replace("base64", "path")
            ctx.check(name == want, "F01-create", f"type of {sfx}", f"is {name}, expected {want}")
        elif given is False:
            ctx.check(False, "F01-create", "type", f"is {T.show(t)[:100]}")
        elif emb:
            ctx.check("data_type" not in sets, "F01-create", "given type", "is replaced")
        else:
            was = [x for x in vals if F.decide(o.facts, ("eq", ("item", kw, K("data_type")), K(vals[x]))) is True]
            name = inv.get(T.kval(F._plain(t)), "?") if T.is_k(t) else "?"
            ctx.check(len(was) == 1 and name == was[0].replace("base64", "path"), "F01-create", "given type by path", f"of {was} is {name}")
        # what it runs on
        kind = [x for x in ("base64_hex", "base64_elf") if (given is False and len(sfx) == 1 and suffix.get(sfx[0], "base64_elf") == x) or F.decide(o.facts, ("eq", ("item", kw, K("data_type")), K(vals[x]))) is True]
        no_mcu = F.decide(o.facts, ("in", K("mcu"), kw))
        held = lambda name: [v for a, v in o.facts.items() if a[0] == "true" and a[1][0] == "call" and last(a[1][1]) == name]  # noqa: E731
        if kind == ["base64_hex"]:
            ms, nr = held("is_hex_msp430"), held("is_hex_nrf52")
            ctx.check(ms == [True] or ms == [False] and nr == [True], "F01-create", "HEX-firmware", "is accepted without being verified")
            want = "msp430fr" if ms == [True] else "nrf52"
        elif kind == ["base64_elf"]:
            arch = next((t for t, nm in calls.items() if nm == "read_arch"), None)
            ctx.check(arch is not None and path_of(arch[2][0]) == src, "F01-create", "architecture", "of an ELF is not read")
            is_in = lambda s: F.decide(o.facts, ("in", K(s), arch)) if arch is not None else None  # noqa: E731
            keys = [T.kval(a[2]) for a, v in o.facts.items() if v is True and a[0] == "eq" and a[1] == arch and T.is_k(a[2])]
            if any(T.is_k(a[1]) and (T.kval(a[1]) in x) is not v for x in keys for a, v in o.facts.items() if a[0] == "in" and a[2] == arch):
                continue  # contradicting facts
            msp = is_in("msp430") or any("msp430" in x for x in keys)
            arm = is_in("nrf52") or is_in("arm") or any(x in {"arm", "nrf52"} for x in keys)
            ctx.check(not msp or held("is_elf_msp430") == [True], "F01-create", "ELF of msp430", "is accepted without being verified")
            ctx.check(not arm or held("is_elf_nrf52") == [True], "F01-create", "ELF of nRF52", "is accepted without being verified")
            want = "msp430fr" if any("msp430" in x for x in keys) else "nrf52" if keys else None
        else:
            want = None
        mcu = sets.get("mcu")
        if no_mcu is False and kind and want:
            nm = dict(mcu[1]).get(K("name")) if mcu is not None and mcu[0] == "dict" else None
            ctx.check(nm == K(want), "F01-create", f"mcu of {kind[0]}", f"is {T.show(mcu)[:80] if mcu else 'missing'}, expected {want}")
        elif no_mcu is not False:
            ctx.check(mcu is None, "F01-create", "given mcu", "is replaced")
        if F.decide(o.facts, ("in", K("name"), kw)) is not False:
            ctx.check("name" not in sets, "F01-create", "given name", "is replaced")
        cons = [e for e in o.events if e.kind == "construct"]
        ctx.check(len(cons) == 1 and dict(cons[0].kws).get("*") == kw, "F01-create", "model", "is not built from the collected values")
    ctx.check(n >= 20, "F01-instance", "from_firmware", f"{n} paths")


def cv_prefix(q):
    return q["file_to_base64"].module.name.rsplit(".", 1)[0] + "."


# ---------------------------------------------------------------- F02 patching
@rule("F02", floor=25, technique="path-sensitive abstract interpretation of the ELF tools (address, width and byte order of reading and writing, effects per path)")
def patching(ctx):
    """A patch changes the requested symbol and nothing else, reading finds what was written."""
    mod = next((m for m in ctx.prog.modules.values() if m.defs.get("modify_symbol_value", ("",))[0] == "func" and m.defs["modify_symbol_value"][1].module is m), None)
    if mod is None:
        raise AnalysisError("anchor vanished: modify_symbol_value")
    fn = {n: mod.defs[n][1] for n in ("find_symbol", "read_symbol", "modify_symbol_value", "read_uid", "modify_uid", "read_arch")}
    keep = lambda a: True  # noqa: E731
    found = fn["find_symbol"].qualname

    def image(t, file):
        """an ELF-image loaded from this file"""
        return t is not None and t[0] == "call" and last(t[1]) == "ELF" and path_of((list(t[2]) + [v for _, v in t[3]] + [K(None)])[0]) == file

    def arg(e, n, name):
        return dict(e.kws).get(name, e.args[n] if len(e.args) > n else None)

    shape = {}  # (address, width, byte order, signed) of every access

    # ------------------------------------------------------------ writing
    fi = fn["modify_symbol_value"]
    file, sym, val, over = (("param", n) for n in ("file_elf", "symbol", "value", "overwrite"))
    outs = ctx.run(fi, names=("call", "mcall"), opaque={found}, keep=keep)
    done = 0
    for o in returns(outs):
        ok_find = [v for a, v in o.facts.items() if a[0] == "true" and a[1][0] == "call" and a[1][1] == found and list(a[1][2]) == [file, sym]]
        acts = [e for e in o.events if e.kind == "mcall" and last(e.name) in {"write", "save", "asm", "pack", "p8", "p16", "p32", "p64"} or last(e.name) in WRITES | {"open", "unlink", "rename"}]
        if o.term == K(None):
            bad = [e for e in acts if last(e.name) != "write"]
            ctx.check(not bad, "F02-effect", "failing", f"changes files by {[e.name for e in bad]}")
            if ok_find == [False]:
                ctx.check(not acts, "F02-effect", "unknown symbol", f"causes {[e.name for e in acts]}")
            continue
        done += 1
        ctx.check(ok_find == [True], "F02-effect", "modify_symbol_value", "patches without knowing that the symbol exists")
        writes = [e for e in acts if last(e.name) == "write"]
        saves = [e for e in acts if last(e.name) == "save"]
        ok = len(writes) == len(saves) == 1 and len(acts) == 2 and image(writes[0].recv, file) and saves[0].recv == writes[0].recv
        if not ctx.check(ok, "F02-effect", "modify_symbol_value", f"has the effects {[e.name for e in acts]}"):
            continue
        elf, w = writes[0].recv, writes[0]
        addr = ("item", ("attr", elf, "symbols"), sym)
        ctx.check(arg(w, 0, "address") == addr, "F02-write", "address", f"is {T.show(arg(w, 0, 'address') or K(None))[:90]}")
        d = arg(w, 1, "data")
        ok = d is not None and d[0] == "mcall" and d[1] == val and d[2] == "to_bytes"
        if ctx.check(ok, "F02-write", "value", f"is {T.show(d or K(None))[:90]}"):
            a = {**dict(zip(("length", "byteorder"), d[3])), **dict(d[4])}
            shape["write"] = (a.get("length", K(1)), a.get("byteorder", K("big")) == ("attr", elf, "endian"), a.get("signed", K(False)))
        order = [last(e.name) for e in o.events if last(e.name) in {"write", "save", "close"}]
        ctx.check(order.index("write") < order.index("save") and "close" not in order[: order.index("save")], "F02-effect", "order", f"is {order}")
        to = path_of(arg(saves[0], 0, "path") or K(None))
        over_ = F.decide(o.facts, ("true", over))
        ctx.check(to == path_of(o.term), "F02-effect", "returned file", f"is {T.show(o.term)[:80]}, but {T.show(to)[:80]} was written")
        if to == file:
            ctx.check(over_ is True, "F02-effect", "original file", "is overwritten without being asked")
        else:
            stem, suffix = ("attr", file, "stem"), ("attr", file, "suffix")
            named = [x for x in T.subterms(to) if x[:1] == ("mcall",) and x[2] in {"with_name", "with_stem"} and x[1] == file]
            ok = bool(named) and T.contains(named[0][3][0], lambda x: x == stem) and T.contains(named[0][3][0], lambda x: x == val) and (named[0][2] == "with_stem" or T.contains(named[0][3][0], lambda x: x == suffix))
            ctx.check(over_ is False and ok, "F02-effect", "new file", f"is {T.show(to)[:90]}{' although overwriting was asked for' if over_ else ''}")
    ctx.check(done >= 2, "F02-instance", "modify_symbol_value", f"{done} patching paths")
    for o in raises(outs):
        bad = [e for e in o.events if last(e.name) in {"save", *WRITES} - {"write"}]
        ctx.check(not bad, "F02-effect", "failing", f"changes files by {[e.name for e in bad]}")
    # accepted values fit
    width = shape.get("write", (K(None),))[0]
    lo, hi = value_range(ctx, fi, "value")
    if T.is_k(width) and isinstance(T.kval(width), (int,)) or T.is_k(width) and width[1] == "num":
        top = 256 ** int(T.kval(width)) - 1
        ctx.check(lo == 0 and hi == top and shape["write"][2] == K(False), "F02-range", "modify_symbol_value", f"accepts {lo} to {hi}, but {int(T.kval(width))} byte hold 0 to {top}")
    else:
        ctx.check(False, "F02-range", "modify_symbol_value", f"has no constant width: {T.show(width)}")
    a = fi.node.args
    flag = next((d for x, d in zip(a.kwonlyargs, a.kw_defaults) if x.arg == "overwrite"), None) or next((d for x, d in zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1]) if x.arg == "overwrite"), None)
    ctx.check(isinstance(flag, ast.Constant) and not flag.value, "F02-effect", "default", "is to overwrite the original file")
    ids = field_range(ctx.prog, ctx.cls("FirmwareModTask"), "custom_id")
    ok = ids is not None and None not in (ids[0], ids[2], lo, hi) and ids[0] >= lo and (ids[2] - 1 if ids[3] else ids[2]) <= hi
    ctx.check(ok, "F02-range", "custom ID of the task", f"of {ids} does not fit what can be patched: {lo} to {hi}")
    ctx.check(shape.get("write", (0, False))[1], "F02-write", "byte order", "is not the one of the ELF")
    # ------------------------------------------------------------ reading
    fi = fn["read_symbol"]
    length = ("param", "length")
    outs = ctx.run(fi, names=("call", "mcall"), opaque={found}, keep=keep)
    for o in returns(outs):
        bad = [e for e in o.events if last(e.name) in {"write", "save", *WRITES}]
        ctx.check(not bad, "F02-effect", "read_symbol", f"changes files by {[e.name for e in bad]}")
        ok_find = [v for a, v in o.facts.items() if a[0] == "true" and a[1][0] == "call" and a[1][1] == found and list(a[1][2]) == [file, sym]]
        if ok_find != [True]:
            ctx.check(o.term == K(None), "F02-read", "unknown symbol", f"is {T.show(o.term)[:80]}")
            continue
        t = o.term
        ok = t[0] == "call" and t[1] == "int.from_bytes"
        if not ctx.check(ok, "F02-read", "read_symbol", f"is {T.show(t)[:90]}"):
            continue
        a = {**dict(zip(("bytes", "byteorder"), t[2])), **dict(t[3])}
        raw = a.get("bytes")
        cut = None
        if raw is not None and raw[0] == "item" and raw[2][:1] == ("slice",) and raw[2][1] == T.neg(length) and raw[2][2] in (K(None), ()) :
            cut, raw = length, raw[1]
        ok = raw is not None and raw[0] == "mcall" and raw[2] == "read" and image(raw[1], file)
        if ctx.check(ok, "F02-read", "source", f"is {T.show(raw or K(None))[:90]}"):
            r = {**dict(zip(("address", "count"), raw[3])), **dict(raw[4])}
            ctx.check(r.get("address") == ("item", ("attr", raw[1], "symbols"), sym) and r.get("count") == length, "F02-read", "address", f"is {T.show(r.get('address', K(None)))[:80]} with {T.show(r.get('count', K(None)))}")
            ctx.check(a.get("byteorder", K("big")) == ("attr", raw[1], "endian") and a.get("signed", K(False)) == K(False), "F02-read", "byte order", f"is {T.show(a.get('byteorder', K('big')))[:80]}")
            ctx.check(cut == length, "F02-read", "width", "is not limited to the requested one, although more may be delivered")
    ctx.check(any(o.term != K(None) for o in returns(outs)), "F02-instance", "read_symbol", "never succeeds")
    # ------------------------------------------------------------ searching
    outs = ctx.run(fn["find_symbol"], names=("call", "mcall"), keep=keep)
    elfs = [o for o in returns(outs) if o.term == K(True)]
    ctx.check(bool(elfs), "F02-instance", "find_symbol", "never succeeds")
    ctx.check(all(o.term in (K(True), K(False)) for o in returns(outs)), "F02-find", "result", "is not a truth value")
    for o in elfs:
        keyed = [a for a, v in o.facts.items() if a[0] == "isnone" and v is False and a[1][0] == "item" and a[1][2] == sym and a[1][1][0] == "attr" and a[1][1][2] == "symbols" and image(a[1][1][1], file)]
        keyed += [a for a, v in o.facts.items() if a[0] == "in" and v is True and a[1] == sym]
        ctx.check(bool(keyed), "F02-find", "find_symbol", "reports a symbol it did not see")
    # ------------------------------------------------------------ the ID of the target
    got = {}
    for name, to in (("read_uid", "read_symbol"), ("modify_uid", "modify_symbol_value")):
        q = fn[to].qualname
        for o in returns(ctx.run(fn[name], names=(q,), opaque={q})):
            es = [e for e in o.events if e.name == q]
            ok = len(es) == 1 and o.term == es[0].res
            if ctx.check(ok, "F02-uid", name, "is not the access to the symbol"):
                b = bound_args(ctx.prog, es[0])
                got[name] = (b.get("symbol"), b.get("length"))
                ctx.check(b.get("file_elf") == file and (name == "read_uid" or b.get("value") == val), "F02-uid", f"{name} arguments", f"are {[T.show(x)[:40] for x in b.values()]}")
    if len(got) == 2:
        ctx.check(got["read_uid"][0] == got["modify_uid"][0] and (got["read_uid"][1] or default(ctx, fn["read_symbol"], "length")) == width, "F02-uid", "symbol and width", f"differ: {got}")


def default(ctx, fi, name):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    both = list(zip(pos[len(pos) - len(a.defaults) :], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
    d = next((d for x, d in both if x.arg == name), None)
    v = const_num(ctx.prog, fi.module, d) if d is not None else None
    return K(v) if v is not None else None


def value_range(ctx, fi, name):
    """declared inclusive range of a (validated) integer parameter"""
    a = fi.node.args
    ann = next((x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg == name), None)
    if not any(dotted(d.func if isinstance(d, ast.Call) else d).split(".")[-1] == "validate_call" for d in fi.node.decorator_list):
        return None, None
    fs = FieldSchema(name)
    _walk(ctx.prog, fi.module, ann, fs)
    lo, lopen, hi, hopen = fs.range()
    return (lo if lo is None or not lopen else lo + 1), (hi if hi is None or not hopen else hi - 1)


# ---------------------------------------------------------------- F03 detection
@rule("F03", floor=25, technique="path-sensitive abstract interpretation with named exceptions of the parsers; interval entailment")
def detection(ctx):
    """What a file is taken for is what its content shows, and garbage is no error."""
    mod = next((m for m in ctx.prog.modules.values() if m.defs.get("is_hex_msp430", ("",))[0] == "func" and m.defs["is_hex_msp430"][1].module is m), None)
    if mod is None:
        raise AnalysisError("anchor vanished: is_hex_msp430")
    fn = {n: mod.defs[n][1] for n in ("is_hex", "is_elf", "is_hex_msp430", "is_hex_nrf52", "is_elf_msp430", "is_elf_nrf52", "determine_type", "determine_arch")}
    qn = {n: f.qualname for n, f in fn.items()}
    keep = lambda a: True  # noqa: E731
    file = ("param", "file")
    # ------------------------------------------------------------ the parsers decide, failing is no exception
    for name, lib, errors in (("is_hex", "IntelHex", ["HexReaderError", "IntelHexError", "ValueError", "UnicodeDecodeError"]), ("is_elf", "ELF", ["ELFError", "ELFParseError"])):
        it = ctx.interp(names=("call",), keep=keep)
        it.throws = {lib: errors}
        outs = ctx.run(fn[name], it=it)
        for o in raises(outs):
            ctx.check(o.exc.name in {"RuntimeError", "?"}, "F03-garbage", name, f"ends in {o.exc.name} for other content")
        yes = [o for o in returns(outs) if o.term == K(True)]
        no = [o for o in returns(outs) if o.term == K(False)]
        ctx.check(bool(yes) and bool(no) and len(yes) + len(no) == len(returns(outs)), "F03-garbage", f"{name} result", "is not both, yes and no")
        for o in yes:
            parsed = [e for e in o.events if last(e.name) == lib and path_of((list(e.args) + [v for _, v in e.kws])[0]) == file]
            ctx.check(len(parsed) == 1, "F03-parse", name, "accepts a file which was not parsed")
        clean = ctx.run(fn[name], it=plain(ctx, lib))
        ok = all(o.term == K(True) for o in returns(clean) if any(last(e.name) == lib for e in o.events)) and any(o.term == K(True) for o in returns(clean))
        ctx.check(ok, "F03-parse", f"{name} accepting", "refuses a file which can be parsed")
    # ------------------------------------------------------------ HEX of both controllers
    hx = lambda t: t[0] == "call" and last(t[1]) == "IntelHex" and path_of(t[2][0]) == file  # noqa: E731
    outs = returns(ctx.run(fn["is_hex_msp430"], names=("call", "mcall"), opaque={qn["is_hex"]}, keep=keep))
    yes = 0
    for o in outs:
        j = Judge()
        for fs, res in truth(o):
            if res is not True or not j.possible(fs):
                continue
            yes += 1
            isx = [v for a, v in fs.items() if a[0] == "true" and a[1][0] == "call" and a[1][1] == qn["is_hex"]]
            ctx.check(isx == [True], "F03-msp430", "HEX", "is accepted without being HEX at all")
            images = {x for a in fs for x in T.subterms(a) if x[:1] == ("call",) and hx(x)}
            if not ctx.check(len(images) == 1, "F03-msp430", "image", f"{len(images)} images examined"):
                continue
            ih = images.pop()
            rel = j.rel(fs)
            lo = ("mcall", ih, "minaddr", (), ())
            ctx.check(rel.ge(T.sub(lo, K(0x4000))) and rel.ge(T.sub(K(0x4000), lo)), "F03-msp430", "start of memory", "is not verified")
            vec = {x for a in fs for x in T.subterms(a) if x[:2] == ("call", "int.from_bytes") and T.contains(x, lambda y: y == ih)}
            ok = False
            for v in vec:
                b = {**dict(zip(("bytes", "byteorder"), v[2])), **dict(v[3])}
                raw = b.get("bytes")
                ok = raw in (("mcall", ih, "gets", (K(0xFFFE), K(2)), ()), ("mcall", ih, "tobinstr", (), tuple(sorted((("start", K(0xFFFE)), ("size", K(2))))))) and b.get("byteorder") == K("little") and b.get("signed", K(False)) == K(False)
                ctx.check(ok, "F03-msp430", "reset vector", f"is {T.show(v)[:100]}")
                ctx.check(rel.ge(T.sub(v, K(0x4000))) and rel.gt(T.sub(K(0xFF80), v)), "F03-msp430", "reset vector range", "may lie outside of the program")
            ctx.check(ok, "F03-msp430", "reset vector", "is not verified")
            there = [v for a, v in fs.items() if a[0] == "in" and a[1] == K(0xFFFE) and a[2] == ("mcall", ih, "addresses", (), ())]
            ctx.check(there == [True], "F03-msp430", "reset vector", "is read although it may be missing")
            size = ("mcall", ih, "get_memory_size", (), ())
            lim = [F.bounds(fs).of(size)[2]]
            ctx.check(lim[0] is not None and 256 * 1024 <= lim[0] <= 512 * 1024, "F03-msp430", "size", f"is limited to {lim[0]}")
    ctx.check(yes >= 1, "F03-instance", "is_hex_msp430", "never accepts")
    yes = 0
    for o in returns(ctx.run(fn["is_hex_nrf52"], names=("call", "mcall"), opaque={qn["is_hex"]}, keep=keep)):
        for fs, res in truth(o):
            if res is not True:
                continue
            yes += 1
            isx = [v for a, v in fs.items() if a[0] == "true" and a[1][0] == "call" and a[1][1] == qn["is_hex"]]
            ctx.check(isx == [True], "F03-nrf52", "HEX", "is accepted without being HEX at all")
            sizes = [x for a in fs for x in T.subterms(a) if x[:1] == ("mcall",) and x[2] == "get_memory_size" and hx(x[1])]
            ctx.check(bool(sizes) and F.decide(fs, F.pos(sizes[0])) is True, "F03-nrf52", "content", "of accepted firmware may be empty")
    ctx.check(yes >= 1, "F03-instance", "is_hex_nrf52", "never accepts")
    # ------------------------------------------------------------ ELF by conversion in a place of its own
    conv = [f for m in ctx.prog.modules.values() for f in m.functions if f.name == "elf_to_hex"]
    conv = conv[0] if conv else next(m.defs["elf_to_hex"][1] for m in ctx.prog.modules.values() if m.defs.get("elf_to_hex", ("",))[0] == "func")
    for name in ("msp430", "nrf52"):
        sub = qn[f"is_hex_{name}"]
        outs = returns(ctx.run(fn[f"is_elf_{name}"], names=("call", "mcall", "with"), opaque={qn["is_elf"], conv.qualname, sub}, keep=keep))
        yes = 0
        for o in outs:
            for fs, res in truth(o):
                if res is not True:
                    continue
                yes += 1
                ise = [v for a, v in fs.items() if a[0] == "true" and a[1][0] == "call" and a[1][1] == qn["is_elf"] and path_of(a[1][2][0]) == file]
                ctx.check(ise == [True], f"F03-{name}", "ELF", "is accepted without being ELF at all")
                cs = [e for e in o.events if e.name == conv.qualname]
                ok = len(cs) == 1
                if ok:
                    b = bound_args(ctx.prog, cs[0])
                    src, dst = path_of(b.get("file_elf", K(None))), b.get("file_hex", K(None))
                    tmp = T.contains(dst, lambda x: x[:1] == ("call",) and last(x[1]) in {"TemporaryDirectory", "mkdtemp"})
                    ctx.check(src == file and tmp, f"F03-{name}", "conversion", f"of {T.show(src)[:60]} leaves {T.show(dst)[:80]}")
                    held = [v for a, v in fs.items() if a[0] == "true" and a[1][0] == "call" and a[1][1] == sub and a[1][2] in {(cs[0].res,), (dst,)}]
                    ok = held == [True]
                ctx.check(ok, f"F03-{name}", "ELF", "is accepted although its content does not suit the controller")
        ctx.check(yes >= 1, "F03-instance", f"is_elf_{name}", "never accepts")
    # ------------------------------------------------------------ summaries
    vals = enum_values(ctx, ctx.cls("FirmwareDType"))
    for name, tests in (("determine_type", {"is_hex": K(vals["path_hex"]), "is_elf": K(vals["path_elf"])}),):
        outs = ctx.run(fn[name], names=("call",), opaque={qn[x] for x in tests}, keep=keep)
        for o in returns(outs):
            held = [n for n in tests if [v for a, v in o.facts.items() if a[0] == "true" and a[1][:2] == ("call", qn[n]) and path_of(a[1][2][0]) == file] == [True]]
            ctx.check(len(held) == 1 and F._plain(o.term) == tests[held[0]], "F03-summary", f"{name} {held}", f"is {T.show(o.term)[:60]}")
        ctx.check(len(returns(outs)) == 2 and any(o.exc.name == "ValueError" for o in raises(outs)), "F03-summary", name, "does not tell three cases apart")
    leaf = {"is_hex_msp430": "msp430", "is_elf_msp430": "msp430", "is_hex_nrf52": "nrf52", "is_elf_nrf52": "nrf52"}
    outs = ctx.run(fn["determine_arch"], names=("call",), opaque={*(qn[x] for x in leaf), qn["determine_type"]}, keep=keep)
    n = 0
    for o in returns(outs):
        n += 1
        t = ("call", qn["determine_type"], (file,), ())
        kind = {x: F.decide(o.facts, ("eq", t, K(vals[f"path_{x}"]))) for x in ("elf", "hex")}
        held = {x: v for x in leaf for a, v in o.facts.items() if a[0] == "true" and a[1][:2] == ("call", qn[x]) and path_of(a[1][2][0]) == file}
        yes = [x for x, v in held.items() if v]
        ok = len(yes) == 1 and o.term == K(leaf[yes[0]]) and kind["elf" if "elf" in yes[0] else "hex"] is True
        ctx.check(ok, "F03-summary", f"determine_arch {yes}", f"is {T.show(o.term)[:60]}")
        # everything in HEX-format may pass for nRF, so the stricter test has to be first
        if ok and leaf[yes[0]] == "nrf52":
            ctx.check(held.get(yes[0].replace("nrf52", "msp430")) is False, "F03-summary", "determine_arch order", "takes firmware for the msp430 for one of the nRF52")
    ctx.check(n == 4, "F03-instance", "determine_arch", f"{n} ways to an architecture")


def plain(ctx, lib):
    it = ctx.interp(names=("call",), keep=lambda a: True)
    it.throws = {lib: []}
    return it


def truth(o):
    """(facts, result) of a boolean function, with the atom it returns resolved"""
    t = o.term
    if t[0] in {"atom", "natom"}:
        pos = t[0] == "atom"
        known = F.decide(o.facts, t[1])
        if known is not None:
            yield o.facts, known is pos
        else:
            yield {**o.facts, t[1]: pos}, True
            yield {**o.facts, t[1]: not pos}, False
    elif t in (K(True), K(False)):
        yield o.facts, T.kval(t)
    else:
        known = F.decide(o.facts, ("true", t))
        if known is not None:
            yield o.facts, known
        else:
            yield {**o.facts, ("true", t): True}, True
            yield {**o.facts, ("true", t): False}, False
