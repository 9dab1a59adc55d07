"""S01 content of files is data, never code."""

import ast
import builtins

from .. import terms as T
from ..prog import AnalysisError
from ..series import full
from . import rule

K = T.k
NEVER = {
    "eval": "evaluates text", "exec": "runs text", "compile": "compiles text", "__import__": "imports by name",
    "os.system": "command shell", "os.popen": "command shell", "subprocess.getoutput": "command shell", "subprocess.getstatusoutput": "command shell",
    "commands.getoutput": "command shell", "pty.spawn": "starts a program", "shelve.open": "restores any object", "marshal.load": "restores code",
    "marshal.loads": "restores code", "pandas.read_pickle": "restores any object", "joblib.load": "restores any object", "pickle.Unpickler": "restores any object",
    "yaml.unsafe_load": "restores any object", "yaml.unsafe_load_all": "restores any object", "yaml.full_load": "restores many objects", "yaml.full_load_all": "restores many objects",
    "yaml.UnsafeLoader": "restores any object", "yaml.FullLoader": "restores many objects", "yaml.Loader": "restores any object", "yaml.CLoader": "restores any object",
    "yaml.CUnsafeLoader": "restores any object", "yaml.CFullLoader": "restores many objects", "yaml.YAMLObject": "restores own objects", "yaml.add_constructor": "runs functions named by content",
    "yaml.add_multi_constructor": "runs functions named by content", "pydantic.ImportString": "imports what content names", "pydantic.types.ImportString": "imports what content names",
    "asyncio.create_subprocess_shell": "command shell",
}
NEVER_IN = {"dill", "cloudpickle", "runpy", "code", "codeop", "jsonpickle", "_pickle", "cPickle"}
SAFE = {"yaml.SafeLoader", "yaml.CSafeLoader", "yaml.BaseLoader", "yaml.CBaseLoader", "yaml.loader.SafeLoader", "yaml.loader.BaseLoader", "yaml.cyaml.CSafeLoader"}
RESTORE = {"pickle.load", "pickle.loads"}
# modules which restore objects, and from where
OWN_FORMAT = {"shepherd_core.testbed_client.fixtures": "cache", "shepherd_data.ivonne": "table"}


def names_of(mod, fn_imports, node):
    """dotted name a node refers to, outside of the repository"""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    base = fn_imports.get(node.id)
    if base is None:
        d = mod.defs.get(node.id)
        if d and d[0] == "import":
            base = d[1] if d[2] is None else f"{d[1]}.{d[2]}"
        elif d is None and hasattr(builtins, node.id):
            base = node.id
        else:
            return None
    return ".".join([base, *reversed(parts)])


def local_imports(fn):
    out = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def const_kw(call, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return None


@rule("S01", floor=300, technique="effect analysis: all references to names outside of the repository resolved through imports and aliases; arguments of program starts and restoring calls by abstract interpretation")
def content(ctx):
    """Every reference (not only call) to something that runs, imports or restores what content names is found over all
    modules; loaders of text must be those of plain data; programs are constant and get lists of arguments."""
    starts, restores, imports, refs = {}, {}, {}, 0
    for m in ctx.prog.modules.values():
        scopes = {}
        for fn in ast.walk(m.tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                li = local_imports(fn)
                for n in ast.walk(fn):
                    if isinstance(n, (ast.Name, ast.Attribute)):
                        scopes[id(n)] = {**scopes.get(id(n), {}), **li}
        calls = {id(n.func): n for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
        above = {id(c): n for n in ast.walk(m.tree) for c in ast.iter_child_nodes(n)}
        inner = {id(n.value) for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)}
        used = {id(n.value) for n in ast.walk(m.tree) if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Constant)}
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Name, ast.Attribute)) or isinstance(n.ctx, ast.Store) or id(n) in inner and isinstance(n, ast.Name):
                continue
            name = names_of(m, scopes.get(id(n), {}), n)
            if name is None:
                continue
            refs += 1
            loc = f"{m.rel}:{n.lineno}"
            call = calls.get(id(n))
            why = NEVER.get(name) or (name.split(".")[0] in NEVER_IN and "restores or runs content") or (name.startswith(("os.exec", "os.spawn")) and "starts a program") or ""
            ctx.check(not why, "S01-code", f"{name} is not used", why, loc)
            if name in {"yaml.load", "yaml.load_all"}:
                ld = None
                if call is not None:
                    ld = const_kw(call, "Loader") or (call.args[1] if len(call.args) > 1 else None)
                got = names_of(m, scopes.get(id(n), {}), ld) if ld is not None else None
                ctx.check(got in SAFE, "S01-text", "text is read as plain data", f"{name} with {got}", loc)
            elif name in {"yaml.safe_load", "yaml.safe_load_all"}:
                ctx.check(True, "S01-text", "text is read as plain data", "", loc)
            elif name in RESTORE:
                ctx.check(m.name in OWN_FORMAT, "S01-restore", "objects are only restored from own cache and documented tables", f"{name} in {m.name}", loc)
                restores.setdefault(m.name, []).append(loc)
            elif name in {"numpy.load", "np.load"} and call is not None:
                v = const_kw(call, "allow_pickle")
                ctx.check(v is None or isinstance(v, ast.Constant) and v.value is False, "S01-restore", "arrays hold no objects", "allow_pickle", loc)
            elif name.startswith("subprocess.") and name.split(".")[1] in {"run", "Popen", "call", "check_call", "check_output"}:
                starts.setdefault(m.name, []).append(loc)
                if ctx.check(call is not None, "S01-start", "programs are started directly", "not a call", loc):
                    sh = const_kw(call, "shell")
                    ctx.check(sh is None or isinstance(sh, ast.Constant) and sh.value is False, "S01-start", "no command shell", "shell is requested", loc)
                    ctx.check(not any(k.arg is None for k in call.keywords), "S01-start", "options are known", "** in call", loc)
            elif name in {"importlib.import_module"}:
                imports.setdefault(m.name, []).append(loc)
                ctx.check(call is not None, "S01-import", "called directly", "", loc)
            elif name in {"globals", "locals", "vars", "sys.modules"}:
                c = call if call is not None else n
                up = above.get(id(c))
                hit = isinstance(up, ast.Attribute) and up.attr not in {"update", "setdefault"} or id(c) in used or isinstance(up, (ast.Call, ast.Assign, ast.Return, ast.NamedExpr, ast.Starred, ast.keyword)) and c is not getattr(up, "func", None)
                ctx.check(not hit, "S01-names", "names of the program are not looked up by content", name, loc)
            elif name == "getattr" and call is not None and len(call.args) > 1 and not isinstance(call.args[1], ast.Constant):
                of = names_of(m, scopes.get(id(n), {}), call.args[0])
                d = m.defs.get(call.args[0].id) if isinstance(call.args[0], ast.Name) else None
                ctx.check(of is None and not (d and d[0] == "import"), "S01-names", "names of modules are not looked up by content", ast.unparse(call)[:60], loc)
    ctx.note(f"{refs} references to names outside of the repository")
    started(ctx, starts, imports)
    restored(ctx, restores)


def events_in(ctx, mod, names, **kw):
    """calls of these names, seen from every function of a module"""
    for fi in ctx.prog.functions_of(mod):
        if not any(isinstance(n, (ast.Attribute, ast.Name)) and (getattr(n, "attr", None) or getattr(n, "id", None)) in {x.split(".")[-1] for x in names} | helpers(mod, names) for n in ast.walk(fi.node)):
            continue
        try:
            outs = ctx.run(fi, it=ctx.interp(names=set(names), **kw))
        except AnalysisError as e:
            ctx.check(False, "S01-analysed", fi.qualname, str(e), fi.loc)
            continue
        for o in outs:
            for e in o.events:
                if e.name in names:
                    yield fi, e


def helpers(mod, names):
    """own functions which contain these names"""
    last = {x.split(".")[-1] for x in names}
    out = set()
    for _ in range(3):
        for fi in mod.prog.functions_of(mod):
            if any((getattr(n, "attr", None) or getattr(n, "id", None)) in last | out for n in ast.walk(fi.node) if isinstance(n, (ast.Attribute, ast.Name))):
                out.add(fi.node.name)
    return out


def started(ctx, starts, imports):
    names = {f"subprocess.{x}" for x in ("run", "Popen", "call", "check_call", "check_output")}
    for name in starts:
        n = 0
        for fi, e in events_in(ctx, ctx.prog.module(name), names):
            n += 1
            cmd = full(e.args[0]) if e.args else full(dict(e.kws).get("args", K(None)))
            if cmd[:1] == ("param",) and fi.node.name.startswith("_"):
                continue  # judged where it is used
            head = cmd[1][0] if cmd[:1] in {("list",), ("tuple",)} and cmd[1] else None
            ctx.check(head is not None and T.is_k(head) and head[1] == "str", "S01-start", "program is fixed, arguments are separate", T.show(cmd)[:100], e.loc)
            if head is not None:
                flags = [x for x in cmd[1][1:] if x[:1] == ("fstr",)]
                ctx.check(head[2:3] not in {("sh",), ("bash",), ("/bin/sh",), ("/bin/bash",), ("env",)}, "S01-start", "no command shell", str(head[2:3]), e.loc)
                ctx.check(all(T.is_k(x[1][0]) for x in flags), "S01-start", "arguments are fixed options or files", "; ".join(T.show(x)[:60] for x in flags), e.loc)
        ctx.check(n > 0, "S01-instance", f"programs started by {name}", "never seen")
    for name in imports:
        n = 0
        for fi, e in events_in(ctx, ctx.prog.module(name), {"importlib.import_module"}):
            n += 1
            t = full(e.args[0]) if e.args else K(None)
            if t[:1] == ("param",) and fi.node.name.startswith("_"):
                continue
            ok = T.is_k(t) or t[:1] == ("elem",) and t[1][:1] in {("list",), ("tuple",)} and all(T.is_k(x) for x in t[1][1])
            ctx.check(ok, "S01-import", "imported modules are fixed", T.show(t)[:80], e.loc)
        ctx.check(n > 0, "S01-instance", f"modules imported by {name}", "never seen")


def restored(ctx, restores):
    for name in restores:
        kind, n = OWN_FORMAT.get(name), 0
        for fi, e in events_in(ctx, ctx.prog.module(name), RESTORE, opaque_prefix=("shepherd_core.writer.", "shepherd_core.reader.")):
            t = full(e.args[0]) if e.args else K(None)
            params = {x for x in T.subterms(t) if x[:1] == ("param",)}
            if kind == "cache" and params and fi.node.name.startswith("_") and fi.node.name != "__init__":
                continue
            n += 1
            if kind == "cache":
                ctx.check(not params, "S01-restore", "the cache is the own one", T.show(t)[:100], e.loc)
                ctx.check(T.contains(t, lambda x: T.is_k(x) and x[1] == "str" and str(x[2]).endswith(".pickle") or x[:1] == ("call",) and "cache" in str(x[1])), "S01-restore", "the cache is a file of the own folder", T.show(t)[:100], e.loc)
        ctx.check(n > 0, "S01-instance", f"objects restored by {name}", "never seen")


