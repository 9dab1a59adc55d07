"""W01 / R05: what may open a file for writing, and under which proof."""

from .. import terms as T
from ..facts import _plain
from . import rule

OPENERS = {"open", "h5py.File", "io.open", "gzip.open", "codecs.open", "os.open"}
DESTROY_M = {"write_text", "write_bytes", "unlink", "rename", "replace", "touch", "rmdir", "savefig", "to_csv", "to_hdf", "to_pickle", "save", "tofile"}
DESTROY_C = {
    "matplotlib.pyplot.savefig", "os.remove", "os.unlink", "os.rename", "os.replace", "shutil.move", "shutil.copy", "shutil.copyfile",
    "shutil.copy2", "shutil.rmtree", "numpy.save", "numpy.savetxt", "numpy.savez", "os.truncate",
}
WRITER = "shepherd_core.writer.Writer"


def norm(t):
    """A path term without the steps that do not change which file is named."""
    t = _plain(t)
    while t[0] == "mcall" and t[2] in {"absolute", "expanduser", "resolve"}:
        t = t[1]
    if t[0] == "call" and t[1] in {"pathlib.Path", "str", "os.fspath"} and len(t[2]) == 1:
        return norm(t[2][0])
    if t[0] == "attr" and t[2] == "parent":
        return ("attr", norm(t[1]), "parent")
    if t[0] == "mcall":
        return ("mcall", norm(t[1]), *t[2:])
    if t[0] == "pathjoin":
        return ("pathjoin", norm(t[1]), *t[2:])
    return t


def is_pathlike(recv, it):
    from ..expr import PATH_TY

    r = recv
    if r[0] == "pathjoin" or it.tyhint.get(r) == PATH_TY:
        return True
    if r[0] == "mcall" and r[2] in {"with_suffix", "absolute", "resolve", "with_name", "with_stem", "joinpath"}:
        return True
    if r[0] == "attr" and (r[2] in {"parent", "file_path"}):
        return True
    return "path" in T.show(r).lower()


def sinks(o, it):
    """(event, effect, path) of every file-writing event of a path; effect destroy|modify."""
    for e in o.events:
        n = e.name
        if e.kind == "construct" and n == WRITER:
            fo, mo = e.arg(99, "force_overwrite"), e.arg(99, "modify_existing")
            if mo is not None and mo != T.k(False):
                yield e, "modify", e.arg(0, "file_path")
            elif fo is not None and fo != T.k(False):
                yield e, "destroy", e.arg(0, "file_path")
            else:
                yield e, "safe-writer", e.arg(0, "file_path")
        elif e.kind == "call" and n in OPENERS:
            mode = e.arg(1, "mode", T.k("r"))
            yield from _by_mode(e, mode, e.arg(0, "name") or e.arg(0, "file"))
        elif e.kind == "mcall" and n == "open" and e.recv is not None:
            yield from _by_mode(e, e.arg(0, "mode", T.k("r")), e.recv)
        elif e.kind == "mcall" and n in DESTROY_M and e.recv is not None:
            if n in {"savefig", "to_csv", "to_hdf", "to_pickle", "save", "tofile"}:
                yield e, "destroy", e.arg(0, "path")
            elif n in {"replace", "rename"} and not is_pathlike(e.recv, it):
                continue
            else:
                yield e, "destroy", e.recv
        elif e.kind == "call" and n in DESTROY_C:
            yield e, "destroy", e.arg(1) if n.startswith("shutil.") and n != "shutil.rmtree" else e.arg(0, "fname")


def _by_mode(e, mode, path):
    if mode[0] != "k" or mode[1] != "str":
        yield e, "destroy", path
    elif "w" in mode[2] and mode[2] != "w-":
        yield e, "destroy", path
    elif "a" in mode[2] or "+" in mode[2]:
        yield e, "modify", path


def proven_absent(facts, path):
    p = norm(path)
    for a, v in facts.items():
        if not v and a[0] == "true" and a[1][0] == "mcall" and a[1][2] in {"exists"} and norm(a[1][1]) == p:
            return True
        if not v and a[0] == "true" and a[1][0] == "call" and a[1][1] in {"os.path.exists"} and norm(a[1][2][0]) == p:
            return True
    return False


def asked(facts, name):
    return facts.get(("true", ("param", name))) is True


SINK_NAMES = OPENERS | DESTROY_M | DESTROY_C | {WRITER}
_KEEP = ("force_overwrite", "modify_existing", "exists", "overwrite")


def keep(a):
    return a[0] == "true" and any(x in repr(a) for x in _KEEP)


@rule("W01", floor=3, technique="path-sensitive abstract interpretation of the writer's constructor")
def writer_open(ctx):
    """Every path of the recording-writer's constructor to a file-opening call: a truncating open needs the
    overwrite request or a proof (branch fact) that the opened path does not exist; a modifying open needs the
    modify request; a modify request never truncates."""
    outs = ctx.run("shepherd_core.writer.Writer.__init__", names=SINK_NAMES, keep=keep)
    _judge_writer(ctx, outs, "constructor")
    opened = {e.loc for o in outs for e, eff, _ in sinks(o, ctx.last)}
    ctx.check(bool(opened), "W01-instance", "constructor opens a file", "no file-opening call found", "")
    # every successful construction used exactly one write handle
    for m in ["_align", "append_iv_data_raw", "append_iv_data_si", "store_config", "store_hostname", "__setitem__", "__exit__"]:
        o2 = ctx.run(f"shepherd_core.writer.Writer.{m}", names=SINK_NAMES, keep=keep)
        for o in o2:
            for e, eff, p in sinks(o, ctx.last):
                ctx.fail("W01-no-other-file", f"{m}/{e.name}", f"touches a file ({eff}) {T.show(p)}", e.loc)
        ctx.check(True, "W01-no-other-file", m)
    fn = ctx.run("shepherd_core.writer.unique_path", keep=keep)
    for o in fn:
        if o.kind == "return":
            ctx.check(proven_absent(o.facts, o.term), "W01-unique", "unique name is unused", f"returns {T.show(o.term)} without proof that it is unused", "")


def _judge_writer(ctx, outs, who):
    for o in outs:
        for e, eff, p in sinks(o, ctx.last):
            if eff == "destroy":
                ok = not asked(e.facts, "modify_existing") and (asked(e.facts, "force_overwrite") or proven_absent(e.facts, p))
                why = f"{e.name} truncates {T.show(p)} although it may exist and no overwrite was requested (or modification was)"
            elif eff == "modify":
                ok = asked(e.facts, "modify_existing")
                why = f"{e.name} modifies {T.show(p)} without a modify request"
            else:
                continue
            ctx.check(ok, f"W01-{eff}", f"{who}/{e.name}", why, e.loc)


EXPORTS = [
    ("shepherd_data.reader.Reader.save_csv", {}),
    ("shepherd_data.reader.Reader.save_log", {}),
    ("shepherd_data.reader.Reader.plot_to_file", {"opaque": {"shepherd_data.reader.Reader.generate_plot_data", "shepherd_data.reader.Reader.assemble_plot"}}),
    ("shepherd_data.reader.Reader.multiplot_to_file", {"opaque": {"shepherd_data.reader.Reader.assemble_plot"}}),
    ("shepherd_data.reader.Reader.cut_and_downsample_to_file", {"opaque": {"shepherd_data.reader.Reader.downsample", "shepherd_core.reader.Reader.get_calibration_data"}}),
    ("shepherd_core.reader.Reader.save_metadata", {"opaque": {"shepherd_core.reader.Reader.get_metadata"}}),
    ("shepherd_core.reader.Reader.waveform_to_csv", {}),
    ("shepherd_core.reader.Reader.gpio_to_uart", {"opaque": {"shepherd_core.reader.Reader.gpio_to_waveforms"}}),
    ("shepherd_data.ivonne.Reader.convert_2_ivcurves", {}),
    ("shepherd_data.ivonne.Reader.convert_2_ivsamples", {}),
    ("shepherd_data.ivonne.Reader.upsample_2_isc_voc", {}),
    ("shepherd_data.cli.extract_uart", {"opaque": {"shepherd_core.reader.Reader.gpio_to_uart", "shepherd_data.cli.path_to_flist", "shepherd_data.reader.Reader.__init__"}}),
]
NEED_SINK = {"save_csv", "save_log", "plot_to_file", "multiplot_to_file", "cut_and_downsample_to_file", "save_metadata", "waveform_to_csv", "extract_uart"}
WRITER_OPAQUE = {"shepherd_core.writer.Writer.__init__", "shepherd_core.writer.Writer.__exit__", "shepherd_core.writer.Writer.append_iv_data_si", "shepherd_core.writer.Writer.append_iv_data_raw"}


@rule("R05", floor=10, technique="path-sensitive abstract interpretation, file-sink guard analysis")
def exports(ctx):
    """On every path of each export operation, each call that creates, truncates, renames or removes a file must be
    dominated by a branch fact that this very path does not exist (or hand the path to the recording-writer without
    overwrite/modify, which W01 covers)."""
    for q, kw in EXPORTS:
        kw = dict(kw)
        op = set(kw.pop("opaque", ())) | WRITER_OPAQUE
        outs = ctx.run(q, names=SINK_NAMES, keep=lambda a: a[0] == "true" and "exists" in repr(a), opaque=op, **kw)
        nm = q.rsplit(".", 1)[1]
        n = 0
        for o in outs:
            for e, eff, p in sinks(o, ctx.last):
                n += 1
                if eff == "safe-writer":
                    ctx.check(True, "R05-writer", f"{nm}/Writer", "", e.loc)
                    continue
                ok = proven_absent(e.facts, p)
                ctx.check(ok, "R05-guard", f"{nm}/{e.name.rsplit('.', 1)[-1]}", f"{e.name} may {eff} existing {T.show(p)}", e.loc)
        if n == 0 and nm in NEED_SINK:
            ctx.fail("R05-sink", nm, "export no longer writes any file", "")
