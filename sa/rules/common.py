"""Helpers shared by the rules."""
from core import *  # noqa
import cliinfo

LOADER_OPTS = ["vspec", "include_dirs", "aborts", "strict", "extended_attributes", "uuid", "quantities", "units", "types", "overlays", "expand"]


def seq_items(v):
    """The items of a sequence of known length in known order, or None."""
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, ListV) and v.kind == "list" and not v.unord and not v.opaque and all(s[0] == "1" for s in v.segs):
        return [s[1] for s in v.segs]
    return None


def same_seq(v, want):
    """v is exactly the sequence `want`: True / False / None"""
    if isinstance(v, Tup) and isinstance(want, Tup) and v == want:
        return True
    it = seq_items(v)
    if it is not None:
        if len(it) != len(want.items):
            return False
        if it == list(want.items):
            return True
        return False if all(isinstance(x, (Sym, C)) for x in it) or set(it) == set(want.items) else None
    if isinstance(v, ListV):
        if v.unord or v.kind == "set":
            return False
        for s in v.segs:
            if s[0] == "*" and isinstance(s[2], Op) and s[2].name in ("sorted", "reversed"):
                return False
        return None
    if isinstance(v, (C, Sym)):
        return False
    if isinstance(v, Op) and v.name in ("item", "slice"):
        return False
    if isinstance(v, Alt):
        rs = [same_seq(x, want) for x in v.vals]
        return False if False in rs else None
    return None


def same_val(v, want):
    if v == want:
        return True
    if isinstance(want, Tup):
        return same_seq(v, want)
    if isinstance(v, (C, Sym, Tup, ListV, EnumM)):
        return False
    if isinstance(v, Op) and v.name == "not":
        return False
    if want not in atoms(v):
        return False
    return None


def commands(world):
    tab, _ = cliinfo.subcommands(world)
    out = []
    for name in sorted(tab):
        fn = cliinfo.command(world, name)
        if isinstance(fn, Fn):
            out.append(name)
    return out


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "…"


def units_of(r, it):
    for f in it.analysed:
        r.unit(f if isinstance(f, str) else str(f))


WRITE_FS = {"mkdir", "unlink", "touch", "rmdir", "rename", "write_text", "write_bytes", "makedirs", "remove", "rmtree", "copy", "copyfile", "copytree", "move", "replace"}


def open_mode(e):
    m = e.kw.get("mode") if e.kw else None
    if m is None and len(e.args) > 1:
        m = e.args[1]
    return m.v if isinstance(m, C) else None if isinstance(m, V) else "r"


def file_effect(e):
    """True when the event creates, truncates or writes a file"""
    if e.kind == "open":
        m = open_mode(e)
        return m is not None and any(c in str(m) for c in "wax+")
    if e.kind == "fs":
        return e.name in WRITE_FS
    if e.kind == "mcall":
        return e.name in ("mkdir", "unlink", "touch", "rmdir", "write_text", "write_bytes")
    return e.kind == "sink" and e.name != "stdout"


def exit_status(x):
    """of an Exc: 0 / nonzero / None unknown"""
    if x.name != "SystemExit":
        return 1
    if not x.args or x.args[0] in (NONE, C(0), FALSE):
        return 0
    a = x.args[0]
    return (1 if a.v else 0) if isinstance(a, C) else None


def flag_opts(world, cmd, value=FALSE):
    """all flag options of a command fixed to a constant"""
    return {o.name: value for o in cliinfo.options(cliinfo.command(world, cmd)) if o.flag}


def text_of(v):
    """constant text fragments inside a value"""
    out = []
    for a in atoms(v):
        if isinstance(a, C) and isinstance(a.v, str):
            out.append(a.v)
    return " ".join(out)
