"""Commands and their options as declared through click decorators."""
from core import *  # noqa

CLI = "vss_tools.vspec.cli"
OPTION_NAMES = ("option", "argument")


def is_option(d):
    return isinstance(d, Op) and d.name == "call" and d.args and isinstance(d.args[0], Ext) and d.args[0].name.split(".")[-1] in OPTION_NAMES


class Option:
    def __init__(self, d, st=None):
        self.op = d
        self.decls = [a.v for a in d.args[1:] if isinstance(a, C) and isinstance(a.v, str)]
        self.kw = {a.items[0].v: a.items[1] for a in d.args[1:] if isinstance(a, Tup) and len(a.items) == 2 and isinstance(a.items[0], C)}
        self.flag = False
        name = None
        for x in self.decls:
            if not x.startswith("-") and x.isidentifier():
                name = x
        self.longs = []
        for x in self.decls:
            if "/" in x:
                self.flag = True
            y = x.split("/")[0]
            if y.startswith("--"):
                self.longs.append(y)
                if name is None:
                    name = y[2:].replace("-", "_")
        self.name = name or (self.decls[0].lstrip("-").replace("-", "_") if self.decls else "?")
        if self.kw.get("is_flag") == TRUE:
            self.flag = True
        self.multiple = self.kw.get("multiple") == TRUE
        self.required = self.kw.get("required") == TRUE
        self.default = self.kw.get("default")

    def type_name(self):
        t = self.kw.get("type")
        if isinstance(t, Op) and t.name == "call":
            return t.args[0].name.split(".")[-1] if isinstance(t.args[0], Ext) else "?"
        if isinstance(t, Ext):
            return t.name
        if isinstance(t, Fn):
            return t.name
        return None

    def type_kw(self):
        t = self.kw.get("type")
        if isinstance(t, Op) and t.name == "call":
            return {a.items[0].v: a.items[1] for a in t.args[1:] if isinstance(a, Tup) and len(a.items) == 2 and isinstance(a.items[0], C)}
        return {}


def subcommands(world):
    """name -> (module, object name) from the LazyGroup declaration; {} if not found."""
    fn = None
    for name, v in (world.get(CLI) or {}).items():
        for val in (v,):
            for d in getattr(val, "deco", ()) or ():
                r = lazy_table(d)
                if r:
                    fn = val
                    return r, fn
    # decorator may have been folded into the value itself
    for name, v in (world.get(CLI) or {}).items():
        r = lazy_table(v)
        if r:
            return r, v
    return {}, None


def lazy_table(d):
    for a in atoms(d):
        if isinstance(a, Tup) and len(a.items) == 2 and a.items[0] == C("lazy_subcommands") and isinstance(a.items[1], DictV):
            out = {}
            for s in a.items[1].segs:
                if s[0] == "1" and isinstance(s[1], C) and isinstance(s[2], C):
                    m, _, o = s[2].v.rpartition(":")
                    out[s[1].v] = (m, o)
            return out
    return None


def options(fn):
    return [Option(d) for d in getattr(fn, "deco", ()) if is_option(d)]


def command(world, name):
    tab, _ = subcommands(world)
    if name not in tab:
        return None
    m, o = tab[name]
    return world.get(m, o)
