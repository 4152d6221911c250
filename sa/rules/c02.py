"""C02: subcommand table and shared option declarations."""
from core import *  # noqa
import cliinfo
from exporters import run_fn
from interp import Context
from rules.common import commands, short, units_of

DOCUMENTED = ["apigear", "binary", "csv", "ddsidl", "franca", "graphql", "id", "json", "jsonschema", "protobuf", "yaml", "tree", "samm", "go"]
# option -> (kind, default, must exist, must be a file/dir, short form)
SHARED = {
    "vspec": dict(required=True, file=True, exists=True, short="-s"),
    "include_dirs": dict(multiple=True, dir=True, exists=True, short="-I"),
    "overlays": dict(multiple=True, file=True, exists=True, short="-l"),
    "units": dict(multiple=True, file=True, exists=True, short="-u"),
    "quantities": dict(multiple=True, file=True, exists=True, short="-q"),
    "types": dict(multiple=True, file=True, exists=True, short="-t"),
    "extended_attributes": dict(multiple=True, short="-e"),
    "aborts": dict(multiple=True, short="-a", choices={"unknown-attribute", "name-style"}),
    "strict": dict(flag=True, default=False), "uuid": dict(flag=True, default=False), "pretty": dict(flag=True, default=False),
    "extend_all_attributes": dict(flag=True, default=False), "expand": dict(flag=True, default=True),
}


def token(mod):
    b = mod.rsplit(".", 1)[-1]
    return b[4:] if b.startswith("vss2") else b


def check(r):
    r.text("The subcommand table, the lazy loader and every declared option of every command are read from the abstractly evaluated modules and compared with the documented contract.")
    w = r.world
    tab, fn = cliinfo.subcommands(w)
    if not tab:
        r.broken("C02: subcommand table not found")
        return
    r.unit("vss_tools.vspec.cli")
    for n in DOCUMENTED:
        cl = "subcommand-table"
        if n not in tab:
            r.bad(cl, n, f"documented export subcommand '{n}' is not registered")
            continue
        m, o = tab[n]
        c = w.get(m, o)
        if not isinstance(c, Fn):
            r.bad(cl, n, f"subcommand '{n}' names {m}:{o}, which is not a command")
            continue
        r.unit(c.qual)
        t = token(m)
        other = [k for k, v in tab.items() if v == tab[n] and k != n]
        if other or (t in DOCUMENTED and t != n):
            r.bad(cl, n, f"subcommand '{n}' starts the exporter {m} (also used by {other})" if other else f"subcommand '{n}' starts the exporter {m}")
        else:
            r.ok(cl, n)
        is_cmd = any("command" in short(d) for d in c.deco)
        r.verdict(True if is_cmd else None, cl, n + ".command", "no command decorator recognised")
    lazy(r, w, tab)
    for n in commands(w):
        options(r, w, n)
    validator(r, w)
    r.floor("subcommand-table", 8)
    r.floor("option-contract", 60)
    r.floor("extended-attribute-names", 10)


def lazy(r, w, tab):
    """LazyGroup.get_command(name) must import the module registered under that name and return the registered object."""
    cl = "lazy-loader"
    cls = w.get("vss_tools.vspec.lazy_group", "LazyGroup")
    if not isinstance(cls, Cls) or not isinstance(cls.lookup("get_command"), Fn):
        r.undecided(cl, "LazyGroup", "not found")
        return
    st = w.base().clone()
    names = ["AA", "BB"]
    d = Ref(("lazy", "table"))
    st.heap[d.id] = HObj("dict", [("1", C(n), C(f"pkg.mod{n}:obj{n}")) for n in names])
    me = Ref(("lazy", "self"))
    st.heap[me.id] = HObj("obj", cls=cls, attrs={"lazy_subcommands": d})
    for n in names:
        got = []

        class X(Context):
            def ext_call(self, it, name, args, kw, st, node):
                if name == "importlib.import_module":
                    got.append(args[0])
                    return [(Op("module", (args[0],)), st)]
                if name == "getattr" and isinstance(args[0], Op) and args[0].name == "module":
                    return [(Op("member", tuple(args[:2])), st)]
                return None
        outs, it = run_fn(w, "vss_tools.vspec.lazy_group", "LazyGroup.get_command", [Sym("ctx", ty="obj"), C(n)], ctx=X(), st=st.clone(), self_=me)
        units_of(r, it)
        res = {v for v, s in outs if not isinstance(v, Exc)}
        want = Op("member", (Op("module", (C(f"pkg.mod{n}"),)), C(f"obj{n}")))
        if res == {want}:
            r.ok(cl, n)
        elif not res:
            r.bad(cl, n, f"no command is ever returned for a registered name; outcomes {outs[0][0] if outs else None}", it.loc(cls.lookup("get_command").node) if it.frames else None)
        elif all(isinstance(v, (C,)) or (isinstance(v, Op) and v.name == "member" and v != want) for v in res):
            r.bad(cl, n, f"name {n} resolves to {short(list(res)[0])} instead of its registered object")
        else:
            r.undecided(cl, n, short(list(res)[0]))


def options(r, w, cmd):
    fn = cliinfo.command(w, cmd)
    cl = "option-contract"
    params = [a.arg for a in fn.node.args.args + fn.node.args.kwonlyargs]
    shorts = {}
    opts = cliinfo.options(fn)
    loc = (fn.mod, fn.node.lineno)
    if "vspec" not in {o.name for o in opts}:
        r.bad(cl, f"{cmd}.vspec", f"command '{cmd}' takes no model file", loc)
    for o in opts:
        for d in o.decls:
            for x in d.split("/"):
                if x.startswith("-"):
                    if x in shorts and shorts[x] != o.name:
                        r.bad(cl, f"{cmd}.{x}", f"command '{cmd}': {x} is declared for both {shorts[x]} and {o.name}", loc)
                    shorts[x] = o.name
        spec = SHARED.get(o.name)
        if spec is None:
            continue
        k = f"{cmd}.{o.name}"

        def need(cond, what):
            r.verdict(cond, cl, f"{k}.{what.split(' ')[0]}", f"command '{cmd}', option '{o.name}': {what}", loc)
        if o.name not in params and fn.node.args.kwarg is None:
            need(False, "parameter missing in the command function")
        long = "--" + o.name.replace("_", "-")
        need(long in o.longs, f"name {long} not declared (declared: {o.decls})")
        if spec.get("short"):
            need(spec["short"] in o.decls, f"short form {spec['short']} not declared (declared: {o.decls})")
        if spec.get("multiple"):
            need(o.multiple, "repetition not accepted, only the last value counts")
            need(o.default in (None, NONE) or o.default == Tup(()), f"default is {short(o.default) if o.default is not None else None}")
        if spec.get("required"):
            need(o.required and o.default in (None, NONE), "mandatory no longer")
        if spec.get("flag"):
            need(True if o.flag else None, "flag form not recognised")
            need(o.default == C(spec["default"]), f"default must be {spec['default']}, is {short(o.default) if o.default is not None else None}") if o.default is not None \
                else need(spec["default"] is False, f"default must be {spec['default']}")
            for d in o.decls:
                if "/" in d:
                    a, b = [x.strip() for x in d.split("/", 1)]
                    need(a == long and b == "--no-" + long[2:], f"switches must be {long}/--no-{long[2:]}, are {d}")
        t = o.kw.get("type")
        tk = {a: b for a, b in o.type_kw().items()}
        if spec.get("exists"):
            if o.type_name() == "Path":
                need(tk.get("exists") == TRUE, "existence of the given path is not checked")
                if spec.get("file"):
                    need(tk.get("dir_okay") == FALSE, "directory accepted in place of a file")
                    need(tk.get("file_okay") != FALSE, "file_okay=False refuses files")
                if spec.get("dir"):
                    need(tk.get("file_okay") == FALSE, "file accepted in place of a directory")
            else:
                need(None if t is not None else False, "existence of the given path is not checked (no path type)")
        if spec.get("choices"):
            vals = set()
            for a in atoms(t) if t is not None else ():
                if isinstance(a, C) and isinstance(a.v, str):
                    vals.add(a.v)
            need(spec["choices"] <= vals if o.type_name() == "Choice" else None, f"choices must include {sorted(spec['choices'])}")
        if o.kw.get("nargs") not in (None, C(1)):
            need(False, f"nargs={short(o.kw['nargs'])} changes what one use of the option means")
    names = [o.name for o in opts]
    for n in set(names):
        if names.count(n) > 1:
            r.bad(cl, f"{cmd}.{n}.twice", f"command '{cmd}': option '{n}' declared twice", loc)


def validator(r, w):
    """The conversion of an extended attribute refuses core attributes and comma lists and returns anything else unchanged."""
    cl = "extended-attribute-names"
    core = set()
    m = w.get("vss_tools.vspec.model", "TYPE_CLASS_MAP")
    base = w.base()
    o = base.heap.get(m.id) if isinstance(m, Ref) else None
    for s in (o.segs if o is not None else ()):
        c = s[2]
        if isinstance(c, Cls):
            for k in c.mro():
                if isinstance(k, Cls):
                    core |= {a for a in k.annots if a != "model_config"}
    if len(core) < 8:
        r.undecided(cl, "core", "core attribute set not found")
        return
    fns = {}
    for cmd in commands(w):
        for op in cliinfo.options(cliinfo.command(w, cmd)):
            if op.name == "extended_attributes":
                t = op.kw.get("type") if isinstance(op.kw.get("type"), Fn) else op.kw.get("callback")
                if t is None:
                    r.bad(cl, f"{cmd}", f"command '{cmd}': extended attribute names are not checked", (cliinfo.command(w, cmd).mod, cliinfo.command(w, cmd).node.lineno))
                elif isinstance(t, Fn):
                    fns.setdefault(t, []).append(cmd)
                else:
                    r.undecided(cl, cmd, short(t))
    for f, cmds in fns.items():
        a = f.node.args
        n = len(a.args)

        def run(v):
            # a type function takes (value), a callback (ctx, param, value)
            args = [v] if n == 1 else [Sym("ctx"), Sym("param"), v if False else Tup((v,))]
            return run_fn(w, f.mod, f.name, args)
        for name, want in [(C(c), False) for c in sorted(core)] + [(C("a,b"), False), (C(","), False), (C("myattr"), True), (C("quality"), True), (C("x_Source"), True)]:
            outs, it = run(name)
            units_of(r, it)
            if outs is None:
                r.undecided(cl, f.name, "not analysable")
                continue
            okp = [v for v, s in outs if not isinstance(v, Exc)]
            bad = [v for v, s in outs if isinstance(v, Exc)]
            loc = (f.mod, f.node.lineno)
            if want:
                exp = name if n == 1 else Tup((name,))
                if not okp:
                    r.bad(cl, f"{f.name}({name.v})", f"{f.name} refuses the legal attribute name '{name.v}'", loc)
                elif n == 1 and all(isinstance(v, C) for v in okp) and any(v != exp for v in okp):
                    r.bad(cl, f"{f.name}({name.v})", f"{f.name} turns '{name.v}' into {short(okp[0])}", loc)
                else:
                    r.verdict(True if not bad else None, cl, f"{f.name}({name.v})", "may refuse", loc)
            else:
                if okp and not bad:
                    r.bad(cl, f"{f.name}({name.v})", f"{f.name} accepts '{name.v}'", loc)
                else:
                    r.verdict(True if not okp else None, cl, f"{f.name}({name.v})", "may accept", loc)
