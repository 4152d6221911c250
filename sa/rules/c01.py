"""C01: loading options reach the loader, and the loader's stages, unchanged."""
from core import *  # noqa
import cliinfo
from exporters import opt_sym, run_command
from loader import Load, some
from rules.common import LOADER_OPTS, commands, same_val, short, units_of

VALIDATION_PARAM = "validate_static_uid"


def job(r, job):
    kind = job[0]
    if kind == "cmd":
        command(r, job[1], job[2])
    else:
        stages(r, job[1])


def option_values(world, cmd, k):
    """loader options of cmd -> distinct abstract values (sequences of length k)"""
    out = {}
    for o in cliinfo.options(cliinfo.command(world, cmd)):
        if o.name in LOADER_OPTS:
            out[o.name] = some(o.name, k, "path" if o.name not in ("aborts", "extended_attributes") else "str") if o.multiple else opt_sym(o)
    return out


def command(r, cmd, k):
    w = r.world
    opts = option_values(w, cmd, k)
    fixed = dict(opts)
    decl = {o.name for o in cliinfo.options(cliinfo.command(w, cmd))}
    if VALIDATION_PARAM in decl:
        fixed[VALIDATION_PARAM] = Sym("opt:" + VALIDATION_PARAM, ty="path", truth=True, none=False)
    run = run_command(w, cmd, opts=fixed, budget=20000)
    units_of(r, run.it)
    r.paths += len(run.outs)
    loads = run.loads
    main = [e for e in loads if VALIDATION_PARAM not in decl or e.kw.get("vspec") != fixed[VALIDATION_PARAM]]
    comp = [e for e in loads if e not in main]
    if not main:
        r.undecided("option-to-loader", cmd, "no model load found on any path")
        return
    seen = {}
    for e in main:
        for o, val in opts.items():
            got = e.kw.get(o)
            ok = same_val(got, val) if got is not None else False
            if isinstance(got, Alt) and ok is False and val in got.vals:
                ok = False
            seen.setdefault(o, []).append((ok, got, e))
    for o, l in seen.items():
        bad = [x for x in l if x[0] is False]
        if bad:
            r.bad("option-to-loader", f"{cmd}.{o}", f"command '{cmd}': option '{o}' is not what the model is loaded with: loader gets "
                  f"{short(bad[0][1]) if bad[0][1] is not None else 'nothing (its default)'} instead of the given value", bad[0][2].loc)
        elif any(x[0] is None for x in l):
            r.undecided("option-to-loader", f"{cmd}.{o}", short(l[0][1]))
        else:
            r.ok("option-to-loader", f"{cmd}.{o}[len {k}]", loc=l[0][2].loc)
    # comparison model
    for e in comp:
        for o in ("include_dirs", "units", "quantities", "types", "strict", "aborts", "extended_attributes"):
            if o not in opts:
                continue
            got = e.kw.get(o)
            ok = same_val(got, opts[o]) if got is not None else False
            r.verdict(ok, "comparison-model", f"{cmd}.{o}", f"command '{cmd}': the comparison model is loaded with {short(got) if got is not None else 'the default'} for '{o}'", e.loc)
    if VALIDATION_PARAM in decl and not comp:
        r.undecided("comparison-model", cmd, "no load of the comparison model found")


def stages(r, k):
    w = r.world
    for expand in (TRUE, FALSE):
        for uuid in (TRUE, FALSE):
            args = {n: some(n, k, "str" if n == "extended_attributes" else "path") for n in
                    ("include_dirs", "quantities", "units", "types", "overlays", "extended_attributes")}
            args["aborts"] = Tup(())
            args["expand"], args["uuid"] = expand, uuid
            l = Load(w, args)
            units_of(r, l.it)
            r.paths += len(l.outs)
            tag = f"len {k}, expand={expand.v}, uuid={uuid.v}"
            for v, s in l.outs:
                if isinstance(v, Exc):
                    continue
                check_stages(r, l, l.stages(s), args, k, tag)


def check_stages(r, l, st, args, k, tag):
    cl = "loader-to-stage"
    names = [x[0] for x in st]
    if l.it.imprecise or any(x[3] for x in st if x[0] != "connect"):
        r.undecided(cl, tag, f"path not exact: {l.it.imprecise[:2]}")
        return

    def get(n):
        return [x for x in st if x[0] == n]

    def arg(x, *alts):
        for a in alts:
            if a in x[2]:
                return x[2][a]
        return None
    specs = get("load_vspec")
    model = [x for x in specs if arg(x, "identifier") in (None, NONE)]
    tys = [x for x in specs if x not in model]
    for x in specs:
        r.verdict(same_val(arg(x, "include_dirs"), args["include_dirs"]), cl, f"include_dirs[{tag}]",
                  f"specs are searched in {short(arg(x, 'include_dirs'))} instead of the given include directories in the given order", x[4].loc)
    vs = l.args["vspec"]
    if model:
        got = arg(model[-1], "specs")
        r.verdict(same_val(got, Tup((vs,) + args["overlays"].items)), cl, f"vspec+overlays[{tag}]",
                  f"the model is read from {short(got)} instead of the model file followed by the overlays in order", model[-1][4].loc)
    else:
        r.undecided(cl, f"vspec[{tag}]", "no spec load")
    got = []
    for x in tys:
        a = arg(x, "specs")
        got += list(a.items) if isinstance(a, Tup) else [s[1] for s in a.segs if s[0] == "1"] if isinstance(a, ListV) else [a]
    r.verdict(same_val(Tup(got), args["types"]), cl, f"types[{tag}]", f"type files read are {short(Tup(got))} instead of the given ones in order",
              tys[0][4].loc if tys else None)
    for n, f in (("quantities", "load_quantities"), ("units", "load_units")):
        g = get(f)
        if g and k:
            fs = [v for kk, v in g[0][2].items()]
            r.verdict(same_val(fs[0], args[n]) if fs else None, cl, f"{n}[{tag}]", f"{n} are read from {short(fs[0]) if fs else '?'} instead of the given files", g[0][4].loc)
        elif not g:
            r.bad(cl, f"{n}[{tag}]", f"no {n} file is read", None)
    for flag, stage in (("expand", "expand_instances"), ("uuid", "add_uuids")):
        on = args[flag] == TRUE
        g = [x for x in get(stage) if x[1] == l.ctx.node("T")]
        r.verdict(bool(g) == on, cl, f"{flag}[{tag}]", f"with {flag}={on} the model's {stage} is {'not ' if on else ''}run", g[0][4].loc if g else None)
    for x in get("get_extra_attributes"):
        a = [v for kk, v in x[2].items() if kk != "self"]
        if a:
            r.verdict(same_val(a[0], args["extended_attributes"]), cl, f"extended_attributes[{tag}]",
                      f"extra attributes are checked against {short(a[0])} instead of the given extended attributes", x[4].loc)


def check(r):
    r.text("Each export command is interpreted abstractly with a distinct symbol for every loading option; what reaches each parameter of the loader "
           "must be that very symbol. The loader itself is interpreted with 0 to 3 distinct files per option and its stages recorded.")
    cmds = commands(r.world)
    ks = (1, 3) if not r.thorough else (0, 1, 2, 3)
    r.pmap(job, [("cmd", c, k) for c in cmds for k in ks] + [("stages", k) for k in ((0, 2) if not r.thorough else (0, 1, 2, 3, 4))])
    r.floor("option-to-loader", 50)
    r.floor("loader-to-stage", 10)
