"""C04: failing loads and fatal conditions end nonzero, and nothing is written before a successful load."""
import re

from core import *  # noqa
import cliinfo
from exporters import run_command
from loader import Load
from rules.common import commands, exit_status, file_effect, flag_opts, short, text_of, units_of
from rules.c03 import mk
from treectx import concrete, flat

STAGES = [("load_units", None), ("load_quantities", None), ("load_vspec", False), ("load_vspec", True), ("build_tree", False), ("build_tree", True),
          ("resolve", None), ("expand_instances", None), ("delete_nodes", None), ("get_extra_attributes", None), ("get_naming_violations", None)]
FATAL = re.compile(r"\babort(ing|ed|s)?\b", re.I)


def exceptions(w):
    """exception classes declared by the loading modules, and representative builtins"""
    out = []
    for m in ("main", "model", "tree", "vspec", "units_quantities", "datatypes"):
        mod = w.get("vss_tools.vspec." + m) or {}
        for n, v in mod.items():
            if isinstance(v, Cls) and v.mod == "vss_tools.vspec." + m and any(isinstance(b, Ext) and b.name in ("Exception", "ValueError", "RuntimeError") for b in v.mro()):
                out.append(v)
    return out + [Ext(n) for n in ("ValueError", "KeyError", "FileNotFoundError", "AssertionError", "TypeError", "SystemExit")]


def name_of(c):
    return c.name


def nonzero(r, cl, key, msg, outs, it):
    """every outcome is a nonzero exit or an uncaught error"""
    if not outs:
        r.undecided(cl, key, "no outcome")
        return
    bad = [v for v, s in outs if not isinstance(v, Exc)]
    zero = [v for v, s in outs if isinstance(v, Exc) and exit_status(v) == 0]
    unk = [v for v, s in outs if isinstance(v, Exc) and exit_status(v) is None]
    if zero:
        r.bad(cl, key, msg + ": the process exits with status 0", zero[0].loc)
    elif bad:
        r.verdict(None if it.imprecise and len(bad) < len(outs) else False, cl, key, msg + ": the failure is swallowed")
    else:
        r.verdict(None if unk else True, cl, key, msg)


def job(r, j):
    w = r.world
    if j[0] == "stage":
        _, stage, types, strict = j
        for exc in exceptions(w):
            args = {"strict": strict, "aborts": Tup((C("name-style"), C("unknown-attribute"))), "types": 1}
            # SystemExit(1) stands for a nonzero exit inside a stage
            l = Load(w, mk(args), raise_at=(stage, types, exc))
            units_of(r, l.it)
            r.paths += len(l.outs)
            if not any(True for v, s in l.outs for x in l.stages(s) if x[0] == stage):
                r.undecided("load-failure", f"{stage}:{exc.name}", "stage not reached")
                continue
            nonzero(r, "load-failure", f"{stage}{'' if types is None else '/types' if types else '/model'}:{exc.name}",
                    f"{exc.name} raised while {stage} runs does not fail the load", l.outs, l.it)
    elif j[0] == "scen":
        bad_model = concrete({"T": ("branch", {}, ["D"]), "D": ("property", {}, [])}, {"U": ("branch", {}, ["DU"]), "DU": ("struct", {}, ["EU"]), "EU": ("property", {}, [])})
        for name, args, kw in (
            ("orphans", {}, dict(orphans=True)), ("types orphans", {}, dict(types_orphans=True)),
            ("invalid node", {}, dict(resolve="raise")), ("invalid type node", {}, dict(resolve="types-raise")),
            ("illegal parent", {}, dict(nodes=bad_model)),
            ("core attribute as extra attribute", {}, dict(extra=[("T.D", "datatype")])),
            ("unknown attribute, strict", {"strict": TRUE}, dict(extra=[("T.D", "zzz")])),
            ("unknown attribute, abort selected", {"aborts": Tup((C("unknown-attribute"),))}, dict(extra=[("T.D", "zzz")])),
            ("name violation, strict", {"strict": TRUE}, dict(naming=[("T.d", "not CamelCase")])),
            ("name violation, abort selected", {"aborts": Tup((C("name-style"),))}, dict(naming=[("T.d", "not CamelCase")])),
            ("unknown attribute in types", {}, dict(types_extra=[("U.D", "zzz")])),
        ):
            l = Load(w, mk(args), **kw)
            units_of(r, l.it)
            nonzero(r, "load-failure", "scenario:" + name, f"a load with {name} does not fail", l.outs, l.it)
    elif j[0] == "cmd":
        cmd = j[1]
        opts = flag_opts(w, cmd)
        fn = cliinfo.command(w, cmd)
        for o in cliinfo.options(fn):
            if o.type_name() == "File":
                m = o.type_kw().get("mode")
                lazy = o.type_kw().get("lazy")
                r.verdict(not (isinstance(m, C) and "w" in str(m.v) and lazy == FALSE), "write-before-load", f"{cmd}.{o.name} eager",
                          f"command '{cmd}': option '{o.name}' truncates its file while the command line is parsed")
        # 1. a failing load
        for exc in [Ext("SystemExit")] + [e for e in exceptions(w) if e.name in ("IncludeNotFoundException", "NoRootsException", "ValueError", "KeyError", "AttributeError")]:
            a = (C(1),) if exc.name == "SystemExit" else (C("m"),)
            run = run_command(w, cmd, opts=opts, budget=60000, max_states=64, trees=lambda it, st, b, node, exc=exc, a=a: [(Exc(exc, a, it.loc(node)), st)])
            units_of(r, run.it)
            if run.cut:
                r.undecided("load-failure", f"{cmd}:{exc.name}", "budget")
                continue
            nonzero(r, "load-failure", f"{cmd}:{exc.name}", f"command '{cmd}' does not fail when the model fails to load", run.outs, run.it)
            eff = [(e, v) for v, s in run.outs for e, p in flat(s.events()) if file_effect(e)]
            r.verdict(not eff, "write-before-load", f"{cmd}:{exc.name}", f"command '{cmd}' writes, creates or truncates a file although the model failed to load",
                      eff[0][0].loc if eff else None)
        # 2. order of load and first effect, and fatal paths, on successful loads
        has = any(o.name == "extended_attributes" for o in cliinfo.options(fn))
        variants = [opts] + [dict(opts, **{f: TRUE}) for f in opts]
        for o in variants:
            o = dict(o, **({"extended_attributes": Tup(())} if has else {}))
            run = run_command(w, cmd, opts=o, budget=120000 if r.thorough else 60000, max_states=64)
            tag = ",".join(f for f in o if o[f] == TRUE) or "no flags"
            units_of(r, run.it)
            r.paths += len(run.outs)
            if run.cut or not run.outs:
                r.undecided("write-before-load", f"{cmd}[{tag}]", "budget")
                continue
            early = None
            for v, s in run.outs:
                loaded = False
                for e, p in flat(s.events()):
                    if e.kind == "load":
                        loaded = True
                    elif file_effect(e) and not loaded:
                        early = early or e
            r.verdict(early is None, "write-before-load", f"{cmd}[{tag}]", f"command '{cmd}' ({tag}) writes, creates or truncates a file before the model is loaded", early.loc if early else None)
            for v, s in run.outs:
                for e, p in flat(s.events()):
                    if e.kind != "log":
                        continue
                    fatal = e.name in ("fatal", "critical") or FATAL.search(" ".join(text_of(a) for a in e.args))
                    if not fatal:
                        continue
                    key = f"{cmd}:{e.loc[0].rsplit('.', 1)[-1] if isinstance(e.loc, tuple) else ''}:{short(e.args[0], 40) if e.args else ''}"
                    if not isinstance(v, Exc):
                        r.bad("fatal", key, f"command '{cmd}' reports a fatal condition and then ends with status 0", e.loc)
                    else:
                        st = exit_status(v)
                        r.verdict(st != 0 if st is not None else None, "fatal", key, f"command '{cmd}' reports a fatal condition and exits with status 0", v.loc)


def check(r):
    r.text("Every stage of the loader is made to fail with every exception class the loading modules declare and with representative builtin ones; every command is "
           "interpreted with a failing load; on all other paths the order of load and first file effect is checked and each path that reports a fatal condition must end nonzero.")
    jobs = [("stage", s, t, st) for s, t in STAGES for st in ((TRUE,) if not r.thorough else (TRUE, FALSE)) ] + [("scen",)] + [("cmd", c) for c in commands(r.world)]
    r.pmap(job, sorted(jobs, key=lambda j: j[0] != "cmd"))
    r.floor("load-failure", 40)
    r.floor("write-before-load", 14)
