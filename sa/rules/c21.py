"""C21: extended attributes are exported exactly as requested."""
import itertools
from core import *  # noqa
from full import *
from outs import outputs
from rules.idref import succeed

CMDS = ("json", "yaml", "jsonschema")
EXTRA = ("foo", "bar", "foobar", "fo", "x-y", "Foo")


def files(vals, where, sel):
    """every node of the model carries the attributes in `vals`; `where`: names of nodes that do not; a types tree may only have whitelisted ones"""
    def at(n):
        return {} if n in where else {k.replace("-", "__"): (v(n, k) if callable(v) else v) for k, v in vals.items() if n[0] == "V" or k in sel}
    m = [branch("V", **at("V")), leaf("V.A", unit=C("km"), min=C(0), comment=S("cmt"), **at("V.A")), branch("V.B", **at("V.B")), leaf("V.B.C", "attribute", datatype="string", default=S("dflt"), **at("V.B.C")),
         branch("V.B.D", instances=[C("L"), C("R")], **at("V.B.D")), leaf("V.B.D.E", "actuator", deprecation=S("dep"), **at("V.B.D.E")), branch("V.B.F", **at("V.B.F")), branch("V.B.F.G", **at("V.B.F.G")), leaf("V.B.F.G.H", **at("V.B.F.G.H")),
         leaf("V.S", datatype="T.S", **at("V.S"))]
    t = [branch("T", **at("T")), N("T.S", "struct", **at("T.S")), leaf("T.S.P", "property", **at("T.S.P")), branch("T.N", **at("T.N")), N("T.N.R", "struct", **at("T.N.R")), leaf("T.N.R.Q", "property", datatype="string[]", **at("T.N.R.Q"))]
    return {ROOT: File([], Data(*m)), "/m/t.vspec": File([], Data(*t))}


def src(n):
    """the specification entry a node comes from"""
    return n.replace("V.B.D.L", "V.B.D").replace("V.B.D.R", "V.B.D") if n.startswith("V.B.D.") else n


def key(k):
    return k.v if isinstance(k, C) else k


def nodes(cmd, d, types_only=False):
    """{qualified name: attributes} of an exported structure, or None when it is not understood"""
    out = {}
    if not isinstance(d, dict):
        return None
    d = {key(k): v for k, v in d.items()}

    def rec(name, x, kids):
        if not isinstance(x, dict):
            return False
        x = {key(k): v for k, v in x.items()}
        out[name] = x
        c = x.get(kids)
        if isinstance(c, dict):
            return all([rec(f"{name}.{key(k)}", v, kids) for k, v in c.items()])
        return True
    ok = True
    if cmd == "yaml":
        for k, v in d.items():
            if k == "ComplexDataTypes":
                for a, b in v.items() if isinstance(v, dict) else ():
                    out[key(a)] = {key(x): y for x, y in b.items()} if isinstance(b, dict) else None
            else:
                out[k] = {key(x): y for x, y in v.items()} if isinstance(v, dict) else None
        ok = all(isinstance(v, dict) for v in out.values())
    elif cmd == "json":
        for k, v in d.items():
            if k == "ComplexDataTypes":
                ok &= isinstance(v, dict) and all([rec(key(a), b, "children") for a, b in v.items()])
            else:
                ok &= rec(k, v, "children")
    else:
        t = d.get("x-ComplexDataTypes")
        x = {k: v for k, v in d.items() if k not in ("$schema", "x-ComplexDataTypes")}
        n = x.pop("title", None)
        if not isinstance(n, C):
            return None
        ok &= rec(n.v, x, "properties")
        if isinstance(t, dict):
            ok &= all([rec(key(a), b, "properties") for a, b in t.items()])
    return out if ok else None


NAMES = ["V", "V.A", "V.B", "V.B.C", "V.B.D", "V.B.D.L", "V.B.D.R", "V.B.D.L.E", "V.B.D.R.E", "V.B.F", "V.B.F.G", "V.B.F.G.H", "V.S"]
TYPES = ["T", "T.S", "T.S.P", "T.N", "T.N.R", "T.N.R.Q"]
CORE = {"V.A": {"unit": C("km"), "min": C(0), "comment": S("cmt")}, "V.B.C": {"default": S("dflt")}, "V.B.D.R.E": {"deprecation": S("dep")}}


def run(r, cl, tag, cmd, fs, sel, allx, want, extra=None, **opts):
    """want(node, attribute) -> value | None"""
    e = Export(r.world, cmd, fs, types=["/m/t.vspec"], opts={"extended_attributes": tuple(sel), "extend_all_attributes": allx, **opts})
    what = f"{cmd} with -e {list(sel)}{' and all attributes' if allx else ''}{' ' + str(opts) if opts else ''}"
    for o in succeed(r, cl, f"{cmd} {tag}", what, e):
        ds = o.data("json") + o.data("yaml")
        got = {}
        for d in ds:
            x = nodes(cmd, d)
            if x is None:
                got = None
                break
            got.update(x)
        if got is None or e.imprecise:
            r.undecided(cl, f"{cmd} {tag}", "output not understood")
            continue
        for n in NAMES + (TYPES if cmd != "jsonschema" or allx else []):
            if n not in got:
                r.undecided(cl, f"{cmd} {tag} {n}", "node not found")
                continue
            for a in extra or EXTRA:
                w = want(n, a)
                g = got[n].get(a)
                if w is None:
                    r.verdict(a not in got[n], cl, f"{cmd} {tag} {n} {a}", f"{what}: {n} is exported with the attribute {a} that is not requested")
                elif a not in got[n]:
                    r.bad(cl, f"{cmd} {tag} {n} {a}", f"{what}: the attribute {a} of {n} is missing")
                else:
                    r.verdict(eq(g, w), cl, f"{cmd} {tag} {n} {a}", f"{what}: the attribute {a} of {n} is {g!r}, expected {w!r}")
            if cmd != "jsonschema":
                for a, w in CORE.get(n, {}).items():
                    r.verdict(a in got[n] and eq(got[n][a], w), "core", f"{cmd} {tag} {n} {a}", f"{what}: the core attribute {a} of {n} is {got[n].get(a)!r}, expected {w!r}")


def eq(g, w):
    if isinstance(w, list):
        return isinstance(g, list) and len(g) == len(w) and all(eq(a, b) for a, b in zip(g, w))
    if isinstance(w, dict):
        return isinstance(g, dict) and {key(k): v for k, v in g.items()}.keys() == {key(k): v for k, v in w.items()}.keys() and all(eq({key(a): b for a, b in g.items()}[key(k)], v) for k, v in w.items())
    if isinstance(g, V) and isinstance(w, V):
        return g == w if isinstance(g, (C, Sym)) else None
    return False


SEL = [(), ("foo",), ("bar",), ("fo",), ("foobar",), ("Foo",), ("x-y",), ("foo", "bar"), ("bar", "foo", "x-y"), ("other",), EXTRA]


def select(r, j):
    cmd, sel = j
    vals = {k: (lambda n, k: S(f"{k}@{n}")) for k in EXTRA}
    for allx in (False, True):
        for where in ((), ("V",), ("V.A", "T.S"), ("V", "V.B", "T", "T.N")):
            if where and not r.thorough and (len(sel) > 2 or len(where) < 4 or sel in (("fo",), ("Foo",), ("other",))):
                continue
            kw = [{}]
            if not where:
                kw += [{"uuid": True}, {"expand": False}] if r.thorough else []
                if cmd in ("json", "yaml") and len(sel) <= 1:
                    kw += [{"types_output": P("/out/types")}, {"pretty": True}]
            for k in kw:
                if k.get("expand") is False:
                    continue
                run(r, "selection", f"{sel} {allx} {where} {sorted(k)}", cmd, files(vals, where, sel), sel, allx, lambda n, a: S(f"{a}@{src(n)}") if src(n) not in where and (allx and n[0] == "V" or a in sel) else None, **k)


VALS = [C(""), C(0), FALSE, C(0.0), [], C("x"), C(7), TRUE, [C(1), C("")], {"k": C("v")}]


def values(r, cmd):
    for i, v in enumerate(VALS):
        vv = Data(*[(k, x) for k, x in v.items()]) if isinstance(v, dict) else v
        w = {C(k): x for k, x in v.items()} if isinstance(v, dict) else v
        for sel, allx in ((("foo",), False), (("foo",), True), ((), True), ((), False), (("bar",), True)):
            if allx and "foo" not in sel and v == [] and cmd != "jsonschema":
                continue   # an empty list has no value
            run(r, "values", f"{i} {sel} {allx}", cmd, files({"foo": vv}, (), sel), sel, allx, lambda n, a: w if allx and n[0] == "V" or a in sel else None, extra=("foo",))


def job(r, j):
    {"select": select, "values": values}[j[0]](r, j[1])


def check(r):
    r.text("The JSON, YAML and JSON schema exports are interpreted for models whose every node (deep, instantiated, of the types tree) carries symbolic extended attributes x selections; the exported structures are compared attribute by attribute.")
    r.pmap(job, [("select", (c, s)) for c in CMDS for s in SEL] + [("values", c) for c in CMDS])
    for c in ("selection", "core", "values"):
        r.floor(c, 2)
