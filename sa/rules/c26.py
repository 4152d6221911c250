"""C26: zero, false and empty metadata is exported, not treated as missing."""
from rules.c32 import graph
from rules.xmodel import *

CMDS = {"csv": [{}], "franca": [{}], "json": [{}, {"pretty": True}], "yaml": [{}], "jsonschema": [{}, {"extend_all_attributes": True}], "id": [{}], "binary": [{}], "ddsidl": [{"all_idl_features": True}]}
OTHER = {"go": [{}, {"short_names": False}], "protobuf": [{}, {"add_optional": True}], "tree": [{}], "apigear": [{}], "graphql": [{}]}


def model(const, types):
    m = Model(const)
    m.add("V", "branch")
    m.add("V.B", "branch")
    m.add("V.B.I", "branch", instances=[C("L")], inst=["V.B.I", "V.B.I.L"])
    sets = [("int8", C(0)), ("uint16", C(0)), ("float", C(0.0)), ("double", C(0.0)), ("float", C(0)), ("int32", C(0))]
    i = 0
    for dt, z in sets:
        for kw in ({"min": z}, {"max": z}, {"default": z}, {"min": z, "max": z}, {"min": z, "max": C(z.v + 7)}, {"min": z, "default": z}, {"max": z, "default": z}, {"min": z, "max": z, "default": z},
                   {"min": z, "max": C(z.v + 7), "default": C(z.v + 3)}):
            i += 1
            inst = i % 5 == 0
            n = f"V.B.I.Z{i}" if inst else ("V.", "V.B.")[i % 2] + f"Z{i}"
            m.add(n, "attribute" if "default" in kw else ("sensor", "actuator")[i % 2], inst=[f"V.B.I.L.Z{i}"] if inst else None, datatype=C(dt), **kw)
    m.add("V.F", "attribute", datatype=C("boolean"), default=FALSE)
    m.add("V.B.FA", "attribute", datatype=C("boolean[]"), default=[FALSE])
    m.add("V.B.ZA", "attribute", datatype=C("uint8[]"), default=[C(0)])
    m.add("V.FS", "sensor", datatype=C("boolean"), default=FALSE)
    m.add("V.FC", "actuator", datatype=C("boolean"), default=FALSE)
    m.add("V.P", "sensor", datatype=C("boolean"))
    m.add("V.Q", "sensor", datatype=C("float"))
    m.add("V.B.W", "attribute", datatype=C("string"))
    if types:
        m.add("T", "branch", types=True)
        m.add("T.S", "struct", types=True)
        m.add("T.S.A", "property", types=True, datatype=C("int8"), min=C(0))
        m.add("T.S.B", "property", types=True, datatype=C("int8"), max=C(0))
        m.add("T.S.C", "property", types=True, datatype=C("int8"), default=C(0))
        m.add("T.S.D", "property", types=True, datatype=C("boolean"), default=FALSE)
        m.add("T.S.E", "property", types=True, datatype=C("float"), min=C(0.0), max=C(0.0), default=C(0.0))
    return m


def job(r, j):
    cmd, opts = j
    if cmd == "samm":
        return samm(r, opts)
    labelled = cmd in CMDS
    m = model(cmd == "binary", cmd in TYPES)
    e = run(r, cmd, m, **opts)
    what = f"{cmd}{' ' + ' '.join(opts) if opts else ''}"
    tag = f"{cmd} {sorted(opts)}"
    if not labelled:
        for o in succeed(r, "succeeds", tag, what, e):
            t = o.text() + " ".join(ph(v) for k in ("json", "yaml") for v in o.data(k))
            if o.data("gql"):
                t = " ".join(descr(o.data("gql")))
            r.verdict(None if e.imprecise else "None" not in t, "none", tag, f"{what}: the output contains the word None: {around(t)}")
        return
    exp = dict(m.nodes)
    if cmd in TYPES and not (cmd == "jsonschema" and not opts):
        exp.update(m.types)
    for o, v, exact in views(r, "succeeds", tag, what, cmd, e):
        for n, a in exp.items():
            if n not in v:
                if not (cmd == "franca" and "." not in n):
                    r.undecided("falsy", f"{tag} {n}", "node not found")
                continue
            for lab, spec in LABELS[cmd].items():
                attr, cats = spec if isinstance(spec, tuple) else (spec, None)
                if cats and category(a) not in cats:
                    continue
                k = f"{tag} {n} {lab}"
                if attr in ("min", "max", "default") and attr in a:
                    if cmd == "ddsidl" and attr != "default" and not ("min" in a and "max" in a):
                        continue
                    w = ideal(cmd, lab, a, a[attr])
                    r.verdict(None if not exact else lab in v[n] and same(v[n][lab], w), "falsy", k, f"{what}: the {attr} {txt(a[attr])} of {n} is {'exported as ' + txt(v[n][lab])[:60] if lab in v[n] else 'not exported'}")
                elif attr not in a and lab in v[n]:
                    r.verdict(None if not exact else attr == "uuid", "omitted", k, f"{what}: {n} has no {attr} but is exported with {lab} {txt(v[n][lab])[:60]}")
            for lab, x in v[n].items():
                r.verdict(None if not exact else "None" not in txt(x), "none", f"{tag} {n} {lab}", f"{what}: {lab} of {n} is exported as {txt(x)[:60]}")
        if not o.data("json") and not o.data("yaml") and cmd != "franca":
            t = o.text()
            r.verdict(None if not exact else "None" not in t, "none", tag, f"{what}: the output contains the word None: {around(t)}")


ZERO = {"boolean": {"false", "False", "0"}}
Z0 = {"0", "-0", "0.0", "-0.0", "0.0e+00", "0.0E0", "+0"}


def samm(r, j):
    """each attribute gets an ordinary number first, then zero: what carried the number must carry the zero"""
    split, depth, dts = j
    nodes = []
    for dt in dts:
        for attr in ("default", "min", "max"):
            if dt == "boolean" and attr != "default":
                continue
            nodes.append((f"V.{dt.title()}{attr.title()}", "sensor", dt, attr, {}))
            if dt != "boolean":
                nodes.append((f"V.Br.{dt.title()}{attr.title()}Unit", "actuator", dt, attr, {"unit": C("km")}))
        if dt != "boolean" and dt[0] not in "fd":
            nodes.append((f"V.Br.{dt.title()}Allowed", "attribute", dt, "default", "allowed"))
            nodes.append((f"V.{dt.title()}AllowedUnit", "sensor", dt, "default", "allowed unit"))
    nodes.append(("V.Br.Plain", "attribute", "uint8", "default", {}))

    def value(i, dt, zero):
        if dt == "boolean":
            return FALSE if zero else C(True)
        x = 0 if zero else 41 + i
        return C(float(x)) if dt in ("float", "double") and i % 2 else C(x)

    def export(zero):
        es = [N("V", "branch", description=C("d")), N("V.Br", "branch", description=C("d"))]
        for i, (n, k, dt, attr, kw) in enumerate(nodes):
            if isinstance(kw, str):
                kw = {"allowed": [C(0), C(1), C(41 + i)], **({"unit": C("km")} if "unit" in kw else {})}
            es.append(N(n, k, description=C("d"), datatype=C(dt), **{attr: value(i, dt, zero)}, **kw))
        return Export(r.world, "samm", {ROOT: File([], Data(*es)), **UNITS2, **QUANT2}, opts={"target_folder": P("/out/tf"), "output_namespace": C("com.x"), "split": C(split), "split_depth": C(depth)})
    tag = f"samm split {depth}" if split else "samm"
    what = f"samm ({'split up to depth ' + str(depth) if split else 'one file'})"
    ea, eb = export(False), export(True)
    ea.units_of(r)
    eb.units_of(r)
    oa, ob = outputs(ea), outputs(eb)
    if not oa or not ob or ea.imprecise or eb.imprecise or len(oa) > 1 or oa[0].exc is not None:
        r.undecided("falsy", tag, "the export was not followed")
        return
    ta = graph(oa[0])
    for o in ob:
        if o.exc is not None:
            r.bad("falsy", tag, f"{what}: the export of a model with zero values ends with {o.exc.name} {str(o.exc.args)[:80]}")
            continue
        tb = graph(o)
        if ta is None or tb is None:
            r.undecided("falsy", tag, "output not understood")
            continue
        got = {}
        for s, p, x, _ in tb:
            got.setdefault((s, p), set()).add(x)
        for i, (n, k, dt, attr, kw) in enumerate(nodes):
            if dt == "boolean":
                yes = {(s, p) for s, p, x, _ in ta if x in ("true", "True") and ("%s%s" % (dt, attr)).lower() in s.lower()}
            else:
                yes = {(s, p) for s, p, x, _ in ta if x in (str(41 + i), f"{41 + i}.0")}
            for s, p in sorted(yes):
                g = got.get((s, p), set())
                r.verdict(bool(g & ZERO.get(dt, Z0)), "falsy", f"{tag} {n} {attr} {p}", f"{what}: the {attr} {'false' if dt == 'boolean' else 0} of {n} is not exported as {p.split('#')[-1].split(':')[-1]} of {s.split('#')[-1]}, where an ordinary value is" + (f" (there is {sorted(g)})" if g else ""))
        for s, p, x, _ in tb:
            if "None" in x:
                r.bad("none", f"{tag} {s} {p}", f"{what}: {p.split('#')[-1]} of {s.split('#')[-1]} is exported as {x[:60]}")
        r.ok("none", tag)


def around(t):
    i = t.find("None")
    return t[max(0, i - 40):i + 20].replace("\n", " ") if i >= 0 else ""


def descr(x):
    if isinstance(x, Op) and x.name == "gql":
        x = gqlv(x)
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "description":
                yield txt(v)
            elif k != "deprecation_reason":
                yield from descr(v)
    elif isinstance(x, list):
        for v in x:
            yield from descr(v)


def gqlv(x):
    from outs import gql
    return gql(x)


def check(r):
    r.text("Every export is interpreted on a model whose minima, maxima and defaults are 0, 0.0 and false in all combinations next to nodes without them; the values read back are compared, absent ones must be absent.")
    r.pmap(job, [("samm", (s, 1, d)) for s, d in ((True, ("int8",)), (True, ("uint16",)), (True, ("float",)), (True, ("double", "boolean")), (False, ("int32",)))] + [(c, o) for c, vs in {**CMDS, **OTHER}.items() for o in vs])
    for c in ("falsy", "none"):
        r.floor(c, 20)
