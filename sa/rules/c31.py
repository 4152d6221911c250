"""C31: one load or export never leaks into the next in the same process."""
from rules.xmodel import *
from rules.c30 import sig, first_diff, model as model_a

CMDS = ("csv", "franca", "json", "yaml", "jsonschema", "id", "binary", "ddsidl", "protobuf", "graphql", "go", "apigear", "tree", "samm")
PLAIN = ("franca", "binary", "graphql", "samm")
ON = {"csv": {"uuid": True}, "franca": {"uuid": True}, "json": {"pretty": True, "extend_all_attributes": True, "uuid": True}, "yaml": {"extended_attributes": ("xa",), "uuid": True},
      "jsonschema": {"require_all_properties": True, "no_additional_properties": True}, "ddsidl": {"all_idl_features": True}, "protobuf": {"add_optional": True},
      "go": {"short_names": False}, "samm": {"output_namespace": C("org.other")}}


def a_model(cmd):
    m = model_a("plain" if cmd in PLAIN else "structs")
    if cmd not in PLAIN:
        # R of the inner namespace; T.R in the other model
        m.add("T.N.Rel", "struct", types=True)
        m.add("T.N.Rel.P", "property", types=True, datatype=C("R"))
    return m


def b_model(cmd):
    """the names of model A with other contents, fewer and other nodes"""
    m = Model(True)
    m.add("V", "branch")
    m.add("V.A", "branch")
    m.add("V.A.X0", "attribute", datatype=C("double"), default=C(2.5))
    m.add("V.A.E", "sensor", datatype=C("string"), allowed=[C("z"), C("e")])
    m.add("V.B", "sensor", datatype=C("int8"), min=C(-4))
    m.add("V.U", "branch", inst=["V.U", "V.U.L", "V.U.Q"], instances=[C("L"), C("Q")])
    m.add("V.U.X0", "sensor", datatype=C("uint8"), unit=C("cm"), inst=["V.U.L.X0", "V.U.Q.X0"])
    if cmd not in PLAIN:
        m.add("V.G", "sensor", datatype=C("T.S"))
        m.add("T", "branch", types=True)
        m.add("T.R", "struct", types=True)
        m.add("T.R.Y0", "property", types=True, datatype=C("int16"))
        m.add("T.N", "branch", types=True)
        m.add("T.N.Rel", "struct", types=True)
        m.add("T.N.Rel.P", "property", types=True, datatype=C("R"))
        m.add("T.S", "struct", types=True)
        m.add("T.S.Y1", "property", types=True, datatype=C("uint8"))
    return m


def broken_model(cmd):
    """refused for its last entry"""
    m = a_model(cmd)
    m.add("V.Zz", "sensor", datatype=C("uint8"), unit=C("no-such-unit"))
    return m


EXT = ("xa", "xb", "xc", "xd")


def go(r, cmd, m, prev=None, **opts):
    opts = dict(opts)
    if cmd == "samm":
        opts = {"target_folder": P("/out/tf"), "output_namespace": C("com.x"), **opts}
    if opts.pop("only", None):
        return run(r, cmd, m, prev=prev, **opts)
    opts["extended_attributes"] = tuple(dict.fromkeys(tuple(opts.get("extended_attributes", ())) + EXT))
    return run(r, cmd, m, prev=prev, **opts)


def sigs(e):
    return sorted((sig(o) for o in outputs(e)), key=repr)


def states(e):
    return [s for _, s in (e.outs or ())]


def defaults(r, e, tag):
    """objects that are default values of parameters keep the value they were created with"""
    n = 0
    for v, st in e.outs:
        for f in {f for f in fns(st)}:
            for d in [*f.defaults, *(f.kwdefaults.values() if isinstance(f.kwdefaults, dict) else f.kwdefaults)]:
                d = d[1] if isinstance(d, tuple) and not isinstance(d, V) else d
                if not isinstance(d, Ref):
                    continue
                a, b = e.w.base().heap.get(d.id), st.heap.get(d.id)
                if a is None or b is None or a.kind not in ("list", "dict", "set"):
                    continue
                n += 1
                r.verdict(a.segs == b.segs, "default", f"{f.qual}" if a.segs != b.segs else f"{tag} {f.qual}", f"{tag}: {f.qual} changes an object that is the default value of a parameter")
    return n


def fns(st):
    out, seen = [], set()
    todo = [v for k, o in st.heap.items() if isinstance(k, tuple) and k[:1] == ("mod",) for v in objvals(o)]
    while todo:
        v = todo.pop()
        if isinstance(v, Bound):
            v = v.fn
        if isinstance(v, Cls):
            if v in seen:
                continue
            seen.add(v)
            todo.extend(v.attrs.values() if isinstance(v.attrs, dict) else ())
        elif isinstance(v, Fn) and v not in seen:
            seen.add(v)
            out.append(v)
    return out


def objvals(o):
    for s in o.segs or ():
        yield from (x for x in s if isinstance(x, V))
    if isinstance(o.attrs, dict):
        yield from (x for x in o.attrs.values() if isinstance(x, V))


def job(r, j):
    kind = j[0]
    if kind == "undef":
        return undef(r, *j[1:])
    _, c1, o1, m1, c2, m2 = j
    ms = {"A": a_model, "B": b_model, "broken": broken_model}
    said = [x for x in sorted(o1) if x != "only"]
    names = {"A": "the same model" if m1 == m2 else "a model", "B": "another model", "broken": "a refused model"}
    first, second = ms[m1](c1), ms[m2](c2)
    tag = f"{c1} {m1}{' ' if o1 else ''}{' '.join(sorted(o1))}, {c2} {m2}"
    what = f"{c2}: the export differs after {'an' if c1[0] in 'ai' else 'a'} {c1} export of {names[m1]}{' with --' if said else ''}{' --'.join(x.replace('_', '-') for x in said)} in the same process"
    fresh = go(r, c2, second)
    fs = sigs(fresh)
    e1 = go(r, c1, first, **o1)
    if not e1.outs or not fs:
        r.undecided("again", tag, str((e1.imprecise + fresh.imprecise)[:2])[:200])
        return
    defaults(r, e1, c1)
    for st in states(e1):
        e2 = go(r, c2, second, prev=st)
        e2.units_of(r)
        s2 = sigs(e2)
        if s2 == fs:
            r.ok("again", tag)
        elif not s2 or e2.imprecise or e1.imprecise or fresh.imprecise or len(s2) != len(fs):
            r.undecided("again", tag, str((e1.imprecise + e2.imprecise)[:2])[:200])
        else:
            x, y = next((x, y) for x, y in zip(fs, s2) if x != y)
            d = f"ends with {y[0] or 'success'} instead of {x[0] or 'success'}" if x[0] != y[0] else first_diff(x, y) if x[1] != y[1] else "other text on the terminal"
            r.bad("again", tag, f"{what}: {d}")


def undef(r, cmd, thing):
    """something only an earlier model defined is unknown in the next one"""
    a = Model(True)
    a.add("V", "branch")
    a.add("V.A", "sensor", datatype=C("uint8"), unit=C("km"))
    if thing == "struct":
        a.add("T", "branch", types=True)
        a.add("T.S", "struct", types=True)
        a.add("T.S.Y", "property", types=True, datatype=C("uint8"))
    b = Model(True)
    b.add("V", "branch")
    b.add("V.A", "sensor", datatype=C("T.S" if thing == "struct" else "uint8"), **({"unit": C("km")} if thing in ("unit", "datatypes") else {}))
    al = [C("uint8")]
    unit = lambda n, q="distance", al=al: Data((n, Data(("definition", C("d")), ("unit", C("unit-" + n)), ("quantity", C(q)), ("allowed-datatypes", al))))
    quant = lambda n: Data((n, Data(("definition", C("d")))))
    U, Q = "/m/units.yaml", "/m/quantities.yaml"
    fa = {**a.files(), U: File([], unit("km")), Q: File([], quant("distance"))}
    fb = {**b.files(), U: File([], unit("km")), Q: File([], quant("distance"))}
    if thing == "unit":
        fb[U] = File([], unit("mm"))
    elif thing == "quantity":
        fa[Q], fa[U] = File([], quant("length")), File([], unit("km", "length"))
        fb[U] = File([], unit("km", "length"))
    elif thing == "datatypes":
        fb[U] = File([], unit("km", al=[C("int8")]))
    kw = {"types": ["/m/t.vspec"]} if thing == "struct" else {}
    e1 = Export(r.world, cmd, fa, opts={"output": P("/out/output")}, units=[U], quantities=[Q], **kw)
    fresh = Export(r.world, cmd, fb, opts={"output": P("/out/output")}, units=[U], quantities=[Q])
    o1, o0 = outputs(e1), outputs(fresh)
    tag = f"{cmd} {thing}"
    if e1.imprecise or fresh.imprecise or any(o.exc is not None for o in o1) or not o1 or not o0 or any(o.exc is None for o in o0):
        r.undecided("unknown", tag, str((e1.imprecise + fresh.imprecise)[:2])[:200])
        return
    for st in states(e1):
        e2 = Export(r.world, cmd, fb, opts={"output": P("/out/output")}, units=[U], quantities=[Q], prev=st)
        o2 = outputs(e2)
        if e2.imprecise or not o2:
            r.undecided("unknown", tag, str(e2.imprecise[:2])[:200])
        else:
            d = {"datatypes": "with a datatype its unit does not allow"}.get(thing, f"with an undefined {thing}")
            r.verdict(all(o.exc is not None for o in o2), "unknown", tag, f"{cmd}: a model {d} is accepted after a model that defines it was exported in the same process")


def check(r):
    r.text("Pairs of commands are interpreted in sequence: the second run starts from everything reachable from module and class state after the first, and must write what it writes in a fresh process (same model again, another model with the same names, another command, after options, after a refused model). A unit, quantity or struct defined only by the first model is unknown to the second. Objects used as default values of parameters keep their value.")
    js = []
    for i, c in enumerate(CMDS):
        js.append(("pair", c, ON.get(c, {}), "A", c, "B"))
        if c == "samm":
            continue
        js.append(("pair", c, {}, "A", c, "A"))
        js.append(("pair", c, {}, "broken", c, "B"))
        js.append(("pair", c, ON.get(c, {}), "A", CMDS[(i + 1) % len(CMDS)], "B"))
        if c in ("json", "yaml", "jsonschema", "csv"):
            js.append(("pair", c, {"only": True}, "A", c, "A"))
        js.append(("pair", CMDS[(i + 5) % len(CMDS)], {}, "B", c, "A"))
    for c in ("csv", "json"):
        js += [("undef", c, t) for t in ("unit", "quantity", "struct", "datatypes")]
    r.pmap(job, js)
    r.floor("again", 40)
    r.floor("unknown", 4)
