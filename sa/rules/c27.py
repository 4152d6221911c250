"""C27: every node of the model appears in the export."""
from rules.xmodel import *
from rules.views import proto_parse, go_parse, gql_nodes, VIEWS
from outs import gql


def shapes(n):
    """ordered rooted trees with n nodes as nested tuples"""
    if n == 1:
        return [()]
    return [f for f in forests(n - 1)]


def forests(n):
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for t in shapes(k):
            for rest in forests(n - k):
                out.append((t,) + rest)
    return out


def plant(m, fq, shape, names, types=False, i=0):
    """a tree of the shape below the branch fq: inner nodes are branches (structs just above the leaves of a types tree)"""
    for k, s in enumerate(shape):
        n = f"{fq}.{names(k)}"
        if s:
            m.add(n, "struct" if types and all(not x for x in s) else "branch", types=types)
            plant(m, n, s, names, types, i + 1)
        else:
            m.add(n, "property" if types else ("sensor", "actuator", "attribute")[(i + k) % 3], types=types, datatype=C("uint8"))


def ok_types(s, top=True):
    """a shape usable below a types branch: leaves only below structs, structs hold leaves only"""
    if not s:
        return not top and False
    return all(not x for x in s) if not top else all(x and (all(not y for y in x) or ok_types(x)) for x in s)


def model(kind, const, types):
    m = Model(const)
    if kind.startswith("shapes"):
        n = int(kind[6])
        m.add("V", "branch")
        uniq = kind.endswith("u")
        for i, s in enumerate(f for k in range(1, n) for f in shapes(k + 1)):
            m.add(f"V.S{i}", "branch")
            plant(m, f"V.S{i}", s, (lambda k, i=i: f"N{i}x{k}") if uniq else (lambda k: "NOP"[k] if k < 3 else f"M{k}"))
        if types:
            m.add("T", "branch", types=True)
            j = 0
            for s in (f for k in range(1, n + 1) for f in shapes(k + 1)):
                if ok_types(s):
                    m.add(f"T.S{j}", "branch", types=True)
                    plant(m, f"T.S{j}", s, (lambda k, j=j: f"P{j}x{k}") if uniq else (lambda k: f"P{k}"), True)
                    j += 1
    elif kind == "deep":
        m.add("V", "branch")
        n = "V"
        for i in range(9):
            n += f".B{i}"
            m.add(n, "branch")
            if i % 3 == 1:
                m.add(f"{n}.A{i}", "sensor", datatype=C("uint8"))
        m.add(n + ".E", "sensor", datatype=C("uint8"))
    elif kind == "wide":
        m.add("V", "branch")
        for i in range(24):
            m.add(f"V.L{i}", "sensor", datatype=C("uint8"))
            if i % 6 == 0:
                m.add(f"V.B{i}", "branch")
                for k in range(3):
                    m.add(f"V.B{i}.L{k}", "actuator", datatype=C("float"))
    elif kind == "instances":
        m.add("V", "branch")
        a = [f"V.I.R{i}" for i in (1, 2, 3)]
        m.add("V.I", "branch", instances=[C("R[1,3]")], inst=["V.I"] + a)
        b = [f"{x}.J" for x in a]
        bi = [f"{x}.{y}" for x in b for y in ("L", "R")]
        m.add("V.I.A", "sensor", datatype=C("uint8"), inst=[x + ".A" for x in a])
        m.add("V.I.J", "branch", instances=[C("L"), C("R")], inst=b + bi)
        m.add("V.I.J.X", "sensor", datatype=C("uint8"), inst=[x + ".X" for x in bi])
        m.add("V.I.J.K", "branch", inst=[x + ".K" for x in bi])
        m.add("V.I.J.K.Y", "actuator", datatype=C("string"), inst=[x + ".K.Y" for x in bi])
        m.add("V.I.N", "sensor", datatype=C("uint8"), instantiate=FALSE)
        m.add("V.Z", "sensor", datatype=C("uint8"))
    elif kind == "kinds":      # every kind and datatype, deprecated, empty branches, names that repeat and contain each other
        m.add("V", "branch")
        for i, dt in enumerate(("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "boolean", "float", "double", "string", "numeric")):
            for a in ("", "[]"):
                m.add(f"V.D{i}{'A' if a else ''}", ("sensor", "actuator", "attribute")[i % 3], datatype=C(dt + a), **({"deprecation": m.s("d")} if i % 4 == 0 and not types else {}))
        m.add("V.V", "branch")
        m.add("V.V.V", "branch")
        m.add("V.V.V.V", "sensor", datatype=C("uint8"))
        m.add("V.VV", "sensor", datatype=C("uint8"))
        m.add("V.VX", "branch")
        m.add("V.VX.V", "sensor", datatype=C("uint8"))
        m.add("V.VX.Vx", "sensor", datatype=C("uint8"), comment=m.s("c"))
        m.add("V.Al", "sensor", datatype=C("string"), allowed=[C("a1"), C("a2")])
        m.add("V.Cas", "sensor", datatype=C("uint8"))
        m.add("V.CAS", "branch")
        m.add("V.CAS.X", "sensor", datatype=C("uint8"))
        m.add("V.Dp", "branch", deprecation=m.s("Dp.dep"))
        m.add("V.Dp.X", "sensor", datatype=C("uint8"))
        m.add("V.Dp.Y", "branch")
        m.add("V.Dp.Y.Z", "sensor", datatype=C("uint8"))
        m.add("V.AlD", "attribute", datatype=C("string"), allowed=[C("a1"), C("a2")], default=C("a2"), deprecation=m.s("AlD.dep"))
        m.add("V.AlN", "attribute", datatype=C("uint8"), allowed=[C(1), C(20)], deprecation=m.s("AlN.dep"))
        m.add("V.Em", "branch")
        m.add("V.El", "branch")
        m.add("V.El.Em", "branch")
        if types:
            m.add("V.St", "sensor", datatype=C("T.S"))
            m.add("V.Sa", "sensor", datatype=C("T.B.S[]"))
            m.add("T", "branch", types=True)
            m.add("T.S", "struct", types=True)
            m.add("T.S.P", "property", types=True, datatype=C("uint8"))
            m.add("T.S.S", "property", types=True, datatype=C("T.B.S"))
            m.add("T.B", "branch", types=True)
            m.add("T.B.S", "struct", types=True)
            m.add("T.B.S.P", "property", types=True, datatype=C("float[]"))
            m.add("T.B.S.A", "property", types=True, datatype=C("string"), allowed=[C("a1"), C("a2")])
            m.add("T.E", "branch", types=True)
    return m


KINDS = ("shapes4u", "shapes4s", "deep", "wide", "instances", "kinds")


def kids(nodes, n):
    return [x for x in nodes if x.startswith(n + ".") and "." not in x[len(n) + 1:]]


def isbranch(a):
    return a["type"].v == "branch"


def label_names(r, cmd, o, e, m, what, tag, opts):
    exp = {**m.nodes, **(m.types if cmd in TYPES and not (cmd == "jsonschema" and not opts.get("extend_all_attributes")) else {})}
    v = view(cmd, o)
    exact = not e.imprecise
    for n in exp:
        if cmd == "franca" and "." not in n:
            continue
        r.verdict(None if not exact else n in v, "present", f"{tag} {n}", f"{what}: {n} is missing from the export")
    if cmd == "ddsidl":
        return
    extra = [n for n in v if n not in exp]
    r.verdict(None if not exact else not extra, "only", tag, f"{what}: the export contains {extra[:3]}, which the model does not")


def proto(r, cmd, o, e, m, what, tag, opts):
    exact = not e.imprecise
    msgs = dict(proto_parse(o.content("/out/output"))[1])
    for n, a in m.nodes.items():
        if isbranch(a):
            f = msgs.get(n.replace(".", ""))
            r.verdict(None if not exact else f is not None, "present", f"{tag} {n}", f"{what}: there is no message for {n}")
        if "." in n and (p := msgs.get(n.rpartition(".")[0].replace(".", ""))) is not None:
            r.verdict(None if not exact else n.rpartition(".")[2] in [x[1] for x in p], "present", f"{tag} {n} field", f"{what}: {n} is no field of its branch")
    if m.types:
        allm = {}
        for lab in o.labels():
            if lab != "/out/output":
                seq, ms = proto_parse(o.content(lab))
                pk = [x for k, x in seq if k == "package"]
                for k, fs in ms:
                    allm[f"{pk[0] if pk else ''}.{k}"] = fs
        for n, a in m.types.items():
            t = a["type"].v
            if t == "struct":
                r.verdict(None if not exact else n in allm, "present", f"{tag} {n}", f"{what}: there is no message for {n}")
            elif t == "property" and n.rpartition(".")[0] in allm:
                r.verdict(None if not exact else n.rpartition(".")[2] in [x[1] for x in allm[n.rpartition(".")[0]]], "present", f"{tag} {n}", f"{what}: {n} is no field of its struct")


def go(r, cmd, o, e, m, what, tag, opts):
    exact = not e.imprecise
    sts = go_parse(o.text())
    d = dict(sts)
    members = [x[0] for _, ms in sts for x in ms]
    inst = tag.startswith("go instances")
    for n, a in {**m.nodes, **m.types}.items():
        t = a["type"].v
        nm = n.replace(".", "")
        if inst or opts.get("short_names", True):
            if "." in n and n not in m.types or t == "property":
                r.verdict(None if not exact else n.rpartition(".")[2] in members, "present", f"{tag} {n}", f"{what}: no struct has a member for {n}")
            continue
        if t in ("struct", "branch") and not (n in m.types and t == "branch"):
            r.verdict(None if not exact else nm in d, "present", f"{tag} {n}", f"{what}: there is no struct for {n}")
        p = n.rpartition(".")[0].replace(".", "")
        if p in d:
            r.verdict(None if not exact else n.rpartition(".")[2] in [x[0] for x in d[p]], "present", f"{tag} {n} member", f"{what}: {n} is no member of its struct")


def lower(n):
    return n[:1].lower() + n[1:]


def nonempty(m, n):
    return not isbranch(m.nodes[n]) or any(not isbranch(a) for x, a in m.nodes.items() if x.startswith(n + "."))


def graphql(r, cmd, o, e, m, what, tag, opts):
    exact = not e.imprecise
    ts = {}
    for g in o.data("gql"):
        for t in gql_nodes(gql(g)):
            ts[txt(t.get("name"))] = t
    if not ts:
        raise Unread("no types")
    for n, a in m.nodes.items():
        if not nonempty(m, n):
            continue
        r.verdict(None if not exact else n.replace(".", "_") in ts, "present", f"{tag} {n}", f"{what}: there is no type for {n}")
        p = n.rpartition(".")[0].replace(".", "_")
        if p in ts and isinstance(ts[p].get("fields"), dict):
            refs = [txt((f.get("type_") or {}).get("name")) for f in ts[p]["fields"].values() if isinstance(f, dict) and isinstance(f.get("type_"), dict)]
            r.verdict(None if not exact else n.replace(".", "_") in refs, "present", f"{tag} {n} field", f"{what}: no field of its branch has the type of {n}")


def apigear(r, cmd, o, e, m, what, tag, opts):
    exact = not e.imprecise
    mod = None
    for lab in o.labels():
        for d in o.data("yaml", lab):
            d = {txt(k): v for k, v in d.items()}
            if "interfaces" in d:
                mod = d
    if mod is None:
        raise Unread("no module")

    def table(key, sub):
        out = {}
        for x in mod.get(key, []):
            x = {txt(k): v for k, v in x.items()}
            out[txt(x["name"])] = [txt({txt(k): v for k, v in p.items()}["name"]) for p in x[sub]]
        return out
    ifs, sts = table("interfaces", "properties"), table("structs", "fields")

    def nm(n, a):
        return n.replace(".", "_") + ("_Deprecated" if "deprecation" in a else "")
    for n, a in {**m.nodes, **m.types}.items():
        t = a["type"].v
        tab = sts if n in m.types else ifs
        if t == "struct":
            r.verdict(None if not exact else nm(n, a) in tab, "present", f"{tag} {n}", f"{what}: there is no structure for {n}")
        elif t != "branch":
            pn = n.rpartition(".")[0]
            p = tab.get(nm(pn, m.nodes.get(pn) or m.types.get(pn)))
            w = n.rpartition(".")[2] + ("_Deprecated" if "deprecation" in a else "")
            r.verdict(None if not exact else p is not None and w in p, "present", f"{tag} {n}", f"{what}: {n} is no property of its {'structure' if n in m.types else 'interface'}")


READ = {"protobuf": proto, "go": go, "graphql": graphql, "apigear": apigear}
CMDS = {"csv": [{}, {"types_output": P("/out/types.csv")}], "franca": [{}], "json": [{}], "yaml": [{}], "jsonschema": [{}, {"extend_all_attributes": True}, {"no_additional_properties": True, "require_all_properties": True}], "id": [{}], "binary": [{}, {"uuid": True}],
        "ddsidl": [{}], "tree": [{}], "protobuf": [{}, {"add_optional": True}], "go": [{"short_names": False}, {}], "graphql": [{}], "apigear": [{}]}


def job(r, j):
    cmd, kind, opts = j
    m = model(kind, cmd == "binary", cmd in TYPES)
    e = run(r, cmd, m, **opts)
    what = f"{cmd} {' '.join(opts)}({kind})"
    tag = f"{cmd} {kind} {sorted(opts)}"
    for o in succeed(r, "succeeds", tag, what, e):
        try:
            READ.get(cmd, label_names)(r, cmd, o, e, m, what, tag, opts)
        except Broken as x:
            r.verdict(None if e.imprecise else False, "format", tag, f"{what}: the output is not of the format: {x}")
        except (Unread, ValueError, KeyError, IndexError, AttributeError) as x:
            r.undecided("present", tag, f"output not understood: {x!r}"[:200])


def check(r):
    r.text("Every whole-tree export is interpreted on models that contain every ordered tree shape up to a size, deep and wide trees, nested instances, all kinds and datatypes; every node of the loaded trees must be found in the output under its own name, and nothing else.")
    r.pmap(job, [(c, k, o) for c, vs in CMDS.items() for o in vs for k in (KINDS + (("shapes5u",) if r.thorough else ()))])
    r.floor("present", 500)
    r.floor("only", 8)
