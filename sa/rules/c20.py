"""C20: every predefined datatype maps to a target type that can hold it."""
from rules.xmodel import *
from rules.views import idl_decls, proto_parse, go_parse, gql_nodes
from outs import gql

INF = float("inf")
RANGE = {f"{u}int{n}": ((0, 2**n - 1) if u else (-2**(n - 1), 2**(n - 1) - 1)) for u in ("", "u") for n in (8, 16, 32, 64)}
MANT = {"float": 24, "double": 53, "numeric": 53}


def ints(**kw):
    return {k.replace("_", " "): ("int", *v) for k, v in kw.items()}


R = RANGE
# target type names: (kind, lo, hi) for integers, (kind, bits of the significand) for floating point
TARGET = {
    "ddsidl": {"octet": ("int", 0, 255), "short": ("int", *R["int16"]), "unsigned short": ("int", *R["uint16"]), "long": ("int", *R["int32"]), "unsigned long": ("int", *R["uint32"]),
               "long long": ("int", *R["int64"]), "unsigned long long": ("int", *R["uint64"]), **{k: ("int", *v) for k, v in R.items()},
               "float": ("float", 24), "double": ("float", 53), "long double": ("float", 64), "boolean": ("boolean",), "string": ("string",), "wstring": ("string",)},
    "protobuf": {**{k: ("int", *R[v]) for k, v in {"int32": "int32", "sint32": "int32", "sfixed32": "int32", "uint32": "uint32", "fixed32": "uint32", "int64": "int64", "sint64": "int64", "sfixed64": "int64", "uint64": "uint64", "fixed64": "uint64"}.items()},
                 "float": ("float", 24), "double": ("float", 53), "bool": ("boolean",), "string": ("string",)},
    "go": {**{k: ("int", *v) for k, v in R.items()}, "byte": ("int", 0, 255), "rune": ("int", *R["int32"]), "int": ("int", *R["int32"]), "uint": ("int", *R["uint32"]), "float32": ("float", 24), "float64": ("float", 53), "bool": ("boolean",), "string": ("string",)},
    "graphql": {"GraphQLInt": ("int", *R["int32"]), "GraphQLFloat": ("float", 53), "GraphQLBoolean": ("boolean",), "GraphQLString": ("string",)},
    "jsonschema": {"integer": ("int", -INF, INF), "number": ("float", INF), "boolean": ("boolean",), "string": ("string",)},
    "apigear": {"int32": ("int", *R["int32"]), "int64": ("int", *R["int64"]), "int": ("int", *R["int32"]), "float32": ("float", 24), "float64": ("float", 53), "float": ("float", 24), "bool": ("boolean",), "string": ("string",)},
    "samm": {**{k: ("int", *R[v]) for k, v in {"byte": "int8", "unsignedByte": "uint8", "short": "int16", "unsignedShort": "uint16", "int": "int32", "unsignedInt": "uint32", "long": "int64", "unsignedLong": "uint64"}.items()},
             "integer": ("int", -INF, INF), "nonNegativeInteger": ("int", 0, INF), "decimal": ("float", INF), "float": ("float", 24), "double": ("float", 53), "boolean": ("boolean",), "string": ("string",)},
}
DOCUMENTED = {("ddsidl", "int8", "octet")}     # docs/ddsidl.md


def holds(cmd, src, t):
    """None if the target type is not known"""
    tab = TARGET[cmd]
    if (cmd, src, t) in DOCUMENTED:
        return True
    if t not in tab:
        return False
    d = tab[t]
    if src in RANGE:
        lo, hi = RANGE[src]
        # every value exactly: an integer range, or a significand wide enough
        exact = lambda x: x[1] <= lo and x[2] >= hi if x[0] == "int" else x[0] == "float" and 2 ** min(x[1], 2000) >= max(hi, -lo)
        if exact(d):
            return d[0] == "int" or not any(x[0] == "int" and exact(x) for x in tab.values())
        if any(exact(x) for x in tab.values()):
            return False
        # no type of the target is large enough: the widest integer, or a floating point type that covers the range
        widest = max((x for x in tab.values() if x[0] == "int"), key=lambda x: x[2] - x[1])
        return d[0] == "float" and d[1] >= 53 or d == widest and d[2] >= 2 ** 53
    if src in MANT:
        return d[0] == "float" and d[1] >= MANT[src]
    return d[0] == src


def seq_name(t):
    """(element, is it a sequence) of a printed type"""
    t = t.strip()
    if t.startswith("sequence<") and t.endswith(">"):
        return t[9:-1].split(",")[0].strip(), True
    if t.startswith("[]"):
        return t[2:], True
    if t.startswith("repeated "):
        return t[9:].strip(), True
    if t.startswith("optional "):
        t = t[9:].strip()
    return t, False


def types_of(cmd, o):
    """{qualified name: (element type, is a sequence)} for the leaves and properties of an export"""
    out = {}
    if cmd == "ddsidl":
        for k, path, d in idl_decls(o.text()):
            if k == "member":
                t, name = d[0], d[1]
                dim = d[2]
                n = ".".join(path) if path[0] == "V" else ".".join(path) + "." + name
                if path[0] == "V" and name != "value":
                    continue
                e, s = seq_name(t)
                out[n] = (e, s or bool(dim))
    elif cmd == "protobuf":
        for lab in o.labels():
            seq, msgs = proto_parse(o.content(lab))
            pk = [x for k, x in seq if k == "package"]
            for m, fs in msgs:
                for t, n, _ in fs:
                    out[(pk[0] + "." if pk else "") + m + "." + n] = seq_name(t)
    elif cmd == "go":
        for m, fs in go_parse(o.text()):
            for n, t in fs:
                out[("V." if m == "V" else "T.S.") + n] = seq_name(t)
    elif cmd == "graphql":
        for g in o.data("gql"):
            for t in gql_nodes(gql(g)):
                f = t.get("fields")
                if isinstance(f, dict) and "value" in f:
                    x = f["value"].get("type_")
                    s = False
                    while isinstance(x, dict) and x.get("kind") in ("GraphQLList", "GraphQLNonNull"):
                        s = s or x["kind"] == "GraphQLList"
                        x = x.get("of")
                    out[txt(t["name"]).replace("_", ".")] = (x.name.split(".")[-1] if isinstance(x, Ext) else txt(x), s)
    elif cmd == "jsonschema":
        from rules.views import view
        for n, a in view(cmd, o).items():
            if "type" in a:
                t = txt(a["type"])
                it = a.get("items")
                out[n] = (None if t == "array" else t, t == "array")
                if t == "array" and isinstance(it, dict):
                    it = {txt(k): v for k, v in it.items()}
                    if "type" in it:
                        out[n] = (txt(it["type"]), True)
    elif cmd == "apigear":
        for lab in o.labels():
            for d in o.data("yaml", lab):
                d = {txt(k): v for k, v in d.items()}
                for key, sub in (("interfaces", "properties"), ("structs", "fields")):
                    for x in d.get(key, []):
                        x = {txt(k): v for k, v in x.items()}
                        for p in x[sub]:
                            p = {txt(k): v for k, v in p.items()}
                            out[txt(x["name"]).replace("_", ".") + "." + txt(p["name"])] = (txt(p["type"]), txt(p.get("array", FALSE)) == "True")
    return out


CMDS = {"ddsidl": [{}, {"all_idl_features": True}], "protobuf": [{}, {"add_optional": True}], "go": [{"short_names": False}, {}], "graphql": [{}], "jsonschema": [{}, {"extend_all_attributes": True}], "apigear": [{}]}


def model(types, kind):
    m = Model()
    m.add("V", "branch")
    kinds = ("sensor", "actuator", "attribute")
    for i, dt in enumerate(SCALARS):
        for a in ("", "[]"):
            n = "X" + dt + ("A" if a else "")
            kw = {}
            if kind == "limits" and dt in NUM:
                kw = {"min": C(NUM[dt][0]), "max": C(NUM[dt][1]), "unit": C("km")}
            if kind == "sized" and a:
                kw = {"arraysize": C(3)}
            m.add("V." + n, kinds[i % 3], datatype=C(dt + a), **kw)
    if kind == "allowed":
        m.add("V.Al", "sensor", datatype=C("string"), allowed=[C("a1"), C("a2")])
        m.add("V.AlA", "sensor", datatype=C("string[]"), allowed=[C("a1"), C("a2")])
        m.add("V.AlU", "sensor", datatype=C("uint16"), allowed=[C(1), C(300)])
        m.add("V.AlUA", "sensor", datatype=C("uint16[]"), allowed=[C(1), C(300)])
    if types:
        m.add("T", "branch", types=True)
        m.add("T.S", "struct", types=True)
        for i, dt in enumerate(SCALARS):
            for a in ("", "[]"):
                m.add("T.S.X" + dt + ("A" if a else ""), "property", types=True, datatype=C(dt + a), **({"arraysize": C(3)} if kind == "sized" and a else {}))
    return m


def samm(r, j):
    from rules.c32 import PATH, graph
    split, part = j
    m, dts = [N("V", "branch", description=C("d")), N("V.Br", "branch", description=C("d"))], {}
    for i, dt in enumerate((*SCALARS,)):
        if i % 2 != part:
            continue
        for suf in ("", "[]"):
            for kind, kw in (("sensor", {}), ("attribute", {})) + ((("actuator", {"min": C(1), "max": C(7)}), ("sensor", {"unit": C("km")})) if dt in NUM and not suf else ()):
                n = f"V.{'Br.' if suf else ''}K{len(dts)}"
                dts[n] = dt + suf
                m.append(N(n, kind, description=C("d"), datatype=C(dt + suf), **kw))
    e = Export(r.world, "samm", {ROOT: File([], Data(*m)), **UNITS2, **QUANT2}, opts={"target_folder": P("/out/tf"), "output_namespace": C("com.x"), "split": C(split), "split_depth": C(1)})
    e.units_of(r)
    for o in outputs(e):
        tr = graph(o) if o.exc is None and not e.imprecise else None
        if not tr:
            r.undecided("maps", "samm", str(e.imprecise[:2])[:150] or "no output")
            continue
        loc = lambda x: x.split("#")[-1].split(":")[-1]
        by = {}
        for s, p, x, _ in tr:
            by.setdefault(s, []).append((loc(p), x))
        seen = {}
        for s, p, x, _ in tr:
            if mm := PATH.search(x):
                seen.setdefault(mm.group(1), set()).add(s)
        for n, dt in dts.items():
            ts = sorted({loc(x) for s in seen.get(n, ()) for p, x in by[s] if p == "dataType"})
            sc, arr = dt.replace("[]", ""), dt.endswith("[]")
            if len(ts) != 1:
                r.undecided("maps", f"samm {dt} {n}", f"types found: {ts}")
                continue
            r.verdict(holds("samm", sc, ts[0]), "maps", f"samm {dt}: {ts[0]}", f"samm: {n} of datatype {dt} becomes {ts[0]}, which cannot hold every {sc}")
            kinds = {loc(x) for s in seen[n] for p, x in by[s] if p == "type"}
            coll = {"List", "Set", "SortedSet", "Collection", "TimeSeries"}
            r.verdict(bool(kinds & coll) == arr, "sequence", f"samm {dt}", f"samm: {n} of datatype {dt} becomes a {sorted(kinds)} of {ts[0]}")


def job(r, j):
    cmd, opts, kind = j
    if cmd == "samm":
        return samm(r, kind)
    m = model(cmd in TYPES, kind)
    e = run(r, cmd, m, **opts)
    what = f"{cmd}{' ' + ' '.join(opts) if opts else ''} ({kind})"
    for o in succeed(r, "total", f"{cmd} {kind} {sorted(opts)}", what, e):
        try:
            got = types_of(cmd, o)
        except (Unread, Broken, ValueError, KeyError, IndexError, AttributeError, TypeError) as x:
            r.undecided("maps", f"{cmd} {kind} {sorted(opts)}", f"output not understood: {x!r}"[:200])
            continue
        exact = not e.imprecise
        for n, a in {**m.nodes, **(m.types if not (cmd == "jsonschema" and not opts) else {})}.items():
            if "datatype" not in a:
                continue
            dt = txt(a["datatype"])
            arr, sc = dt.endswith("[]"), dt.rstrip("[]")
            enum = ("enum " if "allowed" in a else "") + ("property " if n in m.types else "")
            if n not in got:
                r.undecided("maps", f"{cmd} {enum}{dt}", "not found in the output")
                continue
            t, seq = got[n]
            r.verdict(None if not exact else seq == arr, "sequence", f"{cmd} {enum}{dt}", f"{what}: {n} of datatype {dt}{' with allowed values' if 'allowed' in a else ''} becomes {'a sequence of' if seq else 'a single'} {t}")
            if "allowed" in a or t is None:
                continue
            r.verdict(None if not exact else holds(cmd, sc, t), "maps", f"{cmd} {enum}{dt}: {t}", f"{what}: {n} of datatype {dt} becomes {t}, which cannot hold every {sc}")


def check(r):
    r.text("Every datatype-translating exporter is interpreted on models with each predefined scalar datatype and its array form, as signals and struct properties, plain, with limits, sizes and allowed values; the target type found in the output is compared by kind and value range with the source type.")
    r.pmap(job, [("samm", {}, x) for x in ((True, 0), (True, 1), (False, 0), (False, 1))] + [(c, o, k) for c, vs in CMDS.items() for i, o in enumerate(vs) for k in ("plain", "limits", "sized", "allowed") if r.thorough or i == 0 or k in ("plain", "allowed")])
    r.floor("maps", 100)
    r.floor("sequence", 100)
