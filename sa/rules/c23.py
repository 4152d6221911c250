"""C23: CSV columns and rows always line up."""
from rules.xmodel import *

HEAD = ["Type", "DataType", "Deprecated", "Unit", "Min", "Max", "Desc", "Comment", "Allowed", "Default"]


def model(kind, part):
    if kind == "rich":
        return rich(part=part, parts=4)
    m = Model()
    m.add("V", "branch")
    vals = [C(0), C(0.0), C(1), C(-1)]
    if kind == "falsy":
        for i, v in enumerate(vals):
            dt = C("int8") if isinstance(v.v, int) else C("float")
            m.add(f"V.A{i}", "attribute", datatype=dt, min=v, default=v)
            m.add(f"V.B{i}", "sensor", datatype=dt, max=v)
        m.add("V.F", "attribute", datatype=C("boolean"), default=FALSE)
        m.add("V.T", "attribute", datatype=C("boolean"), default=TRUE)
        m.add("V.L", "attribute", datatype=C("boolean[]"), default=[FALSE])
        m.add("T", "branch", types=True)
        m.add("T.S", "struct", types=True)
        m.add("T.S.P", "property", types=True, datatype=C("int8"), min=C(0), max=C(0), default=C(0))
        m.add("T.S.Q", "property", types=True, datatype=C("boolean"), default=FALSE)
    elif kind == "plain":
        m.full("V.A")
        m.add("V.B", "branch")
        m.full("V.B.C", "attribute", ("default",))
    return m


def table(r, tag, what, rows, nodes, first, uuids, inst, instances, exact):
    """one CSV file: header and one row per node"""
    if not rows or not all(isinstance(x, list) for x in rows):
        r.undecided("rows", tag, "rows not understood")
        return
    head = [txt(x) for x in rows[0]]
    want = [first] + HEAD + (["Id"] if uuids else []) + (["Instances"] if inst else [])
    r.verdict(None if any("\u27e6?" in x for x in head) else head[:1] == want[:1] and sorted(head[1:]) == sorted(want[1:]), "header", tag, f"{what}: the header is {head}, expected {want}")
    names = []
    for x in rows[1:]:
        n = txt(x[0]) if x else "?"
        names.append(n)
        if len(x) != len(head):
            r.bad("align", f"{tag} {n}", f"{what}: the row of {n} has {len(x)} cells, the header {len(head)} columns") if exact else r.undecided("align", f"{tag} {n}", "imprecise")
            continue
        r.ok("align", f"{tag} {n}")
        if n not in nodes:
            continue
        a = dict(nodes[n])
        for h, cell in zip(head, x):
            attr = {"Type": "type", "DataType": "datatype", "Deprecated": "deprecation", "Unit": "unit", "Min": "min", "Max": "max", "Desc": "description", "Comment": "comment", "Allowed": "allowed", "Default": "default"}.get(h)
            k = f"{tag} {n} {h}"
            if attr:
                v = a.get(attr)
                w = "" if v is None else txt(v)
            elif h == "Id":
                if n.split(".")[0] == "T":
                    continue
                w = uid5(n)
            elif h == "Instances":
                v = instances.get(n)
                w = "" if v is None else txt(v)
            else:
                continue
            ok = same(cell, w) if cell != [] or w != "" else True
            r.verdict(ok if exact else None, "cells", k, f"{what}: the {h} cell of {n} is {txt(cell)[:60]!r}, expected {w[:60]!r}")
    if exact:
        for n in nodes:
            r.verdict(names.count(n) == 1, "rows", f"{tag} {n}", f"{what}: {n} has {names.count(n)} rows")
        extra = [n for n in names if n not in nodes]
        r.verdict(not extra, "rows", f"{tag} extra", f"{what}: rows for {extra[:3]} that are no nodes")


def job(r, j):
    kind, part, uu, expand, types, sep = j
    m = model(kind, part)
    if not types:
        m.t, m.types = [], {}
        m.e = [x for x in m.e if x[0] not in ("V.U", "V.U2")]
        m.nodes = {k: v for k, v in m.nodes.items() if k not in ("V.U", "V.U2")}
    opts = {"uuid": uu, "expand": expand}
    if sep:
        opts["types_output"] = P("/out/types.csv")
    nodes, inst = m.nodes, {}
    if not expand:
        nodes = {n: None for n, _ in m.e}
        for n in nodes:
            nodes[n] = m.nodes.get(n) or next(v for k, v in m.nodes.items() if k.startswith("V.I.R1.P.") and k.replace("V.I.R1.P.", "V.I.") == n)
        if kind == "rich":
            inst["V.I"] = [C("R[1,2]"), [C("P"), C("Q")]]
    what = f"csv{' --uuid' if uu else ''}{'' if expand else ' --no-expand'}{' --types' if types else ''}{' --types-output' if sep else ''}"
    tag = f"{kind} {part} {uu} {expand} {types} {sep}"
    e = run(r, "csv", m, **opts)
    for o in succeed(r, "succeeds", tag, what, e):
        def rows(lab):
            return [x for rs in o.data("rows", lab) for x in rs]
        exact = not e.imprecise
        if not exact:
            r.undecided("rows", tag, str(e.imprecise[:2])[:150])
        both = types and not sep
        main = dict(nodes)
        if both:
            main.update(m.types)
        table(r, tag, what, rows("/out/output"), main, "Node" if both else "Signal", uu, not expand, inst, exact)
        if types and sep:
            table(r, tag + " types", what + " (types file)", rows("/out/types.csv"), m.types, "Node", uu, not expand, {}, exact)


def check(r):
    r.text("The CSV export is interpreted for models with all subsets of the optional attributes and falsy values x UUIDs x expansion x no, combined or separate types; header, rows and every cell are compared.")
    js = []
    for uu in (False, True):
        for expand in (True, False):
            for types, sep in ((False, False), (True, False), (True, True), (False, True)):
                js += [("falsy", 0, uu, expand, types, sep)]
                js += [("rich", i, uu, expand, types, sep) for i in range(4) if r.thorough or i == (uu * 2 + expand) % 4]
    r.pmap(job, js)
    for c in ("header", "align", "cells", "rows"):
        r.floor(c, 4)
