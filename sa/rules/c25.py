"""C25: exporters put each metadata item under its own label."""
import re

from rules.c32 import PATH, graph
from rules.xmodel import *


def compare(r, cl, tag, what, cmd, m, v, skip=()):
    exp = dict(m.nodes)
    if cmd in TYPES:
        exp.update(m.types)
    for n, a in exp.items():
        if n not in v:
            if not (cmd == "franca" and "." not in n):
                r.undecided(cl, f"{tag} {n}", "node not found")
            continue
        got = v[n]
        for lab, spec in LABELS[cmd].items():
            attr, cats = spec if isinstance(spec, tuple) else (spec, None)
            if lab in skip or cats and category(a) not in cats:
                continue
            if cmd == "ddsidl" and lab in ("min", "max") and not ("min" in a and "max" in a):
                continue
            val = uid5(n) if attr == "uuid" and n in m.nodes else a.get(attr)
            if attr == "uuid":
                val = C(val) if val is not None else None
            k = f"{cmd} {tag} {n} {lab}"
            if val is None:
                if lab in got and not (attr == "uuid"):
                    r.bad(cl, k, f"{what}: {n} has no {attr} but is exported with {lab}: {txt(got[lab])[:80]}")
                else:
                    r.ok(cl, k)
            elif lab not in got:
                r.bad(cl, k, f"{what}: the {attr} of {n} is not exported as {lab}")
            else:
                r.verdict(same(got[lab], ideal(cmd, lab, a, val)), cl, k, f"{what}: {lab} of {n} is {txt(got[lab])[:80]}, its {attr} is {txt(val)[:80]}")


def one(r, cmd, part, parts, **opts):
    if part == "cross":
        m = cross(cmd == "binary", cmd in TYPES, arrays=cmd != "id")
    else:
        m = rich(const=cmd == "binary", types=cmd in TYPES or cmd in ("id",), part=part, parts=parts)
    if cmd not in TYPES:
        m.t, m.types = [], {}
        m.e = [x for x in m.e if x[0] not in ("V.U", "V.U2")]
        m.nodes = {k: v for k, v in m.nodes.items() if k not in ("V.U", "V.U2")}
    e = run(r, cmd, m, **opts)
    what = f"{cmd}{' ' + ' '.join(k for k, x in opts.items() if x) if opts else ''}"
    skip = set()
    if cmd == "jsonschema" and not opts.get("extend_all_attributes"):
        skip = {x for x in LABELS[cmd] if x.startswith("x-")}
        m.types = {}
    if not opts.get("uuid"):
        skip |= {"Id", "uuid", "x-uuid"}
    if cmd == "ddsidl" and not opts.get("all_idl_features"):
        skip |= {"min", "max", "default"}
    for o, v, exact in views(r, "labels", f"{cmd} {part} {sorted(opts)}", what, cmd, e):
        if exact:
            compare(r, "labels", f"{part} {sorted(opts)}", what, cmd, m, v, skip)
        else:
            r.undecided("labels", f"{cmd} {part}", str(e.imprecise[:2])[:150])


XSDT = {"uint8": "unsignedByte", "int8": "byte", "uint16": "unsignedShort", "int16": "short", "uint32": "unsignedInt", "int32": "int", "uint64": "unsignedLong", "int64": "long", "boolean": "boolean", "float": "float", "double": "double", "string": "string"}
UNITW = {"km": "kilomet", "mm": "millimet", "kg": "kilogram", "V": "volt"}


def samm(r, split):
    """the statements about a leaf: those on the characteristic that names its path, on what points to it, and on what these point to"""
    es, leaves = [N("V", "branch", description=C("droot")), N("V.Br", "branch", description=C("dbranch"), comment=C("cbranch"))], {}

    def leaf(n, kind, dt, **a):
        a["datatype"] = C(dt)
        a["description"] = C(f"descr-{len(leaves)}x")
        leaves[n] = a
        a["kind"] = kind
        es.append(N(n, kind, **{k: v for k, v in a.items() if k != "kind"}))
    i = 0
    for dt in XSDT:
        i += 1
        num = dt not in ("boolean", "string")
        x = {"default": C(60 + i) if num else (C(True) if dt == "boolean" else C(f"dflt{i}x"))}
        leaf(f"V.Ka{i}", "sensor", dt, comment=C(f"comm-{i}x"), **x)
        if num:
            u = {"unit": C("km")}
            leaf(f"V.Br.Kb{i}", "actuator", dt, min=C(20 + i), max=C(80 + i), **({} if i % 2 else u))
            leaf(f"V.Br.Kc{i}", "sensor", dt, **({"min": C(30 + i)} if i % 2 else {"max": C(40 + i)}), **(u if i % 2 else {}))
            leaf(f"V.Kd{i}", "attribute", dt, **u, **x)
        leaf(f"V.Br.Ke{i}", "sensor", dt + "[]", comment=C(f"commA-{i}x"))
        if num or dt == "string":
            al = [C(1), C(100 + i), C(5)] if num else [C("aa"), C("bb"), C("cc")]
            leaf(f"V.Kf{i}", "sensor", dt, allowed=al, **({} if i % 2 else {"default": al[1]}))
    units = {"/m/units.yaml": File([], Data(*[(u, Data(("definition", C("d")), ("unit", C("unit-" + u)), ("quantity", C("distance")), ("allowed-datatypes", [C("numeric")]))) for u in UNITW]))}
    e = Export(r.world, "samm", {ROOT: File([], Data(*es)), **units, **QUANT2}, opts={"target_folder": P("/out/tf"), "output_namespace": C("com.x"), "split": C(split), "split_depth": C(1)})
    e.units_of(r)
    tag = "samm split" if split else "samm"
    what = "samm" if split else "samm (one file)"
    for o in outputs(e):
        tr = graph(o) if o.exc is None and not e.imprecise else None
        if not tr:
            r.undecided("labels", tag, str(e.imprecise[:2])[:150] or "no output")
            continue
        by, up = {}, {}
        for s, p, x, _ in tr:
            by.setdefault(s, set()).add((p.split("#")[-1].split(":")[-1], x))
            up.setdefault(x, set()).add(s)
        of = {m.group(1): (s, x) for s, p, x, _ in tr if (m := PATH.search(x))}
        for n, a in leaves.items():
            if n not in of:
                r.undecided("labels", f"{tag} {n}", "node not found")
                continue
            c, text = of[n]
            grp, todo = set(), [c]
            while todo:
                x = todo.pop()
                if x not in grp:
                    grp.add(x)
                    todo += up.get(x, ())
            todo = list(grp)
            while todo:
                for _, x in by[todo.pop()]:
                    if x in by and x not in grp:
                        grp.add(x)
                        todo.append(x)
            says = {}
            for s in grp:
                for p, x in by[s]:
                    says.setdefault(p, set()).add(x)
            num = lambda v: {str(v), f"{v}.0", f"{v:.1e}" if isinstance(v, int) else ""} if v is not True else {"true", "True"}
            for lab, attr in (("minValue", "min"), ("maxValue", "max"), ("defaultValue", "default"), ("exampleValue", "default")):
                w = a.get(attr)
                g = says.get(lab, set())
                need = w is not None and not (attr == "default" and ((lab == "defaultValue") != ("allowed" in a)))
                k = f"{tag} {n} {lab}"
                if not need:
                    r.verdict(not g, "labels", k, f"{what}: {n} has no {attr}{' to be shown as ' + lab if w is not None else ''} but is exported with {lab} {sorted(g)}")
                else:
                    r.verdict(bool(g) and g <= num(w.v), "labels", k, f"{what}: the {attr} {txt(w)} of {n} is {'exported as ' + lab + ' ' + str(sorted(g)) if g else 'not exported as ' + lab}")
            dt = a["datatype"].v.replace("[]", "")
            g = {x.split("#")[-1].split(":")[-1] for x in says.get("dataType", set())}
            r.verdict(g == {XSDT[dt]}, "labels", f"{tag} {n} dataType", f"{what}: the datatype {a['datatype'].v} of {n} is exported as {sorted(g)}")
            g = says.get("unit", set())
            if "unit" in a and "allowed" not in a:
                r.verdict(bool(g) and all(UNITW[a["unit"].v] in x.lower() for x in g), "labels", f"{tag} {n} unit", f"{what}: the unit {a['unit'].v} of {n} is {'exported as ' + str(sorted(g)) if g else 'not exported'}")
            elif "unit" not in a:
                r.verdict(not g, "labels", f"{tag} {n} unit", f"{what}: {n} has no unit but is exported with {sorted(g)}")
            g = says.get("values", set())
            if "allowed" in a:
                want = [str(v.v) for v in a["allowed"]]
                r.verdict(len(g) == 1 and [x.strip('"') for x in next(iter(g)).strip("() ").replace(",", " ").split()] == want, "labels", f"{tag} {n} values", f"{what}: the allowed values of {n}, {want}, are exported as {sorted(g)}")
            else:
                r.verdict(not g, "labels", f"{tag} {n} values", f"{what}: {n} has no allowed values but is exported with {sorted(g)}")
            for lab, attr in (("Description", "description"), ("Comment", "comment")):
                m = re.search(rf"^{lab}\s*:\s*(.*)$", text, re.M)
                g = m.group(1).strip() if m else None
                w = a[attr].v if attr in a else None
                r.verdict(g == w, "labels", f"{tag} {n} {lab}", f"{what}: {lab} of {n} is {g!r}, its {attr} is {w!r}")


VARIANTS = {"csv": [{}, {"uuid": True}, {"types_output": P("/out/types.csv")}], "franca": [{}, {"uuid": True}], "json": [{}, {"uuid": True, "pretty": True}], "yaml": [{}, {"uuid": True}],
            "jsonschema": [{}, {"extend_all_attributes": True, "uuid": True}], "id": [{}], "binary": [{}, {"uuid": True}], "ddsidl": [{}, {"all_idl_features": True, "uuid": True}]}


def job(r, j):
    cmd, part, parts, opts = j
    if cmd == "samm":
        return samm(r, part)
    one(r, cmd, part, parts, **opts)


def check(r):
    r.text("Every export with labelled metadata (CSV, Franca, JSON, YAML, JSON schema, ID, binary, DDS-IDL, SAMM) is interpreted on a model in which every item is unique and leaves carry all subsets of the optional attributes; each item read back under a label is compared with that attribute of that node.")
    n = 4
    r.pmap(job, [("samm", x, 0, {}) for x in (True, False)] + [(c, i, n, o) for c, vs in VARIANTS.items() for k, o in enumerate(vs) for i in range(n) if r.thorough or k == 0 or i % 2 == k % 2] + [(c, "cross", n, o) for c, vs in VARIANTS.items() for k, o in enumerate(vs) if r.thorough or k == len(vs) - 1])
    r.floor("labels", 100)
