"""C12: every node has a legal kind, mandatory fields and a legal parent."""
from core import *  # noqa
from full import *
from treectx import flat

KINDS = ["branch", "sensor", "actuator", "attribute", "struct", "property"]
LEAF = KINDS[1:4] + ["property"]


def legal(child, parent):
    if child == "property":
        return parent == "struct"
    if child == "struct":
        return parent in ("branch", "struct")
    return parent == "branch"


def ent(name, kind, **kw):
    return leaf(name, kind, **kw) if kind in LEAF else N(name, kind, **kw)


def chain(kinds, root="A"):
    """entries R(branch) -> N1 -> N2 ..; every level named after its kind"""
    out, n = [branch(root)], root
    for i, k in enumerate(kinds):
        n += f".{k.capitalize()}{i}"
        out.append(ent(n, k))
    return out


def holds(kinds):
    ks = ["branch"] + list(kinds)
    return all(legal(c, p) for p, c in zip(ks, ks[1:]))


def logged(f, name):
    """some log entry of every failing path names the node; None when unknown"""
    ok = []
    for e, root, _, st in f.results():
        if e is None:
            continue
        texts = [a for x, _ in flat(st.events()) if x.kind == "log" and x.name in ("critical", "error", "warning", "exception") for a in x.args]
        said = any(name in str(C(c.v) if isinstance(c, C) else c) for t in texts for c in atoms(t))
        ok.append(said or name in str(e.args))
    return all(ok) if ok else None


def parents(r, j):
    kinds, where = j
    ents = chain(kinds, "A" if where == "model" else "T")
    key = f"{where} {'/'.join(kinds)}"
    if where == "model":
        f = Full(r.world, {ROOT: File([], Data(*ents))})
    elif where == "overlay":
        ents = chain(kinds, "A")
        f = Full(r.world, {ROOT: File([], Data(*ents[:2])), "/m/o.vspec": File([], Data(*ents[2:]))}, overlays=["/m/o.vspec"])
    elif where == "instance":
        ents = [branch("A"), branch("A.I", instances=[C("L"), C("R")])] + [(n.replace("A.", "A.I.", 1), d) for n, d in chain(kinds, "A")[1:]]
        f = Full(r.world, {ROOT: File([], Data(*ents))})
    else:
        f = Full(r.world, {ROOT: File([], Data(branch("A"))), "/m/t.vspec": File([], Data(*ents))}, types=["/m/t.vspec"])
    what = f"a tree of {' below '.join(reversed(['branch'] + list(kinds)))} ({where})"
    if holds(kinds):
        loads(r, "parent", key, what, f)
    else:
        fails(r, "parent", key, what + " is accepted", f)


def siblings(r, _):
    """one illegal node among legal ones, anywhere; all of them are named"""
    base = [branch("A"), branch("A.B"), leaf("A.B.X"), branch("A.C"), leaf("A.C.Y"), leaf("A.Z")]
    bad = {"A.B.X.Bad1": "sensor", "A.C.Bad2": "property", "A.Z.Bad3": "branch"}
    import itertools
    for n in (1, 2, 3):
        for sel in itertools.combinations(bad, n):
            f = Full(r.world, {ROOT: File([], Data(*base, *[ent(x, bad[x]) for x in sel]))})
            fails(r, "parent", f"among {sel}", f"illegal nodes {sel} are accepted", f)
            for x in sel:
                l = logged(f, x)
                r.verdict(True if l else (None if f.imprecise or l is None else False), "reported", f"{sel} {x}", f"the illegal node {x} is not reported (illegal: {sel})")


def mandatory(r, _):
    for where in ("model", "overlay", "types", "instance"):
        for k in KINDS:
            if where == "types" and k not in ("struct", "property", "branch") or where != "types" and k == "property":
                continue
            for drop in ("description", "datatype", "type", None):
                if drop == "datatype" and k not in LEAF:
                    continue
                pre = "T" if where == "types" else "A"
                par = [branch(pre)] + ([N(pre + ".S", "struct")] if k == "property" else [branch(pre + ".S")])
                name = pre + ".S.X"
                e = ent(name, k, **({drop: DROP} if drop and drop != "type" else {}))
                if drop == "type":
                    e = (name, Data(*[(a, b) for a, b in e[1].items if a != "type"]))
                rest = [leaf(pre + ".S.Y", "property" if k == "property" else "sensor")]
                kw = {}
                if where == "model":
                    fs = {ROOT: File([], Data(*par, e, *rest))}
                elif where == "overlay":
                    fs, kw = {ROOT: File([], Data(*par, *rest)), "/m/o.vspec": File([], Data(e))}, {"overlays": ["/m/o.vspec"]}
                elif where == "types":
                    fs, kw = {ROOT: File([], Data(branch("A"))), "/m/t.vspec": File([], Data(*par, e, *rest))}, {"types": ["/m/t.vspec"]}
                else:
                    fs = {ROOT: File([], Data(par[0], branch("A.S", instances=C("R[1,2]")), e, *rest))}
                f = Full(r.world, fs, **kw)
                key = f"{where} {k} without {drop}"
                if drop:
                    fails(r, "mandatory", key, f"a {k} without {drop} ({where}) is accepted", f)
                else:
                    loads(r, "mandatory", key, f"a complete {k} ({where})", f)
    for t in ("Sensor", "sensors", "signal", "", "leaf", "node", "enum", "SENSOR", " sensor"):
        for p in ("A.X", "A.B.X"):
            fs = {ROOT: File([], Data(branch("A"), branch("A.B"), leaf("A.B.Y"), (p, Data(("type", C(t)), ("datatype", C("uint8")), ("description", S("d"))))))}
            fails(r, "kind", f"{t!r} {p}", f"the node kind {t!r} is accepted", Full(r.world, fs))
    for k in KINDS:
        fs = {ROOT: File([], Data(branch("A"), N("A.S", "struct"), ent("A.S.X" if k == "property" else "A.X", k)))}
        for root, _ in loads(r, "kind", k, f"the node kind {k}", Full(r.world, fs)):
            x = [n for n in root.walk() if n.name == C("X")]
            t = x[0].get("type") if x else None
            v = t.value if isinstance(t, EnumM) else t
            r.verdict(v == C(k) if isinstance(v, C) else None, "kind", k + " kept", f"the kind {k} becomes {v}")


def uid(r, _):
    good = ["0x12345678", "0xABCDEF01", "0xabcdef01", "0x00000000", "0xFFFFFFFF", "0xaBcD0129"]
    bad = ["0x1234567", "0x123456789", "12345678", "0x1234567G", "0X12345678", "0x12345678 ", " 0x12345678", "0x12345678\n", "\n0x12345678", "", "0x", "x12345678", "0x1234 678", "0x12345678x", "00x12345678", "0x-1234567",
           "0x12345678\n\n", "0x1234567\n"]
    for k in KINDS:
        par = [branch("A"), N("A.S", "struct")] if k == "property" else [branch("A")]
        name = "A.S.X" if k == "property" else "A.X"
        for v in good + bad:
            f = Full(r.world, {ROOT: File([], Data(*par, ent(name, k, constUID=C(v))))})
            if v in good:
                for root, _t in loads(r, "constUID", f"{k} {v!r}", f"the constant UID {v!r} on a {k}", f):
                    x = [n for n in root.walk() if n.name == C("X")]
                    u = x[0].get("constUID") if x else None
                    r.verdict(u == C(v) if isinstance(u, C) else None, "constUID", f"{k} {v!r} kept", f"the constant UID {v!r} becomes {u}")
            else:
                fails(r, "constUID", f"{k} {v!r}", f"the constant UID {v!r} on a {k} is accepted", f)
        f = Full(r.world, {ROOT: File([], Data(*par, ent(name, k, constUID=C(12345678))))})
        fails(r, "constUID", f"{k} number", f"a number as constant UID on a {k} is accepted", f)
        f = Full(r.world, {ROOT: File([], Data(*par, ent(name, k)))})
        loads(r, "constUID", f"{k} none", f"a {k} without constant UID", f)


def job(r, j):
    {"parents": parents, "siblings": siblings, "mandatory": mandatory, "uid": uid}[j[0]](r, j[1])


def check(r):
    r.text("Loading is interpreted for every chain of node kinds up to depth three in the model, an overlay, below an instantiated branch and in the types tree, for every kind without each mandatory field, and for well and ill formed constant UIDs.")
    jobs = [("siblings", None), ("mandatory", None), ("uid", None)]
    for w in ("model", "types", "overlay", "instance"):
        for a in KINDS:
            for b in KINDS:
                if w in ("model", "types", "overlay"):
                    jobs.append(("parents", ((a, b), w)))
                for c in KINDS:
                    if w == "model" or r.thorough or w == "types" and (a, b) == ("struct", "struct") or w == "instance" and a == "branch":
                        jobs.append(("parents", ((a, b, c), w)))
    for a in KINDS:
        for w in ("model", "types", "instance"):
            jobs.append(("parents", ((a,), w)))
    r.pmap(job, jobs)
    for c in ("parent", "reported", "mandatory", "kind", "constUID"):
        r.floor(c, 5)
