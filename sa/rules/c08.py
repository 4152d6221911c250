"""C08: deleted nodes and internal bookkeeping never reach an export."""
from core import *  # noqa
from full import *
from outs import *
from rules.common import commands

BOOK = {"delete", "instantiate", "fqn", "arraysize", "aggregate", "is_instance"}
HIDDEN = {"instances"}


def base():
    return [branch("A"), branch("A.B"), leaf("A.B.Keep"), leaf("A.B.Gone"), branch("A.Del"), branch("A.Del.In"), leaf("A.Del.In.GoneX"), leaf("A.Del.GoneY"),
            leaf("A.Last")]


def put(ents, name, **kw):
    out = []
    for n, d in ents:
        if n == name:
            items = [(k, v) for k, v in d.items] + [(k, v) for k, v in kw.items()]
            d = Data(*items)
        out.append((n, d))
    return out


def mark(name, kind="sensor", **kw):
    """an overlay entry that only sets delete"""
    items = [("type", C(kind))] + ([("datatype", C("uint8"))] if kind == "sensor" else []) + [("delete", TRUE)] + list(kw.items())
    return (name, Data(*items))


def scenarios():
    b = base()
    yield "leaf", {ROOT: File([], Data(*put(b, "A.B.Gone", delete=TRUE)))}, [], {"A.B.Gone"}
    yield "branch", {ROOT: File([], Data(*put(b, "A.Del", delete=TRUE)))}, [], {"A.Del"}
    yield "inner branch", {ROOT: File([], Data(*put(b, "A.Del.In", delete=TRUE)))}, [], {"A.Del.In"}
    yield "several", {ROOT: File([], Data(*put(put(put(b, "A.B.Gone", delete=TRUE), "A.Last", delete=TRUE), "A.B.Keep", delete=TRUE)))}, [], {"A.B.Gone", "A.Last", "A.B.Keep"}
    yield "branch and child", {ROOT: File([], Data(*put(put(b, "A.Del", delete=TRUE), "A.Del.GoneY", delete=TRUE)))}, [], {"A.Del"}
    yield "branch, child not marked", {ROOT: File([], Data(*put(put(b, "A.Del", delete=TRUE), "A.Del.GoneY", delete=FALSE)))}, [], {"A.Del"}
    yield "unmarked", {ROOT: File([], Data(*put(b, "A.Del", delete=FALSE)))}, [], set()
    for k in ("attribute", "actuator"):
        b2 = [leaf(n, kind=k) if n == "A.B.Gone" else (n, d) for n, d in b]
        yield k, {ROOT: File([], Data(*put(b2, "A.B.Gone", delete=TRUE)))}, [], {"A.B.Gone"}
    o = {"/m/o.vspec": File([], Data(mark("A.B.Gone"), mark("A.Del", "branch")))}
    yield "overlay", {ROOT: File([], Data(*b)), **o}, ["/m/o.vspec"], {"A.B.Gone", "A.Del"}
    back = {"/m/p.vspec": File([], Data(N("A.Del", "branch", delete=FALSE)))}
    yield "overlay taken back", {ROOT: File([], Data(*b)), **o, **back}, ["/m/o.vspec", "/m/p.vspec"], {"A.B.Gone"}
    i = put(b, "A.B", instances=C("Row[1,2]"))
    yield "instance", {ROOT: File([], Data(*i, mark("A.B.Row2", "branch")))}, [], {"A.B.Row2"}
    yield "instance overlay", {ROOT: File([], Data(*i)), "/m/o.vspec": File([], Data(mark("A.B.Row1.Gone"), mark("A.B.Row2", "branch")))}, ["/m/o.vspec"], {"A.B.Row1.Gone", "A.B.Row2"}
    yield "template child", {ROOT: File([], Data(*put(i, "A.B.Gone", delete=TRUE)))}, [], {"A.B.Row1.Gone", "A.B.Row2.Gone", "A.B.Gone"}
    yield "instantiated branch", {ROOT: File([], Data(*put(i, "A.B", delete=TRUE)))}, [], {"A.B"}


def all_names(files, overlays):
    n = set()
    for p in [ROOT] + list(overlays):
        n |= {k for k, _ in files[p].data.items}
    return n


def gone_load(r, s):
    name, files, overlays, gone = s
    for exp in (True, False):
        if not exp and "inst" in name or not exp and name == "template child":
            continue
        f = Full(r.world, files, overlays=overlays, expand=exp)
        for root, _ in loads(r, "absent", f"load {name} {exp}", f"deleting ({name})", f):
            got = {n.fqn for n in root.walk()}
            bad = {g for g in got if any(g == d or g.startswith(d + ".") for d in gone)}
            r.verdict(None if f.imprecise else not bad, "absent", f"tree {name} {exp}", f"deleting ({name}): {sorted(bad)} still in the model")
            if "inst" not in name and name != "template child":
                want = {a for a in all_names(files, overlays) if not any(a == d or a.startswith(d + ".") for d in gone)}
                r.verdict(None if f.imprecise else got == want, "kept", f"{name} {exp}", f"deleting ({name}): nodes {sorted(got ^ want)[:5]} wrongly lost or kept")
            for n in root.walk():
                d = n.get("delete")
                r.verdict((d == FALSE) if isinstance(d, C) else None, "absent", f"flag {name} {exp} {n.fqn}", f"deleting ({name}): {n.fqn} is in the model although marked")


def types_files(**kw):
    t = [branch("T"), N("T.S", "struct"), leaf("T.S.Keep", kind="property"), leaf("T.S.Gone", kind="property"), N("T.Gone2", "struct"), leaf("T.Gone2.P", kind="property"),
         branch("T.Gone3"), N("T.Gone3.S", "struct"), leaf("T.Gone3.S.P", kind="property")]
    for k in ("T.S.Gone", "T.Gone2", "T.Gone3"):
        t = put(t, k, delete=TRUE)
    return {"/m/t.vspec": File([], Data(*t))}


def gone_export(r, cmd):
    b = put(put(base(), "A.B.Gone", delete=TRUE), "A.Del", delete=TRUE)
    files = {ROOT: File([], Data(*b)), **types_files()}
    e = Export(r.world, cmd, files, types=["/m/t.vspec"] if cmd not in ("apigear", "graphql", "samm") else [])
    e.units_of(r)
    bad = {"A.B.Gone.descr", "A.Del.descr", "A.Del.In.descr", "A.Del.In.GoneX.descr", "A.Del.GoneY.descr", "T.S.Gone.descr", "T.Gone2.descr", "T.Gone2.P.descr", "T.Gone3.descr",
           "T.Gone3.S.descr", "T.Gone3.S.P.descr"}
    os_ = outputs(e)
    if not any(o.exc is None and o.order for o in os_):
        r.undecided("absent", f"export {cmd}", "no output understood")
        return
    hit = set()
    for o in os_:
        t = o.text()
        hit |= bad & set(marks(t))
        hit |= {w for w in ("Gone", "Del") if w in t.replace("\u27e6", "").replace("Delete", "")}
        for x in o.events:
            if x.kind == "sink" and len(x.args) > 1:
                hit |= {a.path for a in atoms(x.args[1]) if isinstance(a, Sym) and a.path in bad}
    r.verdict(not hit, "absent", f"export {cmd}", f"the {cmd} export contains deleted nodes: {sorted(hit)[:4]}")


def full_leaf(name, kind="sensor"):
    return leaf(name, kind, comment=S("cm"), deprecation=S("dp"), min=C(0), max=C(5), unit=C("km"), default=C(1), fka=[C("A.Old")], constUID=C("0x12345678"), instantiate=FALSE)


def book(r, job):
    cmd, opts, o = job
    files = {ROOT: File([], Data(branch("A"), branch("A.B", instances=C("Row[1,2]"), aggregate=TRUE), full_leaf("A.B.X"), leaf("A.B.Y", datatype="uint8[]", arraysize=C(2), default=[C(1), C(2)]),
                                 leaf("A.Z", kind="attribute", datatype="string"), leaf("A.W", kind="actuator"))),
             "/m/t.vspec": File([], Data(branch("T"), N("T.S", "struct"), leaf("T.S.P", kind="property", datatype="uint8[]", arraysize=C(3)), leaf("T.S.Q", kind="property")))}
    e = Export(r.world, cmd, files, types=["/m/t.vspec"], opts=o)
    e.units_of(r)
    seen = 0

    def walk(v, path, key):
        nonlocal seen
        if isinstance(v, dict):
            isnode = any(k == C("type") for k in v) and any(k == C("description") for k in v)
            if isnode:
                seen += 1
                ks = {k.v for k in v if isinstance(k, C)}
                r.verdict(not (ks & BOOK), "bookkeeping", f"{key} {path}", f"{cmd} {opts}: {path} carries {sorted(ks & BOOK)}")
                h = ks & HIDDEN
                r.verdict(not h or "unexpanded" in opts, "bookkeeping", f"{key} {path} instances", f"{cmd} {opts}: {path} carries pending instances")
                for k, x in v.items():
                    if isinstance(k, C) and k.v != "children":
                        none = x == NONE or x == [] or x == {}
                        r.verdict(not none, "no-value", f"{key} {path} {k.v}", f"{cmd} {opts}: {path} exports {k.v} without a value")
            for k, x in v.items():
                walk(x, f"{path}.{k.v if isinstance(k, C) else k!r}", key)
        elif isinstance(v, list):
            for x in v:
                walk(x, path, key)
    for oc in outputs(e):
        if oc.exc is None:
            for d in oc.data("json" if cmd == "json" else "yaml"):
                walk(d, "", f"{cmd} {opts}")
    if not seen:
        r.undecided("bookkeeping", f"{cmd} {opts}", f"no output understood {e.imprecise[:2]}")


def job(r, j):
    {"load": gone_load, "export": gone_export, "book": book}[j[0]](r, j[1])


def check(r):
    r.text("Deletion scenarios are interpreted from the symbolic files to the final model and through every export command; the generic dictionary exports of nodes with all bookkeeping set are inspected key by key.")
    jobs = [("load", s) for s in scenarios()] + [("export", c) for c in commands(r.world)]
    for c in ("json", "yaml"):
        for n, o in (("default", {}), ("all extended attributes", {"extend_all_attributes": TRUE}), ("unexpanded", {"expand": FALSE}), ("listed", {"extended_attributes": ("x",)}), ("uuid", {"uuid": TRUE})):
            jobs.append(("book", (c, n, o)))
    r.pmap(job, jobs)
    r.floor("absent", 10)
    r.floor("bookkeeping", 6)
    r.floor("no-value", 6)
