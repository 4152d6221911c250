"""C16: the ID exporter never emits a duplicate UID and honours validate-only."""
from core import *  # noqa
from full import *
from rules.idref import *

V0 = branch("V")


def u8(n, cs=False, **k):
    return uid(n, k.pop("kind", "sensor"), k.pop("datatype", "uint8"), cs=cs, **k)


def clashes():
    """(key, entries, case_sensitive, clash?)"""
    a, b = C("0x00000AB1"), C("0x00000AB2")
    for ka, kb in (("sensor", "sensor"), ("sensor", "attribute"), ("actuator", "sensor")):
        yield f"siblings {ka} {kb}", [V0, leaf("V.A", ka, constUID=a), leaf("V.B", kb, constUID=a)], None, True
        yield f"distinct {ka} {kb}", [V0, leaf("V.A", ka, constUID=a), leaf("V.B", kb, constUID=b)], None, False
        yield f"apart {ka} {kb}", [V0, leaf("V.A", ka, constUID=a), leaf("V.B"), branch("V.C"), branch("V.C.D"), leaf("V.C.D.E", kb, constUID=a), leaf("V.C.D.F")], None, True
        yield f"cousins {ka} {kb}", [V0, branch("V.B"), leaf("V.B.X", ka, constUID=a), branch("V.C"), leaf("V.C.X", kb, constUID=a)], None, True
    yield "root and leaf", [branch("V", constUID=a), leaf("V.A"), leaf("V.B", constUID=a)], None, True
    yield "root and branch", [branch("V", constUID=a), leaf("V.A"), branch("V.B", constUID=a)], None, True
    yield "branch and its leaf", [V0, branch("V.B", constUID=a), leaf("V.B.A", constUID=a)], None, True
    yield "branch and sibling leaf", [V0, leaf("V.A", constUID=a), branch("V.B", constUID=a)], None, True
    yield "two branches", [V0, branch("V.A", constUID=a), branch("V.B", constUID=a)], None, True
    # every pair of places in one larger tree
    names = [("V", "branch"), ("V.A", "sensor"), ("V.B", "branch"), ("V.B.C", "branch"), ("V.B.C.D", "attribute"), ("V.B.E", "actuator"), ("V.F", "branch"), ("V.F.G", "sensor"), ("V.H", "sensor")]
    for i, (n, _) in enumerate(names):
        for j in range(i + 1, len(names)):
            yield f"places {n} {names[j][0]}", [(branch if k == "branch" else leaf)(x, **({} if k == "branch" else {"kind": k}), **({"constUID": a} if x in (n, names[j][0]) else {})) for x, k in names], False, True
            yield f"generated at {n} {names[j][0]}", [(branch if k == "branch" else leaf)(x, **({} if k == "branch" else {"kind": k}), **({"constUID": C(uid(n, names[i][1], *([] if names[i][1] == "branch" else ["uint8"])))} if x == names[j][0] else {})) for x, k in names], False, True
    yield "three, first and last", [V0, leaf("V.A", constUID=a), leaf("V.B", constUID=b), leaf("V.C", constUID=a)], None, True
    yield "three, last two", [V0, leaf("V.A", constUID=b), leaf("V.B", constUID=a), leaf("V.C", constUID=a)], None, True
    yield "letter case", [V0, leaf("V.A", constUID=C("0x00000AB1")), leaf("V.B", constUID=C("0x00000ab1"))], None, True
    for n, k in (("V.X", "leaf"), ("V", "branch")):
        for cs in (False, True):
            g = u8("V.X", cs) if k == "leaf" else uid("V", "branch", cs=cs)
            yield f"constant equals generated {n} {cs} after", [V0, leaf("V.X"), leaf("V.Y", constUID=C(g))], cs, True
            yield f"constant equals generated {n} {cs} before", [V0, leaf("V.A", constUID=C(g)), leaf("V.X")], cs, True
            yield f"constant equals generated {n} {cs} lower", [V0, leaf("V.A", constUID=C("0x" + g[2:].lower())), leaf("V.X")], cs, True
            yield f"constant equals own {n} {cs}", [branch("V", **({"constUID": C(g)} if k == "branch" else {})), leaf("V.X", **({"constUID": C(g)} if k == "leaf" else {}))], cs, False
        yield f"constant equals the other hash {n}", [V0, leaf("V.X"), leaf("V.Y", constUID=C(u8("V.X", True)))], False, False
    for f1, f2, c in ((["V.O"], ["V.O"], True), (["V.O"], ["V.P"], False), (["V.O", "V.P"], ["V.O", "V.Q"], True), (["V.P", "V.O"], ["V.O", "V.P"], False), (["V.o"], ["V.O"], None), (["V.B"], None, True), (["V.C"], None, False), (None, ["V.A"], True)):
        for cs in (False, True):
            m = [V0, leaf("V.A", **({"fka": [C(x) for x in f1]} if f1 else {})), leaf("V.B", **({"fka": [C(x) for x in f2]} if f2 else {}))]
            yield f"former names {f1} {f2} {cs}", m, cs, (not cs) if c is None else c
            m = [V0, leaf("V.A", **({"fka": [C(x) for x in f1]} if f1 else {})), leaf("V.B", datatype="int8", **({"fka": [C(x) for x in f2]} if f2 else {}))]
            yield f"former names {f1} {f2} {cs} other datatype", m, cs, False
    for cs in (False, True):
        yield f"names differ in case {cs}", [V0, leaf("V.Ab"), leaf("V.AB")], cs, not cs
        yield f"names differ in case, datatype too {cs}", [V0, leaf("V.Ab"), leaf("V.AB", datatype="int8")], cs, False
        yield f"allowed differ in case {cs}", [V0, leaf("V.A", datatype="string", allowed=[C("x")], fka=[C("V.O")]), leaf("V.B", datatype="string", allowed=[C("X")], fka=[C("V.O")])], cs, not cs
        yield f"branches differ in case {cs}", [V0, branch("V.Ab"), branch("V.AB")], cs, not cs
        yield f"instances {cs}", [V0, branch("V.B", instances=[C("Left"), C("LEFT")])], cs, not cs
        yield f"instances constant {cs}", [V0, branch("V.B", instances=[C("Left"), C("Right")]), leaf("V.B.X", constUID=a)], cs, True
        yield f"instances distinct {cs}", [V0, branch("V.B", instances=[C("Left"), C("Right")]), leaf("V.B.X")], cs, False
        yield f"instances former name {cs}", [V0, branch("V.B", instances=[C("Left"), C("Right")]), leaf("V.B.X", fka=[C("V.O")])], cs, True
        # a real collision of the hash: V.Sbvcs... found by the birthday search below
        for x, y in COLL[cs]:
            yield f"hash collision {x} {y} {cs}", [V0, leaf(f"V.{x}"), leaf(f"V.{y}")], cs, True
            yield f"hash collision {y} {x} {cs}", [V0, branch("V.A"), leaf(f"V.{y}"), leaf("V.B"), leaf(f"V.{x}")], cs, True
    yield "a signal called staticUID", [V0, leaf("V.staticUID"), leaf("V.B")], None, False
    yield "an extra attribute staticUID", [V0, leaf("V.A", staticUID=C("0x12345678")), leaf("V.B", staticUID=C("0x12345678"))], None, False
    yield "description equals a UID", [V0, leaf("V.A", description=C("0x00000AB1")), leaf("V.B", constUID=a)], None, False


def collide():
    """two leaf names whose identities have the same hash (computed from the definition of the identity)"""
    out = {}
    for cs in (False, True):
        seen, found = {}, []
        # the hash is a bijection of its state for a fixed suffix: equal states after the names collide
        i = 0
        while not found:
            n = "S" + _b36(i)
            b = f"V.{n}".encode()
            h = fnv1(b if cs else b.lower())
            if h in seen:
                found.append((seen[h], n))
            seen[h] = n
            i += 1
        out[cs] = found
    return out


def _b36(i):
    s = ""
    while True:
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[i % 36] + s
        i //= 36
        if not i:
            return s


COLL = {False: [], True: []}


def dup(r, cases):
    for key, m, cs, clash in cases:
        for c in ((False, True) if cs is None else (cs,)):
            e = Export(r.world, "id", {ROOT: File([], Data(*m))}, opts={"case_sensitive": c})
            k = f"{key} {c}"
            if clash:
                aborts(r, "duplicate", k, f"two nodes with the same UID ({key}), case-sensitive {c}", e)
                continue
            for o, d in entries(succeed(r, "distinct", k, f"nodes with distinct UIDs ({key}), case-sensitive {c}", e)):
                if d is None or e.imprecise:
                    r.undecided("complete", k, "output unknown")
                    continue
                want = set()
                f = Full(r.world, {ROOT: File([], Data(*m))})
                for _, root, _, _ in f.results():
                    if root is not None:
                        want |= {n.fqn for n in root.walk()}
                r.verdict(set(d) == want, "complete", k, f"the entries are {sorted(map(str, d))}, the nodes {sorted(want)} ({key})")
                us = [at(x, "staticUID") for x in d.values()]
                if all(isinstance(u, C) for u in us):
                    r.verdict(len(set(u.v.lower() for u in us)) == len(us), "complete", k + " unique", f"the written UIDs are {[u.v for u in us]} ({key})")


def models(r, _):
    """every node gets one entry, whatever the metadata"""
    S1 = S
    fs = {
        "mixed": [V0, branch("V.B"), branch("V.B.C"), leaf("V.B.C.X", unit=C("km"), min=C(0)), leaf("V.B.Y", "attribute", datatype="string", default=S1("d")), leaf("V.Z", "actuator"), branch("V.E")],
        "instances": [V0, branch("V.B", instances=C("Row[1,3]")), leaf("V.B.X"), branch("V.B.C", instances=[C("L"), C("R")]), leaf("V.B.C.Y")],
        "deleted": [V0, leaf("V.A", delete=TRUE), leaf("V.B"), branch("V.C", delete=TRUE), leaf("V.C.D")],
        "root": [V0],
        "deprecated": [V0, leaf("V.A", deprecation=S1("x")), leaf("V.B", deprecation=S1("x"))],
        "former": [V0, leaf("V.A", fka=[C("V.O")]), leaf("V.B", fka=[C("V.P")], constUID=C("0x00000001"))],
        "same metadata": [V0, leaf("V.A", description=C("d")), leaf("V.B", description=C("d")), branch("V.C"), leaf("V.C.A", description=C("d"))],
    }
    dup(r, [(k, v, None, False) for k, v in fs.items()])


VAL = {"/m/val.vspec": File([], Data(N("V", "branch", staticUID=C(uid("V", "branch"))), leaf("V.A", staticUID=C(u8("V.A")))))}
CUR = [V0, leaf("V.A", description=S("d1")), leaf("V.B", "attribute")]


def validate(r, _):
    bad = {"missing kind": File([], Data(("V", Data(("description", C("d")))))), "invalid": File([], Data(V0, leaf("V.A", datatype="nope"))), "orphan": File([], Data(V0, leaf("V.Q.A")))}
    amb = File([], Data(N("V", "branch", staticUID=C(uid("V", "branch"))), leaf("V.A", staticUID=C(u8("V.A"))), leaf("V.B", staticUID=C(u8("V.A")))))
    for strict in (False, True):
        for cs in (False, True):
            base = {"case_sensitive": cs, "strict": strict, "extended_attributes": ("staticUID",)}
            for only in (False, True):
                for val in (None, "/m/val.vspec"):
                    o2 = dict(base, validate_only=only, **({"validate_static_uid": P(val)} if val else {}))
                    k = f"only {only} file {val} strict {strict} {cs}"
                    e = Export(r.world, "id", {ROOT: File([], Data(*CUR)), **VAL}, opts=o2)
                    for o in succeed(r, "validate-only", k, f"an export with validate-only {only} and validation file {val}", e):
                        wrote = [x for x in o.events if x.kind == "sink" and x.name != "stdout"]
                        opened = [x for x in o.events if x.kind == "open" and len(x.args) > 1]
                        r.verdict(None if e.imprecise else bool(wrote) != only, "validate-only", k + " output", f"with validate-only {only} and validation file {val} the output is {'written' if wrote else 'not written'}")
                        if wrote:
                            r.verdict(None if e.imprecise else o.labels() == ["/out/output"], "validate-only", k + " where", f"writes {o.labels()}")
                        if val and wrote:
                            i = [j for j, x in enumerate(o.events) if x.kind == "sink" and x.name != "stdout"][0]
                            l = [j for j, x in enumerate(o.events) if x.kind == "log" and any(isinstance(a, (C, Cat)) and "Validation]" in repr(a) for a in x.args)]
                            rd = [j for j, x in enumerate(o.events) if x.kind == "read" and "val.vspec" in repr(x.name)]
                            r.verdict(None if e.imprecise or not l else max(l) < i, "validated first", k, "the output is written before the validation reports")
                            r.verdict(None if e.imprecise or not rd else max(rd) < i, "validated first", k + " read", "the output is written before the validation file is read")
                # a validation file that cannot be loaded or matched leaves no output
                for name, f in {**bad, "ambiguous": amb}.items():
                    if name == "ambiguous" and cs:
                        continue
                    e = Export(r.world, "id", {ROOT: File([], Data(*CUR)), "/m/val.vspec": f}, opts=dict(base, validate_only=only, validate_static_uid=P("/m/val.vspec")))
                    aborts(r, "validated first", f"{name} only {only} strict {strict} {cs}", f"a validation file that is {name}", e)
                # clashing UIDs abort although only validation is asked for
                m = [V0, leaf("V.A", constUID=C("0x00000001")), leaf("V.B", constUID=C("0x00000001"))]
                e = Export(r.world, "id", {ROOT: File([], Data(*m)), **VAL}, opts=dict(base, validate_only=only, validate_static_uid=P("/m/val.vspec")))
                aborts(r, "duplicate", f"validated only {only} strict {strict} {cs}", "two nodes with the same UID and a validation file", e)


def job(r, j):
    {"dup": dup, "models": models, "validate": validate}[j[0]](r, j[1])


def check(r):
    r.text("The ID export is interpreted for models with and without equal UIDs (constant, generated, former, colliding hashes); failing runs must write nothing, others one entry per node. Validation must precede output.")
    COLL.update(collide())
    cs = list(clashes())
    r.pmap(job, [("models", None), ("validate", None)] + [("dup", cs[i::6]) for i in range(6)])
    for c in ("duplicate", "distinct", "complete", "validate-only", "validated first"):
        r.floor(c, 2)
