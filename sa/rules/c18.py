"""C18: protobuf field numbers are legal, unique and stable."""
from rules.xmodel import *
from rules.views import proto_parse

MAXN = 2**29 - 1
EXT = {"extended_attributes": ("staticUID",)}


def uid(n, k=0):
    """a static UID text whose field number is n"""
    return C("0x%08X" % (n * 8 + k))


def messages(o, types):
    """{message name with package: [(type, name, number)]}; only what can be read"""
    out = {}
    for lab in o.labels():
        seq, msgs = proto_parse(o.content(lab))
        pk = [x for k, x in seq if k == "package"]
        for m, fs in msgs:
            out[(pk[0] + "." if pk else "") + m] = fs
    return out


def kids(m, n):
    return [x.rpartition(".")[2] for x in {**m.nodes, **m.types} if x.rpartition(".")[0] == n]


def tree(uids=None, wide=0):
    """branches with leaves and branches in mixed order, structs; uids: {name: UID value or None}"""
    m = Model()

    def add(n, kind, types=False, **kw):
        u = None if uids is None else uids(n)
        m.add(n, kind, types=types, **kw, **({"staticUID": u} if u is not None else {}))
    add("V", "branch")
    add("V.Z", "sensor", datatype=C("uint8"))
    add("V.B", "branch")
    add("V.B.Y", "actuator", datatype=C("float[]"))
    add("V.B.C", "branch")
    add("V.B.C.X", "sensor", datatype=C("string"))
    add("V.B.C.W", "sensor", datatype=C("T.S"))
    add("V.B.J", "attribute", datatype=C("uint16"), default=C(4))
    add("V.A", "sensor", datatype=C("T.N.R[]"))
    add("V.D", "branch")
    add("V.D.E", "branch")
    add("V.D.E.F", "sensor", datatype=C("boolean"))
    add("V.Q", "sensor", datatype=C("int8"))
    for i in range(wide):
        add(f"V.D.L{i}", "sensor", datatype=C("uint8"))
    add("T", "branch", True)
    add("T.S", "struct", True)
    add("T.S.P", "property", True, datatype=C("uint8"))
    add("T.S.O", "property", True, datatype=C("T.N.R"))
    add("T.S.N", "property", True, datatype=C("double[]"))
    add("T.N", "branch", True)
    add("T.N.R", "struct", True)
    add("T.N.R.G", "property", True, datatype=C("uint32"))
    add("T.N.R.H", "property", True, datatype=C("uint32"))
    return m


def assign(over=None, base=100):
    """distinct UIDs for every node, some replaced"""
    seen = {}
    over = over or {}

    def f(n):
        if n in over:
            return over[n]
        k = seen.setdefault(n, len(seen))
        return uid(base + (k * 37) % 61 * 11 + k % 2 * 1000, k % 8)
    return f


def numbers(r, tag, what, m, msgs, exact, want):
    """want(node name, position): the number a field must have"""
    for n in [x for x, a in {**m.nodes, **m.types}.items() if a["type"].v in ("branch", "struct")]:
        if n in m.types and m.types[n]["type"].v == "branch":
            continue
        key = n if n in m.types else n.replace(".", "")
        if key not in msgs:
            r.undecided("numbers", f"{tag} {n}", "no such message")
            continue
        fs = msgs[key]
        nos = [x[2] for x in fs]
        r.verdict(None if not exact else len(set(nos)) == len(nos), "unique", f"{tag} {n}", f"{what}: the fields of {key} are numbered {nos}")
        for t, f, no in fs:
            ok = no.isdigit() and 1 <= int(no) <= MAXN and not 19000 <= int(no) <= 19999
            r.verdict(None if not exact else ok, "legal", f"{tag} {n}.{f}", f"{what}: the field {f} of {key} has the illegal number {no}")
        ks = kids(m, n)
        for i, k in enumerate(ks, 1):
            got = [x[2] for x in fs if x[1] == k]
            w = str(want(f"{n}.{k}", i))
            r.verdict(None if not exact else got == [w], "numbers", f"{tag} {n}.{k}", f"{what}: the field {k} of {key} has the number {', '.join(got) or '(none)'}, expected {w}")


def good(r, tag, what, m, want, **opts):
    e = run(r, "protobuf", m, **opts)
    for o in succeed(r, "succeeds", tag, what, e):
        try:
            msgs = messages(o, m.types)
        except (Unread, ValueError, IndexError) as x:
            r.undecided("numbers", tag, f"output not understood: {x!r}"[:200])
            continue
        numbers(r, tag, what, m, msgs, not e.imprecise, want)


def bad(r, tag, what, m, fields, **opts):
    """the export must fail with a nonzero status and emit none of the fields"""
    e = run(r, "protobuf", m, **opts)
    e.units_of(r)
    os_ = outputs(e)
    if not os_ or e.imprecise and any(o.exc is None for o in os_):
        r.undecided("refused", tag, str(e.imprecise[:2])[:200])
        return
    for o in os_:
        if o.exc is None or o.exc.name == "SystemExit" and (not o.exc.args or o.exc.args[0] in (NONE, C(0))):
            r.bad("refused", tag, f"{what}: the export succeeds")
            continue
        r.ok("refused", tag)
        for f in fields:
            hit = [lab for lab in o.labels() for line in o.content(lab).split("\n") if line.strip().endswith(";") and f" {f} =" in line]
            r.verdict(None if e.imprecise else not hit, "nothing", f"{tag} {f}", f"{what}: the field {f} is written to {hit[:1]} although the export is refused")


def uids_of(m):
    return {n: int(a["staticUID"].v, 0) for n, a in {**m.nodes, **m.types}.items() if "staticUID" in a}


def job(r, j):
    kind = j[0]
    st = {"static_uid": True, **EXT}
    if kind == "default":
        for o in ({}, {"add_optional": True}):
            m = tree(wide=j[1])
            good(r, f"default {sorted(o)} {j[1]}", "protobuf " + " ".join(o), m, lambda n, i: i, **o)
        m = tree(assign())
        good(r, f"default ignoring UIDs {j[1]}", "protobuf (nodes have static UIDs)", m, lambda n, i: i, **EXT)
    elif kind == "static":
        for base in j[1]:
            m = tree(assign(base=base))
            u = uids_of(m)
            for o in ({}, {"add_optional": True}):
                good(r, f"static {base} {sorted(o)}", "protobuf --static-uid " + " ".join(o), m, lambda n, i: u[n] // 8, **st, **o)
    elif kind == "edge":
        node, n, k = j[1:]
        m = tree(assign({node: uid(n, k)}))
        u = uids_of(m)
        good(r, f"edge {node} {n} {k}", f"protobuf --static-uid, {node} with the number {n}", m, lambda x, i: u[x] // 8, **st)
    elif kind == "form":
        v, n = j[1:]
        m = tree(assign({"V.B.C.X": C(v)}))
        u = uids_of(m)
        good(r, f"form {v}", f"protobuf --static-uid, UID {v}", m, lambda x, i: n if x == "V.B.C.X" else u[x] // 8, **st)
    elif kind == "same":      # equal numbers in different messages are fine
        a, b = j[1:]
        m = tree(assign({a: uid(77, 1), b: uid(77, 3)}))
        u = uids_of(m)
        good(r, f"same {a} {b}", f"protobuf --static-uid, {a} and {b} with equal numbers", m, lambda x, i: u[x] // 8, **st)
    elif kind == "collide":
        a, b, k1, k2 = j[1:]
        m = tree(assign({a: uid(77, k1), b: uid(77, k2)}))
        bad(r, f"collide {a} {b} {k1} {k2}", f"protobuf --static-uid, {a} and {b} collide", m, [], **st)
    elif kind == "missing":
        m = tree(assign({j[1]: None}))
        bad(r, f"missing {j[1]}", f"protobuf --static-uid, {j[1]} without static UID", m, [j[1].rpartition(".")[2]], **st)
    elif kind == "illegal":
        node, v = j[1:]
        m = tree(assign({node: C(v)}))
        bad(r, f"illegal {node} {v}", f"protobuf --static-uid, {node} with the static UID {v} (number {int(v, 0) // 8})", m, [node.rpartition(".")[2]], **st)


NODES = ("V.Z", "V.B", "V.B.C.X", "V.Q", "V.D.E", "T.S.P", "T.N.R.H")


def check(r):
    r.text("The protobuf export is interpreted on trees with branches, leaves and structs, with incremental numbers and with static UIDs: legal UIDs (boundaries of every range included) must give the number UID/8, missing, reserved, out of range and colliding ones at every kind of node must abort the export without emitting the field.")
    js = [("default", w) for w in (0, 30)] + [("static", (b,)) for b in (100, 1, 20000, 18000 - 1500 if r.thorough else 30000, MAXN - 4000)]
    for n, k in ((1, 0), (1, 7), (18999, 7), (18999, 0), (20000, 0), (20000, 7), (MAXN, 0), (MAXN, 7)):
        for node in NODES if r.thorough else ("V.B.C.X", "V.D.E", "T.S.P"):
            js.append(("edge", node, n, k))
    js += [("form", "0x1F40", 1000), ("form", "0X1f40", 1000), ("form", "8000", 1000), ("form", "0x00001F47", 1000)]
    for a, b in (("V.Z", "V.B.Y"), ("V.B.C", "V.B.C.X"), ("V.A", "T.S.P"), ("T.S.P", "T.N.R.G"), ("V.B", "V.D.E")):
        js.append(("same", a, b))
    for a, b in (("V.Z", "V.Q"), ("V.Z", "V.B"), ("V.B", "V.D"), ("V.A", "V.D"), ("V.B.Y", "V.B.J"), ("V.B.Y", "V.B.C"), ("V.B.C.X", "V.B.C.W"), ("T.S.P", "T.S.N"), ("T.N.R.G", "T.N.R.H"), ("T.S.O", "T.S.N")):
        for k1, k2 in ((0, 0), (0, 7), (5, 2))[:3 if r.thorough else 2]:
            js.append(("collide", a, b, k1, k2))
    m = tree()
    js += [("missing", n) for n, a in {**m.nodes, **m.types}.items() if "." in n and not (n in m.types and a["type"].v in ("branch", "struct"))]
    for v in (0, 7, 19000 * 8, 19000 * 8 + 7, 19500 * 8 + 3, 19999 * 8, 19999 * 8 + 7, 2**32, 2**32 + 8, 2**40):
        for node in NODES if r.thorough else ("V.Q", "V.B", "T.N.R.H"):
            js.append(("illegal", node, hex(v)))
    r.pmap(job, js)
    for c, k in (("numbers", 100), ("legal", 100), ("unique", 50), ("refused", 40)):
        r.floor(c, k)
