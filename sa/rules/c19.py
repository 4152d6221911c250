"""C19: generated protobuf files are complete and importable."""
from rules.xmodel import *
from rules.views import proto_parse, Broken

SCALAR = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
STALE = 'message Stale {\n  string Old = 1;\n}\n'


def kids(m, n):
    return [x.rpartition(".")[2] for x in {**m.nodes, **m.types} if x.rpartition(".")[0] == n]


def isa(m, n, k):
    return {**m.nodes, **m.types}[n]["type"].v == k


def files(r, tag, what, m, o, exact, root):
    """obligations on the files of one successful export"""
    def v(ok, cl, key, msg):
        r.verdict(ok if exact or ok is None else True if ok else None, cl, f"{tag} {key}", f"{what}: {msg}")
    want = {"/out/output": [n for n in m.nodes if isa(m, n, "branch")]}
    for n in m.types:
        if isa(m, n, "struct"):
            p = n.split(".")[:-1]
            want.setdefault("/".join([root, *p, p[-1] + ".proto"]), []).append(n)
    got = {}
    for lab in o.labels():
        try:
            got[lab] = proto_parse(o.content(lab, before=STALE))
        except Broken as x:
            v(False, "format", lab, f"{lab} is not a protobuf file: {x}")
            return
        except (Unread, ValueError, IndexError) as x:
            r.undecided("format", f"{tag} {lab}", f"output not understood: {x!r}"[:200])
            return
    for lab in want:
        v(lab in got, "files", lab, f"no file {lab} is written")
    for lab in got:
        v(lab in want, "files", lab, f"an unexpected file {lab} is written")
    where = {}                     # full message name -> file
    for lab, (seq, msgs) in got.items():
        pk = [x for k, x in seq if k == "package"]
        for n, _ in msgs:
            where.setdefault((pk[0] + "." if pk else "") + n, []).append(lab)
    for lab, ns in want.items():
        if lab not in got:
            continue
        seq, msgs = got[lab]
        rel = lab[len(root) + 1:] if lab.startswith(root + "/") and lab != "/out/output" else None
        ks = [k for k, _ in seq]
        types = lab != "/out/output"
        v(ks[:1] == ["syntax"] and ks.count("syntax") == 1 and seq[0][1] == "proto3", "header", f"{lab} syntax", f"{lab} does not start with its syntax declaration, or has more than one (or holds earlier text): {seq[:4]}")
        if types:
            pk = ns[0].rpartition(".")[0]
            v(ks[1:2] == ["package"] and ks.count("package") == 1 and seq[1][1] == pk, "header", f"{lab} package", f"{lab} does not declare the package {pk} right after the syntax, exactly once: {seq[:4]}")
        else:
            pk = ""
        v("Stale" not in [n for n, _ in msgs], "afresh", lab, f"{lab} keeps what an earlier export left in it")
        names = [n for n, _ in msgs]
        first = ks.index("message") if "message" in ks else len(ks)
        v("import" not in ks[first:], "imports", f"{lab} position", f"{lab} has an import after a message")
        imps = [x for k, x in seq if k == "import"]
        for i in set(imps):
            v(imps.count(i) == 1, "imports", f"{lab} {i} once", f"{lab} imports {i} {imps.count(i)} times")
            v(f"{root}/{i}" in got and i != rel, "imports", f"{lab} {i} exists", f"{lab} imports {i}, which is " + ("itself" if i == rel else "not generated"))
        # every node a message with all its children
        used = {}
        for n in ns:
            cands = [n.rpartition(".")[2]] if types else [n.replace(".", ""), n.replace(".", "_")]
            ch = sorted(kids(m, n))
            hits = [(k, fs) for k, fs in msgs if k in cands and sorted(x[1] for x in fs) == ch]
            hits = [h for h in hits if h[0] not in used] or hits
            v(bool(hits), "messages", n, f"{lab} has no message for {n} with exactly the fields {', '.join(ch) or '(none)'}; messages of that name: {[(k, [x[1] for x in fs]) for k, fs in msgs if k in cands]}")
            if hits:
                used[hits[0][0]] = n
        v(len(set(names)) == len(names), "messages", f"{lab} distinct", f"{lab} defines {', '.join(sorted({n for n in names if names.count(n) > 1}))} more than once")
        v(len(names) <= len(ns), "messages", f"{lab} nothing else", f"{lab} defines {names} for {ns}")
        # references
        need = {}
        for k, fs in msgs:
            owner = used.get(k)
            for t, f, no in fs:
                ref = t.split()[-1]
                if ref in SCALAR:
                    continue
                full = next((x for x in ([f"{pk}.{ref}"] if pk else []) + [ref] if x in where), None)
                v(full is not None, "references", f"{lab} {k}.{f}", f"the field {f} of {k} in {lab} refers to {ref}, which no file defines")
                if full is None or owner is None:
                    continue
                a = {**m.nodes, **m.types}.get(f"{owner}.{f}")
                if a is None:
                    continue
                if a["type"].v == "branch":
                    v(used.get(full) == f"{owner}.{f}" or full not in used, "references", f"{lab} {k}.{f} right", f"the field {f} of {k} refers to {ref}, the message of {used.get(full)}")
                else:
                    dt = a["datatype"].v.replace("[]", "")
                    v(full == dt, "references", f"{lab} {k}.{f} right", f"the field {f} of {k} has the type {ref} instead of {dt}")
                if lab not in where[full]:
                    need.setdefault(where[full][0], f"{k}.{f}: {ref}")
        for tgt, why in need.items():
            v(any(f"{root}/{i}" == tgt for i in imps), "imports", f"{lab} needs {tgt}", f"{lab} does not import {tgt}, used by {why}")


def m_base():
    m = Model()
    m.add("V", "branch")
    m.add("V.Z", "sensor", datatype=C("uint8"))
    m.add("V.B", "branch")
    m.add("V.B.Y", "actuator", datatype=C("float[]"))
    m.add("V.B.C", "branch")
    m.add("V.B.C.X", "sensor", datatype=C("T.S"))
    m.add("V.B.C.W", "sensor", datatype=C("T.S[]"))
    m.add("V.A", "attribute", datatype=C("T.N.R[]"))
    m.add("V.E", "sensor", datatype=C("T.N.Q"))
    m.add("V.D", "branch")
    m.add("V.D.E", "branch")
    m.add("V.D.E.F", "sensor", datatype=C("T.N.D.U"))
    m.add("T", "branch", types=True)
    m.add("T.S", "struct", types=True)
    m.add("T.S.P", "property", types=True, datatype=C("uint8"))
    m.add("T.S.O", "property", types=True, datatype=C("T.N.R"))
    m.add("T.S.M", "property", types=True, datatype=C("T.N.Q[]"))
    m.add("T.K", "struct", types=True)
    m.add("T.K.G", "property", types=True, datatype=C("T.S"))
    m.add("T.K.H", "property", types=True, datatype=C("T.N.R[]"))
    m.add("T.K.I", "property", types=True, datatype=C("T.N.D.U"))
    m.add("T.N", "branch", types=True)
    m.add("T.N.R", "struct", types=True)
    m.add("T.N.R.G", "property", types=True, datatype=C("uint32"))
    m.add("T.N.Q", "struct", types=True)
    m.add("T.N.Q.G", "property", types=True, datatype=C("T.N.R"))
    m.add("T.N.Q.L", "property", types=True, datatype=C("T.N.D.U[]"))
    m.add("T.N.D", "branch", types=True)
    m.add("T.N.D.U", "struct", types=True)
    m.add("T.N.D.U.A", "property", types=True, datatype=C("string"))
    m.add("T.N.D.X", "struct", types=True)
    m.add("T.N.D.X.A", "property", types=True, datatype=C("T.N.D.U"))
    m.add("T.N.D.X.B", "property", types=True, datatype=C("T.S"))
    return m


def m_plain():
    """no types; a branch without children; instances"""
    m = Model()
    m.add("V", "branch")
    m.add("V.B", "branch", instances=[C("L"), C("R")], inst=["V.B", "V.B.L", "V.B.R"])
    m.add("V.B.X", "sensor", datatype=C("uint8"), inst=["V.B.L.X", "V.B.R.X"])
    m.add("V.B.S", "branch", inst=["V.B.L.S", "V.B.R.S"])
    m.add("V.B.S.Y", "sensor", datatype=C("int8"), inst=["V.B.L.S.Y", "V.B.R.S.Y"])
    m.add("V.B.N", "sensor", datatype=C("uint8"), instantiate=FALSE)
    m.add("V.C", "branch")
    m.add("V.C.X", "sensor", datatype=C("boolean[]"))
    return m


def m_back():
    """a types package whose structs refer to another package only in its last struct, and one defined after its use"""
    m = Model()
    m.add("V", "branch")
    m.add("V.A", "sensor", datatype=C("T.B.Second"))
    m.add("T", "branch", types=True)
    m.add("T.A", "branch", types=True)
    m.add("T.A.One", "struct", types=True)
    m.add("T.A.One.X", "property", types=True, datatype=C("uint8"))
    m.add("T.A.Two", "struct", types=True)
    m.add("T.A.Two.X", "property", types=True, datatype=C("T.B.First[]"))
    m.add("T.B", "branch", types=True)
    m.add("T.B.First", "struct", types=True)
    m.add("T.B.First.X", "property", types=True, datatype=C("uint8"))
    m.add("T.B.Second", "struct", types=True)
    m.add("T.B.Second.X", "property", types=True, datatype=C("T.A.One"))
    m.add("T.B.Second.Y", "property", types=True, datatype=C("T.A.One[]"))
    m.add("T.C", "branch", types=True)
    m.add("T.C.One", "struct", types=True)
    m.add("T.C.One.X", "property", types=True, datatype=C("T.A.One"))
    m.add("T.C.One.Y", "property", types=True, datatype=C("T.C.Two"))
    m.add("T.C.Two", "struct", types=True)
    m.add("T.C.Two.X", "property", types=True, datatype=C("T.B.First"))
    return m


def m_twins():
    """packages with equal last segments; packages that are used by arrays only, or by one property of the last struct only"""
    m = Model()
    m.add("V", "branch")
    m.add("V.L", "attribute", datatype=C("T.P.Only[]"))
    m.add("V.B", "branch")
    m.add("V.B.K", "actuator", datatype=C("T.X.A.One"))
    m.add("V.B.M", "sensor", datatype=C("T.X.A.A.In[]"))
    m.add("T", "branch", types=True)
    m.add("T.P", "branch", types=True)
    m.add("T.P.Only", "struct", types=True)
    m.add("T.P.Only.X", "property", types=True, datatype=C("uint8"))
    m.add("T.X", "branch", types=True)
    m.add("T.X.A", "branch", types=True)
    m.add("T.X.A.One", "struct", types=True)
    m.add("T.X.A.One.F", "property", types=True, datatype=C("T.Y.A.Two"))
    m.add("T.X.A.A", "branch", types=True)
    m.add("T.X.A.A.In", "struct", types=True)
    m.add("T.X.A.A.In.F", "property", types=True, datatype=C("uint16"))
    m.add("T.X.A.A.In.G", "property", types=True, datatype=C("T.X.A.One[]"))
    m.add("T.Y", "branch", types=True)
    m.add("T.Y.A", "branch", types=True)
    m.add("T.Y.A.Two", "struct", types=True)
    m.add("T.Y.A.Two.F", "property", types=True, datatype=C("T.Z.A.Three[]"))
    m.add("T.Z", "branch", types=True)
    m.add("T.Z.A", "branch", types=True)
    m.add("T.Z.A.Zero", "struct", types=True)
    m.add("T.Z.A.Zero.F", "property", types=True, datatype=C("boolean"))
    m.add("T.Z.A.Three", "struct", types=True)
    m.add("T.Z.A.Three.F", "property", types=True, datatype=C("T.P.Only[]"))
    return m


def m_concat():
    """branches whose paths are equal once the dots are left out"""
    m = Model()
    m.add("V", "branch")
    m.add("V.A", "branch")
    m.add("V.A.BC", "branch")
    m.add("V.A.BC.X", "sensor", datatype=C("uint8"))
    m.add("V.AB", "branch")
    m.add("V.AB.C", "branch")
    m.add("V.AB.C.Y", "sensor", datatype=C("uint8"))
    m.add("V.AB.C.D", "branch")
    m.add("V.AB.C.D.Z", "sensor", datatype=C("uint8"))
    return m


def m_cross():
    return cross(False, types=True)


MODELS = {"base": m_base, "plain": m_plain, "back": m_back, "twins": m_twins, "concat": m_concat, "cross": m_cross}


def job(r, j):
    k, opts, root = j
    m = MODELS[k]()
    tag = f"{k} {' '.join(sorted(opts))} {root}"
    what = f"protobuf {' '.join('--' + x.replace('_', '-') for x in sorted(opts))} (model {k})"
    e = run(r, "protobuf", m, types_out_dir=P(root), **opts)
    for o in succeed(r, "succeeds", tag, what, e):
        files(r, tag, what, m, o, not e.imprecise, root)


def check(r):
    r.text("The protobuf export is interpreted on models with nested packages, structs that refer to each other within and across packages, instances and every datatype; all files it writes (over stale files of an earlier export) are read back: their headers, imports, messages, fields and references must fit together.")
    js = [(k, o, "/out/types") for k in MODELS for o in ({}, {"add_optional": True})]
    js += [("base", {}, "/out/some/dir"), ("back", {}, "/out/some/dir")]
    r.pmap(job, js)
    for c, k in (("messages", 30), ("references", 20), ("imports", 20), ("header", 10), ("afresh", 8), ("files", 10)):
        r.floor(c, k)
