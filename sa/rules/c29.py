"""C29: Go struct names stay unique when shortened."""
from rules.xmodel import *
from rules.views import go_parse, Broken

GO = {"bool", "string", "int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}


class M(Model):
    """a model given by short lines; labels: the nodes that are instances"""
    def __init__(self):
        super().__init__()
        self.labels = set()

    def lines(self, text, types=False):
        """name [datatype] [@ label,label...]: instances of a branch; {X} in later names expands"""
        for ln in text.split("\n"):
            w = ln.split()
            if not w:
                continue
            n = w[0]
            st = types and n in self.structs
            if len(w) > 1 and w[1] != "@":
                self.add(n, "property" if types else "sensor", types=types, datatype=C(w[1]), inst=self.exp(n))
            elif "@" in w:
                levels = [x.split(",") for x in w[w.index("@") + 1:]]
                loaded = []
                for b in self.exp(n):
                    cur = [b]
                    loaded += cur
                    for lv in levels:
                        cur = [f"{c}.{x}" for c in cur for x in lv]
                        loaded += cur
                        self.labels |= set(cur)
                ins = [C(x) for x in levels[0]] if len(levels) == 1 else [[C(x) for x in lv] for lv in levels]
                self.add(n, "branch", inst=loaded, instances=ins)
                self.inst[n] = levels
            else:
                self.add(n, "struct" if st else "branch", types=types, inst=self.exp(n))
        return self

    inst = None
    structs = ()

    def exp(self, n):
        """the loaded names of the entry n"""
        out = [""]
        ps = n.split(".")
        for i, p in enumerate(ps):
            out = [f"{o}.{p}" if o else p for o in out]
            k = ".".join(ps[:i + 1])
            if i < len(ps) - 1 and k in self.inst:
                for lv in self.inst[k]:
                    out = [f"{o}.{x}" for o in out for x in lv]
        return out


def mk(text, types="", structs=(), extra=()):
    """extra: lines written as they are, for single instances"""
    m = M()
    m.inst = {}
    m.structs = structs
    m.lines(text)
    for ln in extra:
        w = ln.split()
        n = w[0]
        if len(w) > 1:
            m.add(n, "sensor", datatype=C(w[1]))
        else:
            m.add(n, "branch")
    if types:
        m.lines(types, True)
    return m


def m_kept():
    """a branch of the same name below the instantiated one, not instantiated itself but with instances of its own"""
    m = mk("V\nV.A @ L,R\nV.A.X uint8")
    m.add("V.A.A", "branch", instances=[C("U"), C("D")], instantiate=FALSE, inst=["V.A.A", "V.A.A.U", "V.A.A.D"])
    m.add("V.A.A.Y", "sensor", datatype=C("uint8"), inst=["V.A.A.U.Y", "V.A.A.D.Y"])
    m.labels |= {"V.A.A.U", "V.A.A.D"}
    return m


MODELS = {
    "names kept for their label": m_kept,
    "plain": lambda: mk("V\nV.A\nV.A.X uint8\nV.B\nV.B.X string\nV.B.C\nV.B.C.Y float[]\nV.Z boolean"),
    "same ends": lambda: mk("V\nV.A\nV.A.C\nV.A.C.X uint8\nV.B\nV.B.C\nV.B.C.Y uint8\nV.C\nV.C.Z uint8"),
    "same as root": lambda: mk("V\nV.V\nV.V.X uint8\nV.V.V\nV.V.V.Y uint8\nV.A\nV.A.V\nV.A.V.Z uint8"),
    "concatenated": lambda: mk("V\nV.A\nV.A.BC\nV.A.BC.X uint8\nV.AB\nV.AB.C\nV.AB.C.Y uint8"),
    "concatenated with root": lambda: mk("V\nV.VA\nV.VA.X uint8\nV.V\nV.V.A\nV.V.A.Y uint8\nV.A\nV.A.Z uint8"),
    "concatenated later": lambda: mk("V\nV.ABC\nV.ABC.X uint8\nV.A\nV.A.BC\nV.A.BC.Y uint8"),
    "concatenated by prefix": lambda: mk("V\nV.A\nV.A.B\nV.A.B.C\nV.A.B.C.X uint8\nV.BC\nV.BC.Y uint8"),
    "concatenated struct": lambda: mk("V\nV.S T.A.BC\nV.R T.AB.C[]\nV.Q T.ABC", "T\nT.A\nT.A.BC\nT.A.BC.X uint8\nT.AB\nT.AB.C\nT.AB.C.Y uint8\nT.ABC\nT.ABC.Z T.A.BC", {"T.A.BC", "T.AB.C", "T.ABC"}),
    "struct": lambda: mk("V\nV.S T.S\nV.R T.S[]\nV.B\nV.B.Q T.N.R", "T\nT.S\nT.S.X uint8\nT.S.O T.N.R[]\nT.N\nT.N.R\nT.N.R.Y double", {"T.S", "T.N.R"}),
    "struct like branch": lambda: mk("V\nV.S\nV.S.X T.S\nV.N\nV.N.R\nV.N.R.Y T.N.R[]", "T\nT.S\nT.S.X uint8\nT.S.O T.N.R\nT.N\nT.N.R\nT.N.R.Y double", {"T.S", "T.N.R"}),
    "struct like root": lambda: mk("V\nV.A uint8\nV.S T.V", "T\nT.V\nT.V.X uint8", {"T.V"}),
    "two prefixes": lambda: mk("V\nV.A\nV.A.X uint8\nV.B\nV.B.X T.A[]", "T\nT.A\nT.A.X T.B\nT.B\nT.B.Y uint8", {"T.A", "T.B"}),
    "instances": lambda: mk("V\nV.A @ L,R\nV.A.X uint8\nV.A.S\nV.A.S.Y string\nV.B\nV.B.X uint8"),
    "instances two levels": lambda: mk("V\nV.A @ R1,R2 L,M\nV.A.X uint8\nV.A.S\nV.A.S.Y string[]"),
    "instances of two": lambda: mk("V\nV.A @ L,R\nV.A.X uint8\nV.B @ L,R\nV.B.Y uint8\nV.B.S\nV.B.S.Z uint8"),
    "instances inside": lambda: mk("V\nV.A @ L,R\nV.A.B @ U,D\nV.A.B.X uint8\nV.A.C\nV.A.C.Y uint8"),
    "instances below the same name": lambda: mk("V\nV.A\nV.A.X uint8\nV.B\nV.B.A @ L,R\nV.B.A.Y uint8\nV.A.A @ U,D\nV.A.A.Z uint8"),
    "instances of the root": lambda: mk("V @ L,R\nV.V\nV.V.Y uint8\nV.X uint8"),
    "instances, nested equal names": lambda: mk("V\nV.A\nV.A.A @ L,R\nV.A.A.X uint8\nV.B @ L,R\nV.B.Y uint8\nV.A.B @ L,R\nV.A.B.Z uint8"),
    "instances of a branch and its child of the same name": lambda: mk("W\nW.A @ L,R\nW.A.X uint8\nW.A.A @ U,D\nW.A.A.Y uint8"),
    "one instance has more": lambda: mk("V\nV.A @ L,R\nV.A.X uint8\nV.B\nV.B.X uint8", extra=["V.A.L.Y string"]),
    "one instance has a branch": lambda: mk("V\nV.A @ L,R\nV.A.X uint8\nV.A.S\nV.A.S.Y uint8", extra=["V.A.L.B", "V.A.L.B.Z uint8"]),
    "one instance has more, first of two levels": lambda: mk("V\nV.A @ R1,R2 L,M\nV.A.X uint8", extra=["V.A.R1.Y string"]),
    "one instance has more, second of two levels": lambda: mk("V\nV.A @ R1,R2 L,M\nV.A.X uint8\nV.A.S\nV.A.S.Y uint8", extra=["V.A.R1.L.S.Q string"]),
}


def level(m, n):
    """what nodes that may share a struct have in common: the branch without instance labels and the instance depth"""
    ps, out, depth = n.split("."), [], 0
    for i, p in enumerate(ps):
        if ".".join(ps[:i + 1]) in m.labels:
            depth += 1
        else:
            out.append(p)
            depth = 0
    return ".".join(out), depth


def kids(m, n):
    return [x for x in {**m.nodes, **m.types} if x.rpartition(".")[0] == n]


def structs(r, tag, what, m, o, exact):
    def v(ok, cl, key, msg):
        r.verdict(ok if exact or ok is None or ok else None, cl, f"{tag}: {key}", f"{what}: {msg}")
    try:
        decl = go_parse(o.content("/out/output"))
    except Broken as x:
        v(False, "format", "", str(x))
        return
    except (Unread, ValueError, IndexError) as x:
        r.undecided("distinct", tag, f"output not understood: {x!r}"[:200])
        return
    names = [n for n, _ in decl]
    twice = sorted({n for n in names if names.count(n) > 1})
    v(not twice, "distinct", "names", f"the struct names {', '.join(twice)} are declared more than once")
    bare = [n for n in names if n[:1] == "I" and n[1:].isdigit()]
    v(not bare, "bare", "labels", f"structs are named by a bare instance label: {', '.join(bare)}")
    d = dict(reversed(decl))
    every = {**m.nodes, **m.types}
    for n, fs in decl:
        for f, t in fs:
            b = t[2:] if t.startswith("[]") else t
            v(b in GO or b in d, "references", f"{n}.{f}", f"the member {f} of {n} has the type {t}, which is not declared")
    # which struct stands for which node
    use = {}
    todo = []
    top = next(iter(m.nodes))
    cand = [n for n in d if n == top] or [n for n in d if sorted(f for f, _ in d[n]) == sorted(k.rpartition(".")[2] for k in kids(m, top))]
    if len(cand) != 1:
        r.undecided("members", tag, "struct of the root not found")
        return
    todo.append((top, cand[0]))
    done = set()
    while todo:
        n, s = todo.pop()
        if (n, s) in done:
            continue
        done.add((n, s))
        if s not in d:
            continue
        use.setdefault(n, set()).add(s)
        ks = {k.rpartition(".")[2]: k for k in kids(m, n)}
        have = sorted(f for f, _ in d[s])
        v(have == sorted(ks), "members", f"{n}", f"the struct {s} of {n} has the members {', '.join(have)} instead of {', '.join(sorted(ks))}")
        for f, t in d[s]:
            if f not in ks:
                continue
            a = every[ks[f]]
            k = a["type"].v
            if k in ("branch", "struct"):
                todo.append((ks[f], t))
            elif "." in a["datatype"].v:
                arr = a["datatype"].v.endswith("[]")
                v(t.startswith("[]") == arr, "references", f"{n}.{f} array", f"the member {f} of {s} has the type {t} for {a['datatype'].v}")
                todo.append((a["datatype"].v.replace("[]", ""), t[2:] if t.startswith("[]") else t))
            else:
                b = t[2:] if t.startswith("[]") else t
                v(b in GO, "references", f"{n}.{f} scalar", f"the member {f} of {s} has the type {t} for {a['datatype'].v}")
    by = {}
    for n, ss in use.items():
        v(len(ss) == 1, "references", f"{n} one name", f"{n} is referred to as {', '.join(sorted(ss))}")
        for s in ss:
            by.setdefault(s, []).append(n)
    for s, ns in by.items():
        lv = {level(m, n) for n in ns}
        v(len(lv) == 1, "merge", s, f"the struct {s} stands for {', '.join(sorted(ns))}")
        n = ns[0]
        last = [n.rpartition(".")[2]] + ([f"I{level(m, n)[1]}"] if n in m.labels else [])
        v(any(s.endswith(x) for x in last), "names", s, f"the struct of {n} is named {s}")
    for n in m.types:
        if m.types[n]["type"].v == "struct":
            v(n in use or any(s.endswith(n.rpartition(".")[2]) for s in names if s not in by), "declared", n, f"the struct {n} is not declared")


def job(r, j):
    k, o = j
    m = MODELS[k]()
    tag = f"{k} {' '.join(f'{a}={b}' for a, b in o.items())}".strip()
    what = f"go {'--no-short-names ' if o.get('short_names') is False else ''}(model: {k})"
    e = run(r, "go", m, **o)
    for x in succeed(r, "succeeds", tag, what, e):
        structs(r, tag, what, m, x, not e.imprecise)


def check(r):
    r.text("The Go export is interpreted, with and without shortened names, on models whose paths have equal ends, equal concatenations, instances on several levels and structs named like branches; the declared structs are matched with the nodes from the root along the member types: distinct names, no bare instance label, all references declared, right members, and one struct for several nodes only on the same instance level of the same branch.")
    r.pmap(job, [(k, o) for k in MODELS for o in ({}, {"short_names": False})])
    for c, n in (("distinct", 30), ("members", 100), ("references", 100), ("merge", 80), ("bare", 30)):
        r.floor(c, n)
