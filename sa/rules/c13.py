"""C13: user-defined types resolve by whole name segments only."""
from core import *  # noqa
from full import *
from outs import outputs


def resolve(d, fqn, structs):
    """full name, None (reject), or 'amb' when several outer and inner types match at nested structs"""
    arr = d.endswith("[]")
    b = d[:-2] if arr else d
    if b in structs:
        return d
    if "." in b:
        return None
    seg = fqn.split(".")
    c = []
    for t in structs:
        ts = t.split(".")
        if ts[-1] == b and seg[:len(ts) - 1] == ts[:-1] and seg[:len(ts)] != ts:
            c.append(t)
    if not c:
        return None
    return max(c, key=lambda t: t.count(".")) + ("[]" if arr else "")


def st(n):
    return N(n, "struct")


def pr(n, d="uint8"):
    return leaf(n, "property", datatype=d)


def br(*names):
    return [branch(n) for n in names]


def layout(structs):
    """a types tree that defines the structs, one property each"""
    have, out = set(), []
    for s in structs:
        p = s.split(".")
        for i in range(1, len(p)):
            n = ".".join(p[:i])
            if n not in have and n not in structs:
                have.add(n)
                out.append(branch(n))
    for s in structs:
        out.append(st(s))
        out.append(pr(s + ".Base"))
    return out


LAYOUTS = [
    ["T.S"], ["T.S", "T.S2"], ["T.S2", "T.S"], ["T.A.S", "T.AB.S"], ["T.A.S", "T.AB.R", "T.AB.S3"], ["T.A.B.S", "T.A.BC.S", "T.A.R"], ["T.S", "T.N.S", "T.N.R"], ["T.N.R", "T.S"], ["T.N.S", "T.R"],
    ["T.Struct", "T.StructA", "T.StructAB"], ["T.A.S", "T.B.S"], ["T.A.S", "T.B.R"], ["T.S", "T.Sub.S", "T.Sub.Sub.R"], ["T.ab.S", "T.abc.R"], ["T.A.S1", "T.A.S10", "T.A.S11"], ["TT.S", "TT.T.R"],
]


def spellings(structs):
    out = []
    for s in structs:
        out += [s, s.split(".")[-1]]
        p = s.split(".")
        out += [".".join(p[1:])] if len(p) > 2 else []
        out += [s + "X", s[:-1], p[-1] + "X", p[-1][:-1], s.lower(), p[-1].lower(), "X." + s, s + ".Base", ".".join(p[:-1])]
    return [x for x in dict.fromkeys(out) if x and x not in ("uint8",)]


def refs(r, j):
    k, structs, part, n = j
    sp = spellings(structs)
    for d0 in sp[part::n]:
        for d in (d0, d0 + "[]"):
            for host in structs:
                fqn = host + ".P"
                want = resolve(d, fqn, structs)
                fs = {ROOT: File([], Data(branch("V"))), "/m/t.vspec": File([], Data(*layout(structs), pr(fqn, d)))}
                judge(r, "segments", f"{structs} {host}.P {d}", f"a property {fqn} of datatype {d} with the structs {structs}", want, Full(r.world, fs, types=["/m/t.vspec"]), fqn, True)
                if not r.thorough and d != d0:
                    break
            for sig in ("V.X", "T.X", "TT.X"):
                root = sig.split(".")[0]
                if root != "V" and not any(s.startswith(root + ".") for s in structs):
                    continue
                want = resolve(d, sig, structs)
                fs = {ROOT: File([], Data(branch(root), leaf(sig, datatype=d))), "/m/t.vspec": File([], Data(*layout(structs)))}
                judge(r, "segments", f"{structs} {sig} {d}", f"a signal {sig} of datatype {d} with the structs {structs}", want, Full(r.world, fs, types=["/m/t.vspec"]), sig, False)


def judge(r, cl, key, what, want, f, fqn, types):
    if want is None:
        fails(r, cl, key, what + " is accepted", f)
        return
    for root, ty in loads(r, cl, key, what, f):
        t = ty if types else root
        n = [x for x in t.walk() if x.fqn == fqn] if t is not None else []
        g = n[0].get("datatype") if n else None
        r.verdict(g == C(want) if isinstance(g, C) and not f.imprecise else None, cl, key + " name", f"{what} becomes {g}, expected {want}")


def special(r, _):
    # a struct does not see itself by its short name
    for d in ("S", "S[]"):
        for host in ("T.S", "T.A.S"):
            fs = {ROOT: File([], Data(branch("V"))), "/m/t.vspec": File([], Data(*layout([host]), pr(host + ".P", d)))}
            fails(r, "self", f"{host} {d}", f"the struct {host} references itself as {d}", Full(r.world, fs, types=["/m/t.vspec"]))
    # root level types
    for kids in ([], [pr("S.P")], [pr("S.P"), st("S.I"), pr("S.I.P")]):
        fs = {ROOT: File([], Data(branch("V"))), "/m/t.vspec": File([], Data(st("S"), *kids))}
        fails(r, "root", f"{len(kids)}", "a struct at root level of a types file is accepted", Full(r.world, fs, types=["/m/t.vspec"]))
    # types must be loaded
    fs = {ROOT: File([], Data(branch("V"), leaf("V.X", datatype="T.S"))), "/m/t.vspec": File([], Data(*layout(["T.S"])))}
    fails(r, "loaded", "no types", "a struct of a types file that is not loaded is accepted", Full(r.world, fs))
    fs["/m/u.vspec"] = File([], Data(*layout(["T.R"])))
    fails(r, "loaded", "other types", "a struct of a types file that is not loaded is accepted", Full(r.world, fs, types=["/m/u.vspec"]))
    for order in (["/m/t.vspec", "/m/u.vspec"], ["/m/u.vspec", "/m/t.vspec"]):
        judge(r, "loaded", f"two files {order}", "a struct of one of two types files", "T.S", Full(r.world, fs, types=order), "V.X", False)
    # the second types file uses the first
    for d, want in (("T.S", "T.S"), ("S", "T.S"), ("S[]", "T.S[]"), ("T.S[]", "T.S[]"), ("Q", None)):
        f2 = {ROOT: File([], Data(branch("V"))), "/m/t.vspec": File([], Data(*layout(["T.S"]))), "/m/u.vspec": File([], Data(*layout(["T.R"]), pr("T.R.P", d)))}
        judge(r, "loaded", f"second file {d}", f"a second types file using {d}", want, Full(r.world, f2, types=["/m/t.vspec", "/m/u.vspec"]), "T.R.P", True)
    # defined later in the same file, included files, instances
    f3 = {ROOT: File([], Data(branch("V"))), "/m/t.vspec": File([], Data(branch("T"), st("T.A"), pr("T.A.P", "Z"), pr("T.A.Q", "T.Z[]"), st("T.Z"), pr("T.Z.P")))}
    judge(r, "loaded", "defined later short", "a struct defined later in the file", "T.Z", Full(r.world, f3, types=["/m/t.vspec"]), "T.A.P", True)
    judge(r, "loaded", "defined later full", "a struct defined later in the file", "T.Z[]", Full(r.world, f3, types=["/m/t.vspec"]), "T.A.Q", True)
    for d, want in (("T.S", "T.S"), ("T.S[]", "T.S[]")):
        f4 = {ROOT: File([], Data(branch("V"), branch("V.C", instances=C("R[1,2]")), leaf("V.C.X", datatype=d))), "/m/t.vspec": File([], Data(*layout(["T.S"])))}
        judge(r, "loaded", f"instances {d}", "a struct typed signal below an instantiated branch", want, Full(r.world, f4, types=["/m/t.vspec"]), "V.C.R2.X", False)
    # names never become a prefix match of a predefined type
    for d in ("uint8.S", "uint8S", "T.uint8", "string[]S", "S[]S", "T.S[5]", "T.S[", "T.S]", "T.S[][]", "T.S ", "[]", "T..S", ".S", "S.", "T.S."):
        f5 = {ROOT: File([], Data(branch("V"), leaf("V.X", datatype=d))), "/m/t.vspec": File([], Data(*layout(["T.S"])))}
        fails(r, "segments", f"malformed {d!r}", f"the datatype {d!r} is accepted", Full(r.world, f5, types=["/m/t.vspec"]))


def exported(r, _):
    """the export names the full type"""
    fs = {ROOT: File([], Data(branch("T"), leaf("T.X", datatype="S"), leaf("T.Y", datatype="S[]"), leaf("T.Z", datatype="T.S"))),
          "/m/t.vspec": File([], Data(*layout(["T.S", "T.R"]), pr("T.R.P", "S"), pr("T.R.Q", "S[]")))}
    for cmd in ("yaml", "csv", "json"):
        e = Export(r.world, cmd, fs, types=["/m/t.vspec"])
        e.units_of(r)
        seen = []
        for o in outputs(e):
            if o.exc is not None:
                continue

            def walk(v, k=None):
                if isinstance(v, dict):
                    for a, b in v.items():
                        walk(b, a)
                elif isinstance(v, list):
                    if cmd == "csv" and len(v) > 3 and all(not isinstance(x, (list, dict)) for x in v):
                        seen.append((v[0], v[2]))
                        return
                    for b in v:
                        walk(b)
                elif k == C("datatype"):
                    seen.append((None, v))
            for _, k, p in o.order:
                walk(p)
        want = sorted(["T.S", "T.S", "T.S", "T.S[]", "T.S[]"])
        got = [x.v for _, x in seen if isinstance(x, C) and isinstance(x.v, str) and "S" in x.v.replace("[]", "").split(".")[-1:]]
        r.verdict(None if not seen or e.imprecise else sorted(got) == want, "exported", cmd, f"the {cmd} export names the struct types {sorted(got)}, expected {want}")


def job(r, j):
    {"refs": refs, "special": special, "exported": exported}[j[0]](r, j[1])


def check(r):
    r.text("Loading is interpreted for layouts of struct names with common prefixes, every spelling of every name from every property and from signals, and compared with resolution by whole segments.")
    jobs = [("special", None), ("exported", None)] + [("refs", (i, l, p, 4)) for i, l in enumerate(LAYOUTS) for p in range(4)]
    r.pmap(job, jobs)
    for c in ("segments", "self", "root", "loaded"):
        r.floor(c, 2)
