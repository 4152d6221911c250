"""C17: static UID validation classifies every change."""
import itertools
import re
from core import *  # noqa
from full import *
from rules.idref import *

KINDS = {"SEMANTIC": "renamed", "BREAKING CHANGE": "breaking", "ADDED ATTRIBUTE": "added", "DELETED ATTRIBUTE": "deleted", "DESCRIPTION MISMATCH": "description", "DEPRECATION": "deprecation"}


def ident(name, sp):
    k = sp.get("kind", "sensor")
    a = {x: sp[x] for x in ("unit", "allowed", "mn", "mx") if x in sp}
    if k != "branch":
        a["datatype"] = sp.get("datatype", "uint8")
    return dict(name=name, kind=k, **a)


def uid_of(name, sp, cs):
    if sp.get("const"):
        return sp["const"]
    return uid(**{**ident(name, sp), "name": (sp.get("fka") or [name])[0]}, cs=cs)


def entry(name, sp, cs, val):
    """one spec entry; `val`: of the validation file"""
    kw = {k: v for k, v in ident(name, sp).items() if k not in ("name", "kind")}
    at = {}
    d = sp.get("description", "same")
    at["description"] = C(d) if d != "same" else S(f"{sp.get('tag', name)}.descr")
    if "deprecation" in sp:
        at["deprecation"] = C(sp["deprecation"])
    if sp.get("fka"):
        at["fka"] = [C(x) for x in sp["fka"]]
    if sp.get("const"):
        at["constUID"] = C(sp["const"])
    if val and not sp.get("nouid"):
        at["staticUID"] = C(sp.get("uid") or uid_of(name, sp, cs))
    return nd(name, sp.get("kind", "sensor"), **kw, **at)[0]


def preorder(model):
    """names in tree order: children stay in the order they are given"""
    out = []

    def go(n):
        out.append(n)
        for m in model:
            if m.rpartition(".")[0] == n:
                go(m)
    for n in model:
        if "." not in n:
            go(n)
    return out


def expect(cur, old, cs):
    """reports [(kind, name)] or 'fatal'"""
    rest = preorder(old)
    rep = []
    for n in preorder(cur):
        sp = cur[n]
        u = uid_of(n, sp, cs)
        hit = [m for m in rest if not old[m].get("nouid") and (old[m].get("uid") or uid_of(m, old[m], cs)) == u]
        fk = []
        for f in sp.get("fka", ()):
            w = uid(**{**ident(n, sp), "name": f}, cs=cs)
            fk += [m for m in rest if not old[m].get("nouid") and (old[m].get("uid") or uid_of(m, old[m], cs)) == w]
        if len(hit) > 1:
            return "fatal"
        if hit:
            m = hit[0]
            if m != n and m in fk:
                rep.append(("renamed", n))
            rest.remove(m)
            if sp.get("description", "same") != old[m].get("description", "same"):
                rep.append(("description", n))
            if "deprecation" in sp and "deprecation" in old[m] and sp["deprecation"] != old[m]["deprecation"]:
                rep.append(("deprecation", n))
        elif fk:
            rep.append(("renamed", n))
            rest.remove(fk[-1])
        elif n in rest:
            rep.append(("breaking", n))
            rest.remove(n)
        else:
            rep.append(("added", n))
    return rep + [("deleted", m) for m in rest]


def reports(o, names):
    out = []
    for t in logs(o, ("info", "warning", "warn", "error", "critical", "fatal")):
        k = [v for w, v in KINDS.items() if w in t]
        if "[Validation]" not in t or not k:
            continue
        found = [(m.start(), m.group()) for n in names for m in re.finditer(rf"(?<![\w.]){re.escape(n)}(?![\w]|\.\w)", t)]
        if not found:
            return None
        out.append((k[0], min(found)[1]))
    return out


def one(r, cl, key, cur, old, cs=False, strict=False):
    fs = {ROOT: File([], Data(*[entry(n, s, cs, False) for n, s in cur.items()])), "/m/val.vspec": File([], Data(*[entry(n, s, cs, True) for n, s in old.items()]))}
    e = Export(r.world, "id", fs, opts={"case_sensitive": cs, "strict": strict, "extended_attributes": ("staticUID",), "validate_static_uid": P("/m/val.vspec")})
    want = expect(cur, old, cs)
    msg = f"validating {key}"
    if want == "fatal":
        aborts(r, cl, key, msg + " (ambiguous)", e)
        return
    for o in succeed(r, cl, key, msg, e):
        if e.imprecise:
            r.undecided(cl, key, str(e.imprecise[:2])[:200])
            continue
        got = reports(o, sorted(set(cur) | set(old), key=len))
        if got is None:
            r.undecided(cl, key, "report not understood")
            continue
        r.verdict(sorted(got) == sorted(want), cl, key + " reports", f"{msg} reports {sorted(got)}, expected {sorted(want)}")


BASE = {"unit": "km", "mn": 0, "mx": 9}
B = {"kind": "branch"}
CHANGES = ["same", "description", "deprecation", "deprecation same", "deprecation added", "deprecation removed", "datatype", "unit", "no unit", "min", "no min", "min 0", "max", "kind", "allowed", "deleted", "added", "renamed", "renamed long ago", "renamed and described", "renamed without fka",
           "renamed and retyped", "moved", "constant", "constant same", "constant removed", "former name kept", "case", "comment"]


def change(c, n):
    """(current {name: spec}, old {name: spec}) of one leaf"""
    o, s = dict(BASE, tag=n), dict(BASE, tag=n)
    new = n
    if c == "description":
        s["description"], o["description"] = "new text", "old text"
    elif c == "deprecation":
        s["deprecation"], o["deprecation"] = "new text", "old text"
    elif c == "deprecation same":
        s["deprecation"] = o["deprecation"] = "text"
    elif c == "deprecation added":
        s["deprecation"] = "text"
    elif c == "deprecation removed":
        o["deprecation"] = "text"
    elif c == "datatype":
        s["datatype"] = "float"
    elif c == "unit":
        s["unit"], s["datatype"], o["datatype"] = "kilometer", "uint8", "uint8"
    elif c == "no unit":
        del s["unit"]
    elif c == "min":
        s["mn"] = 1
    elif c == "no min":
        del s["mn"]
    elif c == "min 0":
        del o["mn"]
    elif c == "max":
        s["mx"] = 8
    elif c == "kind":
        s["kind"] = "actuator"
    elif c == "allowed":
        for x in (s, o):
            del x["mn"], x["mx"]
        s["allowed"], o["allowed"] = [1, 2], [1, 3]
    elif c == "deleted":
        return {}, {n: o}
    elif c == "added":
        return {n: s}, {}
    elif c in ("renamed", "renamed long ago", "renamed and described", "renamed without fka", "renamed and retyped"):
        new = n + "New"
        s["tag"] = n
        if c != "renamed without fka":
            s["fka"] = [n]
        if c == "renamed long ago":
            s["fka"] = [n + "Gone", n]
        if c == "renamed and described":
            s["description"], o["description"] = "new text", "old text"
        if c == "renamed and retyped":
            s["kind"] = "attribute"
    elif c == "moved":
        new = "V.M." + n.split(".")[-1]
        s["fka"] = [n]
    elif c == "constant":
        s["const"] = "0x0000" + format(sum(map(ord, n)), "04X")
    elif c == "constant same":
        s["const"] = o["const"] = "0x0000" + format(sum(map(ord, n)), "04X")
    elif c == "constant removed":
        o["const"] = "0x0000" + format(sum(map(ord, n)), "04X")
    elif c == "former name kept":
        s["fka"] = o["fka"] = [n + "Gone"]
    elif c == "case":
        new = n.upper() if n.upper() != n else n.lower()
    return {new: s}, {n: o}


def pairs(r, j):
    part, n = j
    cases = [("one", (c,)) for c in CHANGES] + [("two", p) for p in itertools.product(CHANGES, repeat=2)]
    if not r.thorough:
        keep = ("same", "description", "deprecation", "unit", "deleted", "added", "renamed", "renamed long ago", "kind", "moved", "renamed without fka", "constant")
        cases = [c for c in cases if c[0] == "one" or all(x in keep for x in c[1])]
    for w, cs_ in cases[part::n]:
        cur, old = {"V": B, "V.M": B}, {"V": B, "V.M": B}
        for i, c in enumerate(cs_):
            a, b = change(c, f"V.Leaf{i}")
            cur.update(a)
            old.update(b)
        for cs in (False, True) if w == "one" or r.thorough else (False,):
            for strict in (False, True) if w == "one" else (False,):
                if strict and "case" in cs_:
                    continue
                one(r, "changes", f"{' + '.join(cs_)} {cs} {strict}", cur, old, cs, strict)


def shapes(r, _):
    L = lambda **k: dict(BASE, **k)
    same = {"V": B, "V.A": L(), "V.B": B, "V.B.C": L(kind="attribute"), "V.B.D": B, "V.B.D.E": L(datatype="float"), "V.Z": L()}
    for cs in (False, True):
        one(r, "unchanged", f"tree {cs}", same, same, cs)
        one(r, "unchanged", f"reordered {cs}", dict(reversed(list(same.items()))), same, cs)
        one(r, "unchanged", f"reordered back {cs}", same, dict(reversed(list(same.items()))), cs)
        for n in same:
            if n == "V":
                continue
            sub = {k: v for k, v in same.items() if k != n and not k.startswith(n + ".")}
            one(r, "trees", f"{n} deleted {cs}", sub, same, cs)
            one(r, "trees", f"{n} added {cs}", same, sub, cs)
        for n in ("V.B", "V"):
            up = {k: (dict(v, description="new") if k == n else v) for k, v in same.items()}
            dn = {k: (dict(v, description="old") if k == n else v) for k, v in same.items()}
            one(r, "trees", f"{n} described {cs}", up, dn, cs)
        # a renamed branch: its signals carry former names
        ren = {"V": B, "V.A": L(), "V.Bx": dict(B, fka=["V.B"], tag="V.B"), "V.Bx.C": L(kind="attribute", fka=["V.B.C"], tag="V.B.C"), "V.Z": L()}
        old = {"V": B, "V.A": L(), "V.B": B, "V.B.C": L(kind="attribute"), "V.Z": L()}
        one(r, "trees", f"renamed branch {cs}", ren, old, cs)
        one(r, "trees", f"renamed branch without fka {cs}", {"V": B, "V.A": L(), "V.Bx": B, "V.Bx.C": L(kind="attribute"), "V.Z": L()}, old, cs)
        # ambiguous and odd validation files
        u = uid_of("V.A", L(), cs)
        one(r, "ambiguous", f"same UID twice {cs}", {"V": B, "V.A": L()}, {"V": B, "V.A": L(), "V.B": L(uid=u)}, cs)
        one(r, "ambiguous", f"same UID twice, first {cs}", {"V": B, "V.A": L()}, {"V": B, "V.0": L(uid=u), "V.A": L()}, cs)
        one(r, "ambiguous", f"same UID three times {cs}", {"V": B, "V.A": L()}, {"V": B, "V.A": L(), "V.B": L(uid=u), "V.C": L(uid=u)}, cs)
        one(r, "ambiguous", f"same unknown UID twice {cs}", {"V": B, "V.A": L()}, {"V": B, "V.A": L(), "V.B": L(uid="0x00000001"), "V.C": L(uid="0x00000001")}, cs)
        # entries of the validation file without a UID
        one(r, "without UID", f"leaf {cs}", {"V": B, "V.A": L(), "V.B": L()}, {"V": B, "V.A": L(nouid=True), "V.B": L()}, cs)
        one(r, "without UID", f"deleted leaf {cs}", {"V": B, "V.B": L()}, {"V": B, "V.A": L(nouid=True), "V.B": L()}, cs)
        one(r, "without UID", f"other renamed {cs}", {"V": B, "V.A": L(), "V.C": L(fka=["V.Gone", "V.B"], tag="V.B")}, {"V": dict(B, nouid=True), "V.A": L(), "V.B": L()}, cs)
        one(r, "without UID", f"other renamed 2 {cs}", {"V": B, "V.C": L(fka=["V.B"], tag="V.B"), "V.D": L(fka=["V.Never"])}, {"V": B, "V.A": L(nouid=True), "V.B": L()}, cs)
        # a chain of names; two signals with the same former name consume one entry only
        one(r, "consumed once", f"two claim one {cs}", {"V": B, "V.A": L(fka=["V.G1", "V.O"]), "V.B": L(fka=["V.G2", "V.O"])}, {"V": B, "V.O": L()}, cs)
        one(r, "consumed once", f"two claim one of two {cs}", {"V": B, "V.A": L(fka=["V.G1", "V.O"]), "V.B": L(fka=["V.G2", "V.O"]), "V.C": L()}, {"V": B, "V.C": L(), "V.O": L(), "V.P": L()}, cs)
        one(r, "consumed once", f"split {cs}", {"V": B, "V.A": L(fka=["V.O"], tag="V.O"), "V.B": L(fka=["V.G2", "V.O"])}, {"V": B, "V.O": L()}, cs)
        for perm in itertools.permutations(["V.P", "V.Q", "V.R"]):
            one(r, "consumed once", f"breaking in the middle {perm} {cs}", {"V": B, **{n: L(mn=1) if n == "V.Q" else L() for n in perm}}, {"V": B, **{n: L() for n in ("V.P", "V.Q", "V.R")}}, cs)
            one(r, "consumed once", f"breaking all {perm} {cs}", {"V": B, **{n: L(mn=1) for n in perm}}, {"V": B, **{n: L() for n in ("V.P", "V.Q", "V.R")}}, cs)
            one(r, "consumed once", f"renamed all {perm} {cs}", {"V": B, **{n + "x": L(fka=["V.G" + n[-1], n], tag=n) for n in perm}}, {"V": B, **{n: L() for n in ("V.P", "V.Q", "V.R")}}, cs)
            one(r, "consumed once", f"described all {perm} {cs}", {"V": B, **{n: L(description="new " + n) for n in perm}}, {"V": B, **{n: L(description="old") for n in ("V.P", "V.Q", "V.R")}}, cs)
        # texts that are cut, empty or differ in letter case
        for a, b in (("text", "Text"), ("text", "text "), ("text", "textmore"), ("a", ""), ("", "a"), ("\u00e4", "a"), ("text", "text")):
            one(r, "texts", f"description {a!r} {b!r} {cs}", {"V": B, "V.A": L(description=a)}, {"V": B, "V.A": L(description=b)}, cs)
            if a and b:
                one(r, "texts", f"deprecation {a!r} {b!r} {cs}", {"V": B, "V.A": L(deprecation=a)}, {"V": B, "V.A": L(deprecation=b)}, cs)
                one(r, "texts", f"branch deprecation {a!r} {b!r} {cs}", {"V": dict(B, deprecation=a), "V.A": L()}, {"V": dict(B, deprecation=b), "V.A": L()}, cs)


def job(r, j):
    {"pairs": pairs, "shapes": shapes}[j[0]](r, j[1])


def check(r):
    r.text("The ID export with a validation file is interpreted for pairs of models that differ by every kind of change and combination; the reports of every path are compared with the classification.")
    r.pmap(job, [("shapes", None)] + [("pairs", (i, 16)) for i in range(16)])
    for c in ("changes", "unchanged", "trees", "ambiguous", "without UID", "consumed once", "texts"):
        r.floor(c, 2)
