"""C06: later specs win attribute by attribute, everything else is preserved."""
import itertools

from core import *  # noqa
from corectx import Data, word
from full import *  # noqa
from rules.common import units_of
from specs import File, SpecRun, compare

ATTRS = ["description", "comment", "deprecation", "constUID", "fka", "instances", "datatype", "arraysize", "min", "max", "unit", "allowed", "default",
         "delete", "instantiate", "aggregate", "extra"]


def txt(n):
    return Sym(n, ty="str", truth=True)


def shapes(n):
    """values of every kind an attribute can have"""
    return {"text": txt(n), "number": Sym(n, ty="num"), "zero": C(0), "false": FALSE, "empty": EMPTY, "null": NONE, "list": [txt(n + ".0"), txt(n + ".1")],
            "one": [txt(n + ".0")], "nothing": [], "map": Data(("k1", txt(n + ".k1")), ("k2", txt(n + ".k2"))), "map2": Data(("k2", txt(n + ".k2")), ("k3", Data(("d", txt(n + ".d"))))),
            "deep": Data(("k3", Data(("d", txt(n + ".d2")), ("e", C(0)))))}


def one(*entries):
    return Data(*entries)


def data_scenarios(thorough):
    out = []
    base_attrs = [(a, txt("base." + a)) for a in ATTRS]
    # every attribute alone in the overlay; all the others must be kept
    for a in ATTRS:
        for sh in ("text", "zero", "empty", "null", "list"):
            files = {ROOT: File([], Data(("A", Data(*base_attrs)), ("A.B", Data(*base_attrs)))), "/m/o.vspec": File([], Data(("A.B", Data((a, shapes("o")[sh])))))}
            out.append(("attribute", f"{a} {sh}", files, [ROOT, "/m/o.vspec"], [], f"overlay of {a}"))
        files = {ROOT: File([], Data(("A", Data(*base_attrs)), ("A.B", Data(*[x for x in base_attrs if x[0] != a])))), "/m/o.vspec": File([], Data(("A.B", Data((a, txt("o"))))))}
        out.append(("attribute", f"{a} added", files, [ROOT, "/m/o.vspec"], [], f"overlay adding {a}"))
    # every pair of value kinds
    for x, y in itertools.product(shapes(""), repeat=2):
        files = {ROOT: File([], Data(("A", Data(("type", C("branch")), ("x", shapes("b")[x]), ("y", txt("y")))))), "/m/o.vspec": File([], Data(("A", Data(("x", shapes("o")[y])))))}
        out.append(("kinds", f"{x} then {y}", files, [ROOT, "/m/o.vspec"], [], f"{x} redefined as {y}"))
        if thorough:
            for z in shapes(""):
                f3 = {**files, "/m/p.vspec": File([], Data(("A", Data(("x", shapes("p")[z])))))}
                out.append(("kinds", f"{x} {y} {z}", f3, [ROOT, "/m/o.vspec", "/m/p.vspec"], [], f"{x} redefined as {y} and {z}"))
    # precedence: model, includes, overlays (with includes) in command line order; every subset defines the attribute
    where = [ROOT, "/m/i1.vspec", "/m/i2.vspec", "/o/o1.vspec", "/o/oi.vspec", "/o/o2.vspec"]
    for k in range(1, len(where) + 1):
        for sub in itertools.combinations(where, k):
            files = {w: File([], Data(("A", Data(("type", C("branch")), ("c", txt("in:" + w)), (word("u"), txt("u:" + w))))) if w in sub else Data((w[1] + "X", Data(("type", C("branch")))))) for w in where}
            files[ROOT].includes = [("i1.vspec", None), ("i2.vspec", None)]
            files["/o/o1.vspec"].includes = [("oi.vspec", None)]
            out.append(("precedence", f"{sub}", files, [ROOT, "/o/o1.vspec", "/o/o2.vspec"], [], f"defined in {', '.join(sub)}"))
    # entries below a prefix meet entries written with their full name
    P = word("P")
    files = {ROOT: File([("i.vspec", P)], Data(("A", Data(("type", C("branch")))))), "/m/i.vspec": File([], Data(("B", Data(("c", txt("i")), ("d", txt("d")))))),
             "/m/o.vspec": File([], Data((cat([P, C(".B")]), Data(("c", txt("o"))))))}
    out.append(("precedence", "prefix", files, [ROOT, "/m/o.vspec"], [], "overlay of a prefixed entry"))
    # YAML aliases: entries sharing one mapping stay independent
    for nested in (False, True):
        sh = Data(("type", C("branch")), ("description", txt("d")), ("m", Data(("k", txt("k")))))
        files = {ROOT: File([], Data(("A", sh), ("A.B", sh), ("A.C", sh))),
                 "/m/o.vspec": File([], Data(("A.B", Data(("m", Data(("k", txt("ok")))) if nested else ("description", txt("od")))))),
                 "/m/p.vspec": File([], Data(("A.C", Data(("comment", txt("pc"))))))}
        out.append(("alias", f"model {'nested' if nested else 'flat'}", files, [ROOT, "/m/o.vspec", "/m/p.vspec"], [], "entries sharing one mapping by a YAML alias"))
        sh2 = Data(("description", txt("od")), ("m", Data(("k", txt("ok")))))
        files = {ROOT: File([], Data(("A", Data(("type", C("branch")))))), "/m/o.vspec": File([], Data(("A.B", sh2), ("A.C", sh2))),
                 "/m/p.vspec": File([], Data(("A.B", Data(("m", Data(("k", txt("pk")))) if nested else ("description", txt("pd"))))))}
        out.append(("alias", f"overlay {'nested' if nested else 'flat'}", files, [ROOT, "/m/o.vspec", "/m/p.vspec"], [], "entries sharing one mapping by a YAML alias"))
    return out


def attr(n, a):
    return n.attrs.get(a, NONE)


def expect(r, cl, key, f, what, want, types=False):
    """want: {fqn: {attr: V}} on the final tree"""
    for root, ty in loads(r, cl, key + " loads", what, f):
        t = ty if types else root
        if t is None:
            r.undecided(cl, key, "no tree")
            continue
        by = {n.fqn: n for n in t.walk()}
        for fqn, attrs in want.items():
            n = by.get(fqn)
            k = f"{key}:{fqn}"
            if attrs is None:
                r.verdict(None if f.imprecise else n is None, cl, k, f"{what}: {fqn} exists")
                continue
            if n is None:
                r.verdict(None if f.imprecise else False, cl, k, f"{what}: {fqn} is missing")
                continue
            for a, v in attrs.items():
                g = attr(n, a)
                w = to_py(v) if isinstance(v, V) else v
                ok = g == w
                if not ok and (f.imprecise or not simple(g)):
                    ok = None
                r.verdict(ok, cl, f"{k}.{a}", f"{what}: {fqn}.{a} is {str(g)[:80]} instead of {str(w)[:80]}")


def simple(g):
    if isinstance(g, list):
        return all(simple(x) for x in g)
    if isinstance(g, dict):
        return all(simple(x) for x in g.values())
    return isinstance(g, (C, Sym, EnumM, Cat))


def instances(r):
    """instance specific definitions override the generic ones, the rest is kept"""
    gen = dict(comment=S("g.comment"), unit=C("km"), min=C(1), deprecation=S("g.depr"))
    base = [branch("A"), branch("A.C", instances=C("Row[1,2]"), comment=S("cc")), leaf("A.C.X", **gen), branch("A.C.B", comment=S("bc")), leaf("A.C.B.Y", **gen)]
    g = {"comment": gen["comment"], "unit": C("km"), "min": C(1), "deprecation": gen["deprecation"]}
    for a, v in (("comment", S("s")), ("min", C(0)), ("unit", C("kilometer")), ("max", C(9)), ("description", S("sd")), ("foo", S("foo")), ("default", C(0)), ("deprecation", S("sdep"))):
        for over in (False, True):
            e1 = leaf("A.C.Row1.X", **{a: v, **({} if a == "description" else {"description": DROP} if False else {})})
            files = {ROOT: File([], Data(*base, *([] if over else [e1])))}
            if over:
                files["/m/o.vspec"] = File([], Data(e1))
            f = Full(r.world, files, overlays=["/m/o.vspec"] if over else [])
            want = {"A.C.Row1.X": {**g, "description": Sym("A.C.Row1.X.descr", ty="str", truth=True, none=False), a: v}, "A.C.Row2.X": {**g, "description": S("A.C.X.descr")},
                    "A.C.Row1.B.Y": g, "A.C.Row2.B.Y": g, "A.C.X": None}
            expect(r, "instance", f"{a} {'overlay' if over else 'model'}", f, "definition for one instance", want)
    for name, e, want in (
        ("nested", [leaf("A.C.Row1.B.Y", comment=S("s"))], {"A.C.Row1.B.Y": {**g, "comment": S("s")}, "A.C.Row1.B": {"comment": S("bc")}, "A.C.Row2.B.Y": g}),
        ("branch", [branch("A.C.Row1", comment=S("s"))], {"A.C.Row1": {"comment": S("s")}, "A.C.Row2": {"comment": S("cc")}, "A.C.Row1.X": g, "A.C.Row1.B.Y": g}),
        ("new leaf", [leaf("A.C.Row1.New", comment=S("s"))], {"A.C.Row1.New": {"comment": S("s")}, "A.C.Row2.New": None, "A.C.Row1.X": g}),
        ("kind", [leaf("A.C.Row1.X", kind="attribute", datatype="float", unit=DROP)], {"A.C.Row1.X": {**g, "datatype": C("float")}, "A.C.Row2.X": {**g, "datatype": C("uint8")}}),
        ("two", [leaf("A.C.Row1.X", comment=S("s")), leaf("A.C.Row2.X", comment=S("t"))], {"A.C.Row1.X": {**g, "comment": S("s")}, "A.C.Row2.X": {**g, "comment": S("t")}}),
    ):
        f = Full(r.world, {ROOT: File([], Data(*base, *e))})
        expect(r, "instance", name, f, "definition for one instance", want)


def types(r):
    """further types files are merged into the earlier ones"""
    st = lambda n, **k: N(n, "struct", **k)
    pr = lambda n, **k: leaf(n, kind="property", **k)
    t1 = [branch("T"), st("T.S", comment=S("c1")), pr("T.S.X", comment=S("x1"), unit=C("km"), min=C(1)), pr("T.S.Y")]
    sig = File([], Data(branch("A"), leaf("A.B", datatype="T.S")))
    cases = [
        ("redefined property", [branch("T"), st("T.S"), pr("T.S.X", comment=S("x2"), datatype="float")], {"T.S.X": {"comment": S("x2"), "datatype": C("float"), "min": C(1)}, "T.S.Y": {"datatype": C("uint8")}, "T.S": {"comment": S("c1")}}),
        ("new property", [branch("T"), st("T.S"), pr("T.S.Z")], {"T.S.X": {"comment": S("x1"), "min": C(1)}, "T.S.Z": {"datatype": C("uint8")}}),
        ("new struct", [branch("T"), st("T.R"), pr("T.R.Z", datatype="T.S")], {"T.S.X": {"comment": S("x1")}, "T.R.Z": {"datatype": C("T.S")}}),
        ("new branch", [branch("T"), branch("T.N"), st("T.N.R"), pr("T.N.R.Z")], {"T.S.X": {"comment": S("x1")}, "T.N.R.Z": {"datatype": C("uint8")}}),
        ("redefined struct", [branch("T"), st("T.S", comment=S("c2"))], {"T.S": {"comment": S("c2")}, "T.S.X": {"comment": S("x1")}}),
    ]
    for name, t2, want in cases:
        f = Full(r.world, {ROOT: sig, "/m/t1.vspec": File([], Data(*t1)), "/m/t2.vspec": File([], Data(*t2))}, types=["/m/t1.vspec", "/m/t2.vspec"])
        expect(r, "types", name, f, f"second types file, {name}", want, types=True)


def order(r):
    """the order given decides, not the names of the files"""
    import itertools
    for names in itertools.permutations(["/m/z.vspec", "/m/b.vspec", "/n/a.vspec"]):
        files = {ROOT: File([], Data(branch("A"), leaf("A.X", comment=S("c")), branch("A.B", instances=C("Row[1,2]")), leaf("A.B.Y")))}
        for i, n in enumerate(names):
            files[n] = File([], Data(leaf("A.X", comment=S(f"c{n}"), **({"unit": C("km")} if i == 0 else {})), leaf("A.B.Row1.Y", comment=S(f"y{n}"))))
        expect(r, "order", f"overlays {names}", Full(r.world, files, overlays=list(names)), f"overlays {names}",
               {"A.X": {"comment": S(f"c{names[2]}"), "unit": C("km")}, "A.B.Row1.Y": {"comment": S(f"y{names[2]}")}})
        files = {ROOT: File([], Data(branch("A"), leaf("A.X", datatype="T.S")))}
        for n in names:
            files[n] = File([], Data(branch("T"), N("T.S", "struct", comment=S(f"c{n}")), leaf("T.S.P", kind="property", comment=S(f"p{n}"))))
        expect(r, "order", f"types {names}", Full(r.world, files, types=list(names)), f"types files {names}", {"T.S": {"comment": S(f"c{names[2]}")}, "T.S.P": {"comment": S(f"p{names[2]}")}}, types=True)
        files = {ROOT: File([(names[0], None), (names[1], None)], Data(branch("A"))), "/m/o.vspec": File([(names[2], None)], Data(leaf("A.X")))}
        for n in names:
            files[n] = File([], Data(leaf("A.X", comment=S(f"c{n}"))))
        expect(r, "order", f"includes {names}", Full(r.world, files, overlays=["/m/o.vspec"]), f"includes {names}", {"A.X": {"comment": S(f"c{names[2]}")}})


def job(r, s):
    if s == "order":
        order(r)
    elif s == "instances":
        instances(r)
    elif s == "types":
        types(r)
    else:
        compare(r, s[0], s[1], r.world, *s[2:5], what=s[5])


def check(r):
    r.text("Merging of symbolic files is interpreted for every attribute, every pair of value kinds and every subset of six defining files and compared with the reference "
           "merge; instance specific definitions and multiple types files are interpreted up to the final tree.")
    r.pmap(job, data_scenarios(r.thorough) + ["instances", "types", "order"])
    for c in ("attribute", "kinds", "precedence", "alias", "instance", "types"):
        r.floor(c, 3)
