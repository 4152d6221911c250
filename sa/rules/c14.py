"""C14: name and attribute strictness checks cover every node of the final tree."""
from core import *  # noqa
from full import *

# strictness settings: (name, args, names checked, attributes checked)
SET = [
    ("none", {}, False, False),
    ("strict", {"strict": True}, True, True),
    ("name", {"aborts": ("name-style",)}, True, False),
    ("attr", {"aborts": ("unknown-attribute",)}, False, True),
    ("name+attr", {"aborts": ("name-style", "unknown-attribute")}, True, True),
    ("attr+name", {"aborts": ("unknown-attribute", "name-style")}, True, True),
    ("strict+name", {"strict": True, "aborts": ("name-style",)}, True, True),
    ("strict+attr", {"strict": True, "aborts": ("unknown-attribute",)}, True, True),
]
GOOD = ["A", "Z", "Abc", "A1", "A0b9C", "ABC", "Z9", "Is", "Has"]
BAD = ["a", "abc", "aBC", "_A", "1A", "A_b", "A-b", "A b", "A\n", "A\u00e9", "\u00c9a", "A$", "A(", "A+", "A:", "9", "A/", "\u0391", "A\u0661"]
BOOL = [("IsX", True), ("HasX", True), ("Is", True), ("Has", True), ("Isx", True), ("Hasx", True), ("X", False), ("XIs", False), ("XHas", False), ("I", False), ("Ha", False), ("IS", False), ("HAS", False), ("AIsX", False), ("H", False), ("SI", False)]
T1 = File([], Data(branch("T"), N("T.S", "struct"), leaf("T.S.P", "property")))


def expect(r, cl, key, msg, bad, f):
    if bad:
        fails(r, cl, key, msg + " is accepted", f)
    else:
        loads(r, cl, key, msg, f)


def tree(where, name, extra=()):
    """files in which the node called `name` sits at `where`; -> (files, kwargs)"""
    ex = dict(extra)
    V = branch("V")
    kw = {}
    if where == "root":
        fs = Data(branch(name, **ex), leaf(name + ".X"))
    elif where == "root leafless":
        fs = Data(branch(name, **ex))
    elif where == "branch":
        fs = Data(V, branch(f"V.{name}", **ex), leaf(f"V.{name}.X"))
    elif where == "empty branch":
        fs = Data(V, leaf("V.X"), branch(f"V.{name}", **ex))
    elif where == "leaf":
        fs = Data(V, leaf(f"V.{name}", **ex))
    elif where == "last leaf":
        fs = Data(V, leaf("V.A"), branch("V.B"), leaf("V.B.C"), leaf(f"V.{name}", **ex))
    elif where == "first leaf":
        fs = Data(V, leaf(f"V.{name}", **ex), leaf("V.B"), leaf("V.C"))
    elif where == "deep leaf":
        fs = Data(V, branch("V.A"), branch("V.A.B"), branch("V.A.B.C"), leaf(f"V.A.B.C.{name}", **ex))
    elif where == "attribute":
        fs = Data(V, leaf(f"V.{name}", "attribute", **ex))
    elif where == "actuator":
        fs = Data(V, leaf(f"V.{name}", "actuator", **ex))
    elif where == "array leaf":
        fs = Data(V, leaf(f"V.{name}", datatype="string[]", **ex))
    elif where == "struct leaf":
        fs = Data(V, leaf(f"V.{name}", datatype="T.S", **ex))
        kw["types"] = ["/m/t.vspec"]
    elif where == "overlay":
        kw["overlays"] = ["/m/o.vspec"]
        return {ROOT: File([], Data(V, leaf("V.A"))), "/m/o.vspec": File([], Data(leaf(f"V.{name}", **ex)))}, kw
    elif where == "overlay of overlay":
        kw["overlays"] = ["/m/o.vspec", "/m/p.vspec"]
        return {ROOT: File([], Data(V, leaf("V.A"))), "/m/o.vspec": File([], Data(leaf(f"V.{name}", **ex))), "/m/p.vspec": File([], Data(leaf("V.Q")))}, kw
    elif where == "instance":
        fs = Data(V, branch("V.R", instances=[C(name)], **ex), leaf("V.R.X"))
    elif where == "second instance":
        fs = Data(V, branch("V.R", instances=[C("Left"), C(name)], **ex), leaf("V.R.X"))
    elif where == "inner instance":
        fs = Data(V, branch("V.R", instances=[[C("Left"), C("Right")], [C(name)]], **ex), leaf("V.R.X"))
    elif where == "below instance":
        fs = Data(V, branch("V.R", instances=[C("Left"), C("Right")]), leaf(f"V.R.{name}", **ex))
    elif where == "branch below instance":
        fs = Data(V, branch("V.R", instances=[C("Left"), C("Right")]), branch(f"V.R.{name}", **ex), leaf(f"V.R.{name}.X"))
    elif where == "one instance":
        fs = Data(V, branch("V.R", instances=[C("Left"), C("Right")]), leaf("V.R.X"), leaf(f"V.R.Right.{name}", **ex))
    elif where == "instantiate false":
        fs = Data(V, branch("V.R", instances=[C("Left"), C("Right")]), leaf(f"V.R.{name}", instantiate=FALSE, **ex))
    elif where == "beside deleted":
        fs = Data(V, leaf("V.A", delete=TRUE), leaf(f"V.{name}", **ex))
    elif where == "orphan overlay":
        fs = Data(V, leaf(f"V.Q.{name}", **ex), branch("V.Q"))
    elif where == "unexpanded":
        fs = Data(V, branch("V.R", instances=[C("Left")]), leaf(f"V.R.{name}", **ex))
        kw["expand"] = False
    files = {ROOT: File([], fs)}
    if "types" in kw:
        files["/m/t.vspec"] = T1
    return files, kw


PLACES = ["root", "root leafless", "branch", "empty branch", "leaf", "last leaf", "first leaf", "deep leaf", "attribute", "actuator", "array leaf", "struct leaf", "overlay", "overlay of overlay", "instance",
          "second instance", "inner instance", "below instance", "branch below instance", "one instance", "instantiate false", "beside deleted", "orphan overlay", "unexpanded"]


def places(r, where):
    for sname, args, nm, at in SET:
        for name, bad in (("Abc", False), ("abc", True), ("A_c", True)):
            fs, kw = tree(where, name)
            expect(r, "name places", f"{where} {name} {sname}", f"a node {name!r} ({where}) with {sname}", bad and nm, Full(r.world, fs, **kw, **args))
        for wl in ((), ("foo",), ("bar",), ("bar", "foo"), ("foo.bar", "fo"), ("foobar",)):
            if not r.thorough and sname in ("name+attr", "attr+name", "strict+name", "strict+attr") and len(wl) != 1:
                continue
            fs, kw = tree(where, "Abc", {"foo": S("foo")})
            expect(r, "attribute places", f"{where} {wl} {sname}", f"an attribute foo ({where}) with {sname} and the whitelist {wl}", at and "foo" not in wl, Full(r.world, fs, extended_attributes=wl, **kw, **args))


def names(r, ns):
    for sname, args, nm, at in SET[:4] if not r.thorough else SET:
        for name in ns:
            for where in ("leaf", "branch") + (("instance", "root leafless") if r.thorough else ()):
                fs, kw = tree(where, name)
                expect(r, "name rule", f"{name!r} {where} {sname}", f"a {where} {name!r} with {sname}", nm and name in BAD, Full(r.world, fs, **kw, **args))


def booleans(r, part):
    for sname, args, nm, at in SET[part::2]:
        for name, ok in BOOL:
            for kind in ("sensor", "attribute", "actuator"):
                if kind != "sensor" and sname != "strict" and not r.thorough:
                    continue
                fs = {ROOT: File([], Data(branch("V"), leaf("V.A"), leaf(f"V.{name}", kind, datatype="boolean")))}
                expect(r, "boolean", f"{name} {kind} {sname}", f"a boolean {kind} {name} with {sname}", nm and not ok, Full(r.world, fs, **args))
        for dt in ("uint8", "string", "boolean[]", "float"):
            fs = {ROOT: File([], Data(branch("V"), leaf("V.Xy", datatype=dt)))}
            expect(r, "boolean", f"{dt} {sname}", f"a {dt} leaf Xy with {sname}", False, Full(r.world, fs, **args))
        # set by an overlay only
        for name, ok in (("X", False), ("IsX", True)):
            fs = {ROOT: File([], Data(branch("V"), leaf(f"V.{name}"))), "/m/o.vspec": File([], Data(leaf(f"V.{name}", datatype="boolean")))}
            expect(r, "boolean", f"overlay {name} {sname}", f"a leaf {name} that an overlay makes boolean with {sname}", nm and not ok, Full(r.world, fs, overlays=["/m/o.vspec"], **args))
            fs = {ROOT: File([], Data(branch("V"), branch("V.R", instances=C("Row[1,2]")), leaf(f"V.R.{name}", datatype="boolean")))}
            expect(r, "boolean", f"instance {name} {sname}", f"a boolean {name} below an instantiated branch with {sname}", nm and not ok, Full(r.world, fs, **args))
        # what is deleted is not part of the final tree
        fs = {ROOT: File([], Data(branch("V"), leaf("V.a", foo=S("foo"), delete=TRUE), branch("V.b", delete=TRUE), leaf("V.b.c", foo=S("foo")), leaf("V.D")))}
        expect(r, "deleted", sname, f"violations on deleted nodes with {sname}", False, Full(r.world, fs, **args))


def foreign(r, part):
    """core attributes of another kind of node"""
    cases = []
    for a, v in (("datatype", C("uint8")), ("unit", C("km")), ("min", C(1)), ("max", C(2)), ("allowed", [C(1)]), ("default", C(0)), ("arraysize", C(1))):
        cases.append((f"branch {a}", Data(branch("V"), branch("V.B", **{a: v}), leaf("V.B.X")), None))
        cases.append((f"root {a}", Data(branch("V", **{a: v}), leaf("V.X")), None))
        cases.append((f"instance branch {a}", Data(branch("V"), branch("V.B", instances=[C("L"), C("R")], **{a: v}), leaf("V.B.X")), None))
        cases.append((f"struct {a}", Data(branch("V")), Data(branch("T"), N("T.S", "struct", **{a: v}), leaf("T.S.P", "property"))))
        cases.append((f"types branch {a}", Data(branch("V")), Data(branch("T", **{a: v}), N("T.S", "struct"), leaf("T.S.P", "property"))))
    for k in ("sensor", "attribute", "actuator"):
        cases.append((f"{k} instances", Data(branch("V"), leaf("V.X", k, instances=[C("L")])), None))
    for ext, w in ((), False), (("datatype", "unit", "min", "max", "allowed", "default", "arraysize", "instances"), True):
        for key, d, t in cases:
            for sname, args, nm, at in SET[part::4]:
                if key.endswith("instances") and not key.startswith("instance"):
                    a = "instances"
                else:
                    a = key.split()[-1]
                if w and a == "instances":
                    continue
                fs = {ROOT: File([], d)}
                kw = {}
                if t is not None:
                    fs["/m/t.vspec"] = File([], t)
                    kw["types"] = ["/m/t.vspec"]
                f = Full(r.world, fs, extended_attributes=ext, **kw, **args)
                if w:
                    expect(r, "whitelist", f"{key} {sname}", f"a whitelisted {key} with {sname}", False, f)
                elif a != "instances":
                    expect(r, "foreign", f"{key} {sname}", f"a core attribute on a node it does not belong to ({key}) with {sname}", True, f)
    # unknown attributes in a types tree, whitelisted or with strictness
    for key, t in (("branch", Data(branch("T", foo=S("f")), N("T.S", "struct"), leaf("T.S.P", "property"))), ("struct", Data(branch("T"), N("T.S", "struct", foo=S("f")), leaf("T.S.P", "property"))),
                   ("property", Data(branch("T"), N("T.S", "struct"), leaf("T.S.P", "property", foo=S("f"))))):
        for sname, args, nm, at in SET[part::4]:
            for wl in ((), ("foo",), ("bar",)):
                fs = {ROOT: File([], Data(branch("V"))), "/m/t.vspec": File([], t)}
                expect(r, "types", f"{key} {wl} {sname}", f"an attribute foo on a types {key} with {sname} and the whitelist {wl}", "foo" not in wl, Full(r.world, fs, types=["/m/t.vspec"], extended_attributes=wl, **args))
    # several nodes, only one of them wrong; several attributes, only one whitelisted
    for sname, args, nm, at in SET[part::4]:
        for i in range(3):
            d = Data(branch("V"), *[leaf(f"V.L{j}", **({"foo": S("f")} if j == i else {})) for j in range(3)])
            expect(r, "attribute places", f"sibling {i} {sname}", f"an attribute foo on sibling {i} with {sname}", at, Full(r.world, {ROOT: File([], d)}, **args))
            d = Data(branch("V"), *[leaf("V." + ("l" if j == i else "L") + str(j)) for j in range(3)])
            expect(r, "name places", f"sibling {i} {sname}", f"a badly named sibling {i} with {sname}", nm, Full(r.world, {ROOT: File([], d)}, **args))
        for wl in (("foo",), ("bar",), ("foo", "bar"), ("bar", "foo")):
            d = Data(branch("V"), leaf("V.X", foo=S("f"), bar=S("b")))
            expect(r, "attribute places", f"two {wl} {sname}", f"attributes foo and bar with {sname} and the whitelist {wl}", at and len(wl) < 2, Full(r.world, {ROOT: File([], d)}, extended_attributes=wl, **args))
            d = Data(branch("V"), leaf("V.X", foo=S("f")), leaf("V.Y", bar=S("b")))
            expect(r, "attribute places", f"two nodes {wl} {sname}", f"attributes foo and bar on two nodes with {sname} and the whitelist {wl}", at and len(wl) < 2, Full(r.world, {ROOT: File([], d)}, extended_attributes=wl, **args))
        for v in (C(""), C(0), FALSE, NONE, [], C("x"), [C(1)]):
            d = Data(branch("V"), leaf("V.X", foo=v))
            expect(r, "attribute places", f"value {v} {sname}", f"an attribute foo: {v} with {sname}", at, Full(r.world, {ROOT: File([], d)}, **args))


def job(r, j):
    {"places": places, "names": names, "booleans": booleans, "foreign": foreign}[j[0]](r, j[1])


def check(r):
    r.text("Loading is interpreted for a violating and a conforming node at every place of a tree x every strictness setting; outcomes are compared with the naming and attribute rules.")
    ns = GOOD + BAD
    r.pmap(job, [("booleans", 0), ("booleans", 1)] + [("foreign", i) for i in range(4)] + [("places", p) for p in PLACES] + [("names", ns[i::6]) for i in range(6)])
    for c in ("name places", "attribute places", "name rule", "boolean", "deleted", "foreign", "whitelist", "types"):
        r.floor(c, 2)
