"""C15: a static UID depends exactly on the documented identity of a node."""
from core import *  # noqa
from full import *
from rules.idref import *

U = {"/m/units.yaml": File([], Data(*[(u, Data(("definition", C("d")), ("unit", C(u + "name")), ("quantity", C("distance")), ("allowed-datatypes", [C(x) for x in ("uint8", "float", "int8", "string", "double", "uint8[]", "int32", "numeric")])))
                                      for u in ("km", "Mm", "percent")]))}
OTHER = dict(comment=S("o.comment"), deprecation=S("o.deprecation"), foo=S("o.foo"))


def variants():
    """identity fields of the node under test"""
    for k in ("sensor", "attribute", "actuator"):
        yield dict(kind=k)
    for d in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "boolean", "string", "numeric", "uint8[]", "string[]", "boolean[]", "float[]"):
        yield dict(datatype=d)
    for u in ("km", "Mm", "percent"):
        yield dict(unit=u)
    for a in ([1], [1, 2], [2, 1], [0], [0, 255], []):
        yield dict(allowed=a)
    for a in (["a"], ["a", "b"], ["b", "a"], ["A", "b"], ["x y"], ["it's"], ["\u00e4"], [""], ['"']):
        yield dict(allowed=a, datatype="string")
    yield dict(allowed=[1.5, 2.0], datatype="double")
    yield dict(allowed=[True], datatype="boolean")
    for m in (0, 1, 5, 255):
        yield dict(mn=m)
        yield dict(mx=m)
    yield dict(mn=0, mx=0)
    yield dict(mn=0, mx=10)
    yield dict(mn=3, mx=200, unit="km")
    yield dict(mn=-5, mx=-1, datatype="int8")
    yield dict(mn=0.0, mx=1.0, datatype="float")
    yield dict(mn=-1.5, mx=100000000000.5, datatype="double", unit="km")
    yield dict(mn=-1.5, datatype="double", unit="Mm")
    yield dict(mx=5, unit="percent", datatype="int32", kind="actuator")


NAMES = ["V.X", "V.x", "V.XY", "V.Xy", "V.X1", "V.B.X", "V.B.C.D.E"]


def parents(n):
    p = n.split(".")
    return [".".join(p[:i]) for i in range(1, len(p))]


def model(name, spec, extra=None, before=(), after=(), layout="plain"):
    e, ident = nd(name, **{**spec, **(extra or {})})
    bs = [branch(b) for b in parents(name)]
    fs = dict(U)
    kw = {}
    if layout == "plain":
        fs[ROOT] = File([], Data(bs[0], *before, *bs[1:], e, *after))
    elif layout == "first":
        fs[ROOT] = File([], Data(e, *after, *bs, *before))
    elif layout == "overlay":
        fs[ROOT] = File([], Data(*bs, *before, *after))
        fs["/m/o.vspec"] = File([], Data(e))
        kw["overlays"] = ["/m/o.vspec"]
    return fs, kw, ident


def one(r, cl, key, msg, fs, kw, name, want, cs, **opts):
    e = Export(r.world, "id", fs, opts={"case_sensitive": cs, **opts}, **kw)
    for o, d in entries(succeed(r, cl, key, msg, e)):
        v = at(d.get(name), "staticUID") if d else None
        if v is None and d is not None and not e.imprecise:
            r.bad(cl, key + " uid", f"{msg}: no staticUID is written for {name}")
        elif isinstance(v, C):
            r.verdict(v.v == want if not e.imprecise else None, cl, key + " uid", f"{msg}: the static UID is {v.v}, expected {want}")
        elif v is None or e.imprecise:
            r.undecided(cl, key + " uid", repr(v)[:200])
        else:
            syms = sorted({x.path for x in symbols(v)})
            if syms:
                r.bad(cl, key + " uid", f"{msg}: the static UID depends on {', '.join(syms)[:100]}")
            else:
                r.undecided(cl, key + " uid", repr(v)[:200])


def symbols(v):
    if isinstance(v, Sym):
        yield v
    for a in getattr(v, "args", ()) or getattr(v, "parts", ()) or getattr(v, "items", ()) or ():
        if isinstance(a, V):
            yield from symbols(a)


def fields(r, vs):
    for spec in vs:
        for cs in (False, True):
            fs, kw, ident = model("V.Xy", spec, OTHER)
            one(r, "fields", f"{spec} {cs}", f"a node with {spec}, case-sensitive {cs}", fs, kw, "V.Xy", uid(**ident, cs=cs), cs)


def others(r, _):
    for name in NAMES:
        for cs in (False, True):
            for lay in ("plain", "first", "overlay"):
                for ki, (b, a) in enumerate((((), ()), ((leaf("V.A1"),), ()), ((), (leaf("V.Z1"), leaf("V.Z2", "attribute", datatype="string"))), ((leaf("V.A0"), branch("V.A9"), leaf("V.A9.Q")), (leaf("V.Z0"),)))):
                    fs, kw, ident = model(name, dict(unit="km", mn=0), OTHER, b, a, lay)
                    one(r, "position", f"{name} {cs} {lay} {ki}", f"{name} at another position ({lay} {ki}), case-sensitive {cs}", fs, kw, name, uid(**ident, cs=cs), cs)
    # attributes outside the identity
    for key, dt, extra in (("default", "string", dict(default=S("d"))), ("default 0", "uint8", dict(default=C(0))), ("default 5", "uint8", dict(default=C(5))), ("comment", "uint8", dict(comment=S("c"))), ("deprecation", "uint8", dict(deprecation=S("c"))),
                           ("extra", "uint8", dict(foo=S("c"), bar=S("d"))), ("staticUID", "uint8", dict(staticUID=S("uid"))), ("description", "uint8", dict(description=S("dd"))), ("const description", "uint8", dict(description=C("other text"))),
                           ("arraysize", "uint8[]", dict(arraysize=C(3))), ("instantiate", "uint8", dict(instantiate=FALSE)), ("default list", "uint8[]", dict(default=[C(1), C(2)])), ("empty fka", "uint8", dict(fka=[])), ("unicode descr", "uint8", dict(description=C("\u00e4")))):
        for cs in (False, True):
            for kind in ("sensor", "attribute", "actuator"):
                fs, kw, ident = model("V.Xy", dict(datatype=dt, kind=kind), extra)
                one(r, "other attributes", f"{key} {kind} {cs}", f"a {kind} with another {key}", fs, kw, "V.Xy", uid(**ident, cs=cs), cs)
                one(r, "other attributes", f"{key} {kind} {cs} strict", f"a {kind} with another {key}, strict", fs, kw, "V.Xy", uid(**ident, cs=cs), cs, strict=True, extended_attributes=("foo", "bar", "staticUID"))
    for cs in (False, True):
        for key, extra in (("plain", {}), ("comment", dict(comment=S("c"))), ("deprecation", dict(deprecation=S("c"))), ("aggregate", dict(aggregate=TRUE)), ("instances", dict(instances=[C("Left"), C("Right")]))):
            e, ident = nd("V.Br", "branch", **extra)
            fs = {**U, ROOT: File([], Data(branch("V"), e, leaf("V.Br.X")))}
            one(r, "branches", f"{key} {cs}", f"a branch with {key}", fs, {}, "V.Br", uid(**ident, cs=cs), cs)
            one(r, "branches", f"root {key} {cs}", f"the root of a model with {key}", fs, {}, "V", uid("V", "branch", cs=cs), cs)
            if key == "instances":
                one(r, "branches", f"instance {key} {cs}", "an instance of a branch", fs, {}, "V.Br.Right", uid("V.Br.Right", "branch", cs=cs), cs)
                one(r, "branches", f"signal of instance {key} {cs}", "a signal of an instance of a branch", fs, {}, "V.Br.Right.X", uid("V.Br.Right.X", "sensor", "uint8", cs=cs), cs)
                one(r, "branches", f"unexpanded {key} {cs}", "a branch with unexpanded instances", fs, {}, "V.Br", uid("V.Br", "branch", cs=cs), cs, expand=False)


def former(r, _):
    for fka in (["V.Old"], ["V.Old", "V.Older"], ["V.Older", "V.Old"], ["W.Q.Old"], ["V.old"], ["old"], ["V.Xy"]):
        for spec in (dict(), dict(unit="km", mn=0, mx=7), dict(datatype="string", allowed=["a"]), dict(kind="attribute", mx=3)):
            for cs in (False, True):
                fs, kw, ident = model("V.Xy", spec, dict(OTHER, fka=[C(x) for x in fka]))
                one(r, "former name", f"{fka} {spec} {cs}", f"a node formerly {fka} with {spec}", fs, kw, "V.Xy", uid(**{**ident, "name": fka[0]}, cs=cs), cs)
    for cu in ("0x00000001", "0xABCDEF01", "0xabcdef01", "0xFFFFFFFF", "0x00000000"):
        for extra in ({}, {"fka": [C("V.Old")]}, {"unit": "km"}):
            for cs in (False, True):
                fs, kw, ident = model("V.Xy", {}, dict(OTHER, constUID=C(cu), **extra))
                one(r, "constant", f"{cu} {sorted(extra)} {cs}", f"a node with the constant UID {cu}", fs, kw, "V.Xy", cu, cs)
                fs = {**U, ROOT: File([], Data(branch("V", constUID=C(cu)), leaf("V.X")))}
                one(r, "constant", f"branch {cu} {cs}", f"a branch with the constant UID {cu}", fs, {}, "V", cu, cs)
    # the neighbours of a node with a constant UID keep theirs
    for cs in (False, True):
        fs = {**U, ROOT: File([], Data(branch("V"), leaf("V.A", constUID=C("0x00000001")), leaf("V.B")))}
        one(r, "constant", f"neighbour {cs}", "the neighbour of a node with a constant UID", fs, {}, "V.B", uid("V.B", "sensor", "uint8", cs=cs), cs)


def recompute(r, vs):
    """the validator finds a former name through the same function of the same fields"""
    for spec in vs:
        for fka in (["V.Gone", "V.Old"], ["V.Gone", "V.Gone2", "V.Old"]):
            for cs in (False, True):
                for strict in (False, True) if spec.get("datatype") != "boolean" else (False,):
                    fs, kw, ident = model("V.Xy", spec, dict(fka=[C(x) for x in fka]))
                    old, oi = nd("V.Old", **{k: v for k, v in spec.items()}, staticUID=uid(**{**ident, "name": "V.Old"}, cs=cs))
                    fs["/m/val.vspec"] = File([], Data(N("V", "branch", staticUID=C(uid("V", "branch", cs=cs))), old))
                    e = Export(r.world, "id", fs, opts={"case_sensitive": cs, "strict": strict, "extended_attributes": ("staticUID",), "validate_static_uid": P("/m/val.vspec")}, **kw)
                    key = f"{spec} {fka} {cs} {strict}"
                    msg = f"a node with {spec}, formerly {fka}, case-sensitive {cs}, strict {strict}, validated against V.Old"
                    for o in succeed(r, "validator", key, msg, e):
                        ls = [x for x in logs(o) if "V.Xy" in x or "V.Old" in x]
                        r.verdict(any("SEMANTIC" in x for x in ls) if not e.imprecise else None, "validator", key + " match", f"{msg}: the former name is not recognised, reported is {ls}")


def job(r, j):
    {"fields": fields, "others": others, "former": former, "recompute": recompute}[j[0]](r, j[1])


def check(r):
    r.text("The ID export is interpreted from specification to output with every attribute outside the identity symbolic: the emitted UID must be the constant FNV-1 hash of the identity fields. The validator's recomputation is decided by its verdict on former names.")
    vs = list(variants())
    r.pmap(job, [("others", None), ("former", None)] + [("fields", vs[i::6]) for i in range(6)] + [("recompute", vs[i::8]) for i in range(8)])
    for c in ("fields", "position", "other attributes", "branches", "former name", "constant", "validator"):
        r.floor(c, 2)
