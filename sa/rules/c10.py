"""C10: inconsistent default, allowed, min, max or array size is rejected, consistent nodes are not."""
from core import *  # noqa
from full import *
from rules.c09 import files, INTS, NUM

SENSORS = ("sensor", "attribute", "actuator", "property")
STR = "string"


def sy(n, ty="str", **k):
    return Sym(n, ty=ty, none=False, distinct="vals", **k)


def cases():
    """(clause, key, must fail, datatype, attributes)"""
    I = C
    # shape
    for dt, v in (("uint8", 0), ("uint8", 5), ("int16", -1), ("float", 0.0), ("double", 1.5), ("boolean", False), ("boolean", True), ("string", ""), ("string", "x"), ("numeric", 0)):
        k = f"{dt} {v!r}"
        yield "shape", f"scalar ok {k}", False, dt, {"default": C(v)}
        yield "shape", f"list for scalar {k}", True, dt, {"default": [C(v)]}
        yield "shape", f"two for scalar {k}", True, dt, {"default": [C(v), C(v)]}
        yield "shape", f"array ok {k}", False, dt + "[]", {"default": [C(v)]}
        yield "shape", f"array ok 3 {k}", False, dt + "[]", {"default": [C(v), C(v), C(v)]}
        yield "shape", f"scalar for array {k}", True, dt + "[]", {"default": C(v)}
    for dt in ("uint8", "string", "boolean", "float"):
        yield "shape", f"empty list for scalar {dt}", True, dt, {"default": []}
        yield "shape", f"empty list for array {dt}", False, dt + "[]", {"default": []}
    yield "shape", "symbolic scalar for array", True, "string[]", {"default": sy("d")}
    yield "shape", "symbolic list for scalar", True, "string", {"default": [sy("d")]}
    # datatype
    for dt, v in (("uint8", ""), ("uint8", False), ("uint8", 0.0), ("uint8", -1), ("uint8", 256), ("boolean", 0), ("boolean", ""), ("string", 0), ("string", False), ("string", 0.0), ("float", ""), ("float", False),
                  ("int8", 128), ("int8", -129), ("numeric", ""), ("boolean", 1), ("string", 7), ("double", "1.5")):
        k = f"{dt} {v!r}"
        yield "datatype", f"default {k}", True, dt, {"default": C(v)}
        yield "datatype", f"element {k}", True, dt + "[]", {"default": [C(v)]}
        yield "datatype", f"allowed {k}", True, dt, {"allowed": [C(v)]}
        yield "datatype", f"allowed array {k}", True, dt + "[]", {"allowed": [C(v)]}
    for dt, a, b in (("uint8", 1, ""), ("string", "a", 0), ("boolean", True, 0), ("float", 1.5, False)):
        yield "datatype", f"last element {dt}", True, dt + "[]", {"default": [C(a), C(a), C(b)]}
        yield "datatype", f"first element {dt}", True, dt + "[]", {"default": [C(b), C(a)]}
        yield "datatype", f"last allowed {dt}", True, dt, {"allowed": [C(a), C(b)]}
        yield "datatype", f"first allowed {dt}", True, dt, {"allowed": [C(b), C(a)]}
    # array size
    for n in (0, 1, 2, 3):
        for m in (0, 1, 2, 3):
            yield "arraysize", f"{n} declared, {m} given", n != m, "uint8[]", {"arraysize": C(n), "default": [C(i) for i in range(m)]}
        yield "arraysize", f"{n} without default", False, "uint8[]", {"arraysize": C(n)}
        yield "arraysize", f"{n} on scalar", True, "uint8", {"arraysize": C(n)}
        yield "arraysize", f"{n} on string", True, "string", {"arraysize": C(n)}
        yield "arraysize", f"{n} on scalar with default", True, "uint8", {"arraysize": C(n), "default": C(0)}
    yield "arraysize", "symbolic on scalar", True, "uint8", {"arraysize": Sym("n", ty="int", none=False)}
    yield "arraysize", "symbolic on array", False, "uint8[]", {"arraysize": Sym("n", ty="int", none=False)}
    # allowed
    for dt, vs, bad in (("uint8", (1, 2), 0), ("uint8", (0, 2), 1), ("int8", (1, 2), -1), ("string", ("a", "b"), ""), ("string", ("a", ""), "b"), ("boolean", (True,), False), ("boolean", (False,), True),
                        ("float", (1.5, 2.5), 0.0), ("float", (1.5, 2.5), 0), ("double", (0.0,), 1.5), ("numeric", (1, 2), 0)):
        al = [C(x) for x in vs]
        k = f"{dt} {vs} {bad!r}"
        yield "allowed", f"default outside {k}", True, dt, {"allowed": al, "default": C(bad)}
        yield "allowed", f"element outside {k}", True, dt + "[]", {"allowed": al, "default": [C(bad)]}
        yield "allowed", f"last element outside {k}", True, dt + "[]", {"allowed": al, "default": al + [C(bad)]}
        yield "allowed", f"first element outside {k}", True, dt + "[]", {"allowed": al, "default": [C(bad)] + al}
        for i, x in enumerate(vs):
            yield "allowed", f"default inside {k} {i}", False, dt, {"allowed": al, "default": C(x)}
        yield "allowed", f"elements inside {k}", False, dt + "[]", {"allowed": al, "default": list(al)}
        yield "allowed", f"no elements {k}", False, dt + "[]", {"allowed": al, "default": []}
        yield "allowed", f"no default {k}", False, dt, {"allowed": al}
    a, b, c = sy("a"), sy("b"), sy("c")
    yield "allowed", "symbolic outside", True, STR, {"allowed": [a, b], "default": c}
    yield "allowed", "symbolic inside", False, STR, {"allowed": [a, b], "default": b}
    yield "allowed", "symbolic element outside", True, STR + "[]", {"allowed": [a, b], "default": [a, c]}
    yield "allowed", "symbolic elements inside", False, STR + "[]", {"allowed": [a, b], "default": [b, a, b]}
    # allowed with a range
    n = Sym("n", ty="int", none=False)
    for v in (C(0), C(1), C(-1), C(0.0), n):
        for k in ("min", "max"):
            yield "range", f"allowed and {k} {v}", True, "int16", {"allowed": [C(1), C(2)], k: v}
            yield "range", f"{k} {v}", False, "int16", {k: v}
            yield "range", f"array {k} {v}", False, "int16[]", {k: v}
        yield "range", f"allowed and both {v}", True, "int16", {"allowed": [C(1), C(2)], "min": v, "max": C(9)}
        yield "range", f"allowed and both' {v}", True, "int16", {"allowed": [C(1), C(2)], "min": C(0), "max": v}
        yield "range", f"both {v}", False, "int16", {"min": v, "max": C(20)}
    yield "range", "single allowed 0 and min", True, "int16", {"allowed": [C(0)], "min": C(0)}
    # consistent combinations
    yield "consistent", "range and default", False, "uint8", {"min": C(0), "max": C(10), "default": C(0)}
    yield "consistent", "unit and default", False, "uint8", {"unit": C("km"), "default": C(0)}
    yield "consistent", "all", False, "uint8[]", {"arraysize": C(2), "default": [C(0), C(1)], "unit": C("km"), "min": C(0), "max": C(5)}
    yield "consistent", "size and allowed", False, "string[]", {"arraysize": C(2), "allowed": [a, b], "default": [a, a]}


def one(r, j):
    cl, key, bad, dt, kw, kind, how = j
    key = f"{kind} {how} {key}"
    desc = {k: (repr(v) if not isinstance(v, list) else [repr(x) for x in v]) for k, v in kw.items()}
    what = f"{kind} of datatype {dt} with {desc}" + (f" ({how})" if how != "plain" else "")
    ov = ()
    if how == "plain":
        fs, ts = files(dt, kind, **kw)
    elif how == "overlay":
        fs, ts = files(dt, kind)
        fs["/m/o.vspec"] = File([], Data(leaf("A.X", kind=kind, datatype=dt, **kw)))
        ov = ["/m/o.vspec"]
    elif how == "partial overlay":
        # one half of the attributes in the model, the other in the overlay
        ks = list(kw)
        fs, ts = files(dt, kind, **{ks[0]: kw[ks[0]]})
        fs["/m/o.vspec"] = File([], Data(leaf("A.X", kind=kind, datatype=dt, **{k: kw[k] for k in ks[1:]})))
        ov = ["/m/o.vspec"]
    else:
        ts = []
        fs = {ROOT: File([], Data(branch("A"), branch("A.B", instances=C("Row[1,2]")), leaf("A.B.X", kind=kind, datatype=dt, **kw)))}
    f = Full(r.world, fs, types=ts, overlays=ov)
    if bad:
        fails(r, cl, key, f"{what} is accepted", f)
    else:
        for root, _ in loads(r, cl, key, what, f):
            pass


def chunk(r, js):
    for j in js:
        one(r, j)


def check(r):
    r.text("Each inconsistent combination, with falsy and symbolic values, must make the interpreted load fail on every path, each consistent one must load, for every leaf kind and for values set in the file, an overlay or an instantiated branch.")
    jobs = []
    for cl, key, bad, dt, kw in cases():
        for kind in SENSORS:
            jobs.append((cl, key, bad, dt, kw, kind, "plain"))
        if r.thorough or cl in ("allowed", "arraysize", "range"):
            jobs.append((cl, key, bad, dt, kw, "sensor", "overlay"))
            if len(kw) > 1:
                jobs.append((cl, key, bad, dt, kw, "actuator", "partial overlay"))
            if r.thorough or "symbolic" in key or "outside" in key:
                jobs.append((cl, key, bad, dt, kw, "sensor", "instance"))
    r.pmap(chunk, [jobs[i::64] for i in range(64)])
    for c in ("shape", "datatype", "arraysize", "allowed", "range"):
        r.floor(c, 20)
    r.floor("consistent", 4)
