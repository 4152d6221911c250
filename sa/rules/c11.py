"""C11: units and quantities are checked against what the user loaded."""
from core import *  # noqa
from full import *
from rules.c09 import ALL, INTS, files

QF = {"/m/quantities.yaml": File([], Data(("dist", Data(("definition", C("d")))), ("temp", Data(("definition", C("d")), ("comment", C("c")), ("remark", C("r")))))), }


def unit(name, q="dist", dts=("uint8",), key=None, **kw):
    it = [("definition", C("d")), ("unit", C(name)), ("quantity", q if isinstance(q, V) else C(q))]
    if dts is not None:
        it.append(("allowed-datatypes", [x if isinstance(x, V) else C(x) for x in dts]))
    return (key or name, Data(*[(k, v) for k, v in it if kw.get(k) is not DROP]))


def fits(a, b):
    """a is b or narrower"""
    a, b = a.rstrip("[]"), b.rstrip("[]")
    if a == b:
        return True
    if b == "numeric":
        return a in INTS or a in ("float", "double")
    if a in INTS and b in INTS and a.startswith("u") == b.startswith("u"):
        return INTS[b][0] <= INTS[a][0] and INTS[a][1] <= INTS[b][1]
    return False


def types(r, allowed):
    for dt in ALL:
        for d in (dt, dt + "[]"):
            fs, _ = files(d, "sensor", unit=C("km"))
            fs.update(QF)
            fs["/m/units.yaml"] = File([], Data(unit("kilometer", key="km", dts=allowed)))
            f = Full(r.world, fs)
            ok = any(fits(dt, a) for a in allowed)
            key = f"{d} for {','.join(allowed)}"
            if ok:
                loads(r, "datatype", key, f"a node of datatype {d} with a unit allowing {allowed}", f)
            else:
                fails(r, "datatype", key, f"a node of datatype {d} with a unit allowing only {allowed} is accepted", f)


def model(**kw):
    return {ROOT: File([], Data(branch("A"), leaf("A.X", **kw)))}


def must(r, cl, key, ok, what, fs, **kw):
    f = Full(r.world, fs, **kw)
    if ok:
        loads(r, cl, key, what, f)
    else:
        fails(r, cl, key, what + " is accepted", f)


def known(r):
    U = {"/m/units.yaml": File([], Data(unit("kilometer", key="km"), unit("celsius", "temp", key="cel"), unit("same", key="same")))}
    for k in ("sensor", "attribute", "actuator", "property"):
        for u, ok in (("km", True), ("kilometer", True), ("cel", True), ("celsius", True), ("same", True), ("mile", False), ("Km", False), ("k", False), ("kilomete", False), ("", False), ("uint8", False), ("dist", False)):
            fs, ts = files("uint8", k, unit=C(u))
            must(r, "known-unit", f"{k} {u!r}", ok, f"the unit {u!r} on a {k}", {**fs, **QF, **U}, types=ts)
        fs, ts = files("uint8", k, unit=Sym("u", ty="str", truth=True, none=False, vals={"zzz"}))
        must(r, "known-unit", f"{k} no unit", True, "a node without unit", {**files("uint8", k)[0], **QF, **U}, types=ts)
    # through an overlay and an instance
    fs = {**model(), **QF, **U, "/m/o.vspec": File([], Data(leaf("A.X", unit=C("mile"))))}
    must(r, "known-unit", "overlay unknown", False, "an unknown unit set by an overlay", fs, overlays=["/m/o.vspec"])
    fs = {**model(unit=C("mile")), **QF, **U, "/m/o.vspec": File([], Data(leaf("A.X", unit=C("km"))))}
    must(r, "known-unit", "overlay corrects", True, "an unknown unit corrected by an overlay", fs, overlays=["/m/o.vspec"])
    fs = {ROOT: File([], Data(branch("A"), branch("A.B", instances=C("R[1,2]")), leaf("A.B.X", unit=C("mile")))), **QF, **U}
    must(r, "known-unit", "instance unknown", False, "an unknown unit below an instantiated branch", fs)
    # struct typed nodes
    T = {"/m/t.vspec": File([], Data(branch("T"), N("T.S", "struct"), leaf("T.S.P", kind="property")))}
    for k in ("sensor", "attribute", "actuator"):
        for dt in ("T.S", "T.S[]"):
            must(r, "struct", f"{k} {dt}", False, f"a unit on a {k} of struct type {dt}", {**model(), **QF, **U, **T, ROOT: File([], Data(branch("A"), leaf("A.X", kind=k, datatype=dt, unit=C("km"))))}, types=["/m/t.vspec"])
            must(r, "struct", f"{k} {dt} none", True, f"a {k} of struct type {dt}", {**QF, **U, **T, ROOT: File([], Data(branch("A"), leaf("A.X", kind=k, datatype=dt)))}, types=["/m/t.vspec"])
    T2 = {"/m/t.vspec": File([], Data(branch("T"), N("T.S", "struct"), leaf("T.S.P", kind="property"), N("T.R", "struct"), leaf("T.R.P", kind="property", datatype="T.S", unit=C("km"))))}
    must(r, "struct", "property", False, "a unit on a struct typed property", {**model(), **QF, **U, **T2}, types=["/m/t.vspec"])


def definitions(r):
    def units(*us):
        return {"/m/units.yaml": File([], Data(*us))}
    ok = unit("kilometer", key="km")
    for pos in ("first", "last"):
        def two(u):
            return units(u, ok) if pos == "first" else units(ok, u)
        for q in ("dista", "Dist", "", "km", "definition"):
            must(r, "quantity", f"{q!r} {pos}", False, f"a unit of the unknown quantity {q!r}", {**model(), **QF, **two(unit("u", q))})
        must(r, "quantity", f"known {pos}", True, "a unit of a loaded quantity", {**model(), **QF, **two(unit("u", "temp"))})
        must(r, "quantity", f"missing {pos}", False, "a unit without quantity", {**model(), **QF, **two(unit("u", quantity=DROP))})
        for d in (("uint7",), ("uint8", "uint7"), ("bogus", "uint8"), ("",), ("km",), ("int",)):
            must(r, "allowed-datatypes", f"{d} {pos}", False, f"a unit allowing {d}", {**model(), **QF, **two(unit("u", dts=d))})
        for d in (("uint8",), ("uint8", "float", "numeric"), ("string", "boolean"), ("uint8[]",)):
            must(r, "allowed-datatypes", f"{d} {pos}", True, f"a unit allowing {d}", {**model(), **QF, **two(unit("u", dts=d))})
        must(r, "empty", f"unit {pos}", False, "an empty unit", {**model(), **QF, **two(("e", NONE))})
        qf = [("dist", Data(("definition", C("d")))), ("e", NONE)]
        must(r, "empty", f"quantity {pos}", False, "an empty quantity", {**model(), "/m/quantities.yaml": File([], Data(*(qf if pos == "last" else qf[::-1]))), **units(ok)})
        must(r, "empty", f"definition {pos}", False, "a unit without definition", {**model(), **QF, **two(unit("u", definition=DROP))})
    # redefinition over files
    q1, q2 = File([], Data(("dist", Data(("definition", C("d")))))), File([], Data(("temp", Data(("definition", C("d"))))))
    for order in ((0, 1), (1, 0)):
        uf = [File([], Data(unit("kilometer", key="km"), unit("m"))), File([], Data(unit("z"), unit("other", key="km")))]
        us = {"/u/a.yaml": uf[order[0]], "/u/b.yaml": uf[order[1]]}
        must(r, "redefinition", f"unit {order}", False, "a unit defined in two unit files", {**model(), **QF, **us}, units=["/u/a.yaml", "/u/b.yaml"])
        same = {"/u/a.yaml": uf[0], "/u/b.yaml": File([], Data(unit("kilometer", key="km")))}
        must(r, "redefinition", f"identical unit {order}", False, "a unit defined identically in two unit files", {**model(), **QF, **same}, units=[list(same)[i] for i in order])
        qs = {"/q/a.yaml": q1, "/q/b.yaml": File([], Data(("dist", Data(("definition", C("e")))), ("temp", Data(("definition", C("d"))))))}
        must(r, "redefinition", f"quantity {order}", False, "a quantity defined in two quantity files", {**model(), **qs, **units(ok)}, quantities=[list(qs)[i] for i in order])
        uu = {"/u/a.yaml": File([], Data(unit("kilometer", key="km"))), "/u/b.yaml": File([], Data(unit("celsius", "temp", key="cel")))}
        qq = {"/q/a.yaml": q1, "/q/b.yaml": q2}
        for u in ("km", "cel", "celsius"):
            must(r, "several", f"{u} {order}", True, f"the unit {u} of one of several unit files", {**model(unit=C(u)), **uu, **qq}, units=[list(uu)[i] for i in order], quantities=[list(qq)[i] for i in order])
        must(r, "several", f"unknown {order}", False, "a unit of none of several unit files", {**model(unit=C("mm")), **uu, **qq}, units=[list(uu)[i] for i in order], quantities=[list(qq)[i] for i in order])
    e = {"/u/a.yaml": File([], Data(unit("kilometer", key="km"))), "/u/b.yaml": File([], NONE)}
    for order in ((0, 1), (1, 0)):
        must(r, "several", f"empty file {order}", True, "a unit file besides an empty one", {**model(unit=C("km")), **QF, **e}, units=[list(e)[i] for i in order])


def defaults(r):
    D = {"/m/units.yaml": File([], Data(unit("dunit"))), "/m/quantities.yaml": File([], Data(("dist", Data(("definition", C("d"))))))}
    G = {"/g/u.yaml": File([], Data(unit("gunit"))), "/g/q.yaml": File([], Data(("dist", Data(("definition", C("d"))))))}
    g2 = {"/g/u2.yaml": File([], Data(unit("tunit", "temp"))), "/g/q2.yaml": File([], Data(("temp", Data(("definition", C("d"))))))}
    W = {"/units.yaml": File([], Data(unit("wunit"))), "/cwd/units.yaml": File([], Data(unit("wunit"))), "/cwd/quantities.yaml": File([], Data(("dist", Data(("definition", C("d"))))))}

    def go(key, ok, u, fs, **kw):
        must(r, "defaults", key, ok, f"the unit {u} ({key})", {**model(unit=C(u)), **fs}, **kw)
    go("default next to the model", True, "dunit", {**D, **G})
    go("default not used when units are given", False, "dunit", {**D, **G}, units=["/g/u.yaml"])
    go("given units", True, "gunit", {**D, **G}, units=["/g/u.yaml"])
    go("given units and quantities", True, "gunit", {**D, **G}, units=["/g/u.yaml"], quantities=["/g/q.yaml"])
    go("not given", False, "gunit", {**D, **G})
    go("default units, given quantities", True, "dunit", {**D, **G}, quantities=["/g/q.yaml"])
    go("given quantities replace the default ones", False, "dunit", {**D, **g2}, quantities=["/g/q2.yaml"])
    go("given quantities are used", True, "tunit", {**D, **g2}, units=["/g/u2.yaml"], quantities=["/g/q2.yaml"])
    go("default quantities do not know it", False, "tunit", {**D, **g2}, units=["/g/u2.yaml"])
    go("no default file elsewhere", False, "wunit", {**W, **{"/m/quantities.yaml": D["/m/quantities.yaml"]}}, units=())
    must(r, "defaults", "no unit files at all", True, "a model without units and without unit files", model(), units=(), quantities=())
    for p in ("/m/sub/root.vspec", "/x.vspec"):
        d = p.rsplit("/", 1)[0]
        fs = {p: model(unit=C("dunit"))[ROOT], f"{d}/units.yaml": D["/m/units.yaml"], f"{d}/quantities.yaml": D["/m/quantities.yaml"]}
        f = Full(r.world, fs, spec=p)
        loads(r, "defaults", f"model {p}", "a default unit file next to the model", f)


def job(r, j):
    {"types": types, "known": lambda r, _: known(r), "defs": lambda r, _: definitions(r), "defaults": lambda r, _: defaults(r)}[j[0]](r, j[1])


def check(r):
    r.text("Loading is interpreted for each unit/datatype combination, each kind of faulty unit or quantity file, and each combination of given and default files; every faulty one must fail on all paths, every correct one must load.")
    jobs = [("known", None), ("defs", None), ("defaults", None)]
    jobs += [("types", (a,)) for a in ALL] + [("types", x) for x in (("uint8", "float"), ("string", "int16"), ("boolean", "numeric"), ("uint16", "int32"), ("double", "uint8"))]
    r.pmap(job, jobs)
    for c in ("datatype", "known-unit", "struct", "quantity", "allowed-datatypes", "empty", "redefinition", "several", "defaults"):
        r.floor(c, 4)
