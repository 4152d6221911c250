"""C22: UUIDs depend only on the qualified name and appear only on request."""
from rules.xmodel import *

LAB = {"csv": "Id", "franca": "uuid", "json": "uuid", "yaml": "uuid", "jsonschema": "x-uuid", "binary": "uuid", "ddsidl": "uuid"}
CMDS = tuple(LAB)


def small(const, k):
    m = Model(const)
    if k == 0:      # plain, deep, instances, falsy and rich attributes
        m.add("V", "branch")
        m.full("V.A", "sensor")
        m.full("V.B", "attribute", ("default",))
        m.add("V.I", "branch", instances=[C("R[1,2]"), [C("P"), C("Q")]], inst=["V.I", "V.I.R1", "V.I.R2"] + [f"V.I.R{i}.{j}" for i in (1, 2) for j in "PQ"])
        lv = [f"V.I.R{i}.{j}" for i in (1, 2) for j in "PQ"]
        m.full("V.I.X", "actuator", ("min",), inst=[x + ".X" for x in lv])
        m.add("V.I.Y", "branch", inst=[x + ".Y" for x in lv])
        m.full("V.I.Y.Z", "sensor", (), inst=[x + ".Y.Z" for x in lv])
        m.full("V.I.N", "sensor", (), instantiate=FALSE)
    elif k == 1:    # the same names again at other places, other attributes
        m.add("V", "branch")
        m.add("V.A", "branch", deprecation=m.s("d"))
        m.full("V.A.A", "sensor", ("min",))
        m.add("V.A.V", "branch")
        m.full("V.A.V.A", "attribute", ())
        m.add("V.B", "branch", instances=[C("A"), C("V")], inst=["V.B", "V.B.A", "V.B.V"])
        m.full("V.B.W", "sensor", (), inst=["V.B.A.W", "V.B.V.W"])
        m.full("V.R1", "sensor", ("comment",))
    else:
        m.add("Vehicle", "branch")
        m.add("Vehicle.Cabin", "branch")
        m.add("Vehicle.Cabin.Door", "branch", instances=[C("Row[1,2]")], inst=["Vehicle.Cabin.Door", "Vehicle.Cabin.Door.Row1", "Vehicle.Cabin.Door.Row2"])
        m.full("Vehicle.Cabin.Door.IsOpen", "actuator", (), inst=["Vehicle.Cabin.Door.Row1.IsOpen", "Vehicle.Cabin.Door.Row2.IsOpen"], datatype="boolean")
        m.full("Vehicle.Speed", "sensor", ("unit",), datatype="float")
    return m


def unexpanded(m):
    """the loaded tree when instances are not expanded"""
    return [n for n, _ in m.e]


def job(r, j):
    cmd, k, uu, expand = j
    m = small(cmd == "binary", k)
    opts = {"uuid": uu, "extend_all_attributes": True}
    if not expand:
        opts["expand"] = False
    e = run(r, cmd, m, **opts)
    if not expand and "expand" not in e.opts:
        return
    what = f"{cmd} {'with' if uu else 'without'} --uuid{'' if expand else ' --no-expand'}"
    tag = f"{cmd} {k} {uu} {expand}"
    names = list(m.nodes) if expand else unexpanded(m)
    lab = LAB[cmd]
    for o, v, exact in views(r, "succeeds", tag, what, cmd, e):
        if not exact:
            r.undecided("uuid", tag, str(e.imprecise[:2])[:150])
            continue
        for n in names:
            if n not in v:
                if not (cmd == "franca" and "." not in n):
                    r.undecided("uuid", f"{tag} {n}", "node not found")
                continue
            if cmd == "ddsidl":
                if "value" in v[n]:
                    r.verdict((lab in v[n]) == uu, "uuid", f"{tag} {n}", f"{what}: the UUID member of {n} is {'missing' if uu else 'emitted'}")
                continue
            if uu:
                r.verdict(lab in v[n] and same(v[n][lab], uid5(n)), "uuid", f"{tag} {n}", f"{what}: the UUID of {n} is {txt(v[n][lab]) if lab in v[n] else 'missing'}, expected {uid5(n)}")
            else:
                r.verdict(lab not in v[n], "request", f"{tag} {n}", f"{what}: {n} is exported with the UUID {txt(v[n].get(lab, NONE))}")
        if not uu:
            t = o.text() + " ".join(o.stdout)
            for n in names:
                r.verdict(uid5(n) not in t, "request", f"{tag} {n} text", f"{what}: the UUID of {n} appears in the output")


def check(r):
    r.text("Every export with a UUID option is interpreted with and without it on models with instances and repeated names; each UUID read back is compared with the RFC 4122 version-5 UUID of the qualified name in the VSS namespace.")
    r.pmap(job, [(c, k, u, x) for c in CMDS for k in (0, 1, 2) for u in (True, False) for x in (True, False)])
    r.floor("uuid", 50)
    r.floor("request", 50)
