"""Reference: the documented identity of a node and its FNV-1 hash."""
from core import *  # noqa
from full import *
from outs import outputs


def fnv1(b):
    h = 2166136261
    for x in b:
        h = h * 16777619 % 2 ** 32 ^ x
    return h


def uid(name, kind, datatype="", unit="", allowed="", mn="", mx="", cs=False):
    s = f"{name}: unit: {unit}, datatype: {datatype}, type: {kind}allowed: {allowed}min: {mn}max: {mx}"
    b = s.encode()
    return "0x%08X" % fnv1(b if cs else b.lower())


def nd(name, kind="sensor", datatype="uint8", **kw):
    """(entry, identity arguments) of a node whose identity fields are python constants"""
    f = dict(datatype=datatype) if kind not in ("branch",) else {}
    for a in ("unit", "allowed", "mn", "mx"):
        if a in kw:
            f[a] = kw.pop(a)
    at = {}
    for a, v in f.items():
        at[{"mn": "min", "mx": "max"}.get(a, a)] = [C(x) for x in v] if isinstance(v, list) else C(v)
    for a, v in kw.items():
        at[a] = v if isinstance(v, (V, list)) or v is DROP else C(v)
    if f.get("allowed") == []:
        f["allowed"] = ""
    return N(name, kind, **at), dict(name=name, kind=kind, **{k: v for k, v in f.items()})


def succeed(r, cl, key, msg, e):
    """obligation: the export succeeds on every path; -> outcomes"""
    e.units_of(r)
    os_ = outputs(e)
    bad = [o for o in os_ if o.exc is not None]
    if not os_ or bad and e.imprecise:
        r.undecided(cl, key, str(e.imprecise[:2])[:200])
    elif bad:
        r.bad(cl, key, f"{msg}: the export fails with {bad[0].exc.name} {cause(bad[0].exc, None)}", bad[0].exc.loc)
    else:
        r.ok(cl, key)
        return os_
    return []


def aborts(r, cl, key, msg, e):
    """obligation: the export fails with a nonzero status on every path and writes nothing"""
    e.units_of(r)
    os_ = outputs(e)
    if not os_:
        r.undecided(cl, key, str(e.imprecise[:2])[:200])
        return os_
    good = [o for o in os_ if o.exc is None or o.exc.name == "SystemExit" and (not o.exc.args or o.exc.args[0] in (NONE, C(0), C(None)))]
    wrote = [o for o in os_ if o.order]
    if good and e.imprecise:
        r.undecided(cl, key, str(e.imprecise[:2])[:200])
    elif good:
        r.bad(cl, key, msg + ": the export succeeds")
    elif wrote and not e.imprecise:
        r.bad(cl, key, msg + f": output {wrote[0].labels()} is written before the failure")
    else:
        r.ok(cl, key)
    return os_


def entries(os_):
    """per outcome the written dictionary {name: {attribute: value}} or None"""
    for o in os_:
        d = o.data("yaml")
        if len(d) != 1 or not isinstance(d[0], dict):
            yield o, None
            continue
        yield o, {(k.v if isinstance(k, C) else k): v for k, v in d[0].items()}


def at(d, a):
    return d.get(C(a)) if isinstance(d, dict) else None


def logs(o, level=("warning", "warn", "error", "critical", "fatal")):
    from outs import ph
    return [" ".join(ph(a) for a in x.args) for x in o.events if x.kind == "log" and x.name in level]
