"""C09: datatype rules accept exactly the values the datatype names."""
from core import *  # noqa
from exporters import run_fn
from full import *
from treectx import flat

DT = "vss_tools.vspec.datatypes"
INTS = {f"{u}int{b}": ((0, 2 ** b - 1) if u else (-2 ** (b - 1), 2 ** (b - 1) - 1)) for u in ("", "u") for b in (8, 16, 32, 64)}
NUM = ["float", "double", "numeric"]
KINDS = {"int": INTS.keys() | set(NUM), "float": set(NUM), "bool": {"boolean"}, "str": {"string"}}
ALL = sorted(INTS) + NUM + ["boolean", "string"]
INF = float("inf")


def cons(st, sym):
    """intervals of the integer values of sym on this path, None when the path condition says something else about it"""
    lo, hi = -INF, INF
    holes = set()
    for e, _ in flat(st.events()):
        if e.kind != "assume":
            continue
        op, t = e.args[0], e.args[1]
        while isinstance(op, Op) and op.name == "not":
            op, t = op.args[0], C(not t.v)
        if not any(a == sym for a in atoms(op)):
            continue
        if isinstance(op, Op) and op.name == "le0" and isinstance(op.args[0], Lin) and len(op.args[0].terms) == 1 and op.args[0].terms[0][0] == sym:
            ln = op.args[0]
            c, k = ln.terms[0][1], ln.const
            if c not in (1, -1):
                return None
            if c == 1:       # v <= -k
                if t == TRUE:
                    hi = min(hi, -k)
                else:
                    lo = max(lo, -k + 1)
            else:            # v >= k
                if t == TRUE:
                    lo = max(lo, k)
                else:
                    hi = min(hi, k - 1)
            continue
        if op == sym or isinstance(op, Op) and op.name == "==" and set(op.args) == {sym, C(0)}:
            zero = (t == FALSE) == (op == sym)
            if zero:
                lo, hi = max(lo, 0), min(hi, 0)
            else:
                holes.add(0)
            continue
        return None
    out = [(lo, hi)]
    for h in holes:
        out = [y for a, b in out for y in ([(a, h - 1), (h + 1, b)] if a <= h <= b else [(a, b)])]
    return out


def norm(iv):
    iv = sorted(x for x in iv if x[0] <= x[1])
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def accepted(f, sym):
    """(accepted, rejected) interval unions for the symbol or None"""
    acc, rej = [], []
    rs = f.results()
    if not rs or f.imprecise:
        return None
    for e, root, _, st in rs:
        c = cons(st, sym)
        if c is None:
            return None
        (rej if e is not None else acc).extend(c)
    return norm(acc), norm(rej)


def wrap(place, v, dt):
    """entry attributes that put v under test"""
    if place == "default":
        return {"default": v}
    if place == "allowed":
        return {"allowed": [v]}
    if place == "allowed2":
        return {"allowed": [good(dt), v]}
    if place == "default[]":
        return {"default": [v]}
    if place == "default[]2":
        return {"default": [good(dt), v]}
    return {}


def good(dt):
    dt = dt.rstrip("[]")
    return C(True) if dt == "boolean" else C("s") if dt == "string" else C(1.5) if dt in NUM else C(1)


def val(ty):
    return Sym("v", ty=ty, none=False)


def files(dt, kind="sensor", **kw):
    if kind == "property":
        return {ROOT: File([], Data(branch("A"))), "/m/t.vspec": File([], Data(branch("T"), N("T.S", "struct"), leaf("T.S.X", kind=kind, datatype=dt, **kw)))}, ["/m/t.vspec"]
    return {ROOT: File([], Data(branch("A"), leaf("A.X", kind=kind, datatype=dt, **kw)))}, []


def value(r, j):
    dt, ty, place, kind = j
    arr = place.startswith("default[]")
    for d in ([dt + "[]"] if arr else [dt] if place == "default" else [dt, dt + "[]"]):
        fs, ts = files(d, kind, **wrap(place, val(ty), d))
        f = Full(r.world, fs, types=ts)
        f.units_of(r)
        ok = dt in KINDS[ty]
        key = f"{kind} {d} {place} {ty}"
        what = f"{place.rstrip('2[]')} of type {ty} for datatype {d} ({kind})"
        rs = f.results()
        if ty == "int" and dt in INTS:
            iv = accepted(f, val(ty))
            if iv is None:
                r.undecided("values", key, str(f.imprecise[:2])[:150])
            else:
                r.verdict(iv[0] == [INTS[dt]], "values", key, f"{what}: accepted exactly for {iv[0]}, the datatype holds {INTS[dt]}")
            continue
        bad = [x for x in rs if (x[0] is None) != ok]
        v = None if not rs or f.imprecise else not bad
        if bad and v is False and ty != "str":
            c = cons(bad[0][3], val(ty))
            if c is None:
                v = None
        r.verdict(v, "values", key, f"{what} is {'rejected' if ok else 'accepted'}")


def relation(r):
    w = r.world.full_world()
    dts = w.get(DT, "Datatypes")
    fn = dts.lookup("is_subtype_of") if isinstance(dts, Cls) else None
    if not isinstance(fn, Fn):
        r.undecided("narrower", "relation", "no subtype relation found")
        return
    from interp import Frame, Interp

    def holds(a, b):
        """every value of a is a value of b"""
        if a.endswith("[]") != b.endswith("[]"):
            return False
        a, b = a.rstrip("[]"), b.rstrip("[]")
        if a == b:
            return True
        if a in INTS and b in INTS:
            return INTS[b][0] <= INTS[a][0] and INTS[a][1] <= INTS[b][1]
        if b == "numeric":
            return a in INTS or a in NUM
        if a in INTS and b in ("float", "double"):
            return b == "double" and INTS[a][1] < 2 ** 53 or INTS[a][1] < 2 ** 24
        return a == "float" and b == "double"
    r.unit(fn.qual)
    names = ALL + [a + "[]" for a in ALL]
    for a in names:
        for b in names:
            it = Interp(w, None)
            st = w.base().clone()
            it.frames.append(Frame(("mod", fn.mod), None, fn.mod))
            outs = it.call_fn(Fn(fn.node, fn.mod, fn.scope, fn.name, fn.cls, fn.defaults, fn.kwdefaults), dts, [C(a), C(b)], {}, st, fn.node)
            r.paths += len(outs)
            vs = {v for v, _ in outs}
            key = f"{a} {b}"
            if vs == {TRUE}:
                r.verdict(holds(a, b), "narrower", key, f"{a} counts as narrower than {b} but not every {a} is a {b}")
            elif vs == {FALSE}:
                r.verdict(a != b, "narrower", key, f"{a} does not count as acceptable where {b} is allowed")
            else:
                r.undecided("narrower", key, str(vs)[:100])


def known(r, d):
    for k in ("sensor", "attribute", "actuator", "property"):
        fs, ts = files(d, k)
        f = Full(r.world, fs, types=ts)
        for root, types in loads(r, "known", f"{d} {k}", f"the predefined datatype {d} on a {k}", f):
            n = [x for x in (types if k == "property" else root).walk() if x.name == C("X")]
            if n:
                got = n[0].get("datatype")
                r.verdict(got == C(d) if isinstance(got, C) else None, "known", f"{d} {k} kept", f"the predefined datatype {d} becomes {got}")


def unknown(r, d):
    fs, ts = files(d)
    fails(r, "known", f"unknown {d!r}", f"the datatype {d!r} does not exist but is accepted", Full(r.world, fs))


def job(r, j):
    {"value": value, "relation": lambda r, _: relation(r), "known": known, "unknown": unknown}[j[0]](r, j[1])


def check(r):
    r.text("Loading a node with a default or allowed value of each kind is interpreted with the value left symbolic; the linear conditions of the accepting paths give the accepted interval, compared with the range of the datatype. The narrower-type relation is evaluated for every pair.")
    jobs = [("relation", None)]
    for dt in ALL:
        for ty in KINDS:
            for p in ("default", "allowed", "default[]", "allowed2", "default[]2"):
                for k in ("sensor", "attribute", "property", "actuator"):
                    if k == "sensor" or r.thorough or p == "default":
                        jobs.append(("value", (dt, ty, p, k)))
        jobs += [("known", dt), ("known", dt + "[]")]
    jobs += [("unknown", x) for x in ("uint7", "Uint8", "uint8[", "uint8[][]", "uint128", "", "bool", "int", "uint8 ", "string[3]")]
    r.pmap(job, jobs)
    r.floor("values", 60)
    r.floor("narrower", 100)
    r.floor("known", 20)
