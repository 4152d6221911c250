"""Reference semantics of spec files (includes, prefixes, merging) and comparison with the abstract run of the loader."""
from __future__ import annotations

import posixpath

from core import *  # noqa
from corectx import CoreCtx, Data, word
from loader import Load


class Missing(Exception):
    pass


class File:
    """lines: list of include (target, prefix V or None) ; data: Data or None"""
    def __init__(self, includes=(), data=None, text=None, fmt="#include {t}{p}\n"):
        self.includes, self.data, self.text, self.fmt = list(includes), data, text, fmt


def text_of_file(path, f):
    if f.text is not None:
        return f.text
    parts = [C(f"# {path}\n")]
    for t, p in f.includes:
        a, rest = f.fmt.split("{t}")
        b, c = rest.split("{p}")
        parts += [C(a), t if isinstance(t, V) else C(t), C(b)]
        if p is not None:
            parts += [C(" "), p if isinstance(p, V) else C(p)]
        parts.append(C(c))
    return cat(parts)


def key(prefix, k):
    k = k if isinstance(k, V) else C(k)
    if prefix is None:
        return k
    return cat([prefix, C("."), k])


def plain(d):
    """Data -> nested python structure with V leaves, keys V"""
    if isinstance(d, Data):
        return {(k if isinstance(k, V) else C(k)): plain(v) for k, v in d.items}
    if isinstance(d, list):
        return [plain(x) for x in d]
    return d if isinstance(d, V) else C(d)


def merge(base, upd):
    for k, v in upd.items():
        if isinstance(v, dict) and isinstance(base.get(k), dict):
            merge(base[k], v)
        else:
            base[k] = copy(v)


def copy(v):
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return [copy(x) for x in v] if isinstance(v, list) else v


def s_of(t):
    return t.v if isinstance(t, C) else t


def reference(files, incdirs, specs):
    """-> (list of (path, prefix), merged data)"""
    order = []

    def load(path, prefix, rootdir):
        f = files[path]
        order.append((path, prefix))
        for t, p in f.includes:
            for d in [rootdir] + list(incdirs) + [posixpath.dirname(path)]:
                q = posixpath.normpath(posixpath.join(d, s_of(t)))
                if q in files:
                    break
            else:
                raise Missing(t)
            np = prefix
            if p is not None:
                p = p if isinstance(p, V) else C(p)
                np = p if prefix is None else cat([prefix, C("."), p])
            load(q, np, rootdir)
    for s in specs:
        load(s, None, posixpath.dirname(s))
    out = {}
    for path, prefix in order:
        d = files[path].data
        if d is None:
            continue
        merge(out, {key(prefix, k): plain(v) for k, v in d.items})
    return order, out


def to_py(v):
    """snapshot -> nested python structure, or None inside when not exact"""
    if isinstance(v, DictV):
        if getattr(v, "opaque", False) or any(s[0] != "1" for s in v.segs):
            return Unk
        return {s[1]: to_py(s[2]) for s in v.segs}
    if isinstance(v, ListV):
        if v.unord or any(s[0] != "1" for s in v.segs):
            return Unk
        return [to_py(s[1]) for s in v.segs]
    if isinstance(v, Tup):
        return [to_py(x) for x in v.items]
    return v


Unk = object()


def differs(got, want, path="", keyorder=False):
    """None when equal; ('?',..) undecidable; else a description of the first difference"""
    if got is Unk:
        return ("?", path)
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f"{path or 'data'}: {got!r} instead of a mapping" if isinstance(got, (C, Sym, list)) else ("?", path)
        for k in want:
            if k not in got:
                if any(not isinstance(g, (C, Sym, Cat)) for g in got):
                    return ("?", path)
                return f"{path}[{k!r}] is missing"
        for k in got:
            if k not in want:
                return f"{path}[{k!r}] is unexpected" if isinstance(k, (C, Sym, Cat)) else ("?", path)
        for k in want:
            r = differs(got[k], want[k], f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(want, list):
        if not isinstance(got, list):
            return f"{path}: {got!r} instead of a list"
        if len(got) != len(want):
            return f"{path}: list of {len(got)} instead of {len(want)}"
        for i, (a, b) in enumerate(zip(got, want)):
            r = differs(a, b, f"{path}[{i}]")
            if r:
                return r
        return None
    if got == want:
        return None
    if isinstance(got, (C, Sym, dict, list)):
        return f"{path}: {got!r} instead of {want!r}"
    return ("?", f"{path}: {got!r}")


class SpecRun:
    def __init__(self, world, files, specs, incdirs=(), types=()):
        c = CoreCtx(world)
        for p, f in files.items():
            c.add(p, text_of_file(p, f), f.data)
        inc = [c.root(f"include_dirs#{i}", d) for i, d in enumerate(incdirs)]
        sp = [c.root("vspec" if i == 0 else f"overlays#{i - 1}", s) for i, s in enumerate(specs)]
        ty = [c.root(f"types#{i}", s) for i, s in enumerate(types)]
        self.l = Load(world, {"vspec": sp[0], "include_dirs": Tup(inc), "overlays": Tup(sp[1:]), "types": Tup(ty), "units": Tup(()), "quantities": Tup(()),
                              "extended_attributes": Tup(())}, core=c)

    def model_data(self):
        """[(python data | None when the load failed, state)]"""
        out = []
        for v, s in self.l.outs:
            ds = [x[2].get("data") for x in self.l.stages(s) if x[0] == "build_tree" and x[2].get("connect_orphans", FALSE) == TRUE]
            out.append((to_py(ds[-1]) if ds else None, v))
        return out


def compare(r, cl, k, world, files, specs, incdirs=(), what=""):
    """one obligation: the data the tree is built from equals the reference"""
    run = SpecRun(world, files, specs, incdirs)
    l = run.l
    for f in l.it.analysed:
        r.unit(f if isinstance(f, str) else str(f))
    r.paths += len(l.outs)
    try:
        _, want = reference(files, [posixpath.normpath(d) for d in incdirs], specs)
    except Missing:
        want = None
    res = run.model_data()
    if not res:
        r.undecided(cl, k, "no outcome")
        return
    for got, v in res:
        if want is None:
            if got is None or isinstance(v, Exc):
                r.ok(cl, k)
            else:
                r.verdict(None if l.it.imprecise else False, cl, k, f"{what}: a failing load is expected but the model is built")
            continue
        if got is None or isinstance(v, Exc):
            if isinstance(v, Exc):
                r.verdict(None if l.it.imprecise else False, cl, k, f"{what}: loading fails with {v.name}", v.loc)
            else:
                r.undecided(cl, k, "no data seen")
            continue
        d = differs(got, want)
        if d is None:
            r.ok(cl, k)
        elif isinstance(d, tuple) or l.it.imprecise:
            r.undecided(cl, k, str(d)[:300])
        else:
            r.bad(cl, k, f"{what}: {d}"[:600])
