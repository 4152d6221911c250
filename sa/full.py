"""Abstract run of the whole loading of a model (get_trees) from symbolic files to the final tree, every operation of the package interpreted."""
from __future__ import annotations

import posixpath

import pyd
from core import *  # noqa
from corectx import CoreCtx, Data, word
from exporters import Run, opt_sym, run_fn
import cliinfo
from interp import Frame, Interp
from treectx import flat
from interp import Budget
from specs import File, text_of_file, to_py
from treectx import MAIN

ROOT = "/m/root.vspec"


def S(n, **k):
    return Sym(n, ty="str", truth=True, none=False, **k)


def N(name, kind, **kw):
    """one spec entry"""
    items = [("type", kind if isinstance(kind, V) else C(kind))]
    kw.setdefault("description", S(f"{name}.descr"))
    for k, v in kw.items():
        if v is not DROP:
            items.append((k.replace("__", "-"), v))
    return (name, Data(*items))


DROP = object()


def branch(name, **kw):
    return N(name, "branch", **kw)


def leaf(name, kind="sensor", datatype="uint8", **kw):
    return N(name, kind, datatype=datatype, **kw)


QUANT = {"/m/quantities.yaml": File([], Data(("distance", Data(("definition", C("d")))))), }
UNITS = {"/m/units.yaml": File([], Data(("km", Data(("definition", C("d")), ("unit", C("kilometer")), ("quantity", C("distance")),
                                                  ("allowed-datatypes", [C("uint8"), C("float")])))))}


class Node:
    def __init__(self, name, cls, attrs, uuid, parent):
        self.name, self.cls, self.attrs, self.uuid, self.parent = name, cls, attrs, uuid, parent
        self.children = []
        self.ref = None

    @property
    def fqn(self):
        return ((self.parent.fqn + ".") if self.parent else "") + (self.name.v if isinstance(self.name, C) else repr(self.name))

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def get(self, a):
        return self.attrs.get(a)


class Full:
    def __init__(self, world, files, spec=ROOT, overlays=(), types=(), units=None, quantities=None, incdirs=(), fn="get_trees", max_states=None, budget=None, **args):
        self.w = w = world.full_world()
        fs = dict(files)
        if units is None and not any(posixpath.basename(f) == "units.yaml" for f in fs):
            fs.update(UNITS)
        if quantities is None and not any(posixpath.basename(f) == "quantities.yaml" for f in fs):
            fs.update(QUANT)
        self.files = fs
        c = self.ctx = CoreCtx(w)
        for p, f in fs.items():
            c.add(p, text_of_file(p, f), f.data)

        def roots(n, ps):
            return Tup([c.root(f"{n}#{i}", p) for i, p in enumerate(ps or ())])
        a = {"vspec": c.root("vspec", spec), "include_dirs": roots("include_dirs", incdirs), "overlays": roots("overlays", overlays), "types": roots("types", types),
             "units": roots("units", units), "quantities": roots("quantities", quantities)}
        for k, v in args.items():
            a[k] = v if isinstance(v, V) else Tup([C(x) for x in v]) if isinstance(v, tuple) else C(v)
        try:
            self.outs, self.it = run_fn(w, MAIN, fn, [], a, ctx=c, max_states=max_states)
        except Budget:
            self.outs, self.it = [], None
        if self.it is not None:
            self.imprecise = list(self.it.imprecise)
        else:
            self.imprecise = ["budget"]

    # ------------------------------------------------------------- results
    def tree(self, v, st):
        if not isinstance(v, Ref):
            return None
        return self.node(v, st, None)

    def node(self, ref, st, parent):
        o = st.heap.get(ref.id)
        if o is None or o.kind != "obj":
            return None
        data = o.attrs.get("data")
        d = st.heap.get(data.id) if isinstance(data, Ref) else None
        if d is None:
            return None
        n = Node(o.attrs.get("name"), d.cls, {k: to_py(self.it.sn(x, st)) for k, x in d.attrs.items()}, o.attrs.get("uuid"), parent)
        n.ref = ref
        ch = o.attrs.get("sa_children")
        c = st.heap.get(ch.id) if isinstance(ch, Ref) else None
        for s in (c.segs if c is not None else ()):
            if s[0] != "1":
                self.imprecise.append("children unknown")
                continue
            k = self.node(s[1], st, n)
            if k is None:
                self.imprecise.append("child unknown")
            else:
                n.children.append(k)
        return n

    def results(self):
        """[(Exc|None, root, types root, state)]"""
        out = []
        for v, s in self.outs:
            if isinstance(v, Exc):
                out.append((v, None, None, s))
            elif isinstance(v, Tup) and len(v.items) == 2:
                out.append((None, self.tree(v.items[0], s), self.tree(v.items[1], s), s))
            else:
                self.imprecise.append("result shape")
        return out

    def units_of(self, r):
        if self.it is not None:
            for f in self.it.analysed:
                r.unit(f if isinstance(f, str) else str(f))
            r.paths += len(self.outs)


class P:
    """a path given as an option"""
    def __init__(self, p):
        self.p = p


def remains(st):
    """what outlives a run: everything reachable from the modules"""
    new = State()
    new.globs = dict(st.globs)
    new.sattr = {k: v for k, v in st.sattr.items() if isinstance(k, tuple) and isinstance(k[0], (Cls, ModV, Ext, Fn))}
    todo = [k for k in st.heap if isinstance(k, tuple) and k[:1] == ("mod",)]
    seen_v = set()

    def values(x):
        if isinstance(x, (tuple, list, frozenset, set)):
            for y in x:
                values(y)
        elif isinstance(x, dict):
            for k, y in x.items():
                values(k)
                values(y)
        elif isinstance(x, V) and x not in seen_v:
            seen_v.add(x)
            for a in atoms(x):
                seen_v.add(a)
                if isinstance(a, Ref):
                    todo.append(a.id)
                elif isinstance(a, Bound):
                    values(a.fn)
                elif isinstance(a, Fn):
                    todo.append(a.scope)
                    values((a.defaults, a.kwdefaults, a.deco, a.cls))
                elif isinstance(a, Cls):
                    todo.append(a.scope if hasattr(a, "scope") else None)
                    values((a.attrs, a.annots, a.bases, a.deco))
    values(list(new.globs.values()) if isinstance(new.globs, dict) else ())
    values(list(new.sattr.values()))
    while todo:
        k = todo.pop()
        if k in new.heap or k not in st.heap:
            continue
        o = new.heap[k] = st.heap[k]
        values((o.segs, o.attrs, o.cls))
        if o.parent is not None:
            todo.append(o.parent)
    return new


class Export:
    """abstract run of a whole export command from symbolic files to its writes"""
    def __init__(self, world, cmd, files, spec=ROOT, overlays=(), types=(), units=None, quantities=None, incdirs=(), opts=None, budget=None, max_states=None, prev=None):
        """prev: the state an earlier run in the same process ended in"""
        self.w = w = world.full_world()
        fs = dict(files)
        if units is None and not any(posixpath.basename(f) == "units.yaml" for f in fs):
            fs.update(UNITS)
        if quantities is None and not any(posixpath.basename(f) == "quantities.yaml" for f in fs):
            fs.update(QUANT)
        self.files = fs
        c = self.ctx = CoreCtx(w)
        for p, f in fs.items():
            c.add(p, text_of_file(p, f), f.data)

        def roots(n, ps):
            return Tup([c.root(f"{n}#{i}", p) for i, p in enumerate(ps or ())])
        a = {"vspec": c.root("vspec", spec), "include_dirs": roots("include_dirs", incdirs), "overlays": roots("overlays", overlays), "types": roots("types", types),
             "units": roots("units", units), "quantities": roots("quantities", quantities), "aborts": Tup(()), "strict": FALSE, "extended_attributes": Tup(()),
             "uuid": FALSE, "expand": TRUE, "extend_all_attributes": FALSE, "pretty": FALSE}
        for k, v in (opts or {}).items():
            a[k] = c.root(k, v.p) if isinstance(v, P) else v if isinstance(v, V) else Tup([x if isinstance(x, V) else C(x) for x in v]) if isinstance(v, tuple) else C(v)
        self.outs, self.imprecise, self.it = [], [], None
        fn = cliinfo.command(w, cmd)
        if not isinstance(fn, Fn):
            self.imprecise = ["no command"]
            return
        it = self.it = Interp(w, c)
        if max_states:
            it.max_states = max_states
        if budget:
            it.budget = budget
        st = w.base().clone()
        if prev is not None:
            st = remains(prev)
            it.stack.append(("again",))
        kw = {}
        self.opts = {}
        for o in cliinfo.options(fn):
            if o.name in a:
                kw[o.name] = a[o.name]
            elif o.default is not None and isinstance(o.default, V) and o.default != NONE:
                kw[o.name] = o.default
            elif o.flag:
                kw[o.name] = FALSE
            elif o.multiple:
                kw[o.name] = Tup(())
            elif o.required or o.name == "output":
                kw[o.name] = c.root(o.name, "/out/" + o.name)
            else:
                kw[o.name] = NONE
            self.opts[o.name] = kw[o.name]
        it.frames.append(Frame(("mod", fn.mod), None, fn.mod))
        ar = fn.node.args
        names = [x.arg for x in ar.args]
        pos = [Sym("click.ctx", ty="obj")] if any(isinstance(d, Ext) and "pass_" in d.name for d in fn.deco) and names and names[0] not in kw else []
        bare = Fn(fn.node, fn.mod, fn.scope, fn.name, fn.cls, fn.defaults, fn.kwdefaults)
        try:
            self.outs = it.call_fn(bare, None, pos, kw, st, fn.node)
        except Budget:
            self.imprecise = ["budget"]
        self.imprecise += list(it.imprecise)

    def events(self):
        for v, s in self.outs:
            yield v, [e for e, p in flat(s.events())]

    def units_of(self, r):
        if self.it is not None:
            for f in self.it.analysed:
                r.unit(f if isinstance(f, str) else str(f))
            r.paths += len(self.outs)


def fails(r, cl, key, msg, f):
    """obligation: the load fails on every path"""
    f.units_of(r)
    rs = f.results()
    ok = [x for x in rs if x[0] is None]
    if not rs:
        r.undecided(cl, key, "no outcome")
    elif not ok:
        r.ok(cl, key)
    elif f.imprecise:
        r.undecided(cl, key, str(f.imprecise[:2])[:200])
    else:
        r.bad(cl, key, msg)


def loads(r, cl, key, msg, f):
    """obligation: the load succeeds on every path; -> [(root, types)]"""
    f.units_of(r)
    rs = f.results()
    bad = [x[0] for x in rs if x[0] is not None]
    if not rs:
        r.undecided(cl, key, "no outcome")
        return []
    if not bad:
        r.ok(cl, key)
        return [(x[1], x[2]) for x in rs if x[1] is not None]
    if f.imprecise:
        r.undecided(cl, key, str(f.imprecise[:2])[:200])
    else:
        r.bad(cl, key, f"{msg}: fails with {bad[0].name} {cause(bad[0], rs)}", bad[0].loc)
    return []


def cause(e, rs):
    return " ".join(str(a)[:80] for a in e.args[:2]) if e.args else ""
