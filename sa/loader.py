"""Abstract runs of the model loader (get_trees) with its low-level stages replaced by recorded events.

The stages are the public operations of the other modules: reading specs, units and quantities, building the tree and
the tree's own operations. Everything between them (whatever helper functions there are) is interpreted.
"""
from __future__ import annotations

from core import *  # noqa
from exporters import run_fn
from treectx import MAIN, TreeCtx, base_tree, flat

P = "vss_tools.vspec."
T = P + "tree.VSSNode."


def lst(n, truth=True, elem=None):
    return Sym(n, ty="list", none=False, truth=truth, elem=elem or {"ty": "path"})


def some(n, k, ty="path"):
    """k distinct symbolic values"""
    return Tup([Sym(f"{n}#{i}", ty=ty, truth=True, distinct=n) for i in range(k)])


def default_args(k=1):
    return {"vspec": Sym("vspec", ty="path"), "include_dirs": some("include_dirs", k), "aborts": Tup(()), "strict": FALSE,
            "extended_attributes": some("extended_attributes", k, "str"), "uuid": FALSE, "quantities": some("quantities", k),
            "units": some("units", k), "types": some("types", k), "overlays": some("overlays", k), "expand": TRUE}


class BothCtx(TreeCtx):
    """model summary plus symbolic files"""
    def __init__(self, world, nodes, core):
        super().__init__(world, nodes)
        self.core = core
        self.deep = True

    def sym_call(self, it, recv, name, args, kw, st, node):
        r = self.core.sym_call(it, recv, name, args, kw, st, node)
        return r if r is not None else super().sym_call(it, recv, name, args, kw, st, node)

    def ext_call(self, it, name, args, kw, st, node):
        r = self.core.ext_call(it, name, args, kw, st, node)
        return r if r is not None else super().ext_call(it, name, args, kw, st, node)


class Load:
    """One abstract run. scenario keys: orphans, types_orphans, naming, extra (list of (fqn, attr) or None),
    types_extra, resolve ('ok'|'raise'|'types-raise'), nodes, units/quantities ('ok'|'raise'), spec ('ok'|'raise')"""

    def __init__(self, world, args=None, nodes=None, max_states=None, **sc):
        self.w = world
        self.sc = sc
        self.nodes = nodes or base_tree()
        self.core = sc.get("core")
        self.ctx = BothCtx(world, self.nodes, self.core) if self.core else TreeCtx(world, self.nodes)
        c = self.ctx
        self.mve = world.get(P + "model", "ModelValidationException")
        st = c.stubs
        if not self.core:
            st[P + "vspec.load_vspec"] = self.stub("load_vspec", lambda k, s: self.spec(k))
        st[P + "units_quantities.load_units"] = self.stub("load_units", lambda k, s: self.table("units"))
        st[P + "units_quantities.load_quantities"] = self.stub("load_quantities", lambda k, s: self.table("quantities"))
        st[P + "tree.build_tree"] = self.stub("build_tree", self.built)
        for m, ret in (("expand_instances", NONE), ("add_uuids", NONE), ("delete_nodes", NONE)):
            st[T + m] = self.stub(m, lambda k, s, ret=ret: ret)
        st[T + "resolve"] = self.stub("resolve", self.resolve)
        st[T + "connect"] = self.stub("connect", lambda k, s: self.ctx.node("U"))
        st[T + "get_naming_violations"] = self.stub("get_naming_violations", lambda k, s: self.viol("naming", k, s))
        st[T + "get_extra_attributes"] = self.stub("get_extra_attributes", lambda k, s: self.viol("extra", k, s))
        a = default_args()
        a.update(args or {})
        self.args = a
        self.outs, self.it = run_fn(world, MAIN, "get_trees", [], a, ctx=c, max_states=max_states)

    def stub(self, name, ret):
        def f(it, st, self_, args, kw, node):
            names = None
            fn = self.w.get(*self.home(name))
            a = ([self_] if self_ is not None else []) + list(args)
            b = {}
            if isinstance(fn, Fn):
                b = it.bind_args(fn, a, kw, st, node)
                if isinstance(b, Exc):
                    return [(b, st)]
            it.emit(st, "stage", name, tuple(it.sn(x, st) for x in a), {k: it.sn(v, st) for k, v in b.items()}, node=node,
                    du=self.known(it, st, "dynamic_units", "units_table"), dq=self.known(it, st, "dynamic_quantities", "quantities_table"))
            r = ret(b, (it, st, node))
            at = self.sc.get("raise_at")
            if at and at[0] == name and (at[1] is None or at[1] == self.is_types_stage(name, b)):
                return [(Exc(at[2], (C("m"), C("x")), it.loc(node)), st)]
            return [(r, st)]
        return f

    def known(self, it, st, var, table):
        """does the module-level table hold what was loaded? True/False/None"""
        v = self.w.get(P + "datatypes", var)
        if not isinstance(v, Ref):
            return None
        v = it.sn(v, st)
        if any(isinstance(a, Sym) and a.path.startswith(table) for a in atoms(v)):
            return True
        return None if getattr(v, "opaque", False) else False

    def home(self, name):
        for mod, q in ((P + "vspec", name), (P + "units_quantities", name), (P + "tree", name), (P + "tree", "VSSNode." + name)):
            if isinstance(self.w.get(mod, q), Fn):
                return mod, q
        return P + "tree", name

    def exc(self, cls, s, *a):
        it, st, node = s
        return Exc(cls, a, it.loc(node))

    def spec(self, k):
        ident = k.get("identifier")
        src = "types" if ident not in (None, NONE) else "model"
        return Sym("spec:" + src, ty="obj", truth=True)

    def table(self, n):
        return Sym(n + "_table", ty="dict")

    def built(self, k, s):
        it, st, node = s
        types = self.is_types(k)
        orph = self.sc.get("types_orphans" if types else "orphans")
        o = it.alloc(st, node, "dict", tag="orphans" + ("t" if types else ""))
        if orph:
            st.heap[o.id] = st.heap[o.id].but(segs=(("1", C("A.Orphan"), Sym("orphan", ty="node")),))
        return Tup((self.ctx.node("U" if types else "T"), o))

    def is_types_stage(self, name, b):
        if name == "load_vspec":
            return b.get("identifier") not in (None, NONE)
        if name == "build_tree":
            return self.is_types(b)
        return b.get("self") == self.ctx.node("U")

    def is_types(self, k):
        d = k.get("data")
        if self.core:
            return k.get("connect_orphans", FALSE) != TRUE
        return any(isinstance(x, Sym) and x.path.startswith("spec:types") for x in atoms(d)) if d is not None else False

    def resolve(self, k, s):
        self_ = k.get("self")
        want = self.sc.get("resolve", "ok")
        if want == "raise" and self_ == self.ctx.node("T") or want == "types-raise" and self_ == self.ctx.node("U"):
            it, st, node = s
            return self.exc(self.mve, s, C("x"))
        return NONE

    def viol(self, what, k, s):
        it, st, node = s
        self_ = k.get("self")
        key = ("types_" if self_ == self.ctx.node("U") else "") + what
        v = self.sc.get(key)
        segs = []
        for x in v or []:
            l = it.new_list(st, node, [("1", C(y)) for y in x], tag="viol" + str(x))
            segs.append(("1", l))
        return it.new_list(st, node, segs, tag="viols" + key)

    # ---- results
    def stages(self, st, depth=False):
        """[(name, self, kw, path, ev)] in order"""
        out = []
        for e, p in flat(st.events()):
            if e.kind == "stage":
                out.append((e.name, e.kw.get("self"), e.kw, p, e))
        return out

    def failed(self, v):
        return isinstance(v, Exc)
