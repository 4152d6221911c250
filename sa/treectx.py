"""Context: the loaded model handed to an exporter, as a summary tree of symbolic nodes."""
from __future__ import annotations

import ast

from core import *  # noqa
from interp import Context, Interp

TREE = "vss_tools.vspec.tree"
MODEL = "vss_tools.vspec.model"
MAIN = "vss_tools.vspec.main"
KIND_CLASS = {"branch": "VSSDataBranch", "attribute": "VSSDataAttribute", "sensor": "VSSDataSensor",
              "actuator": "VSSDataSensor", "struct": "VSSDataStruct", "property": "VSSDataProperty"}
CONTAINER = {"branch", "struct"}
LEAF_ATTRS = ["datatype", "arraysize", "min", "max", "unit", "allowed", "default"]
COMMON_ATTRS = ["description", "comment", "delete", "deprecation", "constUID", "fka", "instantiate"]


class NodeSpec:
    """What is known about one summary node."""
    def __init__(self, kind, attrs=None, parent=None, child=None, extras=None, uuid="none", name=None, kids=None):
        self.kids = kids             # names of the children when the node is concrete (exactly these, once each)
        self.kind = kind
        self.attrs = attrs or {}     # attr -> 'none' | 'falsy' | 'truthy' | V ; missing = default class
        self.parent = parent         # name of parent summary node or None
        self.child = child           # name of child summary node, or None (leaf), or 'maybe'
        self.extras = extras or []   # names of extra attributes
        self.uuid = uuid
        self.name = name


DEFAULT_ATTR = {"description": "truthy", "datatype": C("uint8"), "comment": "none", "deprecation": "none", "constUID": "none", "unit": "none",
                "min": "none", "max": "none", "allowed": "none", "default": "none", "arraysize": "none",
                "delete": FALSE, "instantiate": TRUE, "aggregate": FALSE, "is_instance": FALSE, "fka": "empty", "instances": "empty",
                "fqn": "fqn"}
TYPES_OF = {"description": "str", "comment": "str", "deprecation": "str", "constUID": "str", "unit": "str", "min": "num", "max": "num",
            "allowed": "list", "default": "val", "arraysize": "int", "datatype": "str", "fka": "list", "instances": "list", "fqn": "str"}


def base_tree(kind="sensor", attrs=None, types=True, tkind="property", tattrs=None, extras=(), uuid="none", ckind="sensor", cattrs=None,
              rattrs=None):
    """root T (branch) -> D(kind) ; if D is a container, D -> E(ckind). types: U(branch) -> DU(struct) -> EU(property)"""
    ex = list(extras)
    n = {"T": NodeSpec("branch", rattrs, None, "D", ex, uuid),
         "D": NodeSpec(kind, attrs, "T", "E" if kind in CONTAINER else None, ex, uuid)}
    n["E"] = NodeSpec(ckind, cattrs if cattrs is not None else attrs, "D", "E" if ckind in CONTAINER else None, ex, uuid)
    if types:
        n["U"] = NodeSpec("branch", rattrs, None, "DU", ex, uuid)
        n["DU"] = NodeSpec("struct" if tkind != "branch" else "branch", tattrs, "U", "EU", ex, uuid)
        n["EU"] = NodeSpec("property", tattrs, "DU", None, ex, uuid)
    return n


def concrete(spec, types=None):
    """{name: (kind, attrs, [children])} -> concrete node specs; names are node ids, parents derived"""
    out = {}
    for d in (spec, types or {}):
        for n, (kind, attrs, kids) in d.items():
            out[n] = NodeSpec(kind, dict(attrs or {}), None, None, (), "none", None, tuple(kids))
        for n, (kind, attrs, kids) in d.items():
            for k in kids:
                out[k].parent = n
    return out


class TreeCtx(Context):
    def __init__(self, world, nodes):
        super().__init__()
        self.w = world
        self.nodes = nodes
        self.stubs[f"{TREE}.VSSNode.get_fqn"] = self.stub_fqn
        self.node_cls = world.get(TREE, "VSSNode")
        self.data_cls = {k: world.get(MODEL, c) for k, c in KIND_CLASS.items()}
        # the class map decides which class validates which kind
        self.node_type = world.get(MODEL, "NodeType")

    # ---- values
    def node(self, n):
        return Sym(n, cls=self.node_cls, ty="node", truth=True)

    def spec(self, v):
        return self.nodes.get(v.path) if isinstance(v, Sym) else None

    def data(self, n):
        return Sym(n + ".data", cls=self.data_cls[self.nodes[n].kind], ty="obj", truth=True, node=n)

    def fields(self, n):
        """declared fields of the node's data class, in model_fields order"""
        out = []
        cls = self.data_cls[self.nodes[n].kind]
        for c in reversed([c for c in cls.mro() if isinstance(c, Cls)]):
            for k in c.annots:
                if k not in out and k != "model_config":
                    out.append(k)
        return out

    def attr_val(self, n, a):
        sp = self.nodes[n]
        if a == "type":
            m = self.node_type.attrs.get(sp.kind.upper())
            if m is None:
                for x in self.node_type.attrs.values():
                    if isinstance(x, EnumM) and x.value == C(sp.kind):
                        m = x
            return m
        d = sp.attrs.get(a, DEFAULT_ATTR.get(a, "unknown"))
        if isinstance(d, V):
            return d
        ty = TYPES_OF.get(a)
        p = f"{n}.data.{a}"
        if d == "none":
            return NONE
        if d == "empty":
            return Sym(p, ty="list", truth=False, none=False, empty=True)
        if d == "fqn":
            return Op("fqn", (self.node(n), C(".")), "str")
        if d == "falsy":
            if ty == "val":
                return Sym(p, none=False, truth=False, scalar=True)
            return Sym(p, ty=ty, none=False, truth=False)
        if d == "truthy":
            el = {"truth": None, "none": False}
            if a == "default":
                return Sym(p, none=False, truth=True, scalar=True)
            return Sym(p, ty=ty, none=False, truth=True, elem=el)
        if d == "list":
            return Sym(p, ty="list", none=False, truth=True, elem={"none": False})
        return Sym(p)

    def stub_fqn(self, it, st, self_, args, kw, node):
        sep = args[0] if args else kw.get("sep", C("."))
        if isinstance(self_, Sym) and self_.path in self.nodes and self.nodes[self_.path].parent is None and self.root_name_is_fqn:
            return [(Sym(self_.path + ".name", ty="str", truth=True, chars={"."}), st)]
        return [(Op("fqn", (self_, sep), "str"), st)]

    root_name_is_fqn = False

    # ---- hooks
    def sym_attr(self, it, v, name, st):
        if not isinstance(name, str):
            return None
        if isinstance(v, Sym) and v.path in self.nodes:
            n = v.path
            sp = self.nodes[n]
            k = (n, name)
            if k in st.sattr:
                return st.sattr[k]
            if name == "name":
                if sp.name is not None:
                    return sp.name
                return Sym(n + ".name", ty="str", truth=True, chars={"."})
            if name == "data":
                return self.data(n)
            if name == "uuid":
                return NONE if sp.uuid == "none" else Sym(n + ".uuid", ty="str", truth=True)
            if name == "parent":
                return self.node(sp.parent) if sp.parent else NONE
            if name == "children":
                return self.node_list(it, st, self.kid_items(n), n + ".children")
            if name in ("is_leaf",):
                return C(not self.kid_items(n))
            if name == "is_root":
                return C(sp.parent is None)
            if name == "root":
                while sp.parent:
                    n = sp.parent
                    sp = self.nodes[n]
                return self.node(n)
            if name in ("path", "ancestors", "anchestors"):
                chain = []
                m = n if name == "path" else sp.parent
                while m:
                    chain.insert(0, m)
                    m = self.nodes[m].parent
                # unknown number of intermediate ancestors: summary
                segs = [("1", self.node(chain[0]))] if chain else []
                if all(self.nodes[x].parent is None or self.nodes[self.nodes[x].parent].kids is not None for x in chain):
                    segs = [("1", self.node(x)) for x in chain]
                elif len(chain) > 1:
                    segs.append(("*", frozenset([(("1", Op("ancestor", (self.node(n),))),)]), Op("path", (self.node(n),)), False))
                    segs.append(("1", self.node(chain[-1])))
                r = Ref(("tree", n, name))
                st.heap[r.id] = HObj("list", segs)
                return r
            if name in ("descendants", "leaves"):
                sub = self.subtree(n)
                if name == "descendants":
                    sub = sub[1:]
                else:
                    sub = [x for x in sub if not self.kid_items(x[1])]
                return self.node_list(it, st, sub, n + "." + name)
            if name in ("size", "height", "depth"):
                return Sym(n + "." + name, ty="int", rng=(0 if name != "size" else 1, None))
            if name == "siblings":
                if sp.parent and self.nodes[sp.parent].kids is not None:
                    return self.node_list(it, st, [x for x in self.kid_items(sp.parent) if x[1] != n], n + ".siblings")
                return self.node_list(it, st, [("*", n)] if sp.parent else [], n + ".siblings")
            return None
        if isinstance(v, Sym) and v.path.endswith(".data") and v.path[:-5] in self.nodes:
            n = v.path[:-5]
            k = (v.path, name)
            if k in st.sattr:
                return st.sattr[k]
            if name in self.fields(n):
                return self.attr_val(n, name)
            if name in self.nodes[n].extras:
                return Sym(f"{n}.data.{name}", none=False, truth=True)
            if isinstance(v.cls, Cls) and v.cls.lookup(name) is not None:
                return None
            if name in ("model_fields", "model_extra", "model_dump", "__class__", "model_config", "model_copy", "model_fields_set",
                        "__dict__", "__fields__"):
                if name == "model_fields":
                    r = Ref(("mf", n))
                    st.heap[r.id] = HObj("dict", [("1", C(f), Op("field", (C(f),))) for f in self.fields(n)])
                    return r
                if name in ("model_extra",):
                    r = Ref(("mx", n))
                    st.heap[r.id] = HObj("dict", [("1", C(f), Sym(f"{n}.data.{f}", none=False, truth=True)) for f in self.nodes[n].extras])
                    return r
                return None
            return "missing"
        return None

    def kid_items(self, n):
        sp = self.nodes[n]
        if sp.kids is not None:
            return [("1", k) for k in sp.kids]
        return [("*", sp.child)] if sp.child else []

    def node_list(self, it, st, items, tag):
        segs = []
        for q, n in items:
            if q == "*":
                segs.append(("*", frozenset([(("1", self.node(n)),)]), Op("nodes", (C(tag),)), False))
            else:
                segs.append(("1", self.node(n)))
        r = Ref(("tree", tag, tuple(items)))
        st.heap[r.id] = HObj("list", segs)
        return r

    def subtree(self, n):
        """[(quantifier, node)] of a pre-order walk"""
        if self.nodes[n].kids is not None:
            out = [("1", n)]
            for k in self.nodes[n].kids:
                out += self.subtree(k)
            return out
        out = [("1", n)]
        c = self.nodes[n].child
        seen = {n}
        while c and c not in seen:
            seen.add(c)
            out.append(("*", c))
            c = self.nodes[c].child
        return out

    def sym_truth(self, it, v, st):
        return None

    def sym_iter(self, it, v, st):
        if isinstance(v, Sym) and v.info.get("empty"):
            return [], False
        return None

    def sym_call(self, it, recv, name, args, kw, st, node):
        if isinstance(recv, Sym) and recv.path.endswith(".data") and recv.path[:-5] in self.nodes:
            n = recv.path[:-5]
            if name in ("model_dump", "dict"):
                return self.model_dump(it, n, kw, st, node)
            if name == "model_copy":
                return [(recv, st)]
        return None

    def model_dump(self, it, n, kw, st, node):
        ex = set()
        opaque = False
        e = kw.get("exclude")
        if e is not None and e != NONE:
            segs, _ = it.iter_segs(e, st)
            for s in segs or []:
                if s[0] == "1" and isinstance(s[1], C):
                    ex.add(s[1].v)
                else:
                    opaque = True
            if segs is None:
                opaque = True
        segs = []
        none = kw.get("exclude_none") == TRUE
        for f in self.fields(n) + list(self.nodes[n].extras):
            if f in ex:
                continue
            if f in self.nodes[n].extras:
                v = Sym(f"{n}.data.{f}", none=False, truth=True)
            else:
                k = (f"{n}.data", f)
                v = st.sattr.get(k) or self.attr_val(n, f)
            if f == "type" and kw.get("mode") == C("json") and isinstance(v, EnumM):
                v = v.value
            if none and it.is_none(v, st):
                continue
            segs.append(("1", C(f), v))
        r = it.alloc(st, node, "dict", tag="dump" + n)
        st.heap[r.id] = st.heap[r.id].but(segs=tuple(segs), opaque=opaque)
        return [(r, st)]

    def ext_call(self, it, name, args, kw, st, node):
        if name.startswith("anytree."):
            return self.anytree(it, name.split(".")[-1], args, kw, st, node)
        return None

    def anytree(self, it, name, args, kw, st, node):
        if not args:
            return None
        root = args[0]
        if isinstance(root, Alt):
            return it.alt_map(root, st, lambda x, s: self.anytree(it, name, [x] + list(args[1:]), kw, s, node) or [(TOP, s)])
        if not (isinstance(root, Sym) and root.path in self.nodes):
            return None
        if name in ("PreOrderIter", "PostOrderIter", "LevelOrderIter"):
            items = self.subtree(root.path)
            l = self.node_list(it, st, items, root.path + ":" + name)
            f = kw.get("filter_", args[1] if len(args) > 1 else None)
            stop = kw.get("stop", args[2] if len(args) > 2 else None)
            ml = kw.get("maxlevel", args[3] if len(args) > 3 else None)
            if stop not in (None, NONE) or ml not in (None, NONE):
                return [(Op("partial_iter", (root, f or NONE, stop or NONE, ml or NONE)), st)]
            if f is not None and f != NONE:
                return self.filtered(it, l, f, st, node)
            return [(l, st)]
        if name in ("findall", "find"):
            items = self.subtree(root.path)
            l = self.node_list(it, st, items, root.path + ":" + name)
            f = kw.get("filter_", args[1] if len(args) > 1 else None)
            it.emit(st, "tree", name, (root, f or NONE), node=node)
            if name == "find":
                return [(Op("find", (root, f or NONE)), st)]
            if f is None:
                return [(l, st)]
            return self.filtered(it, l, f, st, node)
        if name == "RenderTree":
            r = it.alloc(st, node, "list", tag="render")
            segs = []
            for q, n in self.subtree(root.path):
                t = Tup((Sym("pre:" + n, ty="str"), Sym("fill:" + n, ty="str"), self.node(n)))
                segs.append(("1", t) if q == "1" else ("*", frozenset([(("1", t),)]), Op("render", (root,)), False))
            st.heap[r.id] = st.heap[r.id].but(segs=tuple(segs))
            return [(r, st)]
        return None

    def filtered(self, it, l, f, st, node):
        import models
        return models.loop_ast(it, st, node, "[HID_x for HID_x in HID_xs if HID_f(HID_x)]", None, {"f": f, "xs": l})


def flat(events, path=()):
    """All events, loops and branches opened: yields (event, path of enclosing loop events)."""
    for e in events:
        yield e, path
        if e.kind == "loop":
            for k, body, v in e.x["bodies"]:
                yield from flat(body, path + (e,))
        elif e.kind == "branch":
            for a in e.x["alts"]:
                yield from flat(a, path)
