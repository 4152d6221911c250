"""Abstract values, heap objects and states of the abstract interpreter."""
from __future__ import annotations


class V:
    """Immutable abstract value. Equality is structural through `key`."""
    __slots__ = ("key", "_h")

    def _set(self, key):
        self.key = key
        self._h = hash(key)

    def __eq__(self, o):
        return isinstance(o, V) and self._h == o._h and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


class C(V):
    """Constant."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        self._set(("C", type(v).__name__, repr(v) if isinstance(v, float) else v))


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)
        self._set(("T", self.items))


class NTup(Tup):
    """instance of a named tuple class"""
    __slots__ = ("cls",)

    def __init__(self, cls, items):
        self.cls = cls
        self.items = tuple(items)
        self._set(("NT", cls, self.items))

    def fields(self):
        return nt_fields(self.cls)


def nt_fields(cls):
    out = []
    for c in reversed([c for c in cls.mro() if isinstance(c, Cls)]):
        out += [n for n in c.annots if n not in out]
    return out


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id
        self._set(("R", id))


class Sym(V):
    """Symbolic input named by an access path. Knowledge about it rides along (not part of identity)."""
    __slots__ = ("path", "cls", "ty", "none", "truth", "rng", "chars", "info")

    def __init__(self, path, cls=None, ty=None, none=None, truth=None, rng=None, chars=None, **info):
        self.path = path
        self.cls = cls          # Cls value or None
        self.ty = ty            # 'str','int','float','bool','list','dict','node','path','num', ...
        self.none = False if (ty and none is None) or cls is not None and none is None else none
        self.truth = truth
        self.rng = rng          # (lo, hi), None = infinite
        self.chars = chars      # excluded literals / char class facts: dict
        self.info = info
        self._set(("S", path))

    def but(self, **kw):
        d = dict(cls=self.cls, ty=self.ty, none=self.none, truth=self.truth, rng=self.rng, chars=self.chars)
        info = dict(self.info)
        for k, v in kw.items():
            if k in d:
                d[k] = v
            else:
                info[k] = v
        return Sym(self.path, **d, **info)


class Op(V):
    """Opaque result of an operation; args give provenance."""
    __slots__ = ("name", "args", "ty")

    def __init__(self, name, args=(), ty=None):
        self.name = name
        self.args = tuple(args)
        self.ty = ty
        self._set(("O", name, self.args))


class Cat(V):
    """String concatenation. parts: C(str) | V | Rep"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._set(("K", self.parts))


class Rep(V):
    """Zero or more repetitions of one of the alternatives (each a tuple of parts)."""
    __slots__ = ("alts", "src", "unord")

    def __init__(self, alts, src, unord=False):
        self.alts = frozenset(alts)
        self.src = src
        self.unord = unord
        self._set(("P", self.alts, src, unord))


class Alt(V):
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = frozenset(vals)
        self._set(("A", self.vals))


class Lin(V):
    """Linear integer expression: const + sum(coef*atom)."""
    __slots__ = ("const", "terms")

    def __init__(self, const, terms):
        self.const = const
        self.terms = tuple(sorted(terms.items(), key=lambda t: repr(t[0].key)))
        self._set(("L", const, self.terms))


class Fn(V):
    __slots__ = ("node", "mod", "scope", "name", "cls", "defaults", "kwdefaults", "deco")

    def __init__(self, node, mod, scope, name, cls=None, defaults=(), kwdefaults=None, deco=()):
        self.node = node
        self.mod = mod
        self.scope = scope
        self.name = name        # qualified within module, e.g. VSSNode.merge
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.deco = deco
        self._set(("F", mod, name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), scope))

    @property
    def qual(self):
        return f"{self.mod}.{self.name}"


class Bound(V):
    __slots__ = ("self", "fn")

    def __init__(self, self_, fn):
        self.self = self_
        self.fn = fn
        self._set(("B", self_, fn))


class Meth(V):
    """Method of a built-in/symbolic receiver, not yet called."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name
        self._set(("M", recv, name))


class Cls(V):
    __slots__ = ("mod", "name", "bases", "attrs", "annots", "node", "is_enum", "deco", "scope")

    def __init__(self, mod, name, bases, node):
        self.mod = mod
        self.name = name
        self.bases = bases
        self.attrs = {}
        self.annots = {}
        self.node = node
        self.is_enum = False
        self.deco = ()
        self._set(("CLS", mod, name))

    @property
    def qual(self):
        return f"{self.mod}.{self.name}"

    def mro(self):
        out, seen = [], set()
        def go(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            if isinstance(c, Cls):
                for b in c.bases:
                    go(b)
        go(self)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.attrs:
                return c.attrs[name]
        return None

    def isa(self, other):
        return other in self.mro()


class EnumM(V):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value
        self._set(("E", cls, name))


class Ext(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._set(("X", name))


class ModV(V):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod
        self._set(("MOD", mod))


class Exc:
    """Exceptional result: cls value (Cls/Ext), args, where."""
    __slots__ = ("cls", "args", "loc", "val")

    def __init__(self, cls, args=(), loc=None, val=None):
        self.cls = cls
        self.args = tuple(args)
        self.loc = loc
        self.val = val

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, (Cls, Ext)) else "?"

    def __repr__(self):
        return f"Exc({self.name},{self.args})"


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
EMPTY = C("")
TOP = Op("top")


def show(v, depth=0):
    if depth > 6:
        return "..."
    s = lambda x: show(x, depth + 1)
    if isinstance(v, C):
        return repr(v.v)
    if isinstance(v, Tup):
        return "(" + ", ".join(map(s, v.items)) + ")"
    if isinstance(v, Ref):
        return f"&{v.id[-1] if isinstance(v.id, tuple) else v.id}"
    if isinstance(v, Sym):
        return f"<{v.path}>"
    if isinstance(v, Op):
        return f"{v.name}({', '.join(map(s, v.args))})"
    if isinstance(v, Cat):
        return "cat[" + " ".join(map(s, v.parts)) + "]"
    if isinstance(v, Rep):
        return "rep{" + " | ".join(" ".join(map(s, a)) for a in v.alts) + "}"
    if isinstance(v, Alt):
        return "alt{" + " | ".join(sorted(map(s, v.vals))) + "}"
    if isinstance(v, Lin):
        return f"lin({v.const}" + "".join(f"+{c}*{s(a)}" for a, c in v.terms) + ")"
    if isinstance(v, Fn):
        return f"fn:{v.qual}"
    if isinstance(v, Bound):
        return f"bound:{v.fn.name}({s(v.self)})"
    if isinstance(v, Meth):
        return f"meth:{s(v.recv)}.{v.name}"
    if isinstance(v, Cls):
        return f"class:{v.name}"
    if isinstance(v, EnumM):
        return f"{v.cls.name}.{v.name}"
    if isinstance(v, Ext):
        return f"ext:{v.name}"
    if isinstance(v, ModV):
        return f"mod:{v.mod}"
    if isinstance(v, ListV):
        q = "{%s}" if v.kind == "set" else "[%s]"
        return q % ", ".join(_show_seg(x, s) for x in v.segs) + ("?" if v.unord else "") + ("+" if v.opaque else "")
    if isinstance(v, DictV):
        return "{" + ", ".join(_show_seg(x, s) for x in v.segs) + "}" + ("?" if v.unord else "") + ("+" if v.opaque else "")
    if isinstance(v, ObjV):
        return f"obj:{show(v.cls, depth + 1) if isinstance(v.cls, V) else v.cls}(" + ", ".join(f"{k}={s(x)}" for k, x in v.attrs) + ")"
    return object.__repr__(v)


def _show_seg(x, s):
    if x[0] == "1":
        return ": ".join(s(y) for y in x[1:])
    if x[0] == "**":
        return "**" + s(x[1])
    return "*(" + " | ".join(sorted(", ".join(_show_seg(y, s) for y in a) for a in x[1])) + ")"


# ---------------------------------------------------------------- heap objects (treated as immutable)
class HObj:
    """kind: list/set/dict/obj/scope. segs: for list/set tuple of ('1',v)|('*',alts,src,unord);
    for dict tuple of ('1',k,v)|('*',alts,src,unord)"""
    __slots__ = ("kind", "segs", "unord", "cls", "attrs", "parent", "loc", "opaque")

    def __init__(self, kind, segs=(), unord=False, cls=None, attrs=None, parent=None, loc=None, opaque=False):
        self.kind = kind
        self.segs = tuple(segs)
        self.unord = unord
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.parent = parent
        self.loc = loc
        self.opaque = opaque    # may contain anything else too

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return HObj(**d)

    def same(self, o):
        return (self.kind == o.kind and self.segs == o.segs and self.unord == o.unord and self.attrs == o.attrs
                and self.opaque == o.opaque)


class Ev:
    __slots__ = ("kind", "name", "args", "kw", "loc", "x", "fn")

    def __init__(self, kind, name="", args=(), kw=None, loc=None, fn=None, **x):
        self.kind = kind
        self.name = name
        self.args = args
        self.kw = kw or {}
        self.loc = loc
        self.fn = fn
        self.x = x

    def __repr__(self):
        return f"Ev({self.kind} {self.name} {self.args} {self.kw or ''} @{self.loc})"


class State:
    __slots__ = ("heap", "facts", "sattr", "globs", "trace", "nloop")

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.sattr = {}
        self.globs = {}
        self.trace = None

    def clone(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.sattr = dict(self.sattr)
        s.globs = dict(self.globs)
        s.trace = self.trace
        return s

    def emit(self, ev):
        self.trace = (self.trace, ev)

    def events(self):
        return unroll(self.trace)


def unroll(t):
    out = []
    while t is not None:
        out.append(t[1])
        t = t[0]
    out.reverse()
    return out


# ---------------------------------------------------------------- strings
def is_strish(v):
    return (isinstance(v, C) and isinstance(v.v, str)) or isinstance(v, (Cat, Rep)) or \
        (isinstance(v, Sym) and v.ty == "str") or (isinstance(v, Op) and v.ty == "str")


def cat(parts):
    out = []
    for p in parts:
        if isinstance(p, Cat):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, C) and isinstance(q.v, str):
                if q.v == "":
                    continue
                if out and isinstance(out[-1], C):
                    out[-1] = C(out[-1].v + q.v)
                    continue
            out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        if is_strish(out[0]):
            return out[0]
    return Cat(out)


def to_str(v):
    if isinstance(v, C):
        if isinstance(v.v, bytes):
            return Op("str", (v,), "str")
        return C(str(v.v))
    if is_strish(v):
        return v
    if isinstance(v, EnumM):
        return Op("str", (v,), "str")
    return Op("str", (v,), "str")


class NotLit(Exception):
    pass


def literal(v):
    """the python constant of a fully known snapshot"""
    if isinstance(v, C) and not isinstance(v.v, bytes):
        return v.v
    if isinstance(v, Tup):
        return tuple(literal(x) for x in v.items)
    if isinstance(v, ListV) and v.kind == "list" and not v.unord and not v.opaque and all(s[0] == "1" for s in v.segs):
        return [literal(s[1]) for s in v.segs]
    if isinstance(v, DictV) and not v.unord and not v.opaque and all(s[0] == "1" for s in v.segs):
        return {literal(s[1]): literal(s[2]) for s in v.segs}
    raise NotLit


def const_path(v):
    """PurePosixPath of a path value built from constants, else None"""
    import pathlib
    if isinstance(v, Op) and v.name == "Path" and v.args and all(isinstance(a, C) and isinstance(a.v, str) for a in v.args):
        return pathlib.PurePosixPath(*[a.v for a in v.args])
    if isinstance(v, Op) and v.name == "pathjoin" and len(v.args) == 2:
        a, b = v.args
        a = const_path(a) if not isinstance(a, C) else a.v
        b = const_path(b) if not isinstance(b, C) else b.v
        if a is not None and b is not None:
            return pathlib.PurePosixPath(a) / b
    return None


def mk_path(p):
    return Op("Path", (C(str(p)),), "path")


def str_of(v):
    p = const_path(v)
    if p is not None:
        return C(str(p))
    if isinstance(v, Op) and v.name == "uuid":
        return v.args[0]
    try:
        return C(str(literal(v)))
    except (NotLit, TypeError):
        return Op("str", (v,), "str")


def lin_of(v):
    """Value as (const, {atom: coef}) or None."""
    if isinstance(v, C) and isinstance(v.v, (int, float)):
        return v.v, {}
    if isinstance(v, Lin):
        return v.const, dict(v.terms)
    if isinstance(v, (Sym, Op)) and (getattr(v, "ty", None) in ("int", "num", "float", "bool")):
        return 0, {v: 1}
    return None


def mk_lin(const, terms):
    terms = {a: c for a, c in terms.items() if c != 0}
    if not terms:
        return C(const)
    if const == 0 and len(terms) == 1:
        a, c = next(iter(terms.items()))
        if c == 1:
            return a
    return Lin(const, terms)


def join_vals(vs):
    s = set()
    for v in vs:
        if isinstance(v, Alt):
            s |= v.vals
        else:
            s.add(v)
    if len(s) == 1:
        return next(iter(s))
    if len(s) > 8:
        return Op("join", tuple(sorted(s, key=repr))[:40])
    return Alt(s)


def atoms(v, seen=None):
    """All sub-values, for provenance queries."""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset, list)):
            st.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, Tup):
            st.extend(x.items)
        elif isinstance(x, Op):
            st.extend(x.args)
        elif isinstance(x, Cat):
            st.extend(x.parts)
        elif isinstance(x, Rep):
            for a in x.alts:
                st.extend(a)
        elif isinstance(x, Alt):
            st.extend(x.vals)
        elif isinstance(x, Lin):
            st.extend(a for a, _ in x.terms)
        elif isinstance(x, Bound):
            st.append(x.self)
        elif isinstance(x, Meth):
            st.append(x.recv)
        elif isinstance(x, (DictV, ListV, ObjV)):
            x.sub(st)
    return seen


# ---------------------------------------------------------------- snapshots (heap-free)
class ListV(V):
    __slots__ = ("kind", "segs", "unord", "opaque")

    def __init__(self, kind, segs, unord, opaque=False):
        self.kind, self.segs, self.unord, self.opaque = kind, tuple(segs), unord, opaque
        self._set(("LV", kind, self.segs, unord, opaque))

    def sub(self, st):
        for s in self.segs:
            if s[0] == "1":
                st.append(s[1])
            else:
                for a in s[1]:
                    for t in a:
                        st.extend(t[1:2] if t[0] == "1" else [])
                        if t[0] == "*":
                            st.append(ListV("list", (t,), False))


class DictV(V):
    __slots__ = ("segs", "unord", "opaque")

    def __init__(self, segs, unord, opaque=False):
        self.segs, self.unord, self.opaque = tuple(segs), unord, opaque
        self._set(("DV", self.segs, unord, opaque))

    def sub(self, st):
        for s in self.segs:
            if s[0] == "1":
                st.extend(s[1:3])
            elif s[0] == "**":
                st.append(s[1])
            else:
                for a in s[1]:
                    for t in a:
                        if t[0] == "1":
                            st.extend(t[1:3])
                        elif t[0] == "*":
                            st.append(DictV((t,), False))
                        elif t[0] == "**":
                            st.append(t[1])


class ObjV(V):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = tuple(sorted(attrs.items()))
        self._set(("OV", cls, self.attrs))

    def sub(self, st):
        st.extend(v for _, v in self.attrs)


def snapshot(v, st, depth=0, path=()):
    """Resolve heap references into nested structure."""
    if depth > 60:
        return TOP
    if isinstance(v, Ref):
        if v.id in path:
            return Op("cycle", (C(str(v.id[-1]) if isinstance(v.id, tuple) else str(v.id)),))
        o = st.heap.get(v.id)
        if o is None:
            return TOP
        p = path + (v.id,)
        f = lambda x: snapshot(x, st, depth + 1, p)
        if o.kind in ("list", "set"):
            return ListV(o.kind, _snap_segs(o.segs, f), o.unord, o.opaque)
        if o.kind == "dict":
            return DictV(_snap_segs(o.segs, f), o.unord, o.opaque)
        if o.kind == "obj":
            if "sa_children" in o.attrs:
                return v
            return ObjV(o.cls, {k: f(x) for k, x in o.attrs.items()})
        return TOP
    f = lambda x: snapshot(x, st, depth + 1, path)
    if isinstance(v, Tup):
        return NTup(v.cls, [f(x) for x in v.items]) if isinstance(v, NTup) else Tup([f(x) for x in v.items])
    if isinstance(v, Op):
        return Op(v.name, [f(x) for x in v.args], v.ty) if any(_has_ref(a) for a in v.args) else v
    if isinstance(v, Cat):
        return Cat([f(x) for x in v.parts]) if any(_has_ref(a) for a in v.parts) else v
    if isinstance(v, Rep):
        return Rep([tuple(f(x) for x in a) for a in v.alts], v.src, v.unord) if _has_ref(v) else v
    if isinstance(v, Alt):
        return join_vals([f(x) for x in v.vals])
    return v


def _has_ref(v):
    return any(isinstance(a, Ref) for a in atoms(v))


def _snap_segs(segs, f):
    out = []
    for s in segs:
        if s[0] == "1":
            out.append(("1",) + tuple(f(x) for x in s[1:]))
        elif s[0] == "**":
            out.append(("**", f(s[1])))
        else:
            out.append(("*", frozenset(tuple(_snap_segs(a, f)) for a in s[1]), s[2], s[3]))
    return tuple(out)
