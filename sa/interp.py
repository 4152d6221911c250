"""Abstract interpreter for the Python subset used by vss-tools (never executes analysed code)."""
from __future__ import annotations

import ast
import builtins as _bi
import sys

from core import *  # noqa
from core import _has_ref

sys.setrecursionlimit(20000)

MAXSTATES = 24
MAXUNROLL = 400
MAXCHARS = 1000
MAXDEPTH = 60
PATHOPS = ("Path", "pathjoin", "/")

EXC_PARENT = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AttributeError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
    "AssertionError": "Exception", "OSError": "Exception", "FileNotFoundError": "OSError", "FileExistsError": "OSError",
    "PermissionError": "OSError", "IOError": "OSError", "ValidationError": "ValueError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "StopIteration": "Exception", "UnicodeDecodeError": "ValueError",
    "UnicodeEncodeError": "ValueError", "OverflowError": "ArithmeticError", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "YAMLError": "Exception", "RecursionError": "RuntimeError",
    "Exception": "BaseException", "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "UserWarning": "Exception", "struct.error": "Exception", "NameError": "Exception",
}


class Undecided(Exception):
    pass


class Frame:
    __slots__ = ("scope", "fn", "mod", "glob", "nonloc", "yields", "cls", "exc")

    def __init__(self, scope, fn, mod):
        self.scope, self.fn, self.mod = scope, fn, mod
        self.glob, self.nonloc = set(), set()
        self.yields = None
        self.cls = None
        self.exc = []


class Budget(Exception):
    """The analysis of this entry point was cut short; nothing follows from its result."""


class Context:
    """Hooks that give meaning to symbolic inputs. Subclassed by the rules."""
    def __init__(self):
        self.stubs = {}        # qualname -> f(interp, st, self_or_None, args, kw, loc) -> list[(V|Exc, State)]
        self.noinline = set()  # qualnames that become call events

    def sym_attr(self, it, v, name, st):
        return None

    def sym_iter(self, it, v, st):
        return None

    def sym_call(self, it, recv, name, args, kw, st, loc):
        return None

    def sym_truth(self, it, v, st):
        return None

    def sym_item(self, it, v, k, st):
        return None

    def ext_call(self, it, name, args, kw, st, loc):
        return None

    def same_path(self, a, b):
        return None

    def decide(self, it, op, a, b, st):
        return None


def distinct_syms(x, y):
    return isinstance(x, Sym) and isinstance(y, Sym) and x != y and bool(x.info.get("distinct")) and x.info.get("distinct") == y.info.get("distinct")


def dot_segments(parts):
    """Parts of a string split at its dots, if no symbolic part can contain a dot."""
    out = [[]]
    for p in parts:
        if isinstance(p, C) and isinstance(p.v, str):
            ps = p.v.split(".")
            for i, q in enumerate(ps):
                if i:
                    out.append([])
                if q:
                    out[-1].append(C(q))
        elif isinstance(p, Sym) and p.chars and "." in p.chars:
            out[-1].append(p)
        else:
            return None
    return out


BUILTIN_TYPES = {"int", "str", "bool", "float", "list", "dict", "tuple", "set", "frozenset", "bytes", "object", "type", "complex", "bytearray"}


def const_attr(v, name):
    """attribute of a path or UUID built from constants"""
    p = const_path(v)
    if p is not None and name in ("name", "stem", "suffix", "parent", "parts"):
        x = getattr(p, name)
        return mk_path(x) if name == "parent" else Tup([C(y) for y in x]) if name == "parts" else C(x)
    if v.name == "uuid" and name in ("hex", "int", "urn"):
        import uuid
        return C(getattr(uuid.UUID(v.args[0].v), name))
    return None


SET_REV = False


def set_order(segs):
    """the elements of a set in one of its possible iteration orders; small integers hash to themselves"""
    segs = list(segs)
    return segs if not SET_REV or all(s[0] == "1" and isinstance(s[1], C) and isinstance(s[1].v, (int, type(None))) for s in segs) else segs[::-1]


def by_value(cls):
    """instances are compared by their fields"""
    return any("dataclass" in repr(d) and "eq=False" not in repr(d) for d in cls.deco) or any(isinstance(b, Ext) and b.name.endswith("BaseModel") for b in cls.mro())


class Interp:
    def __init__(self, world, ctx=None):
        self.w = world
        self.ctx = ctx or Context()
        self.stack = []       # call-site keys
        self.calls = []       # (fn, argkey)
        self.frames = []
        self.starat = []      # depth of calls at each enclosing loop over an unknown collection
        self.loopidx = []
        self.catching = []
        self.intern = {}
        self.imprecise = []
        self.unknowns = {}
        self.analysed = set()
        self.nops = 0
        self.budget = 400000
        self.max_states = MAXSTATES

    # ------------------------------------------------------------ util
    def note(self, what):
        self.imprecise.append(what)

    def ctxid(self):
        k = (tuple(self.stack), tuple(self.loopidx))
        if k not in self.intern:
            self.intern[k] = len(self.intern)
        return self.intern[k]

    def aid(self, node, tag=""):
        return (self.ctxid(), getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag,
                self.frames[-1].mod if self.frames else "")

    def loc(self, node):
        f = self.frames[-1] if self.frames else None
        m = f.mod if f else "?"
        return f"{self.w.relpath(m)}:{getattr(node, 'lineno', 0)}"

    def fnname(self):
        for f in reversed(self.frames):
            if f.fn is not None:
                return f.fn.qual
        return self.frames[-1].mod if self.frames else ""

    def emit(self, st, kind, name="", args=(), kw=None, node=None, **x):
        ev = Ev(kind, name, tuple(args), kw, self.loc(node) if node is not None else None, self.fnname(), **x)
        st.emit(ev)
        return ev

    def alloc(self, st, node, kind, tag="", **kw):
        id = self.aid(node, tag + kind)
        st.heap[id] = HObj(kind, loc=self.loc(node), **kw)
        return Ref(id)

    def new_list(self, st, node, segs=(), kind="list", tag="", **kw):
        return self.alloc(st, node, kind, tag, segs=segs, **kw)

    def raise_(self, st, name, node, *args):
        return [(Exc(Ext(name), args, self.loc(node)), st)]

    # ------------------------------------------------------------ scopes
    def lookup(self, name, st):
        f = self.frames[-1]
        if name in f.glob:
            sc = ("mod", f.mod)
        else:
            sc = f.scope
        while sc is not None:
            o = st.heap.get(sc)
            if o is None:
                break
            if name in o.attrs:
                return o.attrs[name]
            sc = o.parent
        if hasattr(_bi, name) or name in ("exit", "quit"):
            return Ext(name)
        return None

    def assign_name(self, name, v, st):
        f = self.frames[-1]
        if name in f.glob:
            sc = ("mod", f.mod)
        elif name in f.nonloc:
            sc = st.heap[f.scope].parent
            while sc is not None and name not in st.heap[sc].attrs:
                sc = st.heap[sc].parent
            if sc is None:
                sc = f.scope
        else:
            sc = f.scope
        o = st.heap[sc]
        a = dict(o.attrs)
        a[name] = v
        st.heap[sc] = o.but(attrs=a)
        if isinstance(sc, tuple) and sc[0] == "mod" and self.frames[-1].fn is not None:
            st.emit(Ev("setglobal", name, (v,), None, None, self.fnname(), mod=sc[1]))

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        if isinstance(v, Op) and v.name == "rematch" and len(v.args) >= 4 and all(isinstance(a, C) for a in v.args):
            return True
        if isinstance(v, C):
            return bool(v.v)
        if isinstance(v, Tup):
            return len(v.items) > 0
        k = ("truth", self.fact_key(v, st))
        if k in st.facts:
            return st.facts[k]
        if isinstance(v, (ListV, DictV)):
            if any(s[0] == "1" for s in v.segs):
                return True
            if not v.segs and not v.opaque:
                return False
            return None
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is None:
                return None
            if o.kind in ("list", "set", "dict"):
                if any(s[0] == "1" for s in o.segs):
                    return True
                if not o.segs and not o.opaque:
                    return False
                return None
            return True
        if isinstance(v, Sym):
            r = self.ctx.sym_truth(self, v, st)
            if r is not None:
                return r
            if v.none is True:
                return False
            if v.truth is not None:
                return v.truth
            if v.ty in ("node", "path", "obj", "file"):
                return True
            if v.rng:
                lo, hi = v.rng
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return True
            n = st.facts.get(("none", v))
            if n is True:
                return False
            return None
        if isinstance(v, Cat):
            for p in v.parts:
                if isinstance(p, C) and p.v:
                    return True
                if isinstance(p, (Sym, Op)) and self.truth_str(p, st):
                    return True
            return None
        if isinstance(v, (Fn, Cls, Ext, Bound, ModV, Meth)):
            return True
        if isinstance(v, EnumM):
            return self.truth(v.value, st) if v.cls is not None and any(isinstance(b, Ext) and b.name in ("str", "int") for b in v.cls.bases) else True
        if isinstance(v, Alt):
            ts = {self.truth(x, st) for x in v.vals}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(v, Op):
            if v.name == "not":
                t = self.truth(v.args[0], st)
                return None if t is None else not t
            if v.name == "len":
                return self.truth(v.args[0], st) if not isinstance(v.args[0], Op) or True else None
            if v.name in ("partial", "slice_obj", "lambda"):
                return True
            if v.name == "str" and v.ty == "str":
                a = v.args[0]
                if isinstance(a, Sym) and a.ty in ("int", "num", "float", "bool", "list"):
                    return True
                return None
        if isinstance(v, Lin):
            return None
        return None

    def fact_key(self, v, st):
        """Facts about the emptiness of a mutable collection are facts about its present content."""
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is not None and o.kind in ("list", "set", "dict"):
                return snapshot(v, st)
        return v

    def truth_str(self, p, st):
        """Is the string part known to be non-empty?"""
        if isinstance(p, Sym):
            return p.truth is True
        if isinstance(p, Op) and p.name == "str":
            a = p.args[0]
            return not is_strish(a) and not (isinstance(a, Sym) and a.ty is None)
        return False

    def note_unknown(self, v):
        """a decision that depends on the result of a callee without a model is not exact"""
        if not self.w.full:
            return
        r = self.unknowns.get(v)
        if r is None:
            r = self.unknowns[v] = next((str(a.args[0])[:60] for a in atoms(v) if isinstance(a, Op) and a.name == "call" and a.args and isinstance(a.args[0], (Ext, Meth))), "")
        if r:
            self.note(f"depends on {r}")

    def fork(self, v, st, node=None):
        """list of (bool, state)"""
        t = self.truth(v, st)
        if t is not None:
            return [(t, st)]
        if isinstance(v, Alt):
            out = []
            seen = set()
            for x in sorted(v.vals, key=repr):
                for b, s in self.fork(x, st.clone(), node):
                    if b not in seen:
                        seen.add(b)
                        out.append((b, s))
            return out
        if isinstance(v, Op) and v.name == "not":
            return [(not b, s) for b, s in self.fork(v.args[0], st, node)]
        self.note_unknown(v)
        a, b = st.clone(), st.clone()
        self.assume(v, True, a)
        self.assume(v, False, b)
        return [(True, a), (False, b)]

    def assume(self, v, val, st):
        st.facts[("truth", self.fact_key(v, st))] = val
        if isinstance(v, Op):
            if v.name == "not":
                self.assume(v.args[0], not val, st)
            elif v.name == "is" and v.args[1] == NONE:
                st.facts[("none", v.args[0])] = val
                if val:
                    st.facts[("truth", v.args[0])] = False
            elif v.name == "isinstance" and val:
                st.facts[("none", v.args[0])] = False
            elif v.name == "==" and val:
                a, b = v.args
                if isinstance(b, C):
                    st.facts[("eq", a)] = b
                elif isinstance(a, C):
                    st.facts[("eq", b)] = a
            elif v.name == "len":
                st.facts[("truth", v.args[0])] = val
            elif v.name == "le0":
                l = lin_of(v.args[0])
                if l is not None and len(l[1]) == 1:
                    (a, c), k0 = next(iter(l[1].items())), l[0]
                    if isinstance(a, Op) and a.name == "len":
                        if c == 1 and val and k0 >= 0 or c == -1 and not val and k0 <= 1:
                            st.facts[("truth", a.args[0])] = False
                        elif c == 1 and not val and k0 <= 0 or c == -1 and val and k0 >= 1:
                            st.facts[("truth", a.args[0])] = True
            if v.name == "==":
                a, b = v.args
                if isinstance(b, C) and isinstance(a, Op) and a.name == "len" and isinstance(b.v, int):
                    if b.v == 0:
                        st.facts[("truth", a.args[0])] = not val
                    elif val:
                        st.facts[("truth", a.args[0])] = True
            st.emit(Ev("assume", v.name, (v, C(val)), None, None, self.fnname()))
        elif isinstance(v, V):
            if val:
                st.facts[("none", v)] = False
            st.emit(Ev("assume", "truth", (v, C(val)), None, None, self.fnname()))

    # ------------------------------------------------------------ comparison
    def same(self, a, b, st):
        """Equality: True / False / None"""
        if a == b:
            return True
        if isinstance(a, Sym) and isinstance(b, Sym) and a.info.get("distinct") and a.info.get("distinct") == b.info.get("distinct"):
            return False
        if isinstance(a, Op) and isinstance(b, Op):
            pa, pb = const_path(a), const_path(b)
            if pa is not None and pb is not None:
                return pa == pb
            if a.name in PATHOPS and b.name in PATHOPS:
                r = self.ctx.same_path(a, b)
                if r is not None:
                    return r
        fa, fb = st.facts.get(("eq", a)), st.facts.get(("eq", b))
        if fa is not None:
            a = fa
        if fb is not None:
            b = fb
        if isinstance(a, C) and isinstance(b, C):
            try:
                return a.v == b.v
            except Exception:
                return None
        if isinstance(a, EnumM) and isinstance(b, EnumM):
            return a.cls == b.cls and a.name == b.name
        if isinstance(a, EnumM) or isinstance(b, EnumM):
            e, o = (a, b) if isinstance(a, EnumM) else (b, a)
            if isinstance(o, C):
                if any(isinstance(x, Ext) and x.name in ("str", "int") for x in e.cls.bases):
                    return self.same(e.value, o, st)
                return False
            return None
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            r = [self.same(x, y, st) for x, y in zip(a.items, b.items)]
            return False if False in r else (True if all(x is True for x in r) else None)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.heap.get(a.id), st.heap.get(b.id)
            if oa is not None and ob is not None and oa.kind == ob.kind == "obj" and isinstance(oa.cls, Cls) and not isinstance(oa.cls.lookup("__eq__"), Fn):
                return self.same_obj(oa, ob, st) if by_value(oa.cls) else False
            if oa is not None and ob is not None and oa.kind in ("list", "dict", "set") and ob.kind in ("list", "dict", "set"):
                if oa.kind != ob.kind:
                    return False
                if oa.kind == "list" and not oa.unord and not ob.unord and all(x[0] == "1" for x in oa.segs) and all(x[0] == "1" for x in ob.segs):
                    if len(oa.segs) != len(ob.segs):
                        return False
                    r = [self.same(x[1], y[1], st) for x, y in zip(oa.segs, ob.segs)]
                    return False if False in r else (True if all(x is True for x in r) else None)
                if oa.kind == "set" and not oa.opaque and not ob.opaque and all(x[0] == "1" and (isinstance(x[1], C) or isinstance(x[1], Tup) and all(isinstance(t, C) for t in x[1].items)) for x in oa.segs + ob.segs):
                    return {x[1] for x in oa.segs} == {x[1] for x in ob.segs}
                if oa.kind == "dict" and all(x[0] == "1" and isinstance(x[1], C) for x in oa.segs + ob.segs):
                    da, db = {x[1]: x[2] for x in oa.segs}, {x[1]: x[2] for x in ob.segs}
                    if len(da) == len(oa.segs) and len(db) == len(ob.segs):
                        if set(da) != set(db):
                            return False
                        r = [self.same(da[k], db[k], st) for k in da]
                        return False if False in r else (True if all(x is True for x in r) else None)
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(y, C) and y.v is None:
                n = self.is_none(x, st)
                if n is not None:
                    return n
                return None
            if isinstance(x, Sym) and isinstance(y, C):
                if x.info.get("vals") is not None and y.v not in x.info["vals"]:
                    return False
                if x.info.get("noteq") and y.v in x.info["noteq"]:
                    return False
                if x.ty == "str" and not isinstance(y.v, str):
                    return False
                if x.ty in ("int", "num", "float") and isinstance(y.v, str):
                    return False
                if x.ty == "str" and y.v == "" and x.truth:
                    return False
                if x.rng and isinstance(y.v, (int, float)):
                    lo, hi = x.rng
                    if lo is not None and y.v < lo or hi is not None and y.v > hi:
                        return False
        if is_strish(a) and is_strish(b):
            if self.str_differ(a, b):
                return False
            return None
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.heap.get(a.id), st.heap.get(b.id)
            if oa and ob and oa.kind in ("list", "dict") and oa.kind == ob.kind:
                if not oa.segs and not oa.opaque and any(s[0] == "1" for s in ob.segs):
                    return False
                if not ob.segs and not ob.opaque and any(s[0] == "1" for s in oa.segs):
                    return False
                if not oa.segs and not ob.segs and not oa.opaque and not ob.opaque:
                    return True
                return None
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(y, (C, EnumM)):
                return False
            if isinstance(x, Ref) and isinstance(y, Sym):
                o = st.heap.get(x.id)
                if o and o.kind in ("list", "dict", "set"):
                    if y.ty and y.ty not in (o.kind, "coll", "seq"):
                        return False
                    if not o.segs and not o.opaque:
                        t = self.truth(y, st)
                        if t is True:
                            return False
                        if t is False and y.ty == o.kind:
                            return True
        da, db = lin_of(a), lin_of(b)
        if da is not None and db is not None:
            d = self.lin_sub(da, db)
            if not d[1]:
                return d[0] == 0
            r = self.lin_range(d, st)
            if r is not None:
                lo, hi = r
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return False
        return None

    def str_differ(self, a, b):
        """Definitely different strings?"""
        pa = list(a.parts) if isinstance(a, Cat) else [a]
        pb = list(b.parts) if isinstance(b, Cat) else [b]
        pa, pb = strip_common(pa, pb)
        if not pa and not pb:
            return False
        for x, y in ((pa, pb), (pb, pa)):
            if not x:
                return any(nonempty(p) for p in y)
        if self._head_differ(pa, pb):
            return True
        if len(pa) == 1 and len(pb) == 1 and distinct_syms(pa[0], pb[0]):
            return True
        sa, sb = dot_segments(pa), dot_segments(pb)
        if sa and sb:
            if len(sa) != len(sb):
                return True
            if len(sa) > 1 and any(self.str_differ(cat(x), cat(y)) for x, y in zip(sa, sb) if x != y):
                return True
        pa2, pb2 = list(reversed(pa)), list(reversed(pb))
        if isinstance(pa2[0], C) and isinstance(pb2[0], C):
            x, y = pa2[0].v, pb2[0].v
            n = min(len(x), len(y))
            if n and x[-n:] != y[-n:]:
                return True
        # a const string containing no char that an atom needs (e.g. const without '.' vs parts with '.')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, C) and isinstance(y, Cat):
                for p in y.parts:
                    if isinstance(p, C) and p.v not in x.v:
                        return True
        # a symbol that excludes a char vs a string that surely contains it
        for x, y in ((pa, pb), (pb, pa)):
            if all(isinstance(p, Sym) and p.chars for p in x):
                ex = set.intersection(*[set(p.chars) for p in x])
                if any(isinstance(p, C) and any(c in p.v for c in ex) for p in y):
                    return True
        return False

    def _head_differ(self, pa, pb):
        x, y = pa[0], pb[0]
        if isinstance(x, C) and isinstance(y, C):
            n = min(len(x.v), len(y.v))
            return x.v[:n] != y.v[:n]
        for p, q in ((x, y), (y, x)):
            if isinstance(p, C) and isinstance(q, Sym) and q.truth and q.chars and p.v[:1] in q.chars:
                return True
        return False

    def is_none(self, v, st):
        if isinstance(v, C):
            return v.v is None
        k = st.facts.get(("none", v))
        if k is not None:
            return k
        if isinstance(v, Sym):
            return v.none
        if isinstance(v, Alt):
            r = {self.is_none(x, st) for x in v.vals}
            return r.pop() if len(r) == 1 else None
        if isinstance(v, (Ref, Tup, Cat, Lin, Fn, Cls, Bound, EnumM, Ext, ModV, Meth, Rep)):
            return False
        if isinstance(v, Op) and (v.ty or v.name in ("str", "len", "fqn", "not", "cmp", "encode")):
            return False
        if self.truth(v, st) is True:
            return False
        return None

    def lin_sub(self, a, b):
        c = a[0] - b[0]
        t = dict(a[1])
        for k, v in b[1].items():
            t[k] = t.get(k, 0) - v
        return c, {k: v for k, v in t.items() if v}

    def lin_range(self, d, st):
        lo = hi = d[0]
        for a, c in d[1].items():
            r = getattr(a, "rng", None) if isinstance(a, Sym) else None
            if isinstance(a, Op) and a.name == "len":
                r = (1 if self.truth(a.args[0], st) else 0, None)
            if r is None:
                r = (None, None)
            l, h = r
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def compare(self, op, a, b, st):
        """Returns V: TRUE/FALSE or Op"""
        r = self.ctx.decide(self, op, a, b, st)
        if r is not None:
            return C(r)
        if isinstance(a, Alt) and len(a.vals) <= 4 and not isinstance(b, Alt):
            rs = {self.compare(op, x, b, st) for x in a.vals}
            if len(rs) == 1:
                return rs.pop()
        if op in ("==", "!="):
            s = self.same(a, b, st)
            if s is None:
                x, y = sorted((a, b), key=lambda q: (isinstance(q, C), repr(q.key)))
                o = Op("==", (x, y), "bool")
                f = st.facts.get(("truth", o))
                if f is not None:
                    s = f
                elif op == "!=":
                    return Op("not", (o,), "bool")
                else:
                    return o
            return C(s if op == "==" else not s)
        if op in ("is", "is not", "==", "!=") and (isinstance(a, Cls) and isinstance(b, Ext) and b.name in BUILTIN_TYPES or isinstance(b, Cls) and isinstance(a, Ext) and a.name in BUILTIN_TYPES):
            return C(op in ("is not", "!="))
        if op in ("is", "is not", "==", "!=") and isinstance(a, Ext) and isinstance(b, Ext) and {a.name, b.name} <= BUILTIN_TYPES:
            return C((a.name == b.name) == (op in ("is", "==")))
        if op in ("is", "is not"):
            s = None
            if b == NONE or a == NONE:
                x = a if b == NONE else b
                s = self.is_none(x, st)
                if s is None:
                    o = Op("is", (x, NONE), "bool")
                    f = st.facts.get(("truth", o))
                    if f is None:
                        return o if op == "is" else Op("not", (o,), "bool")
                    s = f
            elif isinstance(a, C) and isinstance(b, C):
                s = a == b
            elif isinstance(a, C) and isinstance(b, Tup) and not isinstance(a.v, tuple) or isinstance(a, Tup) and isinstance(b, C) and not isinstance(b.v, tuple):
                s = False
            elif isinstance(a, (EnumM, Cls, Ref)) and isinstance(b, (EnumM, Cls, Ref, C)):
                s = a == b
            elif a == b:
                s = True
            elif isinstance(b, C) and isinstance(b.v, bool) and isinstance(a, Sym) and a.ty in ("str", "list"):
                s = False
            if s is None:
                o = Op("is", (a, b), "bool")
                return o if op == "is" else Op("not", (o,), "bool")
            return C(s if op == "is" else not s)
        if op in ("in", "not in"):
            s = self.contains(b, a, st)
            if s is None:
                o = Op("in", (a, b if not isinstance(b, Ref) else snapshot(b, st)), "bool")
                f = st.facts.get(("truth", o))
                if f is not None:
                    s = f
                else:
                    return o if op == "in" else Op("not", (o,), "bool")
            return C(s if op == "in" else not s)
        # ordering
        fa, fb = st.facts.get(("eq", a)), st.facts.get(("eq", b))
        if fa is not None:
            a = fa
        if fb is not None:
            b = fb
        la, lb = lin_of(a), lin_of(b)
        if isinstance(a, C) and isinstance(b, C):
            try:
                return C({"<": a.v < b.v, "<=": a.v <= b.v, ">": a.v > b.v, ">=": a.v >= b.v}[op])
            except TypeError:
                return Op("typeerror", (a, b))
        if la is not None and lb is not None:
            # normal form: a op b  <=>  d=(a-b) <=0 / <0
            neg = False
            if op in (">", ">="):
                la, lb = lb, la
                op = {">": "<", ">=": "<="}[op]
            d = self.lin_sub(la, lb)
            lo, hi = self.lin_range(d, st)
            if op == "<":
                if hi is not None and hi < 0:
                    return TRUE
                if lo is not None and lo >= 0:
                    return FALSE
                # integers: d<0 <=> d+1<=0 ; keep canonical via not(-d<=0)
                nd = (-d[0], {k: -v for k, v in d[1].items()})
                o = Op("le0", (mk_lin2(nd),), "bool")
                f = st.facts.get(("truth", o))
                if f is not None:
                    return C(not f)
                return Op("not", (o,), "bool")
            if hi is not None and hi <= 0:
                return TRUE
            if lo is not None and lo > 0:
                return FALSE
            o = Op("le0", (mk_lin2(d),), "bool")
            f = st.facts.get(("truth", o))
            if f is not None:
                return C(f)
            return o
        return Op(op, (a, b), "bool")

    def contains(self, coll, x, st):
        if isinstance(coll, C):
            if isinstance(coll.v, str) and isinstance(x, C) and isinstance(x.v, str):
                return x.v in coll.v
            return None
        if isinstance(coll, Cat) and isinstance(x, C) and isinstance(x.v, str):
            if any(isinstance(p, C) and x.v in p.v for p in coll.parts):
                return True
            if all((isinstance(p, C) or isinstance(p, Sym) and p.chars and len(x.v) == 1 and x.v in p.chars) for p in coll.parts):
                return False
            return None
        if isinstance(coll, Sym) and isinstance(x, C) and coll.ty == "str" and coll.chars and isinstance(x.v, str) and len(x.v) == 1 and x.v in coll.chars:
            return False
        segs = None
        if isinstance(coll, Tup):
            segs = [("1", v) for v in coll.items]
        elif isinstance(coll, Ref):
            o = st.heap.get(coll.id)
            if o is None or o.kind == "obj":
                return None
            segs = o.segs
            if o.opaque:
                return None
        elif isinstance(coll, (ListV, DictV)):
            segs = coll.segs
        elif isinstance(coll, Cls) and coll.is_enum:
            segs = [("1", v) for v in coll.attrs.values() if isinstance(v, EnumM)]
        if segs is None:
            return None
        unk = False
        for s in segs:
            if s[0] == "1":
                r = self.same(s[1], x, st)
                if r is True:
                    return True
                if r is None:
                    unk = True
            else:
                unk = True
        return None if unk else False

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.note(f"expr {type(e).__name__} {self.loc(e)}")
            return [(Op("expr:" + type(e).__name__, (C(ast.dump(e)[:80]),)), st)]
        return m(e, st)

    def evs(self, es, st):
        """Evaluate expressions left to right -> list of (list|Exc, State)"""
        acc = [([], st)]
        for e in es:
            nxt = []
            for vals, s in acc:
                if isinstance(vals, Exc):
                    nxt.append((vals, s))
                    continue
                if isinstance(e, ast.Starred):
                    for v, s2 in self.ev(e.value, s):
                        if isinstance(v, Exc):
                            nxt.append((v, s2))
                        else:
                            segs, _ = self.iter_segs(v, s2)
                            if segs is not None and all(x[0] == "1" for x in segs):
                                nxt.append((vals + [x[1] for x in segs], s2))
                            else:
                                nxt.append((vals + [Op("starred", (v,))], s2))
                    continue
                for v, s2 in self.ev(e, s):
                    nxt.append((v if isinstance(v, Exc) else vals + [v], s2))
            acc = nxt
        return acc

    def bind(self, rs, f):
        out = []
        for v, s in rs:
            if isinstance(v, Exc):
                out.append((v, s))
            else:
                out.extend(f(v, s))
        return out

    def ev_Constant(self, e, st):
        if e.value is Ellipsis:
            return [(Op("ellipsis"), st)]
        return [(C(e.value), st)]

    def ev_Name(self, e, st):
        v = self.lookup(e.id, st)
        if v is None:
            return self.raise_(st, "NameError", e, C(e.id))
        return [(v, st)]

    def ev_NamedExpr(self, e, st):
        def f(v, s):
            self.assign_name(e.target.id, v, s)
            return [(v, s)]
        return self.bind(self.ev(e.value, st), f)

    def ev_Tuple(self, e, st):
        return [(v if isinstance(v, Exc) else Tup(v), s) for v, s in self.evs(e.elts, st)]

    def seqlit(self, e, st, kind):
        out = []
        acc = [((), False, st)]
        res = []
        cur = [([], st)]
        for el in e.elts:
            nxt = []
            for segs, s in cur:
                if isinstance(segs, Exc):
                    nxt.append((segs, s)); continue
                if isinstance(el, ast.Starred):
                    for v, s2 in self.ev(el.value, s):
                        if isinstance(v, Exc):
                            nxt.append((v, s2)); continue
                        sg, un = self.iter_segs(v, s2)
                        if sg is None:
                            sg = [("*", frozenset([(("1", Op("elem", (v,))),)]), v, False)]
                        nxt.append((segs + list(sg), s2))
                else:
                    for v, s2 in self.ev(el, s):
                        nxt.append((v if isinstance(v, Exc) else segs + [("1", v)], s2))
            cur = nxt
        for segs, s in cur:
            if isinstance(segs, Exc):
                out.append((segs, s))
            else:
                out.append((self.new_list(s, e, segs, kind, unord=(kind == "set")), s))
        return out

    def ev_List(self, e, st):
        return self.seqlit(e, st, "list")

    def ev_Set(self, e, st):
        return self.seqlit(e, st, "set")

    def ev_Dict(self, e, st):
        cur = [([], st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for segs, s in cur:
                if isinstance(segs, Exc):
                    nxt.append((segs, s)); continue
                if k is None:
                    for d, s2 in self.ev(v, s):
                        if isinstance(d, Exc):
                            nxt.append((d, s2)); continue
                        o = s2.heap.get(d.id) if isinstance(d, Ref) else None
                        if o is not None and o.kind == "dict" and not o.opaque:
                            nxt.append((segs + list(o.segs), s2))
                        else:
                            nxt.append((segs + [("**", d)], s2))
                    continue
                for kv, s2 in self.evs([k, v], s):
                    nxt.append((kv if isinstance(kv, Exc) else segs + [("1", kv[0], kv[1])], s2))
            cur = nxt
        out = []
        for segs, s in cur:
            if isinstance(segs, Exc):
                out.append((segs, s)); continue
            r = self.alloc(s, e, "dict")
            fin = []
            for x in segs:
                if x[0] == "1":
                    fin = [y for y in fin if not (y[0] == "1" and y[1] == x[1])] + [x] if any(y[0] == "1" and y[1] == x[1] for y in fin) else fin + [x]
                else:
                    fin.append(x)
            s.heap[r.id] = s.heap[r.id].but(segs=tuple(fin))
            out.append((r, s))
        return out

    def ev_JoinedStr(self, e, st):
        cur = [([], st)]
        for p in e.values:
            nxt = []
            for parts, s in cur:
                if isinstance(parts, Exc):
                    nxt.append((parts, s)); continue
                if isinstance(p, ast.Constant):
                    nxt.append((parts + [C(p.value)], s))
                else:
                    def f(v, s2):
                        spec = None
                        if p.format_spec is not None:
                            rs = self.ev(p.format_spec, s2)
                            out = []
                            for sv, s3 in rs:
                                out.append((self.format_value(v, sv, p.conversion, s3), s3))
                            return out
                        m = self.user_method(v, "__str__", s2) if p.conversion in (-1, 115) else None
                        if m is not None:
                            return self.call(Bound(v, m), [], {}, s2, e)
                        return [(self.format_value(v, None, p.conversion, s2), s2)]
                    for v, s2 in self.bind(self.ev(p.value, s), f):
                        nxt.append((v if isinstance(v, Exc) else parts + [v], s2))
            cur = nxt
        return [(v if isinstance(v, Exc) else cat(v), s) for v, s in cur]

    def format_value(self, v, spec, conv, st):
        if conv == 114:
            v = C(repr(v.v)) if isinstance(v, C) else Op("repr", (v,), "str")
        if spec is not None and spec != EMPTY:
            if isinstance(v, C) and isinstance(spec, C):
                try:
                    return C(format(v.v, spec.v))
                except Exception:
                    pass
            return Op("format", (v, spec), "str")
        return self.tostr(v, st)

    def tostr(self, v, st):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is not None and o.kind in ("list", "dict", "set"):
                return str_of(snapshot(v, st))
        if isinstance(v, Alt) and all(isinstance(x, C) or is_strish(x) for x in v.vals):
            return join_vals([to_str(x) for x in v.vals])
        if isinstance(v, Tup):
            return str_of(snapshot(v, st))
        if isinstance(v, Op) and v.name in ("Path", "pathjoin", "uuid"):
            r = str_of(v)
            if isinstance(r, C):
                return r
        return to_str(v)

    def ev_FormattedValue(self, e, st):
        return self.ev_JoinedStr(ast.JoinedStr(values=[e], lineno=e.lineno, col_offset=e.col_offset), st)

    def ev_Lambda(self, e, st):
        f = self.frames[-1]
        d = [None] * 0
        fn = Fn(e, f.mod, f.scope, (f.fn.name + ".<lambda>" if f.fn else "<lambda>"),
                defaults=tuple(), deco=())
        if e.args.defaults or e.args.kw_defaults:
            out = []
            for vals, s in self.evs(e.args.defaults, st):
                if isinstance(vals, Exc):
                    out.append((vals, s))
                else:
                    out.append((Fn(e, f.mod, f.scope, fn.name, defaults=tuple(vals)), s))
            return out
        return [(fn, st)]

    def ev_IfExp(self, e, st):
        out = []
        for b, s in self.cond(e.test, st):
            if isinstance(b, Exc):
                out.append((b, s))
            else:
                out.extend(self.ev(e.body if b else e.orelse, s))
        return out

    def cond(self, e, st):
        """Evaluate as condition: list of (bool|Exc, State)"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [(isand, st)]
            for sub in e.values:
                nxt = []
                for b, s in cur:
                    if isinstance(b, Exc) or b != isand:
                        nxt.append((b, s))
                    else:
                        nxt.extend(self.cond(sub, s))
                cur = nxt
            return cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(b if isinstance(b, Exc) else not b, s) for b, s in self.cond(e.operand, st)]
        out = []
        for v, s in self.ev(e, st):
            if isinstance(v, Exc):
                out.append((v, s))
            else:
                out.extend(self.fork(v, s, e))
        return out

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out = []
        cur = self.ev(e.values[0], st)
        for sub in e.values[1:]:
            nxt = []
            for v, s in cur:
                if isinstance(v, Exc):
                    out.append((v, s)); continue
                for b, s2 in self.fork(v, s, e):
                    if b == isand:
                        nxt.extend(self.ev(sub, s2))
                    else:
                        out.append((v, s2))
            cur = nxt
        return out + cur

    def ev_UnaryOp(self, e, st):
        def f(v, s):
            if isinstance(e.op, ast.Not):
                t = self.truth(v, s)
                return [(C(not t) if t is not None else (v.args[0] if isinstance(v, Op) and v.name == "not" and v.args[0].ty == "bool" else Op("not", (v,), "bool")), s)]
            if isinstance(v, C):
                try:
                    return [(C({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v.v)), s)]
                except Exception:
                    return self.raise_(s, "TypeError", e)
            l = lin_of(v)
            if isinstance(e.op, ast.USub) and l is not None:
                return [(mk_lin(-l[0], {k: -c for k, c in l[1].items()}), s)]
            return [(Op(type(e.op).__name__, (v,), "int"), s)]
        return self.bind(self.ev(e.operand, st), f)

    def ev_Compare(self, e, st):
        ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
               ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
        def step(i, left, s):
            out = []
            for r, s2 in self.ev(e.comparators[i], s):
                if isinstance(r, Exc):
                    out.append((r, s2)); continue
                for v, s3 in self.compare_ev(ops[type(e.ops[i])], left, r, s2, e):
                    if isinstance(v, Exc) or i == len(e.ops) - 1:
                        out.append((v, s3)); continue
                    for b, s4 in self.fork(v, s3, e):
                        if b:
                            out.extend(step(i + 1, r, s4))
                        else:
                            out.append((FALSE, s4))
            return out
        return self.bind(self.ev(e.left, st), lambda l, s: step(0, l, s))

    def same_obj(self, a, b, st):
        """equality of objects whose classes compare by value"""
        if b is None or b.kind != "obj" or b.cls != a.cls:
            return False
        if set(a.attrs) != set(b.attrs):
            return None
        rs = [self.same(a.attrs[k], b.attrs[k], st) for k in a.attrs]
        return False if False in rs else True if all(x is True for x in rs) else None

    def user_method(self, v, name, st):
        """the method of the class of an object, if the analysed sources define it"""
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        m = o.cls.lookup(name) if o is not None and o.kind == "obj" and isinstance(o.cls, Cls) else None
        return m if isinstance(m, Fn) else None

    def compare_ev(self, op, a, b, st, node):
        if op in ("in", "not in"):
            m = self.user_method(b, "__contains__", st)
            if m is not None:
                rs = self.call(Bound(b, m), [a], {}, st, node)
                return [(v if isinstance(v, Exc) or op == "in" else C(not v.v) if isinstance(v, C) else Op("not", (v,), "bool"), s) for v, s in rs]
        # user-defined __eq__ on repo objects
        if op in ("==", "!=") and isinstance(a, Ref):
            o = st.heap.get(a.id)
            if o is not None and o.kind == "obj" and isinstance(o.cls, Cls):
                m = o.cls.lookup("__eq__")
                if isinstance(m, Fn):
                    rs = self.call(Bound(a, m), [b], {}, st, node)
                    if op == "!=":
                        rs = [(v if isinstance(v, Exc) else (C(not v.v) if isinstance(v, C) else Op("not", (v,), "bool")), s) for v, s in rs]
                    return rs
                if not isinstance(b, (Op, Sym, Alt)):
                    r = (a == b) or by_value(o.cls) and self.same_obj(o, st.heap.get(b.id) if isinstance(b, Ref) else None, st)
                    if r is not None:
                        return [(C(r == (op == "==")), st)]
        v = self.compare(op, a, b, st)
        if isinstance(v, Op) and v.name == "typeerror":
            return self.raise_(st, "TypeError", node, a, b)
        if op in ("in", "not in") and (b == NONE or isinstance(b, C) and isinstance(b.v, (int, float))):
            return self.raise_(st, "TypeError", node, a, b)
        if op in ("in", "not in"):
            self.emit(st, "in", op, (a, b), node=node)
        return [(v, st)]

    def ev_BinOp(self, e, st):
        return self.bind(self.evs([e.left, e.right], st),
                         lambda v, s: self.binop(type(e.op), v[0], v[1], s, e))

    def binop(self, op, a, b, st, node):
        if isinstance(a, Alt) and len(a.vals) <= 4:
            return self.alt_map(a, st, lambda x, s: self.binop(op, x, b, s, node))
        if isinstance(b, Alt) and len(b.vals) <= 4:
            return self.alt_map(b, st, lambda x, s: self.binop(op, a, x, s, node))
        if isinstance(a, C) and isinstance(b, C):
            try:
                f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                     ast.Div: lambda x, y: x / y, ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y,
                     ast.Pow: lambda x, y: x ** y if not (isinstance(y, int) and y > 4096) else None, ast.LShift: lambda x, y: x << y,
                     ast.RShift: lambda x, y: x >> y, ast.BitOr: lambda x, y: x | y, ast.BitAnd: lambda x, y: x & y,
                     ast.BitXor: lambda x, y: x ^ y}[op]
                return [(C(f(a.v, b.v)), st)]
            except (TypeError, ValueError, ZeroDivisionError) as ex:
                return self.raise_(st, type(ex).__name__, node, a, b)
        if op is ast.Add:
            if is_strish(a) or is_strish(b) or (isinstance(a, C) and isinstance(a.v, str)) or (isinstance(b, C) and isinstance(b.v, str)):
                for x in (a, b):
                    if isinstance(x, C) and not isinstance(x.v, str) or isinstance(x, (Ref, Tup)) or isinstance(x, Sym) and x.ty in ("int", "float", "bool", "num", "list"):
                        return self.raise_(st, "TypeError", node, a, b)
                return [(cat([a, b]), st)]
            if isinstance(a, (Tup,)) and isinstance(b, Tup):
                return [(Tup(a.items + b.items), st)]
            sa, _ = self.iter_segs(a, st) if isinstance(a, (Ref, Tup)) or isinstance(a, Sym) and a.ty == "list" else (None, 0)
            sb, _ = self.iter_segs(b, st) if isinstance(b, (Ref, Tup)) or isinstance(b, Sym) and b.ty == "list" else (None, 0)
            if sa is not None and sb is not None:
                return [(self.new_list(st, node, tuple(sa) + tuple(sb)), st)]
            if (isinstance(a, Ref) or isinstance(b, Ref)) and not isinstance(a, C) and not isinstance(b, C):
                sg = []
                for x, y in ((a, sa), (b, sb)):
                    sg += list(y) if y is not None else [("*", frozenset([(("1", Op("elem", (x,))),)]), x, False)]
                return [(self.new_list(st, node, sg), st)]
        if op is ast.Mod and isinstance(a, C) and isinstance(a.v, str):
            r = self.percent(a.v, b, st)
            if r is not None:
                return [(r, st)]
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and isinstance(y, C) and isinstance(y.v, int):
                    segs, _ = self.iter_segs(x, st)
                    if segs is not None and y.v < 50:
                        return [(self.new_list(st, node, tuple(segs) * y.v), st)]
        if op is ast.BitOr:
            # union of sets / dict merge / types
            if isinstance(a, (Ext, Cls)) or isinstance(b, (Ext, Cls)) or a == NONE or b == NONE or (isinstance(a, Op) and a.name in ("typeor", "subscript")):
                return [(Op("typeor", (a, b)), st)]
            oa = st.heap.get(a.id) if isinstance(a, Ref) else None
            ob = st.heap.get(b.id) if isinstance(b, Ref) else None
            if oa and ob and oa.kind == ob.kind == "set":
                import models
                return [(self.new_list(st, node, tuple(models.uniq_segs(oa.segs + ob.segs)), "set", unord=True), st)]
            if oa and ob and oa.kind == ob.kind == "dict":
                r = self.alloc(st, node, "dict")
                st.heap[r.id] = st.heap[r.id].but(segs=merge_dict(oa.segs, ob.segs))
                return [(r, st)]
            if (oa and oa.kind == "set") or (ob and ob.kind == "set"):
                return [(Op("setop", (Op("|"), self.sn(a, st), self.sn(b, st)), "set"), st)]
        if op in (ast.Sub, ast.BitAnd, ast.BitXor):
            ka = self.kindof(a, st)
            if ka == "set" or isinstance(a, Op) and a.ty in ("set", "keys"):
                return self.set_op({ast.Sub: "-", ast.BitAnd: "&", ast.BitXor: "^"}[op], a, b, st, node)
        la, lb = lin_of(a), lin_of(b)
        if la is not None and lb is not None:
            if op is ast.Add:
                t = dict(la[1])
                for k, v in lb[1].items():
                    t[k] = t.get(k, 0) + v
                return [(mk_lin(la[0] + lb[0], t), st)]
            if op is ast.Sub:
                d = self.lin_sub(la, lb)
                return [(mk_lin(*d), st)]
            if op is ast.Mult and (not la[1] or not lb[1]):
                k, l = (la[0], lb) if not la[1] else (lb[0], la)
                return [(mk_lin(l[0] * k, {x: c * k for x, c in l[1].items()}), st)]
        sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
               ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}[op]
        for x in (a, b):
            if isinstance(x, C) and x.v is None or isinstance(x, Ref) and sym in ("-", "*", "/", "//", "**"):
                return self.raise_(st, "TypeError", node, a, b)
        if sym == "/" and (self.is_path(a) or self.is_path(b)):
            return [(Op("pathjoin", (a, b), "path"), st)]
        if sym in ("&", "|", "^", "+", "*") and not is_strish(a) and not is_strish(b):
            if isinstance(a, C):
                a, b = b, a     # commutative normal form: constant last
        ty = "int" if sym not in ("/",) else "float"
        if sym == "+" and not (self.numlike(a) or self.numlike(b)):
            ty = None
        return [(Op(sym, (self.sn(a, st), self.sn(b, st)), ty), st)]

    def numlike(self, v):
        return isinstance(v, Lin) or isinstance(v, C) and isinstance(v.v, (int, float)) or getattr(v, "ty", None) in ("int", "num", "float")

    def is_path(self, v):
        return getattr(v, "ty", None) == "path"

    def sn(self, v, st):
        return snapshot(v, st)

    def kindof(self, v, st):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            return o.kind if o else None
        if isinstance(v, ListV):
            return v.kind
        if isinstance(v, DictV):
            return "dict"
        return getattr(v, "ty", None)

    def alt_map(self, a, st, f):
        vals, exc = [], []
        s0 = st
        out = []
        for x in sorted(a.vals, key=repr):
            for v, s in f(x, s0.clone()):
                out.append((v, s))
        oks = [(v, s) for v, s in out if not isinstance(v, Exc)]
        excs = [(v, s) for v, s in out if isinstance(v, Exc)]
        if oks:
            # keep one state, join values if none of the states changed structurally
            base = oks[0][1]
            if all(len(s.heap) == len(base.heap) and s.trace is base.trace for _, s in oks):
                return [(join_vals([v for v, _ in oks]), base)]
        return oks   # exceptions of single alternatives are not definite

    def percent(self, fmt, b, st):
        import re as _re
        items = list(b.items) if isinstance(b, Tup) else [b]
        parts, i = [], 0
        pos = 0
        for m in _re.finditer(r"%([-+ #0]*\d*(?:\.\d+)?)([sdixXrfc%])", fmt):
            parts.append(C(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(2) == "%":
                parts.append(C("%"))
                continue
            if i >= len(items):
                return None
            x = items[i]
            i += 1
            if m.group(1) == "" and m.group(2) == "s":
                parts.append(self.tostr(x, st))
            elif isinstance(x, C):
                try:
                    parts.append(C(m.group(0) % x.v))
                except Exception:
                    return None
            elif m.group(1) == "" and m.group(2) in "di":
                parts.append(self.tostr(x, st))
            else:
                parts.append(Op("format", (self.sn(x, st), C(m.group(1) + m.group(2))), "str"))
        parts.append(C(fmt[pos:]))
        return cat(parts)

    def set_op(self, op, a, b, st, node):
        sa, _ = self.iter_segs(a, st)
        sb, _ = self.iter_segs(b, st)
        if sa is not None and sb is not None and all(x[0] == "1" for x in sa) and all(x[0] == "1" for x in sb):
            res, ok = [], True
            for x in sa:
                rs = [self.same(x[1], y[1], st) for y in sb]
                isin = True if True in rs else (None if None in rs else False)
                if isin is None:
                    ok = False
                    break
                if (op == "-" and not isin) or (op == "&" and isin):
                    res.append(x)
            if ok and op in "-&":
                return [(self.new_list(st, node, res, "set", unord=True), st)]
        return [(Op("setop", (C(op), self.sn(a, st), self.sn(b, st)), "set"), st)]

    # ------------------------------------------------------------ attributes
    def ev_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda v, s: self.getattr(v, e.attr, s, e))

    def getattr(self, v, name, st, node, default=None):
        """default: V used when the attribute is definitely missing"""
        def missing():
            if default is not None:
                return [(default, st)]
            return self.raise_(st, "AttributeError", node, v, C(name))
        if isinstance(v, Alt):
            out = []
            for x in sorted(v.vals, key=repr):
                out.extend(self.getattr(x, name, st.clone(), node, default))
            ok = [(a, s) for a, s in out if not isinstance(a, Exc)]
            if ok:
                if all(s.trace is ok[0][1].trace for _, s in ok):
                    return [(join_vals([a for a, _ in ok]), ok[0][1])]
                return ok
            return out[:1]
        if isinstance(v, NTup):
            fs = v.fields()
            if name in fs:
                return [(v.items[fs.index(name)], st)]
            a = v.cls.lookup(name)
            if isinstance(a, Fn):
                if any(d == Ext("staticmethod") for d in a.deco):
                    return [(a, st)]
                if any(isinstance(d, Ext) and d.name in ("property", "functools.cached_property") for d in a.deco):
                    return self.call_fn(a, v, [], {}, st, node)
                return [(Bound(v.cls if any(d == Ext("classmethod") for d in a.deco) else v, a), st)]
            if a is not None:
                return [(a, st)]
            if name == "_fields":
                return [(Tup([C(n) for n in fs]), st)]
            return [(Meth(v, name), st)] if name in ("_replace", "_asdict", "index", "count") else missing()
        if isinstance(v, ModV):
            sc = st.heap.get(("mod", v.mod))
            if sc is not None and name in sc.attrs:
                return [(sc.attrs[name], st)]
            sub = f"{v.mod}.{name}"
            if sub in self.w.modules:
                self.w.ensure(sub, self, st)
                return [(ModV(sub), st)]
            return missing() if sc is not None else [(Ext(sub), st)]
        if isinstance(v, Ext):
            if v.name in EXC_PARENT and name not in ("__name__",):
                return [(Meth(v, name), st)]
            if v.name == "keyword" and name in ("kwlist", "softkwlist"):
                return [(Tup([C(x) for x in getattr(__import__("keyword"), name)]), st)]
            return [(Ext(v.name + "." + name), st)]
        if isinstance(v, Cls):
            a = v.lookup(name)
            if a is not None:
                if isinstance(a, Fn):
                    if any(d == Ext("classmethod") for d in a.deco):
                        return [(Bound(v, a), st)]
                    return [(a, st)]
                return [(a, st)]
            if name == "__name__":
                return [(C(v.name), st)]
            if name == "model_fields":
                return [(self.model_fields(v, st, node), st)]
            if v.is_enum and name == "__members__":
                r = self.alloc(st, node, "dict", tag="members")
                st.heap[r.id] = st.heap[r.id].but(segs=tuple(("1", C(k), m) for k, m in v.attrs.items() if isinstance(m, EnumM)))
                return [(r, st)]
            if any(isinstance(b, Ext) for b in v.mro()):
                return [(Meth(v, name), st)]
            return missing()
        if isinstance(v, EnumM):
            if name == "value":
                return [(v.value, st)]
            if name == "name":
                return [(C(v.name), st)]
            a = v.cls.lookup(name)
            if isinstance(a, Fn):
                return self.bind_attr(v, v.cls, a, st, node)
            init = v.cls.lookup("__init__")
            if isinstance(init, Fn) and not name.startswith("__") and a is None:
                r = self.alloc(st, node, "obj", tag=f"enum{v.cls.name}.{v.name}")
                st.heap[r.id] = st.heap[r.id].but(cls=v.cls, attrs={"value": v.value, "_value_": v.value, "name": C(v.name)})
                args = list(v.value.items) if isinstance(v.value, Tup) else [v.value]
                return self.bind(self.call(Bound(r, init), args, {}, st, node), lambda _, s: self.getattr(r, name, s, node, default))
            return [(Meth(v, name), st)]
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is not None and o.kind == "obj":
                if name in o.attrs:
                    return [(o.attrs[name], st)]
                if isinstance(o.cls, Cls):
                    r = self.ctx.sym_attr(self, v, name, st)
                    if r is not None:
                        return [(r, st)]
                    a = o.cls.lookup(name)
                    if a is not None:
                        return self.bind_attr(v, o.cls, a, st, node)
                    if name == "__class__":
                        return [(o.cls, st)]
                    if name in ("__setattr__", "__getattribute__"):
                        return [(Meth(v, name), st)]
                    if self.w.full:
                        import pyd
                        if pyd.is_model(o.cls):
                            if name == "model_fields":
                                return [(self.model_fields(o.cls, st, node), st)]
                            if name in ("model_extra", "__pydantic_extra__"):
                                r = self.alloc(st, node, "dict", tag="mextra")
                                fs = pyd.fields(o.cls)
                                st.heap[r.id] = st.heap[r.id].but(segs=tuple(("1", C(k), x) for k, x in o.attrs.items() if k not in fs))
                                return [(r, st)]
                            if name in ("model_dump", "dict", "model_copy", "copy", "model_fields_set", "model_dump_json"):
                                return [(Meth(v, name), st)]
                            return missing()
                    if any(isinstance(b, Ext) and b.name not in ("object", "abc.ABC") for b in o.cls.mro()):
                        if default is not None:
                            return [(Op("attr", (v, C(name))), st)]
                        return [(Meth(v, name), st)]
                    return missing()
            return [(Meth(v, name), st)]
        if isinstance(v, Sym):
            k = (v.path, name)
            if k in st.sattr:
                return [(st.sattr[k], st)]
            r = self.ctx.sym_attr(self, v, name, st)
            if r is not None:
                if r == "missing":
                    return missing()
                if r == "unknown":
                    return [(Op("attr", (v, C(name))), st)]
                return [(r, st)]
            if isinstance(v.cls, Cls):
                a = v.cls.lookup(name)
                if a is not None:
                    return self.bind_attr(v, v.cls, a, st, node)
                if name == "__class__":
                    return [(v.cls, st)]
                if self.ext_attr_missing(v.cls, name):
                    return missing()
            if v.none is True:
                return missing()
            if default is not None and v.ty not in ("path",):
                return [(Op("attr", (v, C(name), default)), st)]
            return [(Meth(v, name), st)]
        if isinstance(v, C):
            if v.v is None:
                return missing()
            if not hasattr(type(v.v), name):
                return missing()
            return [(Meth(v, name), st)]
        if isinstance(v, Fn):
            if name in ("__name__",):
                return [(C(v.name), st)]
            return [(Meth(v, name), st)]
        if isinstance(v, Op) and v.name in ("call",) and default is None and v.args and isinstance(v.args[0], Ext):
            return [(Meth(v, name), st)]
        if isinstance(v, (Cat, Tup, Rep, Lin, Bound, Meth)):
            return [(Meth(v, name), st)]
        if isinstance(v, Op):
            k = (v, name)
            if k in st.sattr:
                return [(st.sattr[k], st)]
            r = const_attr(v, name)
            if r is not None:
                return [(r, st)]
            r = self.ctx.sym_attr(self, v, name, st)
            if r is not None and r not in ("missing", "unknown"):
                return [(r, st)]
            if default is not None:
                return [(Op("attr", (v, C(name), default)), st)]
            return [(Meth(v, name), st)]
        return [(Op("attr", (v, C(name))), st)]

    def ext_attr_missing(self, cls, name):
        return False

    def bind_attr(self, self_, cls, a, st, node):
        if isinstance(a, Fn):
            if any(d == Ext("staticmethod") for d in a.deco):
                return [(a, st)]
            if any(d == Ext("classmethod") for d in a.deco):
                return [(Bound(cls, a), st)]
            if any(isinstance(d, Ext) and d.name in ("property", "functools.cached_property") for d in a.deco):
                return self.call(Bound(self_, a), [], {}, st, node)
            return [(Bound(self_, a), st)]
        return [(a, st)]

    def model_fields(self, cls, st, node):
        names = []
        for c in reversed([c for c in cls.mro() if isinstance(c, Cls)]):
            for k in c.annots:
                if k not in names and k != "model_config":
                    names.append(k)
        r = self.alloc(st, node, "dict", tag="mf" + cls.name)
        st.heap[r.id] = st.heap[r.id].but(segs=tuple(("1", C(k), Op("field", (C(k),))) for k in names))
        return r

    # ------------------------------------------------------------ subscripts
    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            es = [e.value] + [x if x is not None else ast.Constant(value=None, lineno=e.lineno, col_offset=e.col_offset)
                              for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return self.bind(self.evs(es, st), lambda v, s: self.slice(v[0], v[1], v[2], v[3], s, e))
        return self.bind(self.evs([e.value, e.slice], st), lambda v, s: self.getitem(v[0], v[1], s, e))

    def slice(self, v, a, b, c, st, node):
        if isinstance(v, C) and all(isinstance(x, C) for x in (a, b, c)):
            try:
                return [(C(v.v[slice(a.v, b.v, c.v)]), st)]
            except TypeError:
                return self.raise_(st, "TypeError", node)
        if all(isinstance(x, C) for x in (a, b, c)):
            sl = slice(a.v, b.v, c.v)
            if isinstance(v, Tup):
                return [(Tup(v.items[sl]), st)]
            if isinstance(v, Ref):
                o = st.heap.get(v.id)
                if o is not None and o.kind == "list" and all(s[0] == "1" for s in o.segs) and not o.opaque:
                    return [(self.new_list(st, node, o.segs[sl], tag="slice"), st)]
                if o is not None and o.kind == "list" and a.v is None and b.v is None and c.v is None:
                    return [(self.new_list(st, node, o.segs, tag="slice", unord=o.unord, opaque=o.opaque), st)]
            if isinstance(v, Cat) and c.v is None:
                parts = list(v.parts)
                lo, hi = a.v or 0, b.v
                if hi is not None and hi < 0 and isinstance(parts[-1], C) and len(parts[-1].v) >= -hi and lo == 0:
                    parts[-1] = C(parts[-1].v[:hi])
                    return [(cat(parts), st)]
                if hi is None and lo > 0 and isinstance(parts[0], C) and len(parts[0].v) >= lo:
                    parts[0] = C(parts[0].v[lo:])
                    return [(cat(parts), st)]
        ty = "str" if is_strish(v) else ("list" if self.kindof(v, st) == "list" else None)
        # s[len(p):] when s starts with p
        if is_strish(v) and b == NONE and c == NONE and isinstance(a, Op) and a.name == "len" and is_strish(a.args[0]):
            pa = list(v.parts) if isinstance(v, Cat) else [v]
            pb = list(a.args[0].parts) if isinstance(a.args[0], Cat) else [a.args[0]]
            ra, rb = strip_common(pa, pb)
            if not rb:
                return [(cat(ra), st)]
        return [(Op("slice", (self.sn(v, st), a, b, c), ty), st)]

    def getitem(self, v, k, st, node):
        if isinstance(v, Alt):
            return self.alt_map(v, st, lambda x, s: self.getitem(x, k, s, node))
        if isinstance(v, (Ext, Cls)) and not (isinstance(v, Cls) and v.is_enum):
            return [(Op("subscript", (v, k)), st)]
        if isinstance(v, Op) and v.name == "subscript":
            return [(Op("subscript", (v, k)), st)]
        if isinstance(v, Op) and v.name == "rematch":
            import models
            r = models.match_meth(self, v, "__getitem__", [k], {}, st, node)
            if r is not None:
                return r
        if isinstance(v, C):
            if isinstance(k, C):
                try:
                    return [(C(v.v[k.v]), st)]
                except IndexError:
                    return self.raise_(st, "IndexError", node, v, k)
                except TypeError:
                    return self.raise_(st, "TypeError", node, v, k)
            return [(Op("item", (v, k)), st)]
        if isinstance(v, Tup):
            if isinstance(k, C) and isinstance(k.v, int):
                try:
                    return [(v.items[k.v], st)]
                except IndexError:
                    return self.raise_(st, "IndexError", node, v, k)
            return [(Op("item", (v, k)), st)]
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is None:
                return [(Op("item", (v, k)), st)]
            if o.kind == "list":
                if isinstance(k, C) and isinstance(k.v, int):
                    segs = o.segs
                    i = k.v
                    if i < 0:
                        segs = tuple(reversed(segs))
                        i = -i - 1
                    for j, s in enumerate(segs):
                        if s[0] != "1":
                            break
                        if j == i:
                            return [(s[1], st)]
                    else:
                        if not o.opaque:
                            return self.raise_(st, "IndexError", node, v, k)
                    vals = star_elems(segs)
                    if vals and not o.opaque and len(vals) <= 4:
                        if len(vals) == 1:
                            return [(vals[0], st)]
                        return [(join_vals(vals), st)]
                return [(Op("item", (self.sn(v, st), self.sn(k, st))), st)]
            if o.kind == "dict":
                return self.dict_get(v, o, k, st, node, None)
            if o.kind == "obj" and isinstance(o.cls, Cls):
                m = o.cls.lookup("__getitem__")
                if isinstance(m, Fn):
                    return self.call(Bound(v, m), [k], {}, st, node)
            return [(Op("item", (self.sn(v, st), self.sn(k, st))), st)]
        if isinstance(v, (Sym, Op)):
            r = self.ctx.sym_item(self, v, k, st)
            if r is not None:
                return r if isinstance(r, list) else [(r, st)]
            if isinstance(v, Sym) and v.ty in ("node", "int", "bool", "float") or v == NONE:
                return self.raise_(st, "TypeError", node, v, k)
            if (v, ("item", k)) in st.sattr:
                return [(st.sattr[(v, ("item", k))], st)]
        if isinstance(v, Cls) and v.is_enum and isinstance(k, C):
            m = v.attrs.get(k.v)
            if m is not None:
                return [(m, st)]
            return self.raise_(st, "KeyError", node, k)
        if isinstance(v, Cat) and isinstance(k, C) and isinstance(k.v, int):
            p = v.parts[0] if k.v >= 0 else v.parts[-1]
            if isinstance(p, C):
                try:
                    return [(C(p.v[k.v]), st)]
                except IndexError:
                    pass
        if isinstance(v, (DictV,)):
            for s in reversed(v.segs):
                if s[0] == "1" and s[1] == k:
                    return [(s[2], st)]
        return [(Op("item", (self.sn(v, st), self.sn(k, st)), "str" if is_strish(v) else None), st)]

    def dict_get(self, ref, o, k, st, node, default):
        """default None -> KeyError when definitely absent"""
        cands, unk = [], bool(o.opaque)
        for s in reversed(o.segs):
            if s[0] == "1":
                r = self.same(s[1], k, st)
                if r is True:
                    if not cands:
                        return [(s[2], st)]
                    cands.append(s[2])
                    unk = False
                    break
                if r is None:
                    cands.append(s[2])
            elif s[0] == "**":
                unk = True
                cands.append(Op("item", (self.sn(s[1], st), k)))
            else:
                for a in s[1]:
                    for t in a:
                        if t[0] == "1" and self.same(t[1], k, st) is not False:
                            cands.append(t[2])
                unk = True
        else:
            if not cands and not unk:
                if default is not None:
                    return [(default, st)]
                fac = o.attrs.get("default_factory") if o.attrs else None
                if fac == C("counter"):
                    return [(C(0), st)]
                if fac is not None and fac != NONE and isinstance(ref, Ref):
                    out = []
                    for v, s in self.call(fac, [], {}, st, node):
                        if not isinstance(v, Exc):
                            ho = s.heap.get(ref.id)
                            s.heap[ref.id] = ho.but(segs=dict_set(ho.segs, k, v))
                            self.emit(s, "setitem", "dict", (ref, k, v), node=node)
                        out.append((v, s))
                    return out
                return self.raise_(st, "KeyError", node, k, self.sn(ref, st))
            unk = True
        if self.ctx_exact_key(o, k) and cands:
            return [(cands[0], st)]
        # key of unknown identity: if it is in the dict by a fact, join candidates
        vals = list(cands)
        if len(vals) == 1 and o.segs and o.segs[-1][0] == "*":
            # representative entry written by a previous loop under a key of the same shape
            base = vals[0]
        args = [self.sn(ref, st), self.sn(k, st)]
        if default is not None:
            args.append(default)
        inv = [s for s in o.segs if s[0] == "*" and any(t[0] == "1" and t[1] == k for a in s[1] for t in a)]
        if inv:
            vs = [t[2] for s in inv for a in s[1] for t in a if t[0] == "1" and t[1] == k]
            return [(join_vals(vs), st)]
        if vals and len(vals) <= 40 and default is None and not any(s[0] == "**" for s in o.segs) and len(set(vals)) <= 4 and not o.opaque:
            return [(join_vals(vals), st)]
        return [(Op("item", args), st)]

    def ctx_exact_key(self, o, k):
        return False

    def setitem(self, v, k, val, st, node):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is not None and o.kind == "dict":
                st.heap[v.id] = o.but(segs=dict_set(o.segs, k, val))
                self.emit(st, "setitem", "dict", (v, k, val), node=node)
                return [(NONE, st)]
            if o is not None and o.kind == "list":
                segs = list(o.segs)
                if isinstance(k, C) and isinstance(k.v, int) and all(s[0] == "1" for s in segs) and -len(segs) <= k.v < len(segs):
                    segs[k.v] = ("1", val)
                    st.heap[v.id] = o.but(segs=tuple(segs))
                else:
                    st.heap[v.id] = o.but(opaque=True, segs=tuple(segs) + (("*", frozenset([(("1", val),)]), TOP, False),))
                self.emit(st, "setitem", "list", (v, k, val), node=node)
                return [(NONE, st)]
        self.emit(st, "setitem", "sym", (v, k, val), node=node)
        if isinstance(v, (Sym, Op)):
            st.sattr[(v, ("item", k))] = val
        return [(NONE, st)]

    # ------------------------------------------------------------ comprehension
    def ev_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def ev_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def ev_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def ev_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        r = self.alloc(st, e, kind, tag="comp", unord=(kind == "set"))
        f = self.frames[-1]
        nf = Frame(self.aid(e, "cscope"), f.fn, f.mod)
        nf.glob = f.glob
        nf.nonloc = set()
        nf.yields = f.yields
        st.heap[nf.scope] = HObj("scope", parent=f.scope)
        # build nested for statement
        if kind == "dict":
            leaf = ast.Assign(targets=[ast.Subscript(value=ast.Name(id="\0acc", ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
        else:
            leaf = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id="\0acc", ctx=ast.Load()), attr="append" if kind == "list" else "add", ctx=ast.Load()), args=[e.elt], keywords=[]))
        body = leaf
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = ast.If(test=c, body=[body], orelse=[])
            body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
        for n in ast.walk(body):
            if not hasattr(n, "lineno"):
                n.lineno, n.col_offset = e.lineno, e.col_offset
        self.frames.append(nf)
        self.assign_name("\0acc", r, st)
        outs = self.stmt(body, st)
        self.frames.pop()
        res = []
        for k, v, s in outs:
            if k == "raise":
                res.append((v, s))
            else:
                res.append((r, s))
        return res

    # ------------------------------------------------------------ iteration
    def iter_segs(self, v, st):
        """-> (segs | None, unordered)"""
        if isinstance(v, Tup):
            return [("1", x) for x in v.items], False
        if isinstance(v, C):
            if isinstance(v.v, (str, bytes)) and len(v.v) <= MAXCHARS:
                return [("1", C(x)) for x in v.v], False
            return None, False
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is None:
                return None, False
            if o.kind in ("list", "set", "dict") and self.truth(v, st) is False:
                return [], False
            if o.kind in ("list", "set"):
                segs = list(o.segs)
                if o.opaque:
                    segs.append(("*", frozenset([(("1", Op("elem", (self.sn(v, st),))),)]), v, o.unord))
                return (set_order(segs) if o.kind == "set" else segs), o.unord
            if o.kind == "dict":
                return dict_keys(o.segs), o.unord
            if o.kind == "obj" and isinstance(o.cls, Cls):
                r = self.ctx.sym_iter(self, v, st)
                if r is not None:
                    return r
            return None, False
        if isinstance(v, Cls) and v.is_enum:
            return [("1", m) for m in v.attrs.values() if isinstance(m, EnumM)], False
        if isinstance(v, ListV):
            if self.truth(v, st) is False:
                return [], False
            return (set_order(v.segs) if v.kind == "set" else list(v.segs)), v.unord
        if isinstance(v, Sym) and v.ty == "list" and self.truth(v, st) is False:
            return [], False
        if isinstance(v, (Sym, Op, Meth)):
            r = self.ctx.sym_iter(self, v, st)
            if r is not None:
                return r
            un = False
            if isinstance(v, Op):
                if v.name == "setop" or v.ty == "set":
                    un = True
                if v.name == "call" and v.args and isinstance(v.args[0], Ext) and v.args[0].name in UNORD_SOURCES:
                    un = True
                if v.name == "mcall" and isinstance(v.args[0], C) and v.args[0].v in ("iterdir", "glob", "rglob"):
                    un = True
            if isinstance(v, Sym) and v.ty == "set":
                un = True
            el = Op("elem", (v,), None)
            if isinstance(v, Sym):
                el = Sym(v.path + "[]", **dict(v.info.get("elem", {})))
            return [("*", frozenset([(("1", el),)]), v, un)], un
        if isinstance(v, Alt):
            alls = [self.iter_segs(x, st) for x in sorted(v.vals, key=repr)]
            if all(a[0] is not None for a in alls):
                return [("*", frozenset(tuple(a[0]) for a in alls), v, any(a[1] for a in alls))], any(a[1] for a in alls)
            return None, False
        return None, False

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st):
        # method call special form
        out = []
        for fv, s in self.ev(e.func, st):
            if isinstance(fv, Exc):
                out.append((fv, s)); continue
            if isinstance(fv, Ext) and fv.name == "super" and not e.args:
                fr = self.frames[-1]
                selfv = None
                if fr.fn is not None and fr.fn.node.args.args:
                    selfv = self.lookup(fr.fn.node.args.args[0].arg, s)
                out.append((Op("super", (selfv if selfv is not None else TOP, fr.fn.cls if fr.fn is not None and fr.fn.cls is not None else TOP)), s))
                continue
            for args, s2 in self.evs(e.args, s):
                if isinstance(args, Exc):
                    out.append((args, s2)); continue
                cur = [({}, s2)]
                for k in e.keywords:
                    nxt = []
                    for kw, s3 in cur:
                        if isinstance(kw, Exc):
                            nxt.append((kw, s3)); continue
                        for v, s4 in self.ev(k.value, s3):
                            if isinstance(v, Exc):
                                nxt.append((v, s4)); continue
                            d = dict(kw)
                            if k.arg is None:
                                o = s4.heap.get(v.id) if isinstance(v, Ref) else None
                                if o is not None and o.kind == "dict" and not o.opaque and all(x[0] == "1" and isinstance(x[1], C) for x in o.segs):
                                    for x in o.segs:
                                        d[x[1].v] = x[2]
                                else:
                                    d["**"] = v
                            else:
                                d[k.arg] = v
                            nxt.append((d, s4))
                    cur = nxt
                for kw, s3 in cur:
                    if isinstance(kw, Exc):
                        out.append((kw, s3)); continue
                    out.extend(self.call(fv, args, kw, s3, e))
        return out

    def call(self, fv, args, kw, st, node):
        self.nops += 1
        if isinstance(fv, Alt):
            out = []
            for x in sorted(fv.vals, key=repr):
                out.extend(self.call(x, args, kw, st.clone(), node))
            return out
        if isinstance(fv, Fn):
            return self.call_fn(fv, None, args, kw, st, node)
        if isinstance(fv, Bound):
            return self.call_fn(fv.fn, fv.self, args, kw, st, node)
        if isinstance(fv, Cls):
            return self.instantiate(fv, args, kw, st, node)
        import models
        if isinstance(fv, Ext):
            return models.call_ext(self, fv.name, args, kw, st, node)
        if isinstance(fv, Meth):
            return models.call_meth(self, fv.recv, fv.name, args, kw, st, node)
        if isinstance(fv, C) or isinstance(fv, (Cat, Tup)) or isinstance(fv, Sym) and fv.ty in ("str", "int", "list", "bool", "num"):
            return self.raise_(st, "TypeError", node, fv)
        if isinstance(fv, Op) and fv.name in ("subscript", "typeor"):
            return self.call(fv.args[0], args, kw, st, node)
        if isinstance(fv, Op) and fv.name == "call" and len(args) == 1 and isinstance(args[0], (Fn,)) and not kw:
            f = args[0]
            g = Fn(f.node, f.mod, f.scope, f.name, f.cls, f.defaults, f.kwdefaults, (fv,) + tuple(f.deco))
            return [(g, st)]
        if isinstance(fv, Op) and fv.name == "partial":
            return self.call(fv.args[0], list(fv.args[1].items) + list(args),
                             {**{a.items[0].v: a.items[1] for a in fv.args[2].items}, **kw}, st, node)
        if isinstance(fv, Ref):
            o = st.heap.get(fv.id)
            if o is not None and o.kind == "obj" and isinstance(o.cls, Cls):
                m = o.cls.lookup("__call__")
                if isinstance(m, Fn):
                    return self.call(Bound(fv, m), args, kw, st, node)
        return self.opaque_call("?", fv, args, kw, st, node)

    def opaque_call(self, name, fv, args, kw, st, node):
        a = tuple(self.sn(x, st) for x in args)
        k = {n: self.sn(x, st) for n, x in kw.items()}
        self.emit(st, "call", name, a, k, node=node, raw=tuple(args), rawkw=dict(kw))
        v = Op("call", (fv,) + a + tuple(Tup((C(n), x)) for n, x in sorted(k.items())))
        # an unknown callee may modify mutable arguments
        return [(v, st)]

    def instantiate(self, cls, args, kw, st, node):
        if cls.is_enum:
            if args:
                for m in cls.attrs.values():
                    if isinstance(m, EnumM) and self.same(m.value, args[0], st) is True:
                        return [(m, st)]
            return [(Op("call", (cls,) + tuple(args)), st)]
        stub = self.ctx.stubs.get(cls.qual)
        if stub is not None:
            return stub(self, st, None, args, kw, node)
        if self.is_exception(cls):
            return [(Op("exc", (cls,) + tuple(self.sn(a, st) for a in args)), st)]
        if self.w.full and any(isinstance(b, Ext) and b.name.endswith("BaseModel") for b in cls.mro()):
            import pyd
            return pyd.instantiate(self, cls, args, kw, st, node)
        if any(isinstance(b, Ext) and b.name.endswith("BaseModel") for b in cls.mro()):
            k = {n: self.sn(x, st) for n, x in kw.items()}
            self.emit(st, "model", cls.qual, tuple(self.sn(a, st) for a in args), k, node=node, raw=kw)
            import models
            out = []
            if models.caught(self, "ValidationError"):
                s2 = st.clone()
                out += self.raise_(s2, "ValidationError", node, cls)
            r = self.alloc(st, node, "obj", tag=cls.name)
            st.heap[r.id] = st.heap[r.id].but(cls=cls, attrs={n: v for n, v in kw.items() if n != "**"})
            return [(r, st)] + out
        r = self.alloc(st, node, "obj", tag=cls.name)
        st.heap[r.id] = st.heap[r.id].but(cls=cls, attrs={})
        init = cls.lookup("__init__")
        if isinstance(init, Fn):
            rs = self.call_fn(init, r, args, kw, st, node)
            return [(v if isinstance(v, Exc) else r, s) for v, s in rs]
        if Ext("typing.NamedTuple") in cls.mro():
            fs = nt_fields(cls)
            at = dict(zip(fs, args))
            at.update(kw)
            for n in fs:
                if n not in at and cls.lookup(n) is not None:
                    at[n] = cls.lookup(n)
            if len(args) > len(fs) or set(at) != set(fs):
                return self.raise_(st, "TypeError", node, cls)
            return [(NTup(cls, [at[n] for n in fs]), st)]
        if cls.deco and any("dataclass" in repr(d) for d in cls.deco):
            names = []
            for c in reversed([c for c in cls.mro() if isinstance(c, Cls)]):
                names += [n for n in c.annots if n not in names]
            at = {}
            for n, v in zip(names, args):
                at[n] = v
            at.update(kw)
            for n in names:
                if n not in at:
                    d = cls.lookup(n)
                    if d is not None:
                        if isinstance(d, Op) and d.name == "call" and d.args and d.args[0] == Ext("dataclasses.field"):
                            fac = [t.items[1] for t in d.args[1:] if isinstance(t, Tup) and t.items[0] == C("default_factory")]
                            if fac:
                                rs = self.call(fac[0], [], {}, st, node)
                                d = rs[0][0]
                        at[n] = d
            st.heap[r.id] = st.heap[r.id].but(attrs=at)
            post = cls.lookup("__post_init__")
            if isinstance(post, Fn):
                return [(v if isinstance(v, Exc) else r, s) for v, s in self.call_fn(post, r, [], {}, st, node)]
            return [(r, st)]
        self.emit(st, "new", cls.qual, tuple(self.sn(a, st) for a in args), {n: self.sn(x, st) for n, x in kw.items()}, node=node)
        return [(r, st)]

    def is_exception(self, cls):
        for b in cls.mro():
            if isinstance(b, Ext) and (b.name in EXC_PARENT or b.name.split(".")[-1] in EXC_PARENT):
                return True
        return False

    def call_fn(self, fn, self_, args, kw, st, node):
        if fn.deco and any(memoized(d) for d in fn.deco):
            k = ("mod", "memo", fn.qual)
            key = (tuple(([self_] if self_ is not None else []) + list(args)), tuple(sorted(kw.items())))
            o = st.heap.get(k)
            if o is not None and key in o.attrs:
                return [(o.attrs[key], st)]
            plain = Fn(fn.node, fn.mod, fn.scope, fn.name, fn.cls, fn.defaults, fn.kwdefaults, tuple(d for d in fn.deco if not memoized(d)))
            out = self.call_fn(plain, self_, args, kw, st, node)
            for v, s in out:
                if not isinstance(v, Exc):
                    o = s.heap.get(k)
                    s.heap[k] = HObj("memo", attrs={**(o.attrs if o is not None else {}), key: v})
            return out
        stub = self.ctx.stubs.get(fn.qual)
        if stub is not None:
            return stub(self, st, self_, args, kw, node)
        if fn.qual in self.ctx.noinline:
            a = tuple(self.sn(x, st) for x in args)
            k = {n: self.sn(x, st) for n, x in kw.items()}
            self.emit(st, "call", fn.qual, a, k, node=node, recv=self_, raw=tuple(args), rawkw=dict(kw))
            return [(Op("call", (Ext(fn.qual),) + ((self_,) if self_ is not None else ()) + a + tuple(Tup((C(n), x)) for n, x in sorted(k.items()))), st)]
        allargs = ([self_] if self_ is not None else []) + list(args)
        argkey = tuple(("*" if _has_ref(a) else a) for a in allargs) + tuple((n, "*" if _has_ref(v) else v) for n, v in sorted(kw.items()))
        key = (fn.qual, fn.node.lineno, argkey)
        same = sum(1 for c in self.calls if c[0] == fn.qual and c[1] == fn.node.lineno)
        cnt = sum(1 for c in self.calls if c == key)
        deep = self.w.full or getattr(self.ctx, "deep", False)
        # recursion below a loop over an unknown collection would fork without end
        instar = deep and self.starat and sum(1 for c in self.calls[self.starat[0]:] if c[0] == fn.qual and c[1] == fn.node.lineno) >= 3
        if instar:
            self.note(f"recursion of {fn.qual} below a loop over an unknown collection")
        if instar or cnt >= (30 if deep else 2) or (cnt >= 1 and not any(a == "*" for a in argkey)) or same >= (30 if deep else 5) or len(self.calls) > MAXDEPTH:
            self.emit(st, "rec", fn.qual, tuple(allargs), kw, node=node)
            a = tuple(self.sn(x, st) for x in allargs)
            return [(Op("rec", (C(fn.qual),) + a), st)]
        env = self.bind_args(fn, allargs, kw, st, node)
        if isinstance(env, Exc):
            return [(env, st)]
        self.analysed.add(fn.qual)
        self.stack.append((getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fn.qual, self.frames[-1].mod if self.frames else ""))
        self.calls.append(key)
        fr = Frame(self.aid(fn.node, "scope:" + fn.name), fn, fn.mod)
        st.heap[fr.scope] = HObj("scope", attrs=env, parent=fn.scope)
        self.frames.append(fr)
        self.emit(st, "enter", fn.qual, tuple(self.sn(a, st) for a in allargs), {n: self.sn(v, st) for n, v in kw.items()}, node=node)
        savec, self.catching = self.catching, self.catching
        out = []
        try:
            if isinstance(fn.node, ast.Lambda):
                for v, s in self.ev(fn.node.body, st):
                    out.append((v, s))
            else:
                declare(fn.node, fr)
                if is_generator(fn.node):
                    fr.yields = self.new_list(st, fn.node, (), tag="gen")
                for k, v, s in self.block(fn.node.body, st):
                    if k == "raise":
                        out.append((v, s))
                    elif fr.yields is not None:
                        out.append((fr.yields, s))
                    elif k == "ret":
                        out.append((v, s))
                    else:
                        out.append((NONE, s))
        finally:
            self.frames.pop()
            self.calls.pop()
            self.stack.pop()
        for v, s in out:
            s.emit(Ev("leave", fn.qual, (), None, None, None, exc=isinstance(v, Exc), ret=None if isinstance(v, Exc) else v))
        return self.cap_values(out)

    def cap_values(self, out):
        """Merge results when too many states returned."""
        if len(out) <= self.max_states:
            return out
        groups = {}
        for v, s in out:
            k = ("exc", v.name) if isinstance(v, Exc) else v
            groups.setdefault(k, []).append((v, s))
        if len(groups) > self.max_states:
            oks = [(v, s) for v, s in out if not isinstance(v, Exc)]
            exs = [(v, s) for v, s in out if isinstance(v, Exc)]
            r = []
            if oks:
                r.append((join_vals([v for v, _ in oks]), self.join_states([s for _, s in oks])))
            if exs:
                r.append((exs[0][0], self.join_states([s for _, s in exs])))
            return r
        return [(g[0][0], self.join_states([s for _, s in g])) for g in groups.values()]

    def bind_args(self, fn, args, kw, st, node):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        args = list(args)
        star = None
        if args and isinstance(args[-1], Op) and args[-1].name == "starred":
            star = args.pop()
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw.pop(n)
            elif star is not None:
                env[n] = Op("item", (star.args[0], C(i - len(args))))
            elif "**" in kw:
                env[n] = Op("item", (self.sn(kw["**"], st), C(n)))
            else:
                j = i - (len(names) - len(fn.defaults))
                if j >= 0:
                    env[n] = fn.defaults[j]
                else:
                    return Exc(Ext("TypeError"), (C("missing " + n), C(fn.qual)), self.loc(node))
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(names):])
            else:
                return Exc(Ext("TypeError"), (C("too many arguments"), C(fn.qual)), self.loc(node))
        elif a.vararg:
            env[a.vararg.arg] = star.args[0] if star is not None else Tup(())
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif x.arg in fn.kwdefaults:
                env[x.arg] = fn.kwdefaults[x.arg]
            else:
                env[x.arg] = Op("kwarg", (C(x.arg),))
        if a.kwarg:
            r = self.alloc(st, fn.node, "dict", tag="kwargs")
            rest = tuple(("1", C(k), v) for k, v in kw.items() if k != "**")
            if "**" in kw:
                rest += (("**", kw["**"]),)
            st.heap[r.id] = st.heap[r.id].but(segs=rest)
            env[a.kwarg.arg] = r
        elif any(k != "**" for k in kw):
            bad = [k for k in kw if k != "**"]
            return Exc(Ext("TypeError"), (C("unexpected keyword " + bad[0]), C(fn.qual)), self.loc(node))
        return env

    def ev_Yield(self, e, st):
        fr = self.frames[-1]
        def f(v, s):
            if fr.yields is not None:
                o = s.heap[fr.yields.id]
                s.heap[fr.yields.id] = o.but(segs=o.segs + (("1", v),))
            return [(NONE, s)]
        return self.bind(self.ev(e.value, st) if e.value else [(NONE, st)], f)

    def ev_YieldFrom(self, e, st):
        fr = self.frames[-1]
        def f(v, s):
            if fr.yields is not None:
                segs, un = self.iter_segs(v, s)
                if segs is None:
                    segs = [("*", frozenset([(("1", Op("elem", (v,))),)]), v, False)]
                o = s.heap[fr.yields.id]
                s.heap[fr.yields.id] = o.but(segs=o.segs + tuple(segs))
            return [(NONE, s)]
        return self.bind(self.ev(e.value, st), f)

    def ev_Await(self, e, st):
        return self.ev(e.value, st)

    def ev_Starred(self, e, st):
        return self.bind(self.ev(e.value, st), lambda v, s: [(Op("starred", (v,)), s)])

    def ev_Slice(self, e, st):
        return [(Op("slice_obj"), st)]

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        states = [("next", None, st)]
        done = []
        for s in stmts:
            nxt = []
            for k, v, x in states:
                for r in self.stmt(s, x):
                    (nxt if r[0] == "next" else done).append(r)
            if not nxt:
                return self.cap_outcomes(done)
            if len(nxt) > 1:
                nxt = self.dedupe(nxt)
            if len(nxt) > self.max_states:
                nxt = [("next", None, self.join_states([x for _, _, x in nxt]))]
            states = nxt
        return self.cap_outcomes(done) + states

    def cap_outcomes(self, done):
        if len(done) <= self.max_states * 2:
            return done
        g = {}
        for k, v, s in done:
            kk = (k, (v.name if isinstance(v, Exc) else v))
            g.setdefault(kk, []).append((k, v, s))
        out = []
        for items in g.values():
            out.append((items[0][0], items[0][1], self.join_states([s for _, _, s in items])))
        return out

    def dedupe(self, outs):
        seen, res = {}, []
        for k, v, s in outs:
            key = None
            for s2 in seen.get(k, ()):
                if s2.trace is s.trace and s2.heap == s.heap and s2.sattr == s.sattr:
                    s2.facts = {a: b for a, b in s2.facts.items() if s.facts.get(a) == b}
                    break
            else:
                seen.setdefault(k, []).append(s)
                res.append((k, v, s))
        return res

    def stmt(self, n, st):
        self.nops += 1
        if self.nops > self.budget:
            raise Budget()
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            self.note(f"stmt {type(n).__name__} {self.loc(n)}")
            return [("next", None, st)]
        return m(n, st)

    def lift(self, rs, f=None):
        out = []
        for v, s in rs:
            if isinstance(v, Exc):
                out.append(("raise", v, s))
            elif f is None:
                out.append(("next", None, s))
            else:
                out.extend(f(v, s))
        return out

    def st_Expr(self, n, st):
        return self.lift(self.ev(n.value, st))

    def st_Pass(self, n, st):
        return [("next", None, st)]

    def st_Global(self, n, st):
        return [("next", None, st)]

    st_Nonlocal = st_Global

    def st_Return(self, n, st):
        if n.value is None:
            return [("ret", NONE, st)]
        return self.lift(self.ev(n.value, st), lambda v, s: [("ret", v, s)])

    def st_Break(self, n, st):
        return [("brk", None, st)]

    def st_Continue(self, n, st):
        return [("cont", None, st)]

    def st_Assign(self, n, st):
        def f(v, s):
            cur = [(NONE, s)]
            for t in n.targets:
                nxt = []
                for _, s2 in cur:
                    nxt.extend(self.assign(t, v, s2))
                cur = nxt
            return self.lift(cur)
        return self.lift(self.ev(n.value, st), f)

    def st_AnnAssign(self, n, st):
        if n.value is None:
            if isinstance(n.target, ast.Name) and self.frames[-1].cls is not None:
                self.frames[-1].cls.annots[n.target.id] = n.annotation
            return [("next", None, st)]
        if isinstance(n.target, ast.Name) and self.frames[-1].cls is not None:
            self.frames[-1].cls.annots[n.target.id] = n.annotation
        return self.lift(self.ev(n.value, st), lambda v, s: self.lift(self.assign(n.target, v, s)))

    def st_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.Name(id=t.id, ctx=ast.Load())
        elif isinstance(t, ast.Attribute):
            load = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        else:
            load = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        ast.copy_location(load, t)
        def f(v, s):
            a, b = v
            if isinstance(n.op, ast.Add) and isinstance(a, Ref):
                import models
                return self.lift(self.bind(models.call_meth(self, a, "extend", [b], {}, s, n), lambda _, s2: self.assign(t, a, s2)))
            if isinstance(n.op, ast.BitOr) and isinstance(a, Ref):
                import models
                return self.lift(self.bind(models.call_meth(self, a, "update", [b], {}, s, n), lambda _, s2: self.assign(t, a, s2)))
            return self.lift(self.binop(type(n.op), a, b, s, n), lambda r, s2: self.lift(self.assign(t, r, s2)))
        return self.lift(self.evs([load, n.value], st), f)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st)
            return [(NONE, st)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Attribute):
            return self.bind(self.ev(t.value, st), lambda o, s: self.setattr(o, t.attr, v, s, t))
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                return self.bind(self.ev(t.value, st), lambda o, s: self.setslice(o, t, v, s))
            return self.bind(self.evs([t.value, t.slice], st), lambda o, s: self.setitem(o[0], o[1], v, s, t))
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        return [(NONE, st)]

    def setslice(self, o, t, v, st):
        if isinstance(o, Ref) and t.slice.lower is None and t.slice.upper is None:
            segs, un = self.iter_segs(v, st)
            ho = st.heap.get(o.id)
            if segs is not None and ho is not None:
                st.heap[o.id] = ho.but(segs=tuple(segs), unord=un)
                return [(NONE, st)]
        if isinstance(o, Ref) and o.id in st.heap:
            st.heap[o.id] = st.heap[o.id].but(opaque=True)
        self.emit(st, "setitem", "slice", (o, v), node=t)
        return [(NONE, st)]

    def unpack(self, t, v, st):
        n = len(t.elts)
        if isinstance(v, Alt):
            out = []
            for x in sorted(v.vals, key=repr):
                out.extend(self.unpack(t, x, st.clone()))
            return out
        vals = None
        if isinstance(v, Tup):
            vals = list(v.items)
        elif isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is not None and o.kind == "list" and all(s[0] == "1" for s in o.segs) and not o.opaque:
                vals = [s[1] for s in o.segs]
        elif isinstance(v, C) and isinstance(v.v, (str, tuple)):
            vals = [C(x) for x in v.v]
        if vals is None:
            if isinstance(v, C):
                return self.raise_(st, "TypeError", t, v)
            vals = None
            r = []
            cur = [(NONE, st)]
            for i, e in enumerate(t.elts):
                nxt = []
                for _, s in cur:
                    if isinstance(e, ast.Starred):
                        nxt.extend(self.assign(e.value, Op("rest", (v, C(i))), s))
                    else:
                        for x, s2 in self.getitem(v, C(i), s, t):
                            if isinstance(x, Exc):
                                nxt.append((x, s2))
                            else:
                                nxt.extend(self.assign(e, x, s2))
                cur = nxt
            return cur
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        cur = [(NONE, st)]
        if stars:
            i = stars[0]
            tail = n - i - 1
            if len(vals) < n - 1:
                return self.raise_(st, "ValueError", t, v)
            groups = vals[:i] + [None] + (vals[len(vals) - tail:] if tail else [])
            mid = vals[i:len(vals) - tail]
            for j, e in enumerate(t.elts):
                nxt = []
                for _, s in cur:
                    if j == i:
                        nxt.extend(self.assign(e.value, self.new_list(s, t, [("1", x) for x in mid], tag="star"), s))
                    else:
                        nxt.extend(self.assign(e, groups[j], s))
                cur = nxt
            return cur
        if len(vals) != n:
            return self.raise_(st, "ValueError", t, v)
        for e, x in zip(t.elts, vals):
            nxt = []
            for _, s in cur:
                nxt.extend(self.assign(e, x, s))
            cur = nxt
        return cur

    def setattr(self, o, name, v, st, node):
        if isinstance(o, Alt):
            for x in o.vals:
                self.setattr(x, name, v, st, node)
            return [(NONE, st)]
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if h is not None and h.kind == "obj":
                if isinstance(h.cls, Cls):
                    f = h.cls.lookup(name + "$set")
                    if isinstance(f, Fn):
                        return self.call_fn(f, o, [v], {}, st, node)
                a = dict(h.attrs)
                a[name] = v
                st.heap[o.id] = h.but(attrs=a)
                self.emit(st, "setattr", name, (o, v), node=node)
                return [(NONE, st)]
        self.emit(st, "setattr", name, (o, self.sn(v, st)), node=node, raw=v)
        if isinstance(o, Sym):
            st.sattr[(o.path, name)] = v
        elif isinstance(o, Op):
            st.sattr[(o, name)] = v
        elif isinstance(o, ModV):
            sc = st.heap[("mod", o.mod)]
            a = dict(sc.attrs)
            a[name] = v
            st.heap[("mod", o.mod)] = sc.but(attrs=a)
            self.emit(st, "setglobal", name, (v,), node=node, mod=o.mod)
        return [(NONE, st)]

    def st_Delete(self, n, st):
        cur = [("next", None, st)]
        for t in n.targets:
            nxt = []
            for k, v, s in cur:
                if k != "next":
                    nxt.append((k, v, s)); continue
                if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    def f(o, s2):
                        import models
                        return self.lift(models.del_item(self, o[0], o[1], s2, t))
                    nxt.extend(self.lift(self.evs([t.value, t.slice], s), f))
                elif isinstance(t, ast.Attribute):
                    nxt.extend(self.lift(self.ev(t.value, s), lambda o, s2: (self.emit(s2, "delattr", t.attr, (o,), node=t), [("next", None, s2)])[1]))
                else:
                    nxt.append(("next", None, s))
            cur = nxt
        return cur

    def st_If(self, n, st):
        out = []
        for b, s in self.cond(n.test, st):
            if isinstance(b, Exc):
                out.append(("raise", b, s))
            else:
                out.extend(self.block(n.body if b else n.orelse, s))
        return out

    def st_Assert(self, n, st):
        out = []
        for b, s in self.cond(n.test, st):
            if isinstance(b, Exc):
                out.append(("raise", b, s))
            elif b:
                out.append(("next", None, s))
            else:
                self.emit(s, "assertfail", "", (), node=n)
                out.append(("raise", Exc(Ext("AssertionError"), (), self.loc(n)), s))
        return out

    def st_Raise(self, n, st):
        if n.exc is None:
            fr = self.frames[-1]
            for f in reversed(self.frames):
                if f.exc:
                    return [("raise", f.exc[-1], st)]
            return [("raise", Exc(Ext("RuntimeError"), (), self.loc(n)), st)]
        def f(v, s):
            cls, args = v, ()
            if isinstance(v, Op) and v.name == "exc":
                cls, args = v.args[0], v.args[1:]
            elif isinstance(v, Ref):
                cls = s.heap[v.id].cls
            elif isinstance(v, Op) and v.name == "caught":
                cls = v.args[0]
            elif isinstance(v, Op) and v.name == "call":
                cls = v.args[0]
                args = v.args[1:]
            if not isinstance(cls, (Cls, Ext)):
                cls = Ext("Exception")
            self.emit(s, "raise", cls.name, (v,), node=n)
            return [("raise", Exc(cls, args, self.loc(n), v), s)]
        return self.lift(self.ev(n.exc, st), f)

    def exc_matches(self, exc, cls):
        """exc: Exc; cls: handler class value. True/False/None"""
        if isinstance(cls, Tup):
            rs = [self.exc_matches(exc, c) for c in cls.items]
            return True if True in rs else (None if None in rs else False)
        chain = self.exc_chain(exc.cls)
        if isinstance(cls, Cls):
            return cls in chain
        if isinstance(cls, Ext):
            nm = cls.name.split(".")[-1] if cls.name != "struct.error" else cls.name
            return any((isinstance(c, Ext) and (c.name == cls.name or c.name.split(".")[-1] == nm)) for c in chain)
        return None

    def exc_chain(self, cls):
        out = []
        todo = list(cls.mro()) if isinstance(cls, Cls) else [cls]
        for c in todo:
            out.append(c)
            if isinstance(c, Ext):
                n = c.name if c.name in EXC_PARENT else c.name.split(".")[-1]
                while n in EXC_PARENT:
                    n = EXC_PARENT[n]
                    out.append(Ext(n))
                if n != "BaseException":
                    out.append(Ext("Exception"))
                    out.append(Ext("BaseException"))
        return out

    def st_Try(self, n, st):
        # handler class values (evaluated without side effects)
        hs = []
        for h in n.handlers:
            if h.type is None:
                hs.append((h, Ext("BaseException")))
            else:
                rs = self.ev(h.type, st.clone())
                hs.append((h, rs[0][0] if rs and not isinstance(rs[0][0], Exc) else Ext("Exception")))
        self.catching = self.catching + [(len(self.frames), [c for _, c in hs])]
        outs = self.block(n.body, st)
        self.catching = self.catching[:-1]
        res = []
        for k, v, s in outs:
            if k == "next" and n.orelse:
                res.extend(self.block(n.orelse, s))
            elif k == "raise":
                handled = False
                for h, c in hs:
                    m = self.exc_matches(v, c)
                    if m:
                        handled = True
                        self.emit(s, "caught", v.name, (Op("caught", (v.cls,)),), node=h, exc=v)
                        if h.name:
                            self.assign_name(h.name, Op("caught", (v.cls if isinstance(v.cls, V) else TOP,)), s)
                        self.frames[-1].exc.append(v)
                        res.extend(self.block(h.body, s))
                        self.frames[-1].exc.pop()
                        break
                if not handled:
                    res.append((k, v, s))
            else:
                res.append((k, v, s))
        if n.finalbody:
            fin = []
            for k, v, s in res:
                for k2, v2, s2 in self.block(n.finalbody, s):
                    if k2 == "next":
                        fin.append((k, v, s2))
                    else:
                        fin.append((k2, v2, s2))
            res = fin
        return res

    def st_With(self, n, st):
        def go(i, s):
            if i == len(n.items):
                return self.block(n.body, s)
            it = n.items[i]
            def f(v, s2):
                val = v
                if isinstance(v, Ref) and s2.heap[v.id].kind == "obj" and isinstance(s2.heap[v.id].cls, Cls) and isinstance(s2.heap[v.id].cls.lookup("__enter__"), Fn):
                    rs = self.call(Bound(v, s2.heap[v.id].cls.lookup("__enter__")), [], {}, s2, n)
                else:
                    rs = [(v, s2)]
                out = []
                for v2, s3 in rs:
                    if isinstance(v2, Exc):
                        out.append(("raise", v2, s3)); continue
                    if it.optional_vars is not None:
                        for r, s4 in self.assign(it.optional_vars, v2, s3):
                            if isinstance(r, Exc):
                                out.append(("raise", r, s4))
                            else:
                                out.extend(go(i + 1, s4))
                    else:
                        out.extend(go(i + 1, s3))
                fin = []
                for k, vv, s4 in out:
                    if isinstance(v, Sym) and v.ty == "file" or isinstance(v, Op) and v.ty == "file":
                        self.emit(s4, "close", "", (v,), node=n)
                    elif isinstance(v, Ref) and s4.heap[v.id].kind == "obj" and isinstance(s4.heap[v.id].cls, Cls) and isinstance(s4.heap[v.id].cls.lookup("__exit__"), Fn):
                        for r, s5 in self.call(Bound(v, s4.heap[v.id].cls.lookup("__exit__")), [NONE, NONE, NONE], {}, s4, n):
                            fin.append((k, vv, s5))
                        continue
                    fin.append((k, vv, s4))
                return fin
            return self.lift(self.ev(it.context_expr, s), f)
        return go(0, st)

    def st_Import(self, n, st):
        for a in n.names:
            top = a.name.split(".")[0]
            if a.asname:
                self.assign_name(a.asname, self.w.import_module(a.name, self, st), st)
            else:
                self.w.import_module(a.name, self, st)
                self.assign_name(top, self.w.import_module(top, self, st), st)
        return [("next", None, st)]

    def st_ImportFrom(self, n, st):
        mod = n.module or ""
        if n.level:
            base = self.frames[-1].mod.split(".")
            if not self.w.is_pkg(self.frames[-1].mod):
                base = base[:-1]
            base = base[: len(base) - (n.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in n.names:
            if a.name == "*":
                m = self.w.import_module(mod, self, st)
                if isinstance(m, ModV):
                    for k, v in st.heap[("mod", mod)].attrs.items():
                        if not k.startswith("_"):
                            self.assign_name(k, v, st)
                continue
            v = None
            if mod in self.w.modules:
                self.w.ensure(mod, self, st)
                sc = st.heap.get(("mod", mod))
                if sc is not None and a.name in sc.attrs:
                    v = sc.attrs[a.name]
                elif f"{mod}.{a.name}" in self.w.modules:
                    v = self.w.import_module(f"{mod}.{a.name}", self, st)
                else:
                    v = Op("unresolved", (C(mod), C(a.name)))
            else:
                v = Ext(f"{mod}.{a.name}")
                if mod == "builtins":
                    v = Ext(a.name)
            self.assign_name(a.asname or a.name, v, st)
        return [("next", None, st)]

    def st_FunctionDef(self, n, st):
        fr = self.frames[-1]
        out = []
        for dv, s in self.evs(list(n.args.defaults), st):
            if isinstance(dv, Exc):
                out.append(("raise", dv, s)); continue
            kwd = {}
            for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults):
                if d is not None:
                    rs = self.ev(d, s)
                    kwd[a.arg] = rs[0][0]
            for dec, s2 in self.evs(list(n.decorator_list), s):
                if isinstance(dec, Exc):
                    out.append(("raise", dec, s2)); continue
                if fr.cls is not None:
                    qn = fr.cls.name + "." + n.name
                elif fr.fn is not None:
                    qn = fr.fn.name + ".<locals>." + n.name
                else:
                    qn = n.name
                fn = Fn(n, fr.mod, fr.scope if fr.cls is None else fr.cls.scope, qn, fr.cls, tuple(dv), kwd, ())
                cur = [(fn, s2)]
                for d in reversed(dec):
                    nxt = []
                    for fv, s3 in cur:
                        if isinstance(fv, Exc):
                            nxt.append((fv, s3)); continue
                        if isinstance(d, Fn) and isinstance(fv, Fn):
                            nxt.extend(self.call(d, [fv], {}, s3, n))
                        elif isinstance(fv, Fn):
                            nxt.append((Fn(fv.node, fv.mod, fv.scope, fv.name, fv.cls, fv.defaults, fv.kwdefaults, (self.sn(d, s3),) + tuple(fv.deco)), s3))
                        else:
                            nxt.append((fv, s3))
                    cur = nxt
                for fv, s3 in cur:
                    if isinstance(fv, Exc):
                        out.append(("raise", fv, s3)); continue
                    if isinstance(fv, Fn) and fr.cls is not None and any(isinstance(d, Meth) and d.name == "setter" for d in fv.deco):
                        self.assign_name(n.name + "$set", Fn(fv.node, fv.mod, fv.scope, fv.name, fv.cls, fv.defaults, fv.kwdefaults), s3)
                        out.append(("next", None, s3))
                        continue
                    self.assign_name(n.name, fv, s3)
                    if fr.cls is not None:
                        fr.cls.attrs[n.name] = fv
                    out.append(("next", None, s3))
        return out

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, n, st):
        fr = self.frames[-1]
        rs = self.evs(list(n.bases), st)
        out = []
        for bases, s in rs:
            if isinstance(bases, Exc):
                out.append(("raise", bases, s)); continue
            bases = [b.args[0] if isinstance(b, Op) and b.name == "subscript" else b for b in bases]
            cls = Cls(fr.mod, n.name, tuple(bases), n)
            cls.scope = fr.scope
            cls.is_enum = any(isinstance(b, Ext) and b.name in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.StrEnum", "enum.IntFlag") or isinstance(b, Cls) and b.is_enum for b in cls.mro()[1:])
            nf = Frame(self.aid(n, "class:" + n.name), None, fr.mod)
            nf.cls = cls
            s.heap[nf.scope] = HObj("scope", parent=fr.scope)
            self.frames.append(nf)
            outs = self.block(n.body, s)
            self.frames.pop()
            for k, v, s2 in outs:
                if k == "raise":
                    out.append((k, v, s2)); continue
                attrs = s2.heap[nf.scope].attrs
                auto = 0
                for a, x in attrs.items():
                    if cls.is_enum and not isinstance(x, Fn) and not a.startswith("_"):
                        if isinstance(x, Op) and x.name == "call" and x.args and x.args[0] == Ext("enum.auto"):
                            auto += 1
                            x = C(auto)
                        if not isinstance(x, EnumM):
                            x = EnumM(cls, a, x)
                    cls.attrs[a] = x
                decs = []
                for d in n.decorator_list:
                    r = self.ev(d, s2)
                    decs.append(r[0][0])
                cls.deco = tuple(decs)
                self.assign_name(n.name, cls, s2)
                out.append(("next", None, s2))
        return out

    def st_Match(self, n, st):
        out = []
        for subj, s in self.ev(n.subject, st):
            if isinstance(subj, Exc):
                out.append(("raise", subj, s)); continue
            cur = [s]
            for case in n.cases:
                nxt = []
                for s2 in cur:
                    for b, s3 in self.match(case.pattern, subj, s2):
                        if b and case.guard is not None:
                            for g, s4 in self.cond(case.guard, s3):
                                if isinstance(g, Exc):
                                    out.append(("raise", g, s4))
                                elif g:
                                    out.extend(self.block(case.body, s4))
                                else:
                                    nxt.append(s4)
                        elif b:
                            out.extend(self.block(case.body, s3))
                        else:
                            nxt.append(s3)
                cur = nxt
            out.extend(("next", None, s2) for s2 in cur)
        return out

    def match(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            out = []
            for x, s in self.ev(p.value, st):
                out.extend(self.fork(self.compare("==", v, x, s), s))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.fork(self.compare("is", v, C(p.value), st), st)
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for b, s2 in self.match(q, v, s):
                        (out.append((True, s2)) if b else nxt.append(s2))
                cur = nxt
            return out + [(False, s) for s in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.assign_name(p.name, v, st)
                return [(True, st)]
            out = []
            for b, s in self.match(p.pattern, v, st):
                if b and p.name:
                    self.assign_name(p.name, v, s)
                out.append((b, s))
            return out
        if isinstance(p, ast.MatchClass):
            out = []
            for c, s in self.ev(p.cls, st):
                import models
                for r, s2 in models.call_ext(self, "isinstance", [v, c], {}, s, p):
                    out.extend(self.fork(r, s2))
            return out
        self.note("match pattern")
        return [(True, st.clone()), (False, st)]

    # ------------------------------------------------------------ loops
    def st_For(self, n, st):
        out = []
        for itv, s in self.ev(n.iter, st):
            if isinstance(itv, Exc):
                out.append(("raise", itv, s)); continue
            out.extend(self.for_over(n, itv, s))
        return out

    st_AsyncFor = st_For

    def for_over(self, n, itv, st):
        if isinstance(itv, Alt) and len(itv.vals) <= 3:
            out = []
            for x in sorted(itv.vals, key=repr):
                out.extend(self.for_over(n, x, st.clone()))
            return out
        if isinstance(itv, C) and not isinstance(itv.v, (str, bytes)):
            return [("raise", Exc(Ext("TypeError"), (itv,), self.loc(n)), st)]
        segs, un = self.iter_segs(itv, st)
        if segs is None or not isinstance(itv, Ref):
            self.note_unknown(itv)
        if segs is None:
            segs = [("*", frozenset([(("1", Op("elem", (self.sn(itv, st),))),)]), itv, False)]
        nconst = sum(1 for s in segs if s[0] == "1")
        if nconst > (MAXCHARS if isinstance(itv, C) else MAXUNROLL):
            self.note(f"loop not unrolled {self.loc(n)}")
            vals = [s[1] for s in segs if s[0] == "1"]
            segs = [("*", frozenset([(("1", join_vals(vals[:8]) if len(set(vals)) <= 8 else Op("elem", (self.sn(itv, st),), "str" if all(is_strish(v) for v in vals) else None)),)]), itv, un)]
        cur = [("next", None, st)]
        done = []
        for i, seg in enumerate(segs):
            nxt = []
            for k, v, s in cur:
                if seg[0] == "1":
                    self.loopidx.append((n.lineno, n.col_offset, i))
                    if un:
                        self.emit(s, "unord", "", (self.sn(itv, s),), node=n)
                    for r, s2 in self.assign(n.target, seg[1], s):
                        if isinstance(r, Exc):
                            done.append(("raise", r, s2)); continue
                        for k3, v3, s3 in self.block(n.body, s2):
                            if k3 in ("next", "cont"):
                                nxt.append(("next", None, s3))
                            elif k3 == "brk":
                                done.append(("next", None, s3))
                            else:
                                done.append((k3, v3, s3))
                    self.loopidx.pop()
                else:
                    for r in self.star_loop(n, seg, itv, un or seg[3], s):
                        if r[0] == "next":
                            nxt.append(r)
                        elif r[0] == "brk":
                            done.append(("next", None, r[2]))
                        else:
                            done.append(r)
            if len(nxt) > 1:
                nxt = self.dedupe(nxt)
            if len(nxt) > self.max_states:
                nxt = [("next", None, self.join_states([x for _, _, x in nxt]))]
            cur = nxt
            if not cur:
                break
        res = []
        if n.orelse:
            for k, v, s in cur:
                res.extend(self.block(n.orelse, s))
        else:
            res = cur
        return res + done

    def star_loop(self, n, seg, itv, unord, st):
        elems = []
        for alt in sorted(seg[1], key=repr):
            flat_elems(alt, elems)
        uniq = []
        for e in elems:
            if e not in uniq:
                uniq.append(e)
        if not uniq:
            return [("next", None, st)]
        src = seg[2]

        def body(s):
            outs = []
            for i, e in enumerate(uniq):
                s2 = s.clone() if len(uniq) > 1 else s
                if len(uniq) > 1:
                    self.loopidx.append(("alt", n.lineno, n.col_offset, i))
                for r, s3 in self.assign(n.target, e, s2):
                    if isinstance(r, Exc):
                        outs.append(("raise", r, s3))
                    else:
                        outs.extend(self.block(n.body, s3))
                if len(uniq) > 1:
                    self.loopidx.pop()
            return outs
        self.starat.append(len(self.calls))
        try:
            return self.run_loop(n, st, body, src, uniq, unord)
        finally:
            self.starat.pop()

    def unrolled_while(self, n, st):
        """concrete iteration; None when a condition stays undecided for too long"""
        cur, done = [st], []
        for i in range(120):
            nxt = []
            for s in cur:
                self.loopidx.append((n.lineno, n.col_offset, i))
                for b, s2 in self.cond(n.test, s):
                    if isinstance(b, Exc):
                        done.append(("raise", b, s2))
                    elif not b:
                        done.extend(self.block(n.orelse, s2) if n.orelse else [("next", None, s2)])
                    else:
                        for k, v, s3 in self.block(n.body, s2):
                            if k in ("next", "cont"):
                                nxt.append(s3)
                            elif k == "brk":
                                done.append(("next", None, s3))
                            else:
                                done.append((k, v, s3))
                self.loopidx.pop()
            if not nxt:
                return done
            if len(nxt) + len(done) > 2 * self.max_states:
                break
            cur = nxt
        self.note(f"loop not unrolled {self.loc(n)}")
        return done

    def st_While(self, n, st):
        if self.w.full:
            return self.unrolled_while(n, st)
        # condition decided false at entry
        def body(s):
            outs = []
            for b, s2 in self.cond(n.test, s):
                if isinstance(b, Exc):
                    outs.append(("raise", b, s2))
                elif b:
                    outs.extend(self.block(n.body, s2))
                else:
                    outs.append(("exit", None, s2))
            return outs
        res = self.run_loop(n, st, body, Op("while", (C(n.lineno),)), [], False, while_=True)
        out = []
        for r in res:
            out.append(("next", None, r[2]) if r[0] == "brk" else r)
        if n.orelse:
            o2 = []
            for r in out:
                if r[0] == "next":
                    o2.extend(self.block(n.orelse, r[2]))
                else:
                    o2.append(r)
            out = o2
        return out

    def run_loop(self, n, st, body, src, elems, unord, while_=False):
        pre = st
        w = pre.clone()
        base_trace = pre.trace
        outs = None
        self.stack.append(("loop", n.lineno, n.col_offset))
        try:
            for it in range(6):
                s = w.clone()
                s.trace = None
                outs = body(s)
                cont = [x for x in outs if x[0] in ("next", "cont")]
                posts = [x[2] for x in cont]
                w2 = self.widen(w, posts, pre, src, unord, n)
                if state_eq(w, w2):
                    break
                w = w2
            else:
                self.note(f"loop did not stabilise {self.loc(n)}")
        finally:
            self.stack.pop()
        bodies = []
        for k, v, s in outs:
            if k in ("next", "cont", "brk"):
                bodies.append((k, unroll(s.trace), v))
        lev = Ev("loop", "while" if while_ else "for", (self.sn(src, pre) if isinstance(src, V) else src,), None, self.loc(n), self.fnname(),
                 bodies=bodies, elems=elems, unord=unord, node=n)
        res = []
        exits = 0
        for k, v, s in outs:
            if k in ("next", "cont"):
                continue
            tr = unroll(s.trace)
            s2 = s
            s2.trace = (base_trace, lev)
            for ev in tr:
                s2.trace = (s2.trace, ev)
            if k == "exit":
                res.append(("next", None, s2))
                exits += 1
            else:
                res.append((k, v, s2))
        if not while_:
            w = w.clone()
            w.trace = (base_trace, lev)
            w.facts = dict(pre.facts)
            res.insert(0, ("next", None, w))
        return res

    def widen(self, w, posts, pre, src, unord, n):
        """Upper bound of w and the states after one more iteration."""
        out = w.clone()
        out.facts = {k: v for k, v in pre.facts.items()}
        if not posts:
            return out
        srcv = src
        ids = set()
        for p in posts:
            ids |= set(p.heap)
        for id in ids:
            o = w.heap.get(id)
            ps = [p.heap[id] for p in posts if id in p.heap]
            if o is None:
                out.heap[id] = ps[-1] if all(p.same(ps[-1]) for p in ps) else self.join_objs(ps)
                continue
            if all(p is o or p.same(o) for p in ps):
                continue
            if o.kind in ("list", "set"):
                segs, opaque = widen_segs(o.segs, [p.segs for p in ps], srcv, unord)
                out.heap[id] = o.but(segs=segs, opaque=o.opaque or opaque or any(p.opaque for p in ps), unord=o.unord or any(p.unord for p in ps))
            elif o.kind == "dict":
                segs, opaque = widen_dict(o.segs, [p.segs for p in ps], srcv, unord)
                out.heap[id] = o.but(segs=segs, opaque=o.opaque or opaque or any(p.opaque for p in ps))
            else:
                a = {}
                for k in set(o.attrs) | {k for p in ps for k in p.attrs}:
                    old = o.attrs.get(k)
                    new = [p.attrs[k] for p in ps if k in p.attrs]
                    a[k] = self.widen_val(old, new, srcv, unord, (id, k))
                out.heap[id] = o.but(attrs=a)
        sk = set(w.sattr)
        for p in posts:
            sk |= set(p.sattr)
        for k in sk:
            vals = [p.sattr.get(k) for p in posts]
            old = w.sattr.get(k)
            if all(v == old for v in vals):
                continue
            # attribute of a symbolic node changed by some iteration: unknown afterwards
            known = [v for v in vals + [old] if v is not None]
            if old is None:
                out.sattr.pop(k, None)
            else:
                out.sattr[k] = join_vals(known)
        return out

    def widen_val(self, old, new, src, unord, key):
        if old is None:
            return join_vals(new) if new else NONE
        if all(v == old for v in new):
            return old
        if is_strish(old) and all(is_strish(v) for v in new):
            r = widen_str(old, new, src, unord)
            if r is not None:
                return r
        if all(lin_of(x) is not None for x in [old] + new):
            return Op("loopvar", (C(str(key[1])), src if isinstance(src, V) else TOP), "int")
        if isinstance(old, Op) and old.name == "loopvar":
            return old
        return join_vals([old] + new)

    def join_objs(self, ps):
        o = ps[0]
        if o.kind in ("list", "set"):
            alts = frozenset(p.segs for p in ps)
            return o.but(segs=(("*", alts, Op("joined"), any(p.unord for p in ps)),), opaque=any(p.opaque for p in ps), unord=any(p.unord for p in ps))
        if o.kind == "dict":
            # common entries stay definite
            common, rest = [], set()
            for s in ps[0].segs:
                if all(s in p.segs for p in ps):
                    common.append(s)
            for p in ps:
                rest.add(tuple(s for s in p.segs if s not in common))
            segs = tuple(common)
            if rest != {()}:
                segs += (("*", frozenset(rest), Op("joined"), False),)
            return o.but(segs=segs, opaque=any(p.opaque for p in ps))
        a = {}
        for k in {k for p in ps for k in p.attrs}:
            vals = [p.attrs[k] for p in ps if k in p.attrs]
            a[k] = join_vals(vals)
        return o.but(attrs=a)

    def join_states(self, ss):
        if len(ss) == 1:
            return ss[0]
        out = ss[0].clone()
        ids = {}
        for s in ss:
            for k in s.heap:
                ids[k] = None
        for id in ids:
            ps = [s.heap[id] for s in ss if id in s.heap]
            if all(p is ps[0] or p.same(ps[0]) for p in ps):
                out.heap[id] = ps[0]
            else:
                out.heap[id] = self.join_objs(ps)
        out.facts = {k: v for k, v in ss[0].facts.items() if all(s.facts.get(k) == v for s in ss)}
        sk = {}
        for k, v in ss[0].sattr.items():
            if all(k in s.sattr for s in ss):
                sk[k] = join_vals([s.sattr[k] for s in ss])
        out.sattr = sk
        # traces: common prefix
        chains = []
        for s in ss:
            c, t = [], s.trace
            while t is not None:
                c.append(t)
                t = t[0]
            c.reverse()
            chains.append(c)
        i = 0
        while all(len(c) > i for c in chains) and all(c[i] is chains[0][i] for c in chains):
            i += 1
        base = chains[0][i - 1] if i else None
        alts = [[t[1] for t in c[i:]] for c in chains]
        out.trace = (base, Ev("branch", "", (), alts=alts))
        return out


# ---------------------------------------------------------------- helpers
UNORD_SOURCES = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "set", "frozenset"}


def mk_lin2(d):
    return Lin(d[0], d[1])


def strip_common(pa, pb):
    pa, pb = list(pa), list(pb)
    while pa and pb:
        x, y = pa[0], pb[0]
        if x == y and not isinstance(x, Rep):
            pa.pop(0); pb.pop(0)
            continue
        if isinstance(x, C) and isinstance(y, C):
            n = 0
            while n < min(len(x.v), len(y.v)) and x.v[n] == y.v[n]:
                n += 1
            if n == 0:
                break
            pa[0], pb[0] = C(x.v[n:]), C(y.v[n:])
            if pa[0].v == "":
                pa.pop(0)
            if pb[0].v == "":
                pb.pop(0)
            if pa and pb and isinstance(pa[0], C) and isinstance(pb[0], C) and (pa[0].v and pb[0].v) and pa[0].v[0] != pb[0].v[0]:
                break
            continue
        break
    return pa, pb


def nonempty(p):
    if isinstance(p, C):
        return bool(p.v)
    if isinstance(p, Sym):
        return p.truth is True
    if isinstance(p, Op):
        return p.name == "str" and not is_strish(p.args[0])
    return False


def star_elems(segs):
    out = []
    flat_elems(segs, out)
    u = []
    for e in out:
        if e not in u:
            u.append(e)
    return u


def flat_elems(alt, out):
    for s in alt:
        if s[0] == "1":
            out.append(s[1])
        elif s[0] == "*":
            for a in sorted(s[1], key=repr):
                flat_elems(a, out)


def dict_keys(segs):
    out = []
    for s in segs:
        if s[0] == "1":
            out.append(("1", s[1]))
        elif s[0] == "**":
            out.append(("*", frozenset([(("1", Op("key", (s[1],))),)]), s[1], False))
        else:
            out.append(("*", frozenset(tuple(dict_keys(a)) for a in s[1]), s[2], s[3]))
    return out


def dict_values(segs):
    out = []
    for s in segs:
        if s[0] == "1":
            out.append(("1", s[2]))
        elif s[0] == "**":
            out.append(("*", frozenset([(("1", Op("value", (s[1],))),)]), s[1], False))
        else:
            out.append(("*", frozenset(tuple(dict_values(a)) for a in s[1]), s[2], s[3]))
    return out


def dict_items(segs):
    out = []
    for s in segs:
        if s[0] == "1":
            out.append(("1", Tup((s[1], s[2]))))
        elif s[0] == "**":
            out.append(("*", frozenset([(("1", Tup((Op("key", (s[1],)), Op("value", (s[1],))))),)]), s[1], False))
        else:
            out.append(("*", frozenset(tuple(dict_items(a)) for a in s[1]), s[2], s[3]))
    return out


def dict_set(segs, k, val):
    segs = list(segs)
    for i, s in enumerate(segs):
        if s[0] == "1" and s[1] == k:
            segs[i] = ("1", k, val)
            return tuple(segs)
    segs.append(("1", k, val))
    return tuple(segs)


def merge_dict(a, b):
    out = list(a)
    for s in b:
        if s[0] == "1":
            out = list(dict_set(out, s[1], s[2]))
        else:
            out.append(s)
    return tuple(out)


def widen_segs(old, news, src, unord):
    """old list segs, news: list of post segs. -> (segs, opaque)"""
    base = list(old)
    star = None
    if base and base[-1][0] == "*" and base[-1][2] == src:
        star = base[-1]
    alts = set(star[1]) if star else set()
    opaque = False
    for nw in news:
        nw = list(nw)
        if nw[: len(base)] == base:
            delta = tuple(nw[len(base):])
        elif star is not None and nw[: len(base) - 1] == base[:-1] and len(nw) >= len(base) and nw[len(base) - 1][0] == "*" and nw[len(base) - 1][2] == src:
            alts |= set(nw[len(base) - 1][1])
            delta = tuple(nw[len(base):])
        else:
            delta = tuple(nw)
            opaque = True
            # removal or in-place change: everything may be there
            if all(x in base for x in nw):
                delta = ()
        alts.add(delta)
    if alts == {()}:
        return tuple(old), opaque
    if len(alts) > 24:
        flat = []
        for a in alts:
            flat_elems(a, flat)
        alts = {(("1", x),) for x in flat[:24]}
        opaque = True
    s = ("*", frozenset(alts), src, bool(unord) or bool(star and star[3]))
    if star:
        return tuple(base[:-1]) + (s,), opaque
    return tuple(base) + (s,), opaque


def widen_dict(old, news, src, unord):
    base = list(old)
    star = None
    if base and base[-1][0] == "*" and base[-1][2] == src:
        star = base.pop()
    alts = set(star[1]) if star else set()
    opaque = False
    keys = {s[1]: i for i, s in enumerate(base) if s[0] == "1"}
    for nw in news:
        delta = []
        for s in nw:
            if s in base:
                continue
            if s[0] == "*" and s[2] == src:
                alts |= set(s[1])
                continue
            if s[0] == "1" and s[1] in keys:
                i = keys[s[1]]
                base[i] = ("1", s[1], join_vals([base[i][2], s[2]]))
                continue
            delta.append(s)
        if any(s[0] == "1" and s[1] not in [x[1] for x in nw if x[0] == "1"] for s in base):
            opaque = True
        alts.add(tuple(delta))
    if alts == {()} or not alts:
        return tuple(base), opaque
    if len(alts) > 24:
        alts = set(sorted(alts, key=repr)[:24])
        opaque = True
    return tuple(base) + (("*", frozenset(alts), src, bool(unord) or bool(star and star[3])),), opaque


def widen_str(old, news, src, unord):
    po = list(old.parts) if isinstance(old, Cat) else ([] if old == EMPTY else [old])
    rep = None
    base = po
    if po and isinstance(po[-1], Rep) and po[-1].src == src:
        rep = po[-1]
        base = po[:-1]
    alts = set(rep.alts) if rep else set()
    for nw in news:
        pn = list(nw.parts) if isinstance(nw, Cat) else ([] if nw == EMPTY else [nw])
        full = po
        a, b = list(pn), list(full)
        ok = True
        while b:
            if not a:
                ok = False
                break
            if a[0] == b[0]:
                a.pop(0); b.pop(0)
            elif isinstance(a[0], C) and isinstance(b[0], C) and a[0].v.startswith(b[0].v) and len(b) == 1:
                a[0] = C(a[0].v[len(b[0].v):])
                b.pop(0)
            elif isinstance(a[0], Rep) and isinstance(b[0], Rep) and a[0].src == b[0].src == src:
                alts |= set(a[0].alts)
                a.pop(0); b.pop(0)
            else:
                ok = False
                break
        if not ok:
            return None
        alts.add(tuple(a))
    if len(alts) > 16:
        alts = set(sorted(alts, key=repr)[:16])
    return Cat(tuple(base) + (Rep(alts, src, bool(unord) or bool(rep and rep.unord)),))


def state_eq(a, b):
    if a.sattr != b.sattr:
        return False
    if set(a.heap) != set(b.heap):
        return False
    for k, o in a.heap.items():
        p = b.heap[k]
        if o is not p and not o.same(p):
            return False
    return True


_gen_cache = {}


def memoized(d):
    if isinstance(d, Op) and d.name in ("call", "mcall") and d.args:
        d = d.args[0]
    return isinstance(d, Ext) and d.name in ("functools.lru_cache", "functools.cache")


def is_generator(node):
    if node in _gen_cache:
        return _gen_cache[node]
    r = False
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            r = True
            break
        if isinstance(x, ast.GeneratorExp):
            pass
        todo.extend(ast.iter_child_nodes(x))
    _gen_cache[node] = r
    return r


def declare(node, fr):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, ast.Global):
            fr.glob |= set(x.names)
        elif isinstance(x, ast.Nonlocal):
            fr.nonloc |= set(x.names)
        todo.extend(c for c in ast.iter_child_nodes(x) if isinstance(c, (ast.stmt, ast.excepthandler, ast.match_case)))
