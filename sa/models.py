"""Abstract models of Python builtins and of the libraries vss-tools uses."""
from __future__ import annotations

import ast
import functools
import os
import re as _re

from core import *  # noqa
from core import _has_ref
from interp import (EXC_PARENT, dict_items, dict_keys, dict_set, dict_values, merge_dict, star_elems)

FOLD_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "startswith", "endswith", "replace",
            "title", "capitalize", "isdigit", "isnumeric", "isalpha", "isupper", "islower", "find", "index", "rfind", "count",
            "join", "encode", "decode", "zfill", "ljust", "rjust", "partition", "rpartition", "isidentifier", "swapcase",
            "hex", "casefold", "removeprefix", "removesuffix", "bit_length", "isspace", "isalnum", "rindex", "center", "is_integer",
            "to_bytes", "format", "isdecimal", "isascii", "expandtabs"}
STR_RET = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "title", "capitalize", "join", "format", "zfill", "ljust",
           "rjust", "removeprefix", "removesuffix", "casefold", "swapcase", "decode", "center", "hexdigest", "hex", "read_text",
           "as_posix"}
BOOL_RET = {"startswith", "endswith", "isdigit", "isnumeric", "isalpha", "isupper", "islower", "isidentifier", "exists",
            "is_file", "is_dir", "isspace", "isalnum", "is_integer", "issubset", "issuperset", "isdecimal", "isascii"}
INT_RET = {"find", "index", "rfind", "count", "bit_length", "rindex"}
LIST_RET = {"split", "rsplit", "splitlines"}
LOGM = {"debug", "info", "warning", "error", "critical", "fatal", "exception", "log", "warn"}
TYPES = {"str": ("str",), "int": ("int", "bool"), "float": ("float",), "bool": ("bool",), "list": ("list",), "dict": ("dict",),
         "set": ("set",), "tuple": ("tuple",), "bytes": ("bytes",)}


def caught(it, excname):
    e = Exc(Ext(excname))
    for _, cs in it.catching:
        for c in cs:
            if it.exc_matches(e, c):
                return True
    return False


def maybe_raise(it, st, excname, node, *args):
    if caught(it, excname):
        s = st.clone()
        return it.raise_(s, excname, node, *args)
    return []


# ------------------------------------------------------------------ isinstance
def isinst(it, v, c, st):
    """True/False/None"""
    if isinstance(v, Alt):
        rs = {isinst(it, x, c, st) for x in v.vals}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(c, Tup):
        rs = [isinst(it, v, x, st) for x in c.items]
        return True if True in rs else (None if None in rs else False)
    if isinstance(c, Op) and c.name == "typeor":
        rs = [isinst(it, v, x, st) for x in c.args]
        return True if True in rs else (None if None in rs else False)
    if isinstance(c, Op) and c.name == "subscript":
        c = c.args[0]
    if c == NONE or c == Ext("types.NoneType"):
        return it.is_none(v, st)
    if isinstance(c, Cls):
        if isinstance(v, NTup):
            return v.cls.isa(c)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is None:
                return None
            if o.kind != "obj":
                return False
            return isinstance(o.cls, Cls) and o.cls.isa(c)
        if isinstance(v, ObjV):
            return isinstance(v.cls, Cls) and v.cls.isa(c)
        if isinstance(v, Sym):
            if v.none is True:
                return False
            if isinstance(v.cls, Cls):
                if v.cls.isa(c):
                    return True if it.is_none(v, st) is False else None
                if v.info.get("exact") or not c.isa(v.cls):
                    return False
                return None
            if v.ty and v.ty != "obj":
                return False
            return None
        if isinstance(v, EnumM):
            return v.cls.isa(c)
        if isinstance(v, Op) and v.name == "exc":
            return isinstance(v.args[0], Cls) and v.args[0].isa(c)
        if isinstance(v, (C, Tup, Cat, Lin, Fn, ListV, DictV)):
            return False
        return None
    if isinstance(c, Ext):
        n = c.name.split(".")[-1]
        if c.name == "object":
            return True
        if isinstance(v, C):
            t = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes, "list": list, "dict": dict, "set": set,
                 "tuple": tuple}.get(n)
            return isinstance(v.v, t) if t else (None if "." in c.name else False)
        if isinstance(v, (Cat, Rep)):
            return n == "str"
        if isinstance(v, Tup):
            return n == "tuple"
        if isinstance(v, Lin):
            return n in ("int",) if n in TYPES else None
        if isinstance(v, EnumM):
            return any(isinstance(b, Ext) and b.name == n for b in v.cls.mro())
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is None:
                return None
            if o.kind in ("list", "set", "dict"):
                return n == o.kind if n in TYPES else (n in ("Iterable", "Mapping", "Sequence") or None)
            return any(isinstance(b, Ext) and (b.name == c.name) for b in o.cls.mro()) if isinstance(o.cls, Cls) and n in TYPES else None
        if isinstance(v, (ListV,)):
            return n == v.kind if n in TYPES else None
        if isinstance(v, DictV):
            return n == "dict" if n in TYPES else None
        ty = getattr(v, "ty", None)
        if isinstance(v, Sym) and v.none is True:
            return False
        if isinstance(v, Sym) and isinstance(v.cls, Cls):
            return False if n in TYPES else None
        if ty == "num":
            if n in ("int", "float", "bool"):
                return None
            return False if n in TYPES else None
        if ty and n in TYPES:
            if ty == "bool" and n == "int":
                return True
            r = ty == n
            if r and it.is_none(v, st) is None:
                return None
            return r
        if ty == "path" and n in ("Path", "PurePath"):
            return True
        return None
    return None


# ------------------------------------------------------------------ externals
def call_ext(it, name, args, kw, st, node):
    r = it.ctx.ext_call(it, name, args, kw, st, node)
    if r is not None:
        return r
    h = EXTS.get(name)
    if h is not None:
        try:
            r = h(it, args, kw, st, node)
        except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get("VSA_DEBUG"):
                raise
            it.note(f"model of {name}: {e!r}")
            r = None
        if r is not None:
            return r
    owner, _, meth = name.rpartition(".")
    if owner in UNBOUND and args and not meth.startswith("_"):
        # an unbound method of a builtin class, as in map(str.strip, lines)
        return call_meth(it, args[0], meth, list(args[1:]), kw, st, node)
    if name in EXC_PARENT or name.split(".")[-1] in EXC_PARENT:
        return [(Op("exc", (Ext(name),) + tuple(it.sn(a, st) for a in args)), st)]
    if name.split(".")[-1] in LOGM and name.split(".")[0] in ("logging", "log", "warnings"):
        it.emit(st, "log", name.split(".")[-1], tuple(it.sn(a, st) for a in args), node=node)
        return [(NONE, st)]
    out = it.opaque_call(name, Ext(name), args, kw, st, node)
    return out


EXTS = {}
UNBOUND = {"str", "bytes", "list", "dict", "set", "frozenset", "tuple", "int", "float", "pathlib.Path", "pathlib.PurePath"}


def ext(*names):
    def d(f):
        for n in names:
            EXTS[n] = f
        return f
    return d


def opb(name, args, it, st, ty=None):
    return Op(name, tuple(it.sn(a, st) for a in args), ty)


@ext("len")
def _len(it, args, kw, st, node):
    v = args[0]
    if isinstance(v, C):
        try:
            return [(C(len(v.v)), st)]
        except TypeError:
            return it.raise_(st, "TypeError", node, v)
    if isinstance(v, Tup):
        return [(C(len(v.items)), st)]
    if isinstance(v, Alt) and len(v.vals) <= 4:
        return it.alt_map(v, st, lambda x, s: _len(it, [x], kw, s, node))
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if o is not None and o.kind in ("list", "dict") and not o.opaque and all(s[0] == "1" for s in o.segs):
            if o.kind == "list" or all(isinstance(s[1], (C, EnumM)) for s in o.segs) or len(o.segs) <= 1:
                return [(C(len(o.segs)), st)]
        if o is not None and o.kind == "obj" and isinstance(o.cls, Cls) and isinstance(o.cls.lookup("__len__"), Fn):
            return it.call(Bound(v, o.cls.lookup("__len__")), [], {}, st, node)
        if o is not None and o.kind == "set" and not o.opaque and all(s[0] == "1" for s in o.segs):
            if len(o.segs) <= 1 or all(isinstance(s[1], C) for s in o.segs):
                return [(C(len({s[1] for s in o.segs})), st)]
    if isinstance(v, (Fn, Cls, Lin)) or isinstance(v, Sym) and (v.ty in ("int", "float", "num", "bool", "node") or v.none is True):
        return it.raise_(st, "TypeError", node, v)
    return [(opb("len", [v], it, st, "int"), st)]


@ext("isinstance")
def _isinstance(it, args, kw, st, node):
    v, c = args[0], args[1]
    r = isinst(it, v, c, st)
    if r is None:
        o = Op("isinstance", (it.sn(v, st), c), "bool")
        f = st.facts.get(("truth", o))
        if f is not None:
            return [(C(f), st)]
        return [(o, st)]
    return [(C(r), st)]


@ext("issubclass")
def _issub(it, args, kw, st, node):
    a, b = args
    if isinstance(a, Cls) and isinstance(b, Cls):
        return [(C(a.isa(b)), st)]
    return [(Op("issubclass", (a, b), "bool"), st)]


@ext("getattr")
def _getattr(it, args, kw, st, node):
    d = args[2] if len(args) > 2 else None
    if isinstance(args[1], C):
        return it.getattr(args[0], args[1].v, st, node, d)
    if isinstance(args[1], Alt) and len(args[1].vals) <= 4 and all(isinstance(x, C) for x in args[1].vals):
        out = []
        for x in sorted(args[1].vals, key=repr):
            out.extend(it.getattr(args[0], x.v, st.clone(), node, d))
        return out
    r = it.ctx.sym_attr(it, args[0], args[1], st)
    if r is not None and r not in ("missing", "unknown"):
        return [(r, st)]
    return [(opb("attr", args, it, st), st)]


@ext("hasattr")
def _hasattr(it, args, kw, st, node):
    if isinstance(args[1], C):
        sent = Op("\0missing")
        rs = it.getattr(args[0], args[1].v, st, node, sent)
        out = []
        for v, s in rs:
            if isinstance(v, Exc):
                out.append((FALSE, s))
            elif v == sent:
                out.append((FALSE, s))
            elif isinstance(v, Op) and v.name == "attr" or isinstance(v, Alt):
                out.append((Op("hasattr", (it.sn(args[0], s), args[1]), "bool"), s))
            else:
                out.append((TRUE, s))
        return out
    return [(opb("hasattr", args, it, st, "bool"), st)]


@ext("setattr", "object.__setattr__")
def _setattr(it, args, kw, st, node):
    if isinstance(args[1], C):
        return it.setattr(args[0], args[1].v, args[2], st, node)
    it.emit(st, "setattr", "?", (args[0], args[1], it.sn(args[2], st)), node=node)
    if isinstance(args[0], Sym):
        for k in [k for k in st.sattr if k[0] == args[0].path]:
            st.sattr[k] = join_vals([st.sattr[k], args[2]])
    return [(NONE, st)]


@ext("str")
def _str(it, args, kw, st, node):
    if not args:
        return [(EMPTY, st)]
    v = args[0]
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if o is not None and o.kind == "obj" and isinstance(o.cls, Cls):
            m = o.cls.lookup("__str__")
            if isinstance(m, Fn):
                return it.call(Bound(v, m), [], {}, st, node)
    return [(it.tostr(v, st), st)]


@ext("repr")
def _repr(it, args, kw, st, node):
    if isinstance(args[0], C):
        return [(C(repr(args[0].v)), st)]
    return [(opb("repr", args, it, st, "str"), st)]


@ext("int")
def _int(it, args, kw, st, node):
    if not args:
        return [(C(0), st)]
    v = args[0]
    if all(isinstance(a, C) for a in args):
        try:
            return [(C(int(*[a.v for a in args])), st)]
        except ValueError:
            return it.raise_(st, "ValueError", node, v)
        except TypeError:
            return it.raise_(st, "TypeError", node, v)
    if len(args) == 1 and (lin_of(v) is not None and getattr(v, "ty", "int") in ("int", "bool") and not isinstance(v, C)):
        return [(v, st)]
    if v == NONE or isinstance(v, Ref):
        return it.raise_(st, "TypeError", node, v)
    return [(opb("int", args, it, st, "int"), st)] + maybe_raise(it, st, "ValueError", node, v)


@ext("float")
def _float(it, args, kw, st, node):
    if args and isinstance(args[0], C):
        try:
            return [(C(float(args[0].v)), st)]
        except ValueError:
            return it.raise_(st, "ValueError", node)
        except TypeError:
            return it.raise_(st, "TypeError", node)
    if args and getattr(args[0], "ty", None) == "float":
        return [(args[0], st)]
    return [(opb("float", args, it, st, "float"), st)] + maybe_raise(it, st, "ValueError", node)


@ext("bool")
def _bool(it, args, kw, st, node):
    if not args:
        return [(FALSE, st)]
    t = it.truth(args[0], st)
    if t is not None:
        return [(C(t), st)]
    if getattr(args[0], "ty", None) == "bool":
        return [(args[0], st)]
    return [(Op("not", (Op("not", (args[0],), "bool"),), "bool"), st)]


@ext("list", "tuple")
def _list(it, args, kw, st, node):
    if not args:
        return [(it.new_list(st, node, (), tag="list()"), st)]
    if isinstance(args[0], C) and args[0].v is None:
        return it.raise_(st, "TypeError", node)
    segs, un = it.iter_segs(args[0], st)
    if segs is None:
        segs = [("*", frozenset([(("1", opb("elem", [args[0]], it, st)),)]), it.sn(args[0], st), False)]
    return [(it.new_list(st, node, segs, unord=un, tag="list()"), st)]


@ext("set", "frozenset")
def _set(it, args, kw, st, node):
    if not args:
        return [(it.new_list(st, node, (), "set", tag="set()", unord=True), st)]
    segs, un = it.iter_segs(args[0], st)
    if segs is None:
        segs = [("*", frozenset([(("1", opb("elem", [args[0]], it, st)),)]), it.sn(args[0], st), False)]
    return [(it.new_list(st, node, uniq_segs(segs), "set", tag="set()", unord=True), st)]


def uniq_segs(segs):
    out, seen = [], set()
    for s in segs:
        if s[0] == "1":
            if s[1] in seen:
                continue
            seen.add(s[1])
        out.append(s)
    return out


@ext("dict")
def _dict(it, args, kw, st, node):
    segs = ()
    if args:
        v = args[0]
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        if o is not None and o.kind == "dict":
            segs = o.segs
        else:
            sg, _ = it.iter_segs(v, st)
            if sg is not None and all(s[0] == "1" and isinstance(s[1], Tup) and len(s[1].items) == 2 for s in sg):
                for s in sg:
                    segs = dict_set(segs, s[1].items[0], s[1].items[1])
            elif sg is not None and not isinstance(v, Sym):
                segs = pair_segs(sg)
            else:
                segs = (("**", it.sn(v, st)),)
    for k, v in kw.items():
        if k == "**":
            segs += (("**", v),)
        else:
            segs = dict_set(segs, C(k), v)
    r = it.alloc(st, node, "dict", tag="dict()")
    st.heap[r.id] = st.heap[r.id].but(segs=segs)
    return [(r, st)]


@ext("collections.OrderedDict")
def _odict(it, args, kw, st, node):
    return _dict(it, args, kw, st, node)


@ext("collections.defaultdict")
def _defaultdict(it, args, kw, st, node):
    out = _dict(it, args[1:], kw, st, node)
    for r, s in out:
        s.heap[r.id] = s.heap[r.id].but(attrs={"default_factory": args[0] if args else NONE})
    return out


@ext("collections.Counter")
def _counter(it, args, kw, st, node):
    """counts of elements that can be told apart; None when they cannot"""
    o = st.heap.get(args[0].id) if args and isinstance(args[0], Ref) else None
    if o is not None and o.kind == "dict" or kw:
        out = _dict(it, args, kw, st, node)
        for r, s in out:
            s.heap[r.id] = s.heap[r.id].but(attrs={"default_factory": C("counter")})
        return out
    segs = []
    if args:
        sg, _ = it.iter_segs(args[0], st)
        if sg is None or any(s[0] != "1" for s in sg):
            return None
        for s in sg:
            for i, (_, k, n) in enumerate(segs):
                r = it.same(k, s[1], st)
                if r is None:
                    return None
                if r:
                    segs[i] = ("1", k, C(n.v + 1))
                    break
            else:
                segs.append(("1", s[1], C(1)))
    r = it.alloc(st, node, "dict", tag="counter")
    st.heap[r.id] = st.heap[r.id].but(segs=tuple(segs), attrs={"default_factory": C("counter")})
    return [(r, st)]


def pair_segs(sg):
    out = []
    for s in sg:
        if s[0] == "1":
            if isinstance(s[1], Tup) and len(s[1].items) == 2:
                out.append(("1", s[1].items[0], s[1].items[1]))
            else:
                out.append(("1", Op("item", (s[1], C(0))), Op("item", (s[1], C(1)))))
        else:
            out.append(("*", frozenset(tuple(pair_segs(a)) for a in s[1]), s[2], s[3]))
    return tuple(out)


@ext("range")
def _range(it, args, kw, st, node):
    if all(isinstance(a, C) and isinstance(a.v, int) for a in args):
        r = range(*[a.v for a in args])
        if len(r) <= 80:
            return [(it.new_list(st, node, [("1", C(i)) for i in r], tag="range"), st)]
    a = tuple(it.sn(x, st) for x in args)
    src = Op("range", a, "list")
    el = Op("index", (src,), "int")
    return [(it.new_list(st, node, [("*", frozenset([(("1", el),)]), src, False)], tag="range"), st)]


def map_star(segs, f):
    out = []
    for s in segs:
        if s[0] == "1":
            out.append(("1", f(s[1])))
        else:
            out.append(("*", frozenset(tuple(map_star(a, f)) for a in s[1]), s[2], s[3]))
    return out


@ext("enumerate")
def _enum(it, args, kw, st, node):
    segs, un = it.iter_segs(args[0], st)
    start = args[1] if len(args) > 1 else kw.get("start", C(0))
    if segs is None:
        segs = [("*", frozenset([(("1", opb("elem", [args[0]], it, st)),)]), it.sn(args[0], st), False)]
    out = []
    exact = isinstance(start, C)
    for i, s in enumerate(segs):
        if s[0] == "1" and exact:
            out.append(("1", Tup((C(start.v + i), s[1]))))
        else:
            exact = False
            src = it.sn(args[0], st)
            out += map_star([s], lambda x: Tup((Op("index", (src, start), "int"), x)))
    return [(it.new_list(st, node, out, tag="enum", unord=un), st)]


@ext("zip")
def _zip(it, args, kw, st, node):
    ss = [it.iter_segs(a, st) for a in args]
    if all(s[0] is not None and all(x[0] == "1" for x in s[0]) for s in ss):
        n = min(len(s[0]) for s in ss) if ss else 0
        return [(it.new_list(st, node, [("1", Tup([s[0][i][1] for s in ss])) for i in range(n)], tag="zip", unord=any(s[1] for s in ss)), st)]
    els = []
    for a, (sg, un) in zip(args, ss):
        if sg is None:
            els.append(opb("elem", [a], it, st))
        else:
            els.append(join_vals(star_elems(sg)) if star_elems(sg) else TOP)
    src = Op("zip", tuple(it.sn(a, st) for a in args))
    return [(it.new_list(st, node, [("*", frozenset([(("1", Tup(els)),)]), src, any(s[1] for s in ss))], tag="zip", unord=any(s[1] for s in ss)), st)]


@ext("sorted")
def _sorted(it, args, kw, st, node):
    segs, un = it.iter_segs(args[0], st)
    if segs is None:
        segs = [("*", frozenset([(("1", opb("elem", [args[0]], it, st)),)]), it.sn(args[0], st), False)]
    ks = keyed_sort(it, segs, kw, st, node)
    segs = sort_segs(segs, kw) if ks is None else ks
    return [(it.new_list(st, node, segs, tag="sorted"), st)]


def path_text(it, v):
    """the text of a path the context knows"""
    canon = getattr(it.ctx, "canon", None)
    return canon(v) if canon is not None and isinstance(v, (Sym, Op, Meth)) and (not isinstance(v, Sym) or v in it.ctx.paths) else None


def path_sort(it, segs, kw):
    if kw.get("key") not in (None, NONE) or len(segs) < 2 or not all(s[0] == "1" for s in segs) or "reverse" in kw and kw["reverse"] not in (TRUE, FALSE):
        return None
    ks = [path_text(it, s[1]) for s in segs]
    if None in ks:
        return None
    return [segs[i] for i in sorted(range(len(ks)), key=lambda i: ks[i], reverse=kw.get("reverse") == TRUE)]


def keyed_sort(it, segs, kw, st, node):
    o = path_sort(it, segs, kw)
    if o is not None:
        return o
    """stable sort by a key function with known results; None when not decidable"""
    if not kw.get("key") or kw["key"] == NONE or not all(s[0] == "1" for s in segs) or "reverse" in kw and kw["reverse"] not in (TRUE, FALSE):
        return None
    ks = []
    for i, s in enumerate(segs):
        it.loopidx.append(("key", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), i))
        try:
            rs = it.call(kw["key"], [s[1]], {}, st, node)
        finally:
            it.loopidx.pop()
        if len(rs) != 1 or rs[0][1] is not st or isinstance(rs[0][0], Exc):
            return None
        k = to_py(rs[0][0])
        if k is NOPY:
            k = path_text(it, rs[0][0])
        if k is None:
            return None
        ks.append(k)
    try:
        o = sorted(range(len(ks)), key=lambda i: ks[i], reverse=kw.get("reverse") == TRUE)
    except TypeError:
        return None
    return [segs[i] for i in o]


NOPY = object()


def to_py(v):
    if isinstance(v, C):
        return v.v
    if isinstance(v, Tup):
        xs = [to_py(x) for x in v.items]
        return NOPY if NOPY in xs else tuple(xs)
    return NOPY


def sort_segs(segs, kw):
    if all(s[0] == "1" and isinstance(s[1], C) for s in segs) and not kw.get("key"):
        try:
            rev = kw.get("reverse") == TRUE
            return [("1", C(x)) for x in sorted([s[1].v for s in segs], reverse=rev)]
        except TypeError:
            pass
    pys = [to_py(s[1]) if s[0] == "1" else NOPY for s in segs]
    if NOPY not in pys and not kw.get("key"):
        try:
            o = sorted(range(len(pys)), key=lambda i: pys[i], reverse=kw.get("reverse") == TRUE)
            return [segs[i] for i in o]
        except TypeError:
            pass
    if sum(1 for s in segs if s[0] == "1") > 1:
        # order unknown: one summary element
        els = star_elems(segs)
        src = Op("sorted", (ListV("list", tuple(segs), False),))
        return [("*", frozenset((("1", e),) for e in els), src, False)]
    return clear_unord(segs, "sorted")


def clear_unord(segs, tag=None):
    out = []
    for s in segs:
        if s[0] == "1":
            out.append(s)
        else:
            src = s[2] if tag is None else Op(tag, (s[2],))
            out.append(("*", frozenset(tuple(clear_unord(a)) for a in s[1]), src, False))
    return out


@ext("dict.fromkeys")
def _fromkeys(it, args, kw, st, node):
    """Keys in order of first appearance: the source itself without repetitions."""
    segs, un = it.iter_segs(args[0], st)
    if segs is None:
        return None
    val = args[1] if len(args) > 1 else NONE
    out = []
    for s in segs:
        if s[0] == "1":
            out.append(("1", s[1], val))
        else:
            out.append(("*", frozenset([tuple(("1", e, val) for e in star_elems([s]))]), s[2], s[3]))
    r = it.alloc(st, node, "dict", tag="fromkeys")
    st.heap[r.id] = st.heap[r.id].but(segs=tuple(out), unord=un)
    return [(r, st)]


@ext("reversed")
def _reversed(it, args, kw, st, node):
    segs, un = it.iter_segs(args[0], st)
    if segs is None:
        return None
    segs = [s if s[0] == "1" else s[:2] + (Op("reversed", (s[2],)),) + s[3:] for s in reversed(segs)]
    return [(it.new_list(st, node, segs, tag="rev", unord=un), st)]


@ext("any", "all")
def _anyall(it, args, kw, st, node):
    return None


def mk_anyall(isany):
    def f(it, args, kw, st, node):
        segs, un = it.iter_segs(args[0], st)
        if segs is None:
            return [(opb("any" if isany else "all", args, it, st, "bool"), st)]
        unk = []
        for s in segs:
            if s[0] == "1":
                t = it.truth(s[1], st)
                if t is isany:
                    return [(C(isany), st)]
                if t is None:
                    unk.append(s[1])
            else:
                ts = [it.truth(e, st) for e in star_elems([s])]
                if ts and all(t is (not isany) for t in ts):
                    continue
                unk.append(s)
        if not unk:
            return [(C(not isany), st)]
        if len(unk) == 1 and isinstance(unk[0], V):
            return _bool(it, [unk[0]], {}, st, node)
        o = Op("any" if isany else "all", tuple(it.sn(a, st) for a in args), "bool")
        f = st.facts.get(("truth", o))
        return [(C(f) if f is not None else o, st)]
    return f


EXTS["any"] = mk_anyall(True)
EXTS["all"] = mk_anyall(False)


def mk_minmax(name, f):
    def g(it, args, kw, st, node):
        vals = list(args)
        if len(args) == 1:
            segs, un = it.iter_segs(args[0], st)
            if segs is None or not all(s[0] == "1" for s in segs):
                return [(opb(name, args, it, st, "int"), st)]
            vals = [s[1] for s in segs]
        if vals and all(isinstance(v, C) for v in vals) and not kw:
            try:
                return [(C(f([v.v for v in vals])), st)]
            except TypeError:
                return it.raise_(st, "TypeError", node)
        return [(opb(name, args, it, st, "int"), st)]
    return g


EXTS["min"] = mk_minmax("min", min)
EXTS["max"] = mk_minmax("max", max)


@ext("sum")
def _sum(it, args, kw, st, node):
    segs, un = it.iter_segs(args[0], st)
    if segs is not None and all(s[0] == "1" for s in segs):
        cur = [(args[1] if len(args) > 1 else C(0), st)]
        for s in segs:
            nxt = []
            for v, x in cur:
                if isinstance(v, Exc):
                    nxt.append((v, x))
                else:
                    nxt.extend(it.binop(ast.Add, v, s[1], x, node))
            cur = nxt
        return cur
    return [(opb("sum", args, it, st, "int"), st)]


@ext("abs", "round", "ord", "chr", "hex", "bin", "oct", "hash", "id", "divmod", "pow")
def _fold(it, args, kw, st, node):
    return None


def mk_fold(name, f, ty):
    def g(it, args, kw, st, node):
        if all(isinstance(a, C) for a in args) and name not in ("hash", "id"):
            try:
                return [(C(f(*[a.v for a in args])), st)]
            except (TypeError, ValueError):
                return it.raise_(st, "TypeError", node, *args)
        return [(opb(name, args, it, st, ty), st)]
    return g


for _n, _f, _t in (("abs", abs, "int"), ("round", round, "int"), ("ord", ord, "int"), ("chr", chr, "str"), ("hex", hex, "str"),
                   ("bin", bin, "str"), ("oct", oct, "str"), ("hash", hash, "int"), ("id", id, "int"), ("pow", pow, "int"),
                   ("divmod", divmod, None)):
    EXTS[_n] = mk_fold(_n, _f, _t)


@ext("format")
def _format(it, args, kw, st, node):
    return [(it.format_value(args[0], args[1] if len(args) > 1 else None, -1, st), st)]


def loop_ast(it, st, node, src, var, elt):
    """Run a synthetic list comprehension over a value."""
    return it.comp(hid_ast(it, st, node, src, elt), st, "list")


def expr_ast(it, st, node, src, elt):
    return it.ev(hid_ast(it, st, node, src, elt), st)


def hid_ast(it, st, node, src, elt):
    c = ast.parse(src, mode="eval").body
    for n in ast.walk(c):
        n.lineno, n.col_offset = getattr(node, "lineno", 0), getattr(node, "col_offset", 0)
        if isinstance(n, ast.Name) and n.id.startswith("HID_"):
            n.id = "\0" + n.id
    for k, v in elt.items():
        it.assign_name("\0HID_" + k, v, st)
    return c


@ext("map")
def _map(it, args, kw, st, node):
    if len(args) != 2:
        return None
    return loop_ast(it, st, node, "[HID_f(HID_x) for HID_x in HID_xs]", None, {"f": args[0], "xs": args[1]})


@ext("filter")
def _filter(it, args, kw, st, node):
    if args[0] == NONE:
        return loop_ast(it, st, node, "[HID_x for HID_x in HID_xs if HID_x]", None, {"xs": args[1]})
    return loop_ast(it, st, node, "[HID_x for HID_x in HID_xs if HID_f(HID_x)]", None, {"f": args[0], "xs": args[1]})


@ext("next")
def _next(it, args, kw, st, node):
    segs, un = it.iter_segs(args[0], st)
    if segs:
        if segs[0][0] == "1":
            return [(segs[0][1], st)]
        els = star_elems(segs)
        out = []
        if els:
            out.append((join_vals(els), st.clone()))
        if len(args) > 1:
            out.append((args[1], st))
        if out:
            return out
    if segs == [] and len(args) > 1:
        return [(args[1], st)]
    return None


@ext("iter")
def _iter(it, args, kw, st, node):
    return [(args[0], st)]


@ext("type")
def _type(it, args, kw, st, node):
    v = args[0]
    if isinstance(v, C):
        return [(Ext(type(v.v).__name__), st)]
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if o is not None:
            return [(o.cls if o.kind == "obj" else Ext(o.kind), st)]
    if isinstance(v, Sym) and isinstance(v.cls, Cls):
        return [(v.cls, st)]
    if isinstance(v, Tup):
        return [(v.cls if isinstance(v, NTup) else Ext("tuple"), st)]
    if isinstance(v, Cat):
        return [(Ext("str"), st)]
    if isinstance(v, (Fn, Bound, Cls, ModV)):
        return [(Ext({Fn: "function", Bound: "method", Cls: "type", ModV: "module"}[type(v)]), st)]
    if isinstance(v, EnumM):
        return [(v.cls, st)]
    if isinstance(v, Sym) and v.ty in TYPES and v.none is False:
        return [(Ext(v.ty), st)]
    return [(opb("type", [v], it, st), st)]


@ext("callable")
def _callable(it, args, kw, st, node):
    if isinstance(args[0], (Fn, Cls, Bound, Meth)):
        return [(TRUE, st)]
    if isinstance(args[0], (C, Ref, Tup)):
        return [(FALSE, st)]
    return None


@ext("print")
def _print(it, args, kw, st, node):
    if "file" in kw:
        parts = []
        for i, a in enumerate(args):
            if i:
                parts.append(kw.get("sep", C(" ")))
            parts.append(it.tostr(a, st))
        parts.append(kw.get("end", C("\n")))
        fo = st.heap.get(kw["file"].id) if isinstance(kw["file"], Ref) else None
        if fo is not None and fo.attrs and "strio" in fo.attrs:
            return strio_meth(it, kw["file"], fo, "write", [cat(parts)], {}, st, node)
        it.emit(st, "sink", "print", (kw["file"], it.sn(cat(parts), st)), node=node)
    else:
        it.emit(st, "sink", "stdout", (Ext("sys.stdout"), it.sn(Tup(args), st)), node=node)
    return [(NONE, st)]


@ext("open", "io.open", "codecs.open")
def _open(it, args, kw, st, node):
    return do_open(it, args[0], args[1] if len(args) > 1 else kw.get("mode", C("r")), kw, st, node)


def do_open(it, path, mode, kw, st, node):
    k = {n: it.sn(v, st) for n, v in kw.items()}
    it.emit(st, "open", "", (it.sn(path, st), mode), k, node=node)
    f = Op("file", (it.sn(path, st), mode), "file")
    return [(f, st)] + maybe_raise(it, st, "FileNotFoundError", node)


@ext("exit", "sys.exit", "quit", "os._exit")
def _exit(it, args, kw, st, node):
    it.emit(st, "exit", "", tuple(args), node=node)
    return [(Exc(Ext("SystemExit"), args, it.loc(node)), st)]


@ext("copy.copy")
def _copycopy(it, args, kw, st, node):
    v = args[0]
    if isinstance(v, Ref) and v.id in st.heap:
        o = st.heap[v.id]
        r = it.alloc(st, node, o.kind, tag="shallow")
        st.heap[r.id] = o
        return [(r, st)]
    return _deepcopy(it, args, kw, st, node)


@ext("copy.deepcopy")
def _deepcopy(it, args, kw, st, node):
    v = args[0]
    if isinstance(v, (C, EnumM, Cat, Lin)):
        return [(v, st)]
    if isinstance(v, Ref):
        return [(deep(it, v, st, node, {}), st)]
    r = it.ctx.sym_call(it, v, "__deepcopy__", [], {}, st, node)
    if r is not None:
        return r
    return [(opb("deepcopy", [v], it, st, getattr(v, "ty", None)), st)]


def deep(it, v, st, node, memo):
    if isinstance(v, Ref) and v.id in st.heap:
        if v.id in memo:
            return memo[v.id]
        nid = ("dc", it.ctxid(), getattr(node, "lineno", 0), v.id)
        memo[v.id] = Ref(nid)
        o = st.heap[v.id]
        g = lambda s: tuple([s[0]] + [deep(it, x, st, node, memo) for x in s[1:]]) if s[0] in ("1", "**") else ("*", frozenset(tuple(g(t) for t in a) for a in s[1]), s[2], s[3])
        st.heap[nid] = o.but(segs=tuple(g(s) for s in o.segs), attrs={k: deep(it, x, st, node, memo) for k, x in o.attrs.items()})
        return Ref(nid)
    if isinstance(v, Tup):
        d = [deep(it, x, st, node, memo) for x in v.items]
        return NTup(v.cls, d) if isinstance(v, NTup) else Tup(d)
    return v


@ext("json.dump")
def _jsondump(it, args, kw, st, node):
    f = args[1] if len(args) > 1 else kw.get("fp")
    k = {n: it.sn(v, st) for n, v in kw.items()}
    it.emit(st, "sink", "json", (f, it.sn(args[0], st)), k, node=node)
    return [(NONE, st)]


@ext("json.dumps")
def _jsondumps(it, args, kw, st, node):
    a = [it.sn(args[0], st)] + [Tup((C(k), it.sn(v, st))) for k, v in sorted(kw.items())]
    return [(Op("jsondumps", tuple(a), "str"), st)]


@ext("yaml.dump", "yaml.safe_dump")
def _yamldump(it, args, kw, st, node):
    f = args[1] if len(args) > 1 else kw.get("stream")
    k = {n: it.sn(v, st) for n, v in kw.items()}
    if f is None:
        return [(Op("yamldump", (it.sn(args[0], st),), "str"), st)]
    it.emit(st, "sink", "yaml", (f, it.sn(args[0], st)), k, node=node)
    return [(NONE, st)]


@ext("csv.writer", "csv.DictWriter")
def _csvwriter(it, args, kw, st, node):
    return [(Op("csvwriter", tuple(it.sn(a, st) for a in args) + tuple(Tup((C(k), it.sn(v, st))) for k, v in sorted(kw.items())), "csvwriter"), st)]


@ext("pathlib.Path", "pathlib.PurePath")
def _path(it, args, kw, st, node):
    if len(args) == 1 and getattr(args[0], "ty", None) == "path":
        return [(args[0], st)]
    return [(Op("Path", tuple(it.sn(a, st) for a in args), "path"), st)]


@ext("uuid.UUID")
def _uuidof(it, args, kw, st, node):
    import uuid
    a = args[0] if args else kw.get("hex")
    if isinstance(a, C) and isinstance(a.v, str):
        try:
            return [(Op("uuid", (C(str(uuid.UUID(a.v))),), "uuid"), st)]
        except ValueError:
            return it.raise_(st, "ValueError", node)
    return None


def uuid_of(v):
    import uuid
    if isinstance(v, Op) and v.name == "uuid":
        return uuid.UUID(v.args[0].v)
    if isinstance(v, Ext) and v.name.startswith("uuid.NAMESPACE_"):
        return getattr(uuid, v.name[5:], None)
    return None


def mk_uuid(fn):
    def f(it, args, kw, st, node):
        import uuid
        a = list(args) + [kw[k] for k in ("namespace", "name") if k in kw]
        ns = uuid_of(a[0]) if len(a) == 2 else None
        if ns is not None and isinstance(a[1], C) and isinstance(a[1].v, str):
            return [(Op("uuid", (C(str(getattr(uuid, fn)(ns, a[1].v))),), "uuid"), st)]
        return None
    return f


for _n in ("uuid3", "uuid5"):
    EXTS["uuid." + _n] = mk_uuid(_n)


@ext("keyword.iskeyword", "keyword.issoftkeyword")
def _iskw(it, args, kw, st, node):
    import keyword
    if len(args) == 1 and isinstance(args[0], C):
        return [(C(keyword.iskeyword(args[0].v) if isinstance(args[0].v, str) else False), st)]
    if len(args) == 1 and isinstance(args[0], (Meth, Bound)):
        return [(FALSE, st)]     # a function is no keyword
    return None


@ext("re.compile")
def _recompile(it, args, kw, st, node):
    return [(Op("regex", tuple(args)), st)]


@ext("re.match", "re.fullmatch", "re.search")
def _rematch(it, args, kw, st, node):
    return None


def re_parts(args, kw, pos):
    """(pattern, [const arguments], flags) with everything known, else None"""
    args = list(args)
    flags = 0
    if not args:
        return None
    p = args[0]
    if isinstance(p, Op) and p.name == "regex":
        fl = [x for x in p.args[1:] if isinstance(x, (C, Ext))]
        p = p.args[0]
    else:
        fl = args[pos:] + ([kw["flags"]] if "flags" in kw else [])
        args = args[:pos]
    for f in fl:
        if isinstance(f, C) and isinstance(f.v, int):
            flags |= f.v
        elif isinstance(f, Ext) and f.name.startswith("re.") and hasattr(_re, f.name[3:]):
            flags |= int(getattr(_re, f.name[3:]))
        else:
            return None
    if not isinstance(p, C) or not isinstance(p.v, str) or not all(isinstance(a, C) for a in args[1:]):
        return None
    return p.v, [a.v for a in args[1:]], flags


def mk_re(kind):
    def f(it, args, kw, st, node):
        k = re_parts(args, kw, 2)
        if k is not None and len(k[1]) >= 1 and isinstance(k[1][0], str):
            m = getattr(_re.compile(k[0], k[2]), kind)(*k[1])
            if m is None:
                return [(NONE, st)]
            return [(Op("rematch", (C(kind), C(k[0]), C(k[1][0]), C(k[2])) + tuple(C(x) for x in k[1][1:]), "match"), st)]
        if k is not None and k[1] and not isinstance(k[1][0], str):
            return it.raise_(st, "TypeError", node, *args)
        return [(Op("rematch", (C(kind),) + tuple(it.sn(a, st) for a in args)), st)]
    return f


for _k in ("match", "fullmatch", "search"):
    EXTS["re." + _k] = mk_re(_k)


def match_meth(it, recv, name, args, kw, st, node):
    """method of a match object of a known match"""
    if not (len(recv.args) >= 4 and all(isinstance(a, C) for a in recv.args)):
        return None
    kind, p, t, fl = [a.v for a in recv.args[:4]]
    m = getattr(_re.compile(p, fl), kind)(t, *[a.v for a in recv.args[4:]])
    if m is None or not all(isinstance(a, C) for a in args):
        return None
    try:
        if name in ("group", "start", "end", "span", "groups", "groupdict", "expand", "__getitem__"):
            v = getattr(m, name)(*[a.v for a in args])
        else:
            return None
    except IndexError:
        return it.raise_(st, "IndexError", node)
    if isinstance(v, dict):
        r = it.alloc(st, node, "dict", tag="groupdict")
        st.heap[r.id] = st.heap[r.id].but(segs=tuple(("1", C(a), C(b)) for a, b in v.items()))
        return [(r, st)]
    return [(from_py(v), st)]


def from_py(v):
    return Tup([from_py(x) for x in v]) if isinstance(v, tuple) else C(v)


@ext("re.sub")
def _resub(it, args, kw, st, node):
    k = re_parts(args, {x: y for x, y in kw.items() if x == "flags"}, 4)
    if k is not None and len(k[1]) >= 2 and all(isinstance(x, str) for x in k[1][:2]) and not set(kw) - {"flags"}:
        return [(C(_re.compile(k[0], k[2]).sub(*k[1])), st)]
    if len(args) == 3 and isinstance(args[1], (Fn, Bound)) and not set(kw) - {"flags"}:
        k = re_parts([args[0], args[2]], kw, 3)
        if k is not None and len(k[1]) == 1 and isinstance(k[1][0], str):
            rx, subj = _re.compile(k[0], k[2]), k[1][0]
            acc = [([], 0, st)]
            for m in rx.finditer(subj):
                nxt = []
                for parts, pos, s in acc:
                    mo = Op("rematch", (C("match"), C(k[0]), C(subj), C(k[2]), C(m.start())), "match")
                    for v, s2 in it.call(args[1], [mo], {}, s, node):
                        if isinstance(v, Exc):
                            return [(v, s2)]
                        nxt.append((parts + [C(subj[pos:m.start()]), it.sn(v, s2)], m.end(), s2))
                acc = nxt
            return [(cat(parts + [C(subj[pos:])]), s) for parts, pos, s in acc]
    return [(Op("resub", tuple(it.sn(a, st) for a in args), "str"), st)]


@ext("re.findall", "re.split")
def _refindall(it, args, kw, st, node):
    return None


def mk_refind(kind):
    def f(it, args, kw, st, node):
        k = re_parts(args, kw, 2)
        if k is None or len(k[1]) != 1 or not isinstance(k[1][0], str):
            return None
        rx = _re.compile(k[0], k[2])
        if kind == "finditer":
            vs = []
            for m in rx.finditer(k[1][0]):
                vs.append(Op("rematch", (C("match"), C(k[0]), C(k[1][0]), C(k[2]), C(m.start())), "match"))
        else:
            vs = [from_py(x) for x in getattr(rx, kind)(k[1][0])]
        return [(it.new_list(st, node, [("1", v) for v in vs], tag="re" + kind), st)]
    return f


for _k in ("findall", "split", "finditer"):
    EXTS["re." + _k] = mk_refind(_k)


@ext("re.escape")
def _reescape(it, args, kw, st, node):
    if isinstance(args[0], C):
        return [(C(_re.escape(args[0].v)), st)]
    return None


@ext("keyword.iskeyword")
def _iskw(it, args, kw, st, node):
    import keyword
    if isinstance(args[0], C):
        return [(C(keyword.iskeyword(args[0].v)), st)]
    return None


    if args and isinstance(args[0], (Meth, Bound, Fn, Ref, Tup)):
        return [(FALSE, st)]
    return None


def mk_gql(name):
    def h(it, args, kw, st, node):
        order = {"GraphQLObjectType": ("name", "fields", "interfaces", "is_type_of", "extensions", "description"),
                 "GraphQLField": ("type_", "args", "resolve", "subscribe", "description", "deprecation_reason"),
                 "GraphQLArgument": ("type_", "default_value", "description", "deprecation_reason"),
                 "GraphQLSchema": ("query",), "GraphQLList": ("of",), "GraphQLNonNull": ("of",), "print_schema": ("schema",)}[name]
        d = dict(zip(order, args))
        d.update(kw)
        if "type" in d and "type_" not in d:
            d["type_"] = d.pop("type")
        f = d.get("fields")
        if isinstance(f, (Fn, Bound)):
            out = []
            for v, s in it.call(f, [], {}, st, node):
                if isinstance(v, Exc):
                    out.append((v, s))
                else:
                    out.append((Op("gql", (C(name), Tup([Tup((C(k), it.sn(v if k == "fields" else x, s))) for k, x in sorted(d.items())]))), s))
            return out
        return [(Op("gql", (C(name), Tup([Tup((C(k), it.sn(x, st))) for k, x in sorted(d.items())]))), st)]
    return h


for _k in ("GraphQLObjectType", "GraphQLField", "GraphQLArgument", "GraphQLSchema", "GraphQLList", "GraphQLNonNull", "print_schema"):
    EXTS["graphql." + _k] = mk_gql(_k)


@ext("enum.auto")
def _auto(it, args, kw, st, node):
    return [(Op("call", (Ext("enum.auto"),)), st)]


@ext("typing.NamedTuple", "typing.TypeVar", "typing.cast")
def _typing(it, args, kw, st, node):
    if len(args) == 2:
        return [(args[1], st)]
    return None


@ext("ast.literal_eval")
def _lit(it, args, kw, st, node):
    return [(opb("literal_eval", args, it, st), st)]


@ext("functools.partial")
def _partial(it, args, kw, st, node):
    return [(Op("partial", (args[0], Tup(args[1:]), Tup([Tup((C(k), v)) for k, v in kw.items()]))), st)]


@ext("importlib.import_module")
def _importmod(it, args, kw, st, node):
    a = it.sn(args[0], st) if args else kw.get("name")
    if isinstance(a, C) and isinstance(a.v, str) and len(args) == 1 and a.v in it.w.modules:
        return [(it.w.import_module(a.v, it, st), st)]
    return [(Op("call", (Ext("importlib.import_module"),) + tuple(args)), st)]


@ext("dataclasses.field")
def _dcfield(it, args, kw, st, node):
    return [(Op("call", (Ext("dataclasses.field"),) + tuple(Tup((C(k), v)) for k, v in sorted(kw.items()))), st)]


# ------------------------------------------------------------------ deletion
def del_item(it, o, k, st, node):
    it.emit(st, "delitem", "", (o, k), node=node)
    if isinstance(o, Ref):
        h = st.heap.get(o.id)
        if h is not None and h.kind == "dict":
            return dict_pop(it, o, h, k, st, node, "del")
        if h is not None and h.kind == "list" and isinstance(k, C) and all(s[0] == "1" for s in h.segs):
            segs = list(h.segs)
            try:
                del segs[k.v]
            except IndexError:
                return it.raise_(st, "IndexError", node)
            st.heap[o.id] = h.but(segs=tuple(segs))
            return [(NONE, st)]
        if h is not None:
            st.heap[o.id] = h.but(opaque=True)
    elif isinstance(o, (Sym, Op)):
        st.sattr.pop((o, ("item", k)), None)
    return [(NONE, st)]


def dict_pop(it, ref, o, k, st, node, default):
    """default: V, None (KeyError), or 'del'"""
    rs = it.dict_get(ref, o, k, st, node, default if isinstance(default, V) else None)
    out = []
    for v, s in rs:
        h = s.heap[ref.id]
        keep = []
        for seg in h.segs:
            if seg[0] == "1":
                r = it.same(seg[1], k, s)
                if r is True:
                    continue
                if r is None:
                    keep.append(("*", frozenset([(seg,), ()]), Op("popped"), False))
                    continue
            elif seg[0] == "*" and isinstance(k, C):
                alts = frozenset(tuple(t for t in a if not (t[0] == "1" and it.same(t[1], k, s) is True)) for a in seg[1])
                seg = ("*", alts, seg[2], seg[3])
            keep.append(seg)
        s.heap[ref.id] = h.but(segs=tuple(keep))
        it.emit(s, "pop", "dict", (ref, k), node=node)
        out.append((v, s))
    return out


# ------------------------------------------------------------------ methods
def call_meth(it, recv, name, args, kw, st, node):
    if isinstance(recv, Alt):
        out = []
        for x in sorted(recv.vals, key=repr):
            out.extend(call_meth(it, x, name, args, kw, st.clone(), node))
        oks = [(v, s) for v, s in out if not isinstance(v, Exc)]
        if oks:
            if all(s.trace is oks[0][1].trace for _, s in oks) and not any(isinstance(x, Ref) for x in recv.vals):
                return [(join_vals([v for v, _ in oks]), oks[0][1])]
            return oks
        return out
    r = it.ctx.sym_call(it, recv, name, args, kw, st, node)
    if r is not None:
        return r
    if name.startswith("__") and not kw and not (isinstance(recv, Ref) and getattr(st.heap.get(recv.id), "kind", "obj") == "obj") and isinstance(recv, (Ref, C, Cat, Sym, Tup)):
        if name == "__setitem__" and len(args) == 2:
            return it.setitem(recv, args[0], args[1], st, node)
        if name == "__getitem__" and len(args) == 1:
            return it.getitem(recv, args[0], st, node)
        if name == "__len__" and not args:
            return it.call(Ext("len"), [recv], {}, st, node)
        if name == "__str__" and not args:
            return it.call(Ext("str"), [recv], {}, st, node)
    if isinstance(recv, Op) and recv.name == "super":
        return call_super(it, recv, name, args, kw, st, node)
    if name in LOGM and is_logger(recv):
        it.emit(st, "log", name, tuple(it.sn(a, st) for a in args), node=node)
        return [(NONE, st)]
    if isinstance(recv, Ref):
        o = st.heap.get(recv.id)
        if o is not None:
            if o.attrs and "strio" in o.attrs:
                return strio_meth(it, recv, o, name, args, kw, st, node) or [(Op("mcall", (C(name), it.sn(recv, st)), None), st)]
            if o.kind in ("list", "set"):
                r = seq_meth(it, recv, o, name, args, kw, st, node)
                if r is not None:
                    return r
            elif o.kind == "dict":
                r = dict_meth(it, recv, o, name, args, kw, st, node)
                if r is not None:
                    return r
            elif o.kind == "obj":
                r = obj_meth(it, recv, o, name, args, kw, st, node)
                if r is not None:
                    return r
    if isinstance(recv, C) and isinstance(recv.v, (str, bytes, int, float)):
        r = const_meth(it, recv, name, args, kw, st, node)
        if r is not None:
            return r
    if is_strish(recv) or isinstance(recv, C) and isinstance(recv.v, str):
        r = str_meth(it, recv, name, args, kw, st, node)
        if r is not None:
            return r
    ty = getattr(recv, "ty", None)
    if ty == "file":
        r = file_meth(it, recv, name, args, kw, st, node)
        if r is not None:
            return r
    if ty == "csvwriter" and name in ("writerow", "writerows", "writeheader"):
        it.emit(st, "sink", name, (recv, it.sn(args[0], st) if args else NONE), node=node)
        return [(NONE, st)]
    if isinstance(recv, Op) and recv.name == "regex" and name in ("match", "fullmatch", "search", "sub", "findall", "split", "finditer"):
        r = EXTS["re." + name](it, [recv] + list(args), kw, st, node)
        if r is not None:
            return r
    if isinstance(recv, Op) and recv.name == "rematch":
        r = match_meth(it, recv, name, args, kw, st, node)
        if r is not None:
            return r
    if name in ("open", "write_text", "write_bytes", "mkdir", "unlink", "touch", "rmdir", "rename", "read_text", "read_bytes",
                "exists", "is_file", "is_dir", "resolve", "absolute", "joinpath", "with_suffix", "iterdir", "glob", "rglob",
                "with_name", "as_posix", "expanduser", "is_absolute", "relative_to", "stat") and ty in ("path", None):
        r = path_meth(it, recv, name, args, kw, st, node)
        if r is not None:
            return r
    if isinstance(recv, (Sym, Op)) and name in ("items", "keys", "values") and not args:
        a = it.sn(recv, st)
        k, v = Op("key", (a,)), Op("value", (a,))
        e = {"items": Tup((k, v)), "keys": k, "values": v}[name]
        return [(it.new_list(st, node, [("*", frozenset([(("1", e),)]), a, False)], tag="symitems"), st)]
    if isinstance(recv, Sym) and name == "get" and args and (recv.ty == "dict"):
        for v, s in it.getitem(recv, args[0], st, node):
            d = args[1] if len(args) > 1 else NONE
            if isinstance(v, Exc):
                return [(d, s)]
            if isinstance(v, Op) and v.name == "item":
                return [(Op("item", v.args + (it.sn(d, s),)), s)]
            return [(v, s)]
    if isinstance(recv, (Sym, Op)) and name == "update" and args:
        it.emit(st, "symupdate", name, (recv,) + tuple(it.sn(a, st) for a in args), node=node)
        return [(NONE, st)]
    if isinstance(recv, Cls) and name == "lower":
        pass
    if recv == NONE:
        return it.raise_(st, "AttributeError", node, recv, C(name))
    ret = "str" if name in STR_RET else "bool" if name in BOOL_RET else "int" if name in INT_RET and ty == "str" else "list" if name in LIST_RET else None
    a = tuple(it.sn(x, st) for x in args) + tuple(Tup((C(n), it.sn(x, st))) for n, x in sorted(kw.items()))
    it.emit(st, "mcall", name, (it.sn(recv, st),) + tuple(it.sn(x, st) for x in args), {n: it.sn(x, st) for n, x in kw.items()}, node=node, raw=tuple(args), recv=recv)
    return [(Op("mcall", (C(name), it.sn(recv, st)) + a, ret), st)]


def is_logger(v):
    for a in atoms(v):
        if isinstance(a, Ext) and (a.name.startswith("logging") or a.name.endswith("getLogger")):
            return True
    return False


def call_super(it, recv, name, args, kw, st, node):
    selfv, cls = recv.args
    if isinstance(cls, Cls):
        runtime = cls
        if isinstance(selfv, Ref) and isinstance(st.heap[selfv.id].cls, Cls):
            runtime = st.heap[selfv.id].cls
        elif isinstance(selfv, Sym) and isinstance(selfv.cls, Cls):
            runtime = selfv.cls
        elif isinstance(selfv, Cls):
            runtime = selfv
        mro = runtime.mro()
        if cls in mro:
            for b in mro[mro.index(cls) + 1:]:
                if isinstance(b, Cls) and name in b.attrs:
                    a = b.attrs[name]
                    if isinstance(a, Fn):
                        return it.call(Bound(selfv, a), args, kw, st, node)
        for b in mro:
            if isinstance(b, Ext) and name == "__init__" and isinstance(selfv, Ref):
                it.emit(st, "superinit", b.name, (selfv,) + tuple(it.sn(a, st) for a in args), {k: it.sn(v, st) for k, v in kw.items()}, node=node, raw=tuple(args), rawkw=dict(kw))
                return [(NONE, st)]
    a = tuple(it.sn(x, st) for x in args)
    it.emit(st, "call", "super." + name, a, {k: it.sn(v, st) for k, v in kw.items()}, node=node, recv=selfv, raw=tuple(args), rawkw=dict(kw))
    if name == "__setattr__" and len(args) == 2 and isinstance(args[0], C):
        return it.setattr(selfv, args[0].v, args[1], st, node)
    return [(Op("mcall", (C("super." + name), it.sn(selfv, st)) + a), st)]


def const_meth(it, recv, name, args, kw, st, node):
    if isinstance(recv.v, str) and name in ("join", "format"):
        return None
    if name in FOLD_STR and all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kw.values()):
        try:
            r = getattr(recv.v, name)(*[a.v for a in args], **{k: v.v for k, v in kw.items()})
        except (TypeError, ValueError, AttributeError) as e:
            return it.raise_(st, type(e).__name__, node, recv)
        if isinstance(r, list):
            return [(it.new_list(st, node, [("1", C(x)) for x in r], tag="cm"), st)]
        if isinstance(r, tuple):
            return [(Tup([C(x) for x in r]), st)]
        return [(C(r), st)]
    if name in ("startswith", "endswith") and args and isinstance(args[0], Tup):
        if all(isinstance(a, C) for a in args[0].items):
            return [(C(getattr(recv.v, name)(tuple(a.v for a in args[0].items))), st)]
    return None


def parts_of(v):
    return list(v.parts) if isinstance(v, Cat) else [v]


def excludes(p, ch):
    """Symbolic part surely contains no character of ch (a literal string)."""
    if isinstance(p, C):
        return ch not in p.v
    if isinstance(p, Sym):
        if p.chars and len(ch) == 1 and ch in p.chars:
            return True
        if p.chars and any(c in p.chars for c in ch):
            return True
        if p.ty in ("int",):
            return not any(c.isdigit() or c == "-" for c in ch)
        return False
    if isinstance(p, Op) and p.name == "str":
        return excludes(p.args[0], ch)
    return False


WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
WORD = frozenset(WS + ".#/[]{}:,;\"'()<>=\\&*%@!|?`~^$+-")
HIDE = {"split", "rsplit", "splitlines", "strip", "lstrip", "rstrip", "count", "find", "rfind", "index", "partition", "rpartition",
        "startswith", "endswith", "replace", "removeprefix", "removesuffix"}


def hidden(it, recv, name, args, kw, st, node):
    """Operation on a string whose symbolic parts contain none of the characters the operation looks for: the parts are opaque
    characters for it."""
    pr = parts_of(recv)
    if not all(isinstance(p, C) and isinstance(p.v, str) or isinstance(p, Sym) and p.truth and p.ty == "str" and p.chars for p in pr):
        return None
    al = list(args) + list(kw.values())
    if not any(isinstance(p, Sym) for p in pr) or not all(isinstance(a, C) for a in al) or kw and set(kw) - {"maxsplit", "sep", "keepends"}:
        return None
    need = set()
    strs = [a.v for a in al if isinstance(a.v, str)]
    if strs:
        need = set(strs[0])
    elif name != "count":
        need = set(WS) if name != "splitlines" else set(WS) - {" ", "\t"}
    if name in ("startswith", "endswith", "removeprefix", "removesuffix", "replace", "find", "rfind", "index", "count", "partition", "rpartition") or strs and len(strs[0]) > 1:
        # a symbolic part must not be able to take part in a match: one excluded character of the literal suffices for inner
        # matches only when the literal is a single character
        if not strs or not strs[0]:
            return None
    for p in pr:
        if isinstance(p, Sym) and not need <= set(p.chars):
            return None
    tab, back = {}, {}
    txt = ""
    for p in pr:
        if isinstance(p, C):
            txt += p.v
        else:
            ch = tab.setdefault(p, chr(0xE000 + len(tab)))
            back[ch] = p
            txt += ch
    try:
        res = getattr(txt, name)(*[a.v for a in args], **{k: v.v for k, v in kw.items()})
    except ValueError:
        return it.raise_(st, "ValueError", node)
    except TypeError:
        return None

    def un(x):
        if isinstance(x, str):
            out, cur = [], ""
            for c in x:
                if c in back:
                    if cur:
                        out.append(C(cur))
                        cur = ""
                    out.append(back[c])
                else:
                    cur += c
            if cur or not out:
                out.append(C(cur))
            return cat(out)
        return C(x)
    if name in ("find", "rfind", "index") and res > 0:
        return None     # positions depend on the length of the symbolic parts
    if isinstance(res, list):
        return [(it.new_list(st, node, [("1", un(x)) for x in res], tag="split"), st)]
    if isinstance(res, tuple):
        return [(Tup([un(x) for x in res]), st)]
    return [(un(res), st)]


def str_meth(it, recv, name, args, kw, st, node):
    if name in HIDE and not isinstance(recv, C):
        r = hidden(it, recv, name, args, kw, st, node)
        if r is not None:
            return r
    if name == "join":
        segs, un = it.iter_segs(args[0], st)
        if segs is None or isinstance(args[0], (Sym, Op)) and not isinstance(args[0], Ref):
            return [(Op("join_str", (recv, it.sn(args[0], st)), "str"), st)]
        parts = join_parts(it, recv, segs, un, st)
        return [(cat(parts), st)]
    if name == "format" and isinstance(recv, C):
        r = fmt(it, recv.v, args, kw, st)
        if r is not None:
            return [(r, st)]
    if name in ("startswith", "endswith"):
        ps = args[0].items if isinstance(args[0], Tup) else [args[0]]
        res = []
        for p in ps:
            res.append(starts(it, recv, p, name == "endswith", st))
        if True in res:
            return [(TRUE, st)]
        if all(r is False for r in res):
            return [(FALSE, st)]
        o = Op("mcall", (C(name), recv) + tuple(args), "bool")
        f = st.facts.get(("truth", o))
        return [(C(f) if f is not None else o, st)]
    if name in ("split", "rsplit") and args and isinstance(args[0], C) and isinstance(recv, (Cat, Sym)):
        sep = args[0].v
        mx = args[1] if len(args) > 1 else kw.get("maxsplit")
        pr = parts_of(recv)
        if all(isinstance(p, C) or excludes(p, sep) for p in pr) and len(sep) == 1:
            out = [[]]
            for p in pr:
                if isinstance(p, C):
                    bits = p.v.split(sep)
                    out[-1].append(C(bits[0]))
                    for b in bits[1:]:
                        out.append([C(b)])
                else:
                    out[-1].append(p)
            if mx is not None:
                if not (isinstance(mx, C) and isinstance(mx.v, int)):
                    return None
                n = mx.v
                if n >= 0 and len(out) > n + 1:
                    if name == "split":
                        tail = out[n:]
                        out = out[:n] + [sum([[C(sep)] + t if i else t for i, t in enumerate(tail)], [])]
                    else:
                        k = len(out) - n
                        head = out[:k]
                        out = [sum([[C(sep)] + t if i else t for i, t in enumerate(head)], [])] + out[k:]
            return [(it.new_list(st, node, [("1", cat(x)) for x in out], tag="split"), st)]
        # last/first segment when the tail is known
        src = Op("mcall", (C(name), recv) + tuple(args), "list")
        return [(src, st)]
    if name in ("partition", "rpartition") and args and isinstance(args[0], C):
        sep = args[0].v
        pr = parts_of(recv)
        if all(isinstance(p, C) or excludes(p, sep) for p in pr) and len(sep) == 1:
            r = str_meth(it, recv, "split" if name == "partition" else "rsplit", [args[0], C(1)], {}, st, node)
            o = st.heap[r[0][0].id]
            xs = [s[1] for s in o.segs]
            if len(xs) == 2:
                return [(Tup((xs[0], C(sep), xs[1])), st)]
            return [(Tup((recv, EMPTY, EMPTY)) if name == "partition" else Tup((EMPTY, EMPTY, recv)), st)]
    if name == "replace" and len(args) >= 2 and isinstance(args[0], C) and len(args) == 2:
        pr = parts_of(recv)
        if all(isinstance(p, C) or excludes(p, args[0].v) for p in pr) and len(args[0].v) == 1:
            out = []
            for p in pr:
                if isinstance(p, C):
                    bits = p.v.split(args[0].v)
                    for i, b in enumerate(bits):
                        if i:
                            out.append(args[1])
                        out.append(C(b))
                else:
                    out.append(p)
            return [(cat(out), st)]
    if name in ("strip", "rstrip", "lstrip") and isinstance(recv, Cat) and args and isinstance(args[0], C) and args[0].v:
        pr = parts_of(recv)
        if name in ("strip", "lstrip"):
            while pr and isinstance(pr[0], C):
                s = pr[0].v.lstrip(args[0].v)
                if s:
                    pr[0] = C(s)
                    break
                pr.pop(0)
        if name in ("strip", "rstrip"):
            while pr and isinstance(pr[-1], C):
                s = pr[-1].v.rstrip(args[0].v)
                if s:
                    pr[-1] = C(s)
                    break
                pr.pop()
        edge = ([pr[0]] if name != "rstrip" else []) + ([pr[-1]] if name != "lstrip" else []) if pr else []
        if all(isinstance(e, C) or (isinstance(e, Sym) and e.truth and e.chars and all(c in e.chars for c in args[0].v)) for e in edge):
            return [(cat(pr), st)]
    if name in ("removeprefix", "removesuffix") and args and is_strish(args[0]) or name in ("removeprefix", "removesuffix") and isinstance(args[0], C):
        end = name == "removesuffix"
        r = starts(it, recv, args[0], end, st)
        if r is False:
            return [(recv, st)]
        if r is True and not end:
            from interp import strip_common
            a, b = strip_common(parts_of(recv), parts_of(args[0]))
            if not b:
                return [(cat(a), st)]
    ret = "str" if name in STR_RET else "bool" if name in BOOL_RET else "int" if name in INT_RET else "list" if name in LIST_RET else None
    if name in ("encode",):
        return [(Op("encode", (recv,) + tuple(args), "bytes"), st)]
    if ret is None and name not in ("encode",):
        if not hasattr("", name):
            return it.raise_(st, "AttributeError", node, recv, C(name))
    o = Op("mcall", (C(name), recv) + tuple(it.sn(a, st) for a in args) + tuple(Tup((C(n), it.sn(x, st))) for n, x in sorted(kw.items())), ret)
    if ret == "bool":
        f = st.facts.get(("truth", o))
        if f is not None:
            return [(C(f), st)]
    return [(o, st)]


def join_parts(it, sep, segs, un, st):
    if all(s[0] == "1" for s in segs):
        parts = []
        for i, s in enumerate(segs):
            if i:
                parts.append(sep)
            parts.append(it.tostr(s[1], st) if not isinstance(s[1], Ref) else it.sn(s[1], st))
        if un and len(segs) > 1:
            return [Rep([tuple(parts)], Op("unordjoin"), True)]
        return parts
    parts = []
    for i, s in enumerate(segs):
        if s[0] == "1":
            if i:
                parts.append(sep)
            parts.append(it.tostr(s[1], st))
        else:
            alts = []
            for a in s[1]:
                alts.append(tuple(cat([sep] + join_parts(it, sep, list(a), un, st)).parts if isinstance(cat([sep] + join_parts(it, sep, list(a), un, st)), Cat) else [cat([sep] + join_parts(it, sep, list(a), un, st))]))
            parts.append(Rep(alts, s[2], bool(un or s[3])))
    return parts


def starts(it, v, p, end, st):
    """v starts (ends) with p: True/False/None"""
    pv, pp = parts_of(v), parts_of(p)
    if end:
        pv, pp = [rev(x) for x in reversed(pv)], [rev(x) for x in reversed(pp)]
    while pp:
        if not pv:
            if all(isinstance(x, C) and not x.v for x in pp):
                return True
            return False if any(isinstance(x, C) and x.v or isinstance(x, Sym) and x.truth for x in pp) else None
        a, b = pv[0], pp[0]
        if isinstance(a, C) and a.v == "":
            pv.pop(0)
            continue
        if isinstance(b, C) and b.v == "":
            pp.pop(0)
            continue
        if a == b and not isinstance(a, Rep):
            pv.pop(0)
            pp.pop(0)
            continue
        if isinstance(a, C) and isinstance(b, C):
            n = min(len(a.v), len(b.v))
            if a.v[:n] != b.v[:n]:
                return False
            pv[0], pp[0] = C(a.v[n:]), C(b.v[n:])
            continue
        # a symbolic segment that cannot contain the literal's first char, known non-empty
        if isinstance(b, C) and isinstance(a, Sym) and a.truth and a.chars and b.v[0] in a.chars:
            return False
        if isinstance(a, C) and isinstance(b, Sym) and b.truth and b.chars and a.v[0] in b.chars:
            return False
        return None
    return True


def rev(x):
    return C(x.v[::-1]) if isinstance(x, C) and isinstance(x.v, str) else x


def fmt(it, s, args, kw, st):
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(C(lit))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            parts.append(it.format_value(v, C(spec) if spec else None, -1, st))
    except (ValueError, IndexError):
        return None
    return cat(parts)


def seq_meth(it, recv, o, name, args, kw, st, node):
    def put(**k):
        st.heap[recv.id] = st.heap[recv.id].but(**k)
    if name == "popleft":
        name, args = "pop", [C(0)]
    elif name == "appendleft":
        name, args = "insert", [C(0)] + list(args)
    if name in ("append", "add"):
        if o.kind == "set" and any(s[0] == "1" and s[1] == args[0] for s in o.segs):
            it.emit(st, "mut", name, (recv, args[0]), node=node)
            return [(NONE, st)]
        put(segs=o.segs + (("1", args[0]),))
        it.emit(st, "mut", name, (recv, args[0]), node=node)
        return [(NONE, st)]
    if name in ("extend", "update"):
        segs, un = list(o.segs), o.unord
        for a in args:
            sg, u = it.iter_segs(a, st)
            if sg is None:
                sg = [("*", frozenset([(("1", opb("elem", [a], it, st)),)]), it.sn(a, st), False)]
            if u:
                sg = [("*", frozenset([tuple(sg)]), Op("unordext"), True)] if sg else sg
            segs += list(sg)
        put(segs=tuple(uniq_segs(segs) if o.kind == "set" else segs))
        it.emit(st, "mut", name, (recv,) + tuple(args), node=node)
        return [(NONE, st)]
    if name == "insert":
        if args[0] == C(0):
            put(segs=(("1", args[1]),) + o.segs)
        elif isinstance(args[0], C) and all(s[0] == "1" for s in o.segs):
            l = list(o.segs)
            l.insert(args[0].v, ("1", args[1]))
            put(segs=tuple(l))
        else:
            put(segs=o.segs + (("*", frozenset([(("1", args[1]),)]), TOP, False),), opaque=o.opaque)
        it.emit(st, "mut", name, (recv, args[1]), node=node)
        return [(NONE, st)]
    if name == "pop":
        it.emit(st, "mut", name, (recv,) + tuple(args), node=node)
        if o.kind == "list" and all(s[0] == "1" for s in o.segs) and not o.opaque and (not args or isinstance(args[0], C)):
            l = list(o.segs)
            try:
                v = l.pop(args[0].v if args else -1)
            except IndexError:
                return it.raise_(st, "IndexError", node, recv)
            put(segs=tuple(l))
            return [(v[1], st)]
        els = star_elems(o.segs)
        if o.segs and o.segs[-1][0] == "1" and not args and o.kind == "list":
            v = o.segs[-1][1]
            put(segs=o.segs[:-1])
            return [(v, st)]
        if o.segs and o.segs[0][0] == "1" and args == [C(0)]:
            v = o.segs[0][1]
            put(segs=o.segs[1:])
            return [(v, st)]
        return [(join_vals(els) if els and len(els) <= 8 and not o.opaque else opb("popped", [recv], it, st), st)]
    if name in ("remove", "discard"):
        it.emit(st, "mut", name, (recv,) + tuple(args), node=node)
        out, done, unk = [], False, False
        for s in o.segs:
            r = it.same(s[1], args[0], st) if s[0] == "1" else None
            if not done and not unk and r is True:
                done = True
                continue
            if r is None:
                unk = True
            out.append(s)
        if done:
            put(segs=tuple(out))
        elif unk or o.opaque:
            put(segs=tuple(("*", frozenset([(s,), ()]), Op("removed"), o.unord) if s[0] == "1" and it.same(s[1], args[0], st) is None else s for s in o.segs))
        elif name == "remove":
            return it.raise_(st, "ValueError" if o.kind == "list" else "KeyError", node, recv, *args)
        return [(NONE, st)]
    if name == "sort":
        ks = keyed_sort(it, o.segs, kw, st, node)
        put(segs=tuple(sort_segs(o.segs, kw) if ks is None else ks), unord=False)
        it.emit(st, "mut", name, (recv,), node=node)
        return [(NONE, st)]
    if name == "reverse":
        put(segs=tuple(s if s[0] == "1" else s[:2] + (Op("reversed", (s[2],)),) + s[3:] for s in reversed(o.segs)))
        it.emit(st, "mut", name, (recv,), node=node)
        return [(NONE, st)]
    if name == "clear":
        put(segs=(), opaque=False)
        it.emit(st, "mut", name, (recv,), node=node)
        return [(NONE, st)]
    if name == "copy":
        return [(it.new_list(st, node, o.segs, o.kind, tag="copy", unord=o.unord, opaque=o.opaque), st)]
    if name == "index":
        if all(s[0] == "1" for s in o.segs):
            for i, s in enumerate(o.segs):
                r = it.same(s[1], args[0], st)
                if r is True:
                    return [(C(i), st)]
                if r is None:
                    break
            else:
                return it.raise_(st, "ValueError", node, recv, *args)
        return [(opb("mcall", [C("index"), recv] + list(args), it, st, "int"), st)]
    if name == "count":
        if all(s[0] == "1" for s in o.segs) and not o.opaque:
            rs = [it.same(s[1], args[0], st) for s in o.segs]
            if None not in rs:
                return [(C(rs.count(True)), st)]
        return [(opb("mcall", [C("count"), recv] + list(args), it, st, "int"), st)]
    if name in ("union", "difference", "intersection", "symmetric_difference"):
        import ast as _a
        cur = recv
        if name == "union":
            segs = list(o.segs)
            for a in args:
                sg, u = it.iter_segs(a, st)
                segs += list(sg) if sg is not None else [("*", frozenset([(("1", opb("elem", [a], it, st)),)]), it.sn(a, st), True)]
            return [(it.new_list(st, node, uniq_segs(segs), "set", tag="union", unord=True), st)]
        return it.set_op({"difference": "-", "intersection": "&", "symmetric_difference": "^"}[name], recv, args[0], st, node)
    if name in ("issubset", "issuperset", "isdisjoint"):
        return [(opb("mcall", [C(name), recv] + list(args), it, st, "bool"), st)]
    if name in ("__contains__",):
        v = it.compare("in", args[0], recv, st)
        return [(v, st)]
    return None


def dict_meth(it, recv, o, name, args, kw, st, node):
    if name == "get":
        return it.dict_get(recv, o, args[0], st, node, args[1] if len(args) > 1 else NONE)
    if name == "keys":
        return [(it.new_list(st, node, dict_keys(o.segs), tag="keys", unord=o.unord, opaque=o.opaque), st)]
    if name == "values":
        return [(it.new_list(st, node, dict_values(o.segs), tag="values", unord=o.unord, opaque=o.opaque), st)]
    if name == "items":
        return [(it.new_list(st, node, dict_items(o.segs), tag="items", unord=o.unord, opaque=o.opaque), st)]
    if name == "update":
        segs = o.segs
        for a in args:
            oo = st.heap.get(a.id) if isinstance(a, Ref) else None
            if oo is not None and oo.kind == "dict":
                segs = merge_dict(segs, oo.segs)
                if oo.opaque:
                    segs += (("**", it.sn(a, st)),)
            else:
                sg, _ = it.iter_segs(a, st) if isinstance(a, (Ref, Tup)) else (None, 0)
                if sg is not None:
                    segs = merge_dict(segs, pair_segs(sg))
                else:
                    segs += (("**", it.sn(a, st)),)
        for k, v in kw.items():
            segs = dict_set(segs, C(k), v)
        st.heap[recv.id] = o.but(segs=segs)
        it.emit(st, "setitem", "update", (recv,) + tuple(it.sn(a, st) for a in args), node=node)
        return [(NONE, st)]
    if name == "pop":
        return dict_pop(it, recv, o, args[0], st, node, args[1] if len(args) > 1 else None)
    if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE
        out = []
        isin = it.contains(recv, args[0], st)
        if isin is True:
            return it.dict_get(recv, o, args[0], st, node, None)
        if isin is False:
            st.heap[recv.id] = o.but(segs=dict_set(o.segs, args[0], d))
            it.emit(st, "setitem", "dict", (recv, args[0], d), node=node)
            return [(d, st)]
        for v, s in it.dict_get(recv, o, args[0], st.clone(), node, d):
            out.append((v, s))
        st.heap[recv.id] = o.but(segs=dict_set(o.segs, args[0], d))
        it.emit(st, "setitem", "dict", (recv, args[0], d), node=node)
        out.append((d, st))
        return out
    if name == "clear":
        st.heap[recv.id] = o.but(segs=(), opaque=False)
        it.emit(st, "mut", name, (recv,), node=node)
        return [(NONE, st)]
    if name == "copy":
        r = it.alloc(st, node, "dict", tag="copy")
        st.heap[r.id] = st.heap[r.id].but(segs=o.segs, opaque=o.opaque)
        return [(r, st)]
    if name == "popitem":
        return [(opb("popped", [recv], it, st), st)]
    if name == "__contains__":
        return [(it.compare("in", args[0], recv, st), st)]
    return None


def obj_meth(it, recv, o, name, args, kw, st, node):
    if name == "__setattr__" and len(args) == 2 and isinstance(args[0], C) and not kw:
        return it.setattr(recv, args[0].v, args[1], st, node)
    if name == "__getattribute__" and len(args) == 1 and isinstance(args[0], C) and not kw:
        return it.getattr(recv, args[0].v, st, node)
    if isinstance(o.cls, Cls) and any(isinstance(b, Ext) and b.name.endswith("BaseModel") for b in o.cls.mro()):
        if it.w.full and name in ("model_dump", "dict", "model_copy", "copy"):
            import pyd
            if name in ("model_copy", "copy"):
                r = it.alloc(st, node, "obj", tag=f"mcopy{recv.id!r}"[:200])
                at = dict(o.attrs)
                u = kw.get("update")
                if isinstance(u, Ref) and all(x[0] == "1" and isinstance(x[1], C) for x in st.heap[u.id].segs):
                    at.update({x[1].v: x[2] for x in st.heap[u.id].segs})
                if kw.get("deep", FALSE) == TRUE:
                    at = {k: deep(it, x, st, node, {}) for k, x in at.items()}
                st.heap[r.id] = st.heap[r.id].but(cls=o.cls, attrs=at)
                return [(r, st)]
            return [(pyd.dump(it, recv, o, kw, st, node), st)]
        if name == "model_dump":
            r = it.alloc(st, node, "dict", tag="dump")
            st.heap[r.id] = st.heap[r.id].but(segs=tuple(("1", C(k), v) for k, v in o.attrs.items()))
            return [(r, st)]
    return None


def file_meth(it, recv, name, args, kw, st, node):
    if name in ("write", "writelines"):
        v = args[0]
        if isinstance(v, C) and not isinstance(v.v, (str, bytes)) or isinstance(v, Ref) and name == "write":
            return it.raise_(st, "TypeError", node, v)
        it.emit(st, "sink", name, (recv, it.sn(v, st)), node=node)
        return [(Op("written", (it.sn(v, st),), "int"), st)]
    if name in ("close", "flush", "truncate", "seek"):
        it.emit(st, "close" if name == "close" else "fileop", name, (recv,) + tuple(args), node=node)
        return [(NONE, st)]
    if name in ("read", "readline"):
        return [(Op("mcall", (C(name), recv), "str"), st)]
    return None


def path_meth(it, recv, name, args, kw, st, node):
    p = it.sn(recv, st)
    if name == "open":
        return do_open(it, recv, args[0] if args else kw.get("mode", C("r")), kw, st, node)
    if name in ("write_text", "write_bytes"):
        it.emit(st, "open", "", (p, C("w")), node=node)
        it.emit(st, "sink", name, (Op("file", (p, C("w")), "file"), it.sn(args[0], st)), node=node)
        return [(NONE, st)]
    if name in ("mkdir", "unlink", "touch", "rmdir", "rename"):
        it.emit(st, "fs", name, (p,) + tuple(it.sn(a, st) for a in args), {k: it.sn(v, st) for k, v in kw.items()}, node=node)
        return [(NONE, st)]
    if name in ("read_text", "read_bytes"):
        it.emit(st, "open", "", (p, C("r")), node=node)
        return [(Op("mcall", (C(name), p), "str"), st)] + maybe_raise(it, st, "FileNotFoundError", node)
    if name in ("exists", "is_file", "is_dir", "is_absolute"):
        o = Op("mcall", (C(name), p), "bool")
        it.emit(st, "fsq", name, (p,), node=node)
        f = st.facts.get(("truth", o))
        return [(C(f) if f is not None else o, st)]
    if name in ("resolve", "absolute", "joinpath", "with_suffix", "with_name", "expanduser", "relative_to"):
        a = tuple(it.sn(x, st) for x in args)
        if name == "joinpath":
            cur = p
            for x in a:
                cur = Op("pathjoin", (cur, x), "path")
            return [(cur, st)]
        return [(Op("mcall", (C(name), p) + a, "path"), st)]
    if name == "as_posix":
        return [(Op("str", (p,), "str"), st)]
    return None


# ------------------------------------------------------------------ itertools, functools, operator
def known(it, v, st):
    """the elements of an iterable with known ones, else None"""
    sg, un = it.iter_segs(v, st)
    return [s[1] for s in sg] if sg is not None and not un and all(s[0] == "1" for s in sg) else None


def listed(it, st, node, vals, tag):
    return [(it.new_list(st, node, [("1", v) for v in vals], tag=tag), st)]


@ext("itertools.chain")
def _chain(it, args, kw, st, node):
    segs, uno = [], False
    for a in args:
        sg, un = it.iter_segs(a, st)
        if sg is None:
            return None
        segs += sg
        uno = uno or un
    return [(it.new_list(st, node, segs, tag="chain", unord=uno), st)]


@ext("itertools.chain.from_iterable")
def _chainfi(it, args, kw, st, node):
    return loop_ast(it, st, node, "[HID_y for HID_x in HID_xs for HID_y in HID_x]", None, {"xs": args[0]})


@ext("itertools.starmap")
def _starmap(it, args, kw, st, node):
    return loop_ast(it, st, node, "[HID_f(*HID_x) for HID_x in HID_xs]", None, {"f": args[0], "xs": args[1]})


def _itcomb(name, it, args, kw, st, node):
    import itertools
    if name in ("product", "zip_longest", "pairwise"):
        seqs, rest = args, []
    else:
        seqs, rest = args[:1], args[1:]
    ls = [known(it, a, st) for a in seqs]
    if any(x is None for x in ls) or not all(isinstance(x, C) for x in rest) or not all(isinstance(v, C) or k == "fillvalue" for k, v in kw.items()):
        return None
    f = getattr(itertools, name, None)
    if f is None:
        return None
    k = {n: v.v for n, v in kw.items() if n != "fillvalue"}
    if name == "zip_longest":
        k["fillvalue"] = kw.get("fillvalue", NONE)
    out = list(itertools.islice(f(*ls, *[x.v for x in rest], **k), 5000))
    return listed(it, st, node, out if name == "islice" else [Tup(x) for x in out], name)


for _n in ("product", "zip_longest", "permutations", "combinations", "islice", "pairwise", "batched"):
    EXTS["itertools." + _n] = functools.partial(_itcomb, _n)


@ext("itertools.repeat")
def _itrepeat(it, args, kw, st, node):
    if len(args) == 2 and isinstance(args[1], C):
        return listed(it, st, node, [args[0]] * min(args[1].v, 5000), "repeat")
    return None


@ext("itertools.filterfalse")
def _ittake(it, args, kw, st, node):
    if args[0] != NONE:
        return loop_ast(it, st, node, "[HID_x for HID_x in HID_xs if not HID_f(HID_x)]", None, {"f": args[0], "xs": args[1]})
    return None


@ext("functools.reduce")
def _reduce(it, args, kw, st, node):
    ls = known(it, args[1], st)
    if ls is None or len(args) < 3 and not ls:
        return None
    acc = list(args[2:3]) or [ls.pop(0)]
    cur = [(acc[0], st)]
    for i, x in enumerate(ls):
        nxt = []
        it.loopidx.append(("reduce", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), i))
        try:
            for v, s in cur:
                if isinstance(v, Exc):
                    nxt.append((v, s))
                else:
                    nxt += it.call(args[0], [v, x], {}, s, node)
        finally:
            it.loopidx.pop()
        cur = nxt
        if len(cur) > it.max_states:
            return None
    return cur


@ext("collections.namedtuple")
def _namedtuple(it, args, kw, st, node):
    fs = args[1] if len(args) > 1 else kw.get("field_names")
    if not isinstance(args[0], C) or set(kw) - {"field_names", "defaults"}:
        return None
    ns = fs.v.replace(",", " ").split() if isinstance(fs, C) else [x.v for x in known(it, fs, st) or []]
    ds = known(it, kw["defaults"], st) if "defaults" in kw else []
    if ds is None:
        return None
    c = Cls(it.frames[-1].mod, f"{args[0].v}@{getattr(node, 'lineno', 0)}", (Ext("typing.NamedTuple"),), node)
    c.annots = {n: NONE for n in ns}
    c.attrs = dict(zip(ns[len(ns) - len(ds):], ds))
    return [(c, st)]


@ext("io.StringIO")
def _stringio(it, args, kw, st, node):
    if kw:
        return None
    r = it.new_list(st, node, [("1", a) for a in args], tag="strio")
    st.heap[r.id] = st.heap[r.id].but(attrs={"strio": TRUE})
    return [(r, st)]


def strio_meth(it, recv, o, name, args, kw, st, node):
    if name == "write":
        st.heap[recv.id] = o.but(segs=tuple(o.segs) + (("1", it.sn(args[0], st)),))
        return [(Op("len", (args[0],), "int"), st)]
    if name == "writelines":
        sg, un = it.iter_segs(args[0], st)
        if sg is None:
            return None
        st.heap[recv.id] = o.but(segs=tuple(o.segs) + tuple(sg))
        return [(NONE, st)]
    if name in ("getvalue", "read") and all(s[0] == "1" for s in o.segs):
        return [(cat([s[1] for s in o.segs]), st)]
    if name in ("close", "flush", "__enter__", "__exit__"):
        return [(NONE, st)]
    return None


@ext("collections.deque")
def _deque(it, args, kw, st, node):
    if len(args) > 1 or kw:
        return None
    if not args:
        return [(it.new_list(st, node, [], tag="deque"), st)]
    sg, un = it.iter_segs(args[0], st)
    return None if sg is None else [(it.new_list(st, node, sg, tag="deque", unord=un), st)]


def _getter(n, it, args, kw, st, node):
    if n != "methodcaller" and (len(args) != 1 or kw) or not isinstance(args[0], C):
        return None
    if n == "attrgetter" and "." in args[0].v:
        return None
    return [(Op("partial", (Ext("_sa." + n), Tup(args), Tup([Tup((C(k), v)) for k, v in kw.items()]))), st)]


for _n in ("attrgetter", "itemgetter", "methodcaller"):
    EXTS["operator." + _n] = functools.partial(_getter, _n)


@ext("_sa.attrgetter")
def _sa_attr(it, args, kw, st, node):
    return it.getattr(args[1], args[0].v, st, node)


@ext("_sa.itemgetter")
def _sa_item(it, args, kw, st, node):
    return it.getitem(args[1], args[0], st, node)


@ext("_sa.methodcaller")
def _sa_meth(it, args, kw, st, node):
    out = []
    for m, s in it.getattr(args[-1], args[0].v, st, node):
        out += [(m, s)] if isinstance(m, Exc) else it.call(m, list(args[1:-1]), kw, s, node)
    return out


def _binop(op):
    def f(it, args, kw, st, node):
        return expr_ast(it, st, node, op, {"a": args[0], "b": args[1]})
    return f


for _n, _o in (("add", "HID_a + HID_b"), ("concat", "HID_a + HID_b"), ("sub", "HID_a - HID_b"), ("mul", "HID_a * HID_b"), ("or_", "HID_a | HID_b"), ("and_", "HID_a & HID_b"), ("eq", "HID_a == HID_b"), ("ne", "HID_a != HID_b"), ("lt", "HID_a < HID_b"), ("le", "HID_a <= HID_b"), ("gt", "HID_a > HID_b"), ("ge", "HID_a >= HID_b"), ("contains", "HID_b in HID_a"), ("is_", "HID_a is HID_b"), ("is_not", "HID_a is not HID_b"), ("getitem", "HID_a[HID_b]")):
    EXTS["operator." + _n] = _binop(_o)
EXTS["operator.not_"] = lambda it, args, kw, st, node: expr_ast(it, st, node, "not HID_a", {"a": args[0]})
EXTS["operator.truth"] = lambda it, args, kw, st, node: expr_ast(it, st, node, "bool(HID_a)", {"a": args[0]})
