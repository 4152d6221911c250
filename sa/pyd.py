"""Semantics of the validation library's models (fields, coercion, validators, dump) for abstract objects."""
from __future__ import annotations

import ast

from core import *  # noqa

ERR = object()
UNK = object()


def is_model(cls):
    return isinstance(cls, Cls) and any(isinstance(b, Ext) and b.name.endswith("BaseModel") for b in cls.mro())


def classes(cls):
    """base classes first"""
    return list(reversed([c for c in cls.mro() if isinstance(c, Cls)]))


def fields(cls):
    """name -> (annotation, module, default V | None, alias)"""
    out = {}
    for c in classes(cls):
        for k, ann in c.annots.items():
            if k == "model_config" or k.startswith("_") or isinstance(ann, ast.AST) and "ClassVar" in ast.dump(ann):
                continue
            d = c.attrs.get(k)
            alias = None
            if isinstance(d, Op) and d.name == "call" and d.args and isinstance(d.args[0], Ext) and d.args[0].name.endswith("Field"):
                kw = {t.items[0].v: t.items[1] for t in d.args[1:] if isinstance(t, Tup)}
                pos = [t for t in d.args[1:] if not isinstance(t, Tup)]
                for a in ("validation_alias", "alias"):
                    if isinstance(kw.get(a), C):
                        alias = kw[a].v
                d = kw.get("default", pos[0] if pos else None)
                if "default_factory" in kw:
                    d = Op("factory", (kw["default_factory"],))
                if d == C(...):
                    d = None
            if k in out and d is None and k not in c.attrs:
                pass
            out[k] = (ann, c.mod, d, alias)
    return out


def config(cls, key):
    for c in cls.mro():
        if isinstance(c, Cls) and "model_config" in c.attrs:
            v = c.attrs["model_config"]
            if isinstance(v, Op) and v.name == "call":
                for t in v.args[1:]:
                    if isinstance(t, Tup) and t.items[0] == C(key):
                        return t.items[1]
            return None
    return None


def deco_of(fn, name):
    for d in fn.deco:
        if isinstance(d, Op) and d.name == "call" and d.args and isinstance(d.args[0], Ext) and d.args[0].name.split(".")[-1] == name:
            pos = [a for a in d.args[1:] if not isinstance(a, Tup)]
            kw = {a.items[0].v: a.items[1] for a in d.args[1:] if isinstance(a, Tup) and len(a.items) == 2 and isinstance(a.items[0], C)}
            return pos, kw
        if isinstance(d, Ext) and d.name.split(".")[-1] == name:
            return [], {}
    return None


def validators(cls, kind):
    """[(fn, positional, mode)] in effect order"""
    out = {}
    for c in classes(cls):
        for k, f in c.attrs.items():
            if not isinstance(f, Fn):
                continue
            d = deco_of(f, kind)
            if d is None:
                out.pop(k, None)
                continue
            m = d[1].get("mode")
            out[k] = (f, [p.v for p in d[0] if isinstance(p, C)], m.v if isinstance(m, C) else "after")
    return list(out.values())


# ------------------------------------------------------------------ values
def norm_ann(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            return ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return a
    return a


def members(a):
    a = norm_ann(a)
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        return members(a.left) + members(a.right)
    if isinstance(a, ast.Subscript):
        n = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
        if n == "Optional":
            return members(a.slice) + [ast.Constant(None)]
        if n == "Union":
            e = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            return [m for x in e for m in members(x)]
    return [a]


TRUES = {"true", "1", "yes", "on", "t", "y"}
FALSES = {"false", "0", "no", "off", "f", "n"}


def one(it, a, v, st, mod, strict, node):
    """validate against a single (non union) annotation"""
    a = norm_ann(a)
    if isinstance(a, ast.Constant) and a.value is None:
        n = it.is_none(v, st)
        return v if n is True else ERR if n is False else UNK
    n = a.attr if isinstance(a, ast.Attribute) else getattr(a, "id", None)
    if isinstance(a, ast.Subscript):
        n = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
        el = a.slice
    else:
        el = None
    if n == "Any" or n == "object":
        return v
    if n in ("Annotated",):
        return UNK
    if n in ("list", "List", "Sequence", "set", "tuple"):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is None or o.kind not in ("list", "set"):
                return ERR
            if strict and o.kind != n.lower() and n.lower() != "sequence":
                return ERR
            if el is None:
                return v
            segs = []
            unk = False
            for s in o.segs:
                if s[0] != "1":
                    unk = True
                    segs.append(s)
                    continue
                r = validate(it, el, s[1], st, mod, node)
                if r is ERR:
                    return ERR
                if r is UNK:
                    unk = True
                    r = s[1]
                segs.append(("1", r))
            if o.opaque:
                unk = True
            if unk and strict:
                return UNK
            if tuple(segs) == tuple(o.segs):
                pass
            return it.new_list(st, node, segs, tag=f"val{v.id!r}"[:200])
        if isinstance(v, Tup):
            return it.new_list(st, node, [("1", x) for x in v.items], tag="val")
        if isinstance(v, Sym) and v.ty in ("list", "coll", "seq"):
            return v
        return ERR if definite(it, v, st) else UNK
    if n in ("dict", "Dict", "Mapping"):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            return v if o is not None and o.kind == "dict" else ERR
        return ERR if definite(it, v, st) else UNK
    if n == "str":
        if isinstance(v, C):
            return v if isinstance(v.v, str) else ERR
        if is_strish(v):
            return v
        if isinstance(v, EnumM):
            return ERR if strict else v.value if isinstance(v.value, C) and isinstance(v.value.v, str) else ERR
        return ERR if definite(it, v, st) else UNK
    if n == "bool":
        if isinstance(v, C):
            if isinstance(v.v, bool):
                return v
            if strict:
                return ERR
            if isinstance(v.v, (int, float)) and v.v in (0, 1):
                return C(bool(v.v))
            if isinstance(v.v, str) and v.v.lower() in TRUES | FALSES:
                return C(v.v.lower() in TRUES)
            return ERR
        if isinstance(v, (Sym, Op)) and v.ty == "bool":
            return v
        if strict and definite(it, v, st):
            return ERR
        return ERR if isinstance(v, Ref) else UNK
    if n == "int":
        if isinstance(v, C):
            if isinstance(v.v, int) and not isinstance(v.v, bool):
                return v
            if strict:
                return ERR
            if isinstance(v.v, bool):
                return C(int(v.v))
            if isinstance(v.v, float) and v.v == int(v.v):
                return C(int(v.v))
            if isinstance(v.v, str):
                try:
                    return C(int(v.v))
                except ValueError:
                    return ERR
            return ERR
        if isinstance(v, (Sym, Op)) and v.ty == "int" or isinstance(v, Lin):
            return v
        if isinstance(v, (Sym, Op)) and v.ty == "num":
            return UNK
        if strict and definite(it, v, st):
            return ERR
        return ERR if isinstance(v, Ref) else UNK
    if n == "float":
        if isinstance(v, C):
            if isinstance(v.v, float):
                return v
            if isinstance(v.v, int) and not isinstance(v.v, bool):
                return C(float(v.v))
            if strict:
                return ERR
            if isinstance(v.v, bool):
                return C(float(v.v))
            if isinstance(v.v, str):
                try:
                    return C(float(v.v))
                except ValueError:
                    return ERR
            return ERR
        if isinstance(v, (Sym, Op)) and v.ty in ("float", "int", "num") or isinstance(v, Lin):
            return v
        if strict and definite(it, v, st):
            return ERR
        return ERR if isinstance(v, Ref) else UNK
    if isinstance(a, (ast.Name, ast.Attribute)):
        c = resolve(it, a, st, mod)
        if isinstance(c, Cls) and c.is_enum:
            if isinstance(v, EnumM):
                return v if v.cls == c else ERR
            if isinstance(v, C):
                for m in c.attrs.values():
                    if isinstance(m, EnumM) and m.value == v:
                        return m if not strict else ERR
                return ERR
            if isinstance(v, Sym) and v.ty == "str" and v.info.get("vals") is None and v.info.get("distinct"):
                return UNK
            return ERR if definite(it, v, st) and not is_strish(v) else UNK
        if is_model(c):
            if isinstance(v, Ref) and st.heap.get(v.id) is not None and st.heap[v.id].cls == c:
                return v
            return UNK
    return UNK


def resolve(it, a, st, mod):
    if isinstance(a, ast.Name):
        sc = st.heap.get(("mod", mod))
        return sc.attrs.get(a.id) if sc is not None else None
    return None


def definite(it, v, st):
    """the type of v is known"""
    if isinstance(v, (C, Cat, Lin, EnumM, Tup, Fn, Cls, Ref)):
        return True
    if isinstance(v, (Sym, Op)):
        return v.ty in ("str", "int", "float", "num", "bool", "list", "dict")
    return False


def validate(it, ann, v, st, mod, node):
    ms = members(ann)
    if len(ms) == 1:
        return one(it, ms[0], v, st, mod, False, node)
    unk = False
    # exact matches first, then conversions left to right
    order = []
    for m in ms:
        r = one(it, m, v, st, mod, True, node)
        if r is UNK:
            unk = True
        elif r is not ERR:
            order.append((0 if same_kind(r, v) else 1, len(order), r))
    if order:
        return min(order, key=lambda x: x[:2])[2]
    if isinstance(v, (Sym, Op)) and v.ty == "num" and {"int", "float"} <= {getattr(norm_ann(m), "id", None) for m in ms}:
        return v
    if unk:
        return UNK
    for m in ms:
        r = one(it, m, v, st, mod, False, node)
        if r is UNK:
            return UNK
        if r is not ERR:
            return r
    return ERR


def same_kind(a, b):
    if isinstance(a, C) and isinstance(b, C):
        return type(a.v) is type(b.v)
    return True


# ------------------------------------------------------------------ instances
def verr(it, st, node, cls, why):
    return Exc(Ext("ValidationError"), (cls, C(why)), it.loc(node))


def assertionish(it, e):
    ch = it.exc_chain(e.cls)
    return any(isinstance(c, Ext) and c.name.split(".")[-1] in ("AssertionError", "ValueError") for c in ch) and not any(
        isinstance(c, Ext) and c.name.split(".")[-1] in ("ValidationError",) for c in ch)


def instantiate(it, cls, args, kw, st, node):
    fs = fields(cls)
    k = {n: it.sn(x, st) for n, x in kw.items()}
    it.emit(st, "model", cls.qual, tuple(it.sn(a, st) for a in args), k, node=node, raw=kw)
    if "**" in kw:
        it.note(f"model built from an unknown mapping {it.loc(node)}")
        kw = {n: v for n, v in kw.items() if n != "**"}
    kw = dict(kw)
    cur = [(kw, st)]
    for f, pos, mode in reversed(validators(cls, "model_validator")):
        if mode == "before":
            nxt = []
            for kws, s in cur:
                if isinstance(kws, Exc):
                    nxt.append((kws, s)); continue
                d = it.alloc(s, node, "dict", tag="raw" + f.name)
                s.heap[d.id] = s.heap[d.id].but(segs=tuple(("1", C(n), x) for n, x in kws.items()))
                for v, s2 in it.call_fn(f, cls, [d], {}, s, node):
                    if isinstance(v, Exc):
                        nxt.append((verr(it, s2, node, cls, f.name) if assertionish(it, v) else v, s2)); continue
                    o = s2.heap.get(v.id) if isinstance(v, Ref) else None
                    if o is None or o.kind != "dict" or any(x[0] != "1" or not isinstance(x[1], C) for x in o.segs):
                        it.note("model before-validator result unknown")
                        nxt.append((kws, s2))
                    else:
                        nxt.append(({x[1].v: x[2] for x in o.segs}, s2))
            cur = nxt
    out = []
    for kws, s in cur:
        if isinstance(kws, Exc):
            out.append((kws, s))
        else:
            out.extend(build(it, cls, fs, kws, s, node))
    return out


def build(it, cls, fs, kw, st, node):
    extra = config(cls, "extra")
    fvs = validators(cls, "field_validator")
    used = set()
    cur = [({}, st, False)]        # attrs, state, failed
    res = []
    for n, (ann, mod, dflt, alias) in fs.items():
        key = alias if alias is not None else n
        nxt = []
        for attrs, s, bad in cur:
            if key not in kw:
                if dflt is None:
                    nxt.append((attrs, s, True))
                    continue
                if isinstance(dflt, Op) and dflt.name == "factory":
                    rs = it.call(dflt.args[0], [], {}, s, node)
                    v, s = rs[0]
                elif isinstance(dflt, Ref):
                    import models
                    v = models.deep(it, dflt, s, node, {})
                    # a distinct object per instance
                    o = s.heap[v.id]
                    v = it.alloc(s, node, o.kind, tag=f"dflt{cls.name}.{n}")
                    s.heap[v.id] = s.heap[v.id].but(segs=o.segs, attrs=o.attrs)
                else:
                    v = dflt
                nxt.append(({**attrs, n: v}, s, bad))
                continue
            used.add(key)
            vals = [(kw[key], s, bad)]
            before = [f for f, pos, mode in fvs if (n in pos or "*" in pos) and mode == "before"]
            after = [f for f, pos, mode in fvs if (n in pos or "*" in pos) and mode == "after"]
            if any((n in pos or "*" in pos) and mode not in ("before", "after") for f, pos, mode in fvs):
                it.note(f"validator mode of {cls.name}.{n}")
            for f in reversed(before):
                vals = run_fv(it, cls, f, vals, res, node)
            v2 = []
            for v, s1, b in vals:
                if b and v is None:
                    v2.append((v, s1, b)); continue
                r = validate(it, ann, v, s1, mod, node)
                if r is ERR:
                    v2.append((None, s1, True))
                elif r is UNK:
                    it.note(f"value of unknown type for {cls.name}.{n}")
                    v2.append((v, s1, b))
                else:
                    v2.append((r, s1, b))
            for f in after:
                v2 = run_fv(it, cls, f, v2, res, node)
            for v, s1, b in v2:
                nxt.append(({**attrs, n: v if v is not None else NONE}, s1, b))
        cur = nxt
    names = set(fs)
    for attrs, s, bad in cur:
        rest = [k for k in kw if k not in used]
        if extra == C("allow"):
            for k in rest:
                if k not in names or fs[k][3] is not None:
                    attrs = {**attrs, k: kw[k]}
        elif extra == C("forbid") and rest:
            bad = True
        if bad:
            res.append((verr(it, s, node, cls, "field"), s))
            continue
        r = it.alloc(s, node, "obj", tag=cls.name)
        s.heap[r.id] = s.heap[r.id].but(cls=cls, attrs=attrs)
        states = [(r, s)]
        for f, pos, mode in validators(cls, "model_validator"):
            if mode == "before":
                continue
            if mode != "after":
                it.note(f"model validator mode {mode}")
            nx = []
            for rv, s1 in states:
                if isinstance(rv, Exc):
                    nx.append((rv, s1)); continue
                if any(d == Ext("classmethod") for d in f.deco):
                    cs = it.call_fn(f, cls, [rv], {}, s1, node)
                else:
                    cs = it.call_fn(f, rv, [], {}, s1, node)
                for v, s2 in cs:
                    if isinstance(v, Exc):
                        nx.append((verr(it, s2, node, cls, f.name) if assertionish(it, v) else v, s2))
                    else:
                        nx.append((v if isinstance(v, Ref) else rv, s2))
            states = nx
        res.extend(states)
    return res


def run_fv(it, cls, f, vals, res, node):
    out = []
    for v, s, b in vals:
        if b and v is None:
            out.append((v, s, b)); continue
        a = [v]
        if len(f.node.args.args) > 2:
            a.append(Op("ValidationInfo", ()))
        for x, s2 in it.call_fn(f, cls, a, {}, s, node):
            if isinstance(x, Exc):
                if assertionish(it, x):
                    out.append((None, s2, True))
                else:
                    res.append((x, s2))
            else:
                out.append((x, s2, b))
    return out


# ------------------------------------------------------------------ dump
def names_of(it, v, st):
    """set of attribute names given as exclude/include; None unknown"""
    if v is None or v == NONE:
        return set()
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if o.kind in ("list", "set") and not o.opaque and all(x[0] == "1" and isinstance(x[1], C) for x in o.segs):
            return {x[1].v for x in o.segs}
        if o.kind == "dict" and all(x[0] == "1" and isinstance(x[1], C) for x in o.segs):
            return {x[1].v for x in o.segs}
        return None
    if isinstance(v, Tup) and all(isinstance(x, C) for x in v.items):
        return {x.v for x in v.items}
    return None


def dump(it, recv, o, kw, st, node):
    js = kw.get("mode", C("python")) == C("json")
    ex = names_of(it, kw.get("exclude"), st)
    inc = names_of(it, kw.get("include"), st) if "include" in kw and kw["include"] != NONE else None
    if ex is None:
        it.note(f"unknown exclude set {it.loc(node)}")
        ex = set()
    xn = kw.get("exclude_none", FALSE) == TRUE
    xd = kw.get("exclude_defaults", FALSE) == TRUE
    byal = kw.get("by_alias", FALSE) == TRUE
    fs = fields(o.cls)
    order = [n for n in fs if n in o.attrs] + [n for n in o.attrs if n not in fs]
    segs = []
    for n in order:
        if n in ex or inc is not None and n not in inc or n.startswith("_"):
            continue
        v = o.attrs[n]
        if xn and it.is_none(v, st) is True:
            continue
        if xd and n in fs and fs[n][2] is not None and it.same(fs[n][2], v, st) is True:
            continue
        kname = fs[n][3] if byal and n in fs and fs[n][3] else n
        segs.append(("1", C(kname), dumped(it, v, js, st, node, n)))
    r = it.alloc(st, node, "dict", tag=f"dump{recv.id!r}"[:300])
    st.heap[r.id] = st.heap[r.id].but(segs=tuple(segs))
    return r


def dumped(it, v, js, st, node, tag):
    if isinstance(v, EnumM) and js:
        return v.value
    if isinstance(v, Tup):
        xs = [dumped(it, x, js, st, node, f"{tag}.{i}") for i, x in enumerate(v.items)]
        return it.new_list(st, node, [("1", x) for x in xs], tag="dl" + tag) if js else Tup(xs)
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if o is None:
            return v
        if o.kind in ("list", "set"):
            segs = tuple(("1", dumped(it, s[1], js, st, node, f"{tag}.{i}")) if s[0] == "1" else s for i, s in enumerate(o.segs))
            r = it.alloc(st, node, "list" if js else o.kind, tag="dl" + tag)
            st.heap[r.id] = st.heap[r.id].but(segs=segs, unord=o.unord, opaque=o.opaque)
            return r
        if o.kind == "dict":
            segs = tuple(("1", s[1], dumped(it, s[2], js, st, node, f"{tag}.{i}")) if s[0] == "1" else s for i, s in enumerate(o.segs))
            r = it.alloc(st, node, "dict", tag="dd" + tag)
            st.heap[r.id] = st.heap[r.id].but(segs=segs, opaque=o.opaque)
            return r
        if o.kind == "obj" and is_model(o.cls):
            return dump(it, v, o, {"mode": C("json" if js else "python")}, st, node)
    return v
