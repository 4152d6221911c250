"""What an abstract run of an export command writes, per outcome: structures, rows and text with the symbolic values as ⟦placeholders⟧."""
from __future__ import annotations

import re

from core import *  # noqa
from specs import to_py


def ph(v):
    """printable text of a value; symbolic parts as placeholders"""
    if isinstance(v, C):
        if isinstance(v.v, bytes):
            return v.v.decode("utf-8", "replace")
        return str(v.v)
    if isinstance(v, Sym):
        return f"\u27e6{v.path}\u27e7"
    if isinstance(v, Cat):
        return "".join(ph(p) for p in v.parts)
    if isinstance(v, EnumM):
        return ph(v.value)
    if isinstance(v, Op) and v.name in ("str", "encode") and v.args:
        return ph(v.args[0])
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(ph(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{ph(k)}: {ph(x)}" for k, x in v.items()) + "}"
    if isinstance(v, (Tup, ListV, DictV)):
        p = to_py(v)
        if not isinstance(p, V):
            return ph(p)
    return f"\u27e6?{v!r}\u27e7"


def known(t):
    return "\u27e6?" not in t


def marks(t):
    """the placeholders of a text"""
    return re.findall("\u27e6([^\u27e7]*)\u27e7", t)


class Out:
    def __init__(self, exc):
        self.exc = exc
        self.files = {}       # label -> [(kind, payload)]
        self.order = []
        self.seq = []         # order with the openings of files
        self.stdout = []
        self.events = []

    def text(self, label=None):
        out = []
        for lab, kind, p in self.order:
            if label is None or lab == label:
                out.append(p if kind == "text" else ph(p))
        return "".join(out)

    def content(self, label, before=""):
        """text of a file at the end of the run, when it held `before` at its start"""
        t = before
        for lab, kind, p in self.seq:
            if lab == label:
                if kind == "open":
                    if p[:1] in "wx":
                        t = ""
                elif kind == "gone":
                    t = ""
                else:
                    t += p if kind == "text" else ph(p)
        return t

    def data(self, kind, label=None):
        return [p for lab, k, p in self.order if k == kind and (label is None or lab == label)]

    def labels(self):
        return list(dict.fromkeys(lab for lab, _, _ in self.order))


def label(ctx, f):
    p = f.args[0] if isinstance(f, Op) and f.name in ("file", "csvwriter") and f.args else f
    if isinstance(p, Op) and p.name in ("file", "csvwriter"):
        return label(ctx, p)
    c = ctx.canon(p)
    return c if c is not None else repr(p)


def outputs(e):
    res = []
    for v, evs in e.events():
        o = Out(v if isinstance(v, Exc) else None)
        o.events = evs
        for x in evs:
            if x.kind == "open" and len(x.args) > 1 and isinstance(x.args[1], C):
                o.seq.append((label(e.ctx, x.args[0]), "open", str(x.args[1].v)))
            if x.kind == "fs" and x.args and x.name in ("unlink", "os.remove", "os.unlink", "remove"):
                o.seq.append((label(e.ctx, x.args[0]), "gone", ""))
            if x.kind != "sink":
                continue
            n0 = len(o.order)
            if x.name == "stdout":
                o.stdout.append(ph(x.args[1]))
                continue
            lab = label(e.ctx, x.args[0]) if x.args else "?"
            val = x.args[1] if len(x.args) > 1 else NONE
            if x.name in ("json", "yaml"):
                o.order.append((lab, x.name, to_py(val)))
            elif x.name in ("writerow", "writerows"):
                rows = to_py(val)
                o.order.append((lab, "rows", rows if x.name == "writerows" else [rows]))
            elif isinstance(val, Op) and val.name == "gql":
                o.order.append((lab, "gql", val))
            elif isinstance(val, Op) and val.name == "call" and val.args and isinstance(val.args[0], Ext) and val.args[0].name == "struct.pack":
                o.order.append((lab, "pack", tuple(val.args[1:])))
            else:
                o.order.append((lab, "text", ph(val)))
            o.seq += o.order[n0:]
        res.append(o)
    return res


def gql(v):
    """gql Op -> nested python: {'kind':..., field: ...}"""
    if isinstance(v, Op) and v.name == "gql":
        d = {"kind": v.args[0].v}
        for t in v.args[1].items:
            k, x = t.items
            d[k.v] = gql(x)
        return d
    if isinstance(v, (Tup, ListV, DictV)):
        p = to_py(v)
        return gqlp(p)
    return v


def gqlp(p):
    if isinstance(p, dict):
        return {(k.v if isinstance(k, C) else k): gqlp(x) for k, x in p.items()}
    if isinstance(p, (list, tuple)):
        return [gqlp(x) for x in p]
    return gql(p) if isinstance(p, V) else p
