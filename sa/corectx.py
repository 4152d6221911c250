"""Context for the loading code itself: symbolic files whose existence and content are known, YAML content as abstract data."""
from __future__ import annotations

import posixpath

from core import *  # noqa
from interp import Context
from models import WORD


def word(n, **k):
    """a non-empty name without separators or punctuation"""
    return Sym(n, ty="str", truth=True, chars=WORD, **{"distinct": "word", **k})


class Data:
    """abstract YAML mapping: list of (key V, value V | Data | list)"""
    def __init__(self, *items):
        self.items = list(items)


def build(it, st, node, d, tag="y", memo=None):
    """the same Data object used twice in one file stands for a YAML alias"""
    memo = {} if memo is None else memo
    if id(d) in memo:
        return memo[id(d)]
    if isinstance(d, Data):
        r = memo[id(d)] = it.alloc(st, node, "dict", tag=tag)
        segs = []
        for i, (k, v) in enumerate(d.items):
            segs.append(("1", k if isinstance(k, V) else C(k), build(it, st, node, v, f"{tag}.{i}", memo)))
        st.heap[r.id] = st.heap[r.id].but(segs=tuple(segs))
        return r
    if isinstance(d, list):
        return it.new_list(st, node, [("1", build(it, st, node, x, f"{tag}[{i}]", memo)) for i, x in enumerate(d)], tag=tag)
    if isinstance(d, V):
        return d
    return C(d)


class CoreCtx(Context):
    def __init__(self, world):
        super().__init__()
        self.w = world
        self.paths = {}      # Sym -> canonical path
        self.files = {}      # canonical path -> (text V, Data|V)
        self.built = 0
        self.shared = {}

    def root(self, n, path):
        s = Sym(n, ty="path", truth=True, none=False, distinct="paths")
        self.paths[s] = path
        return s

    def sym_attr(self, it, v, name, st):
        """name parts of a path whose location is known"""
        if getattr(v, "ty", None) == "path" and name in ("name", "stem", "suffix"):
            p = self.canon(v)
            if p is not None and "<" not in p:
                import pathlib
                return C(getattr(pathlib.PurePosixPath(p), name))
        return super().sym_attr(it, v, name, st)

    def same_path(self, a, b):
        """equality of two path values whose text is known"""
        pa, pb = self.canon(a), self.canon(b)
        if pa is None or pb is None or "<" in pa + pb or not (pa.startswith("/") and pb.startswith("/")):
            return None
        return posixpath.normpath(pa) == posixpath.normpath(pb)

    def canon(self, v):
        if isinstance(v, C) and isinstance(v.v, str):
            return v.v
        if v in self.paths:
            return self.paths[v]
        if isinstance(v, Sym):
            return "<" + v.path + ">"
        if isinstance(v, Cat):
            ps = [self.canon(p) for p in v.parts]
            return None if None in ps else "".join(ps)
        if isinstance(v, Meth):
            b = self.canon(v.recv)
            if b is None:
                return None
            if v.name == "parent":
                return posixpath.dirname(b)
            if v.name == "name":
                return posixpath.basename(b)
            return None
        if isinstance(v, Op):
            if v.name in ("/", "pathjoin") and len(v.args) == 2:
                a, b = self.canon(v.args[0]), self.canon(v.args[1])
                return None if a is None or b is None else posixpath.join(a, b)
            if v.name in ("str", "fspath", "Path", "os.path.abspath", "os.path.normpath") and v.args:
                return self.canon(v.args[0])
            if v.name == "call" and v.args and isinstance(v.args[0], Ext) and v.args[0].name.split(".")[-1] in ("Path", "PurePath", "fspath", "str") and len(v.args) > 1:
                ps = [self.canon(a) for a in v.args[1:]]
                return None if None in ps else posixpath.join(*ps)
            if v.name == "call" and v.args and isinstance(v.args[0], Ext) and v.args[0].name in ("os.path.dirname", "posixpath.dirname"):
                b = self.canon(v.args[1])
                return None if b is None else posixpath.dirname(b)
            if v.name == "call" and v.args and isinstance(v.args[0], Ext) and v.args[0].name in ("os.path.join", "posixpath.join"):
                ps = [self.canon(a) for a in v.args[1:]]
                return None if None in ps else posixpath.join(*ps)
            if v.name == "mcall" and v.args[0] in (C("resolve"), C("absolute"), C("expanduser"), C("as_posix")):
                b = self.canon(v.args[1])
                return None if b is None else posixpath.normpath(b)
            if v.name == "file":
                return self.canon(v.args[0])
        return None

    def add(self, path, text, data=None):
        self.files[posixpath.normpath(path)] = (text if isinstance(text, V) else C(text), data)

    def lookup(self, v):
        p = self.canon(v)
        return posixpath.normpath(p) if p is not None else None

    def sym_call(self, it, recv, name, args, kw, st, node):
        if isinstance(recv, (Sym, Op, Meth)):
            return self.path_call(it, recv, name, args, kw, st, node)
        return None

    def path_call(self, it, recv, name, args, kw, st, node):
        if name in ("exists", "is_file", "is_dir"):
            p = self.lookup(it.sn(recv, st))
            if p is None:
                return None
            it.emit(st, "fsq", name, (it.sn(recv, st), C(p)), node=node)
            made = self.made(it, p, st)
            if made is not None:
                return [(C(made == ("dir" if name == "is_dir" else "file") or name == "exists" and bool(made)), st)]
            if name == "is_dir":
                return [(C(any(f.startswith(p + "/") for f in self.files)), st)]
            return [(C(p in self.files or name == "exists" and any(f.startswith(p + "/") for f in self.files)), st)]
        if name in ("read_text", "read_bytes", "read"):
            if name == "read" and not (isinstance(recv, Op) and recv.name == "file"):
                return None
            p = self.lookup(it.sn(recv, st))
            if p is None:
                return None
            return self.read(it, p, st, node)
        if name == "readlines" and not args:
            r = self.sym_iter(it, recv, st)
            return [(it.new_list(st, node, r[0], tag="list()"), st)] if r else None
        return None

    def made(self, it, p, st):
        """what the run itself has made of a path: 'file', 'dir', '' (removed) or None (untouched)"""
        from treectx import flat
        r = None
        for x, _ in flat(st.events()):
            if x.kind == "open" and len(x.args) > 1 and isinstance(x.args[1], C) and str(x.args[1].v)[:1] in "wax" and self.lookup(x.args[0]) == p:
                r = "file"
            elif x.kind == "fs" and x.args and self.lookup(x.args[0]) == p:
                r = {"mkdir": "dir", "touch": "file"}.get(x.name, "" if x.name in ("unlink", "rmdir", "rename", "os.remove", "os.unlink", "remove", "shutil.rmtree") else r)
        return r

    def sym_iter(self, it, v, st):
        """the lines of a file of known text that is iterated"""
        p = self.lookup(it.sn(v, st)) if isinstance(v, Op) and v.name == "file" else None
        t = self.files[p][0] if p in self.files else None
        if isinstance(t, C) and isinstance(t.v, str):
            it.emit(st, "read", p, ())
            return [("1", C(x)) for x in t.v.splitlines(True)], False
        return None

    def read(self, it, p, st, node):
        f = self.files.get(p)
        it.emit(st, "read", p, (), node=node)
        if f is None:
            return it.raise_(st, "FileNotFoundError", node, C(p))
        return [(f[0], st)]

    def ext_call(self, it, name, args, kw, st, node):
        if name in ("os.path.exists", "os.path.isfile") and args:
            return self.path_call(it, it.sn(args[0], st), "exists" if name.endswith("exists") else "is_file", [], {}, st, node)
        if name in ("yaml.safe_load", "yaml.load", "yaml.full_load") and args:
            a = it.sn(args[0], st)
            if isinstance(a, Op) and a.name == "file":
                p = self.lookup(a)
                if p in self.files:
                    it.emit(st, "read", p, (), node=node)
                    return [(self.make(it, p, st, node), st)]
            for p, (t, d) in self.files.items():
                if t == a:
                    return [(self.make(it, p, st, node), st)]
        return None

    def make(self, it, p, st, node):
        d = self.files[p][1]
        self.built += 1
        it.emit(st, "yaml", p, (), node=node)
        if d is None:
            return NONE
        return build(it, st, node, d, tag=f"yaml{p}#{self.built}")
