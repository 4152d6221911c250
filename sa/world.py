"""Parsed source of the analysed package and the abstract state after importing it."""
from __future__ import annotations

import ast
import os

from core import *  # noqa
from interp import Frame, Interp

REPO = os.environ.get("VSS_REPO", "/repo")


class World:
    """full: the tree library and the model validation are interpreted too"""
    def __init__(self, repo=REPO, full=False):
        self.repo = repo
        self.full = full
        self.src = os.path.join(repo, "src")
        self.modules = {}     # name -> (path, ast)
        self.pkgs = set()
        self.broken = []
        self.failed = []
        for d, dirs, files in os.walk(os.path.join(self.src, "vss_tools")):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            rel = os.path.relpath(d, self.src).replace(os.sep, ".")
            self.pkgs.add(rel)
            if "__init__.py" not in files:
                self.modules[rel] = (None, ast.parse(""))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                name = rel if f == "__init__.py" else rel + "." + f[:-3]
                with open(p, encoding="utf-8") as fh:
                    txt = fh.read()
                try:
                    self.modules[name] = (p, ast.parse(txt))
                except SyntaxError as e:
                    self.broken.append((p, str(e)))

        if full:
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude_anytree.py"), encoding="utf-8") as fh:
                self.modules["anytree"] = (None, ast.parse(fh.read()))
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude_rdflib.py"), encoding="utf-8") as fh:
                self.modules["rdflib"] = (None, ast.parse(fh.read()))
            for m in ("namespace", "term", "graph"):
                self.modules["rdflib." + m] = (None, ast.parse("from rdflib import RDF, RDFS, XSD, Graph, Literal, Namespace, URIRef"))

    def full_world(self):
        if self.full:
            return self
        if getattr(self, "_full", None) is None:
            self._full = World(self.repo, True)
        return self._full

    def is_pkg(self, mod):
        return mod in self.pkgs

    def relpath(self, mod):
        p = self.modules.get(mod, (None,))[0]
        return os.path.relpath(p, self.repo) if p else mod

    def import_module(self, name, it, st):
        if name in self.modules:
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                self.ensure(".".join(parts[:i]), it, st)
            return ModV(name)
        return Ext(name)

    def ensure(self, mod, it, st):
        sid = ("mod", mod)
        if sid in st.heap:
            return
        st.heap[sid] = HObj("scope", attrs={"__name__": C(mod), "__file__": Sym(f"file:{mod}", ty="str", truth=True)})
        fr = Frame(sid, None, mod)
        it.frames.append(fr)
        sv = it.loopidx, it.stack
        it.loopidx, it.stack = [], [("module", mod)]
        trace = st.trace
        outs = it.block(self.modules[mod][1].body, st)
        it.loopidx, it.stack = sv
        it.frames.pop()
        good = [s for k, v, s in outs if k == "next"]
        if not good:
            self.failed.append((mod, outs[0][1] if outs else None))
            st.trace = trace
            return
        s = good[0] if len(good) == 1 else it.join_states(good)
        st.heap, st.facts, st.sattr, st.globs = s.heap, s.facts, s.sattr, s.globs
        st.trace = trace

    def late(self):
        """modules only imported while a command runs (importlib.import_module), and what only they import"""
        named, by = set(), {}
        for m, (_, tree) in self.modules.items():
            pkg = m.split(".") if m in self.pkgs else m.split(".")[:-1]
            for n in ast.walk(tree):
                if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and n.args[0].value in self.modules:
                    f = n.func
                    if (f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")) == "import_module":
                        named.add(n.args[0].value)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        by.setdefault(a.name, set()).add(m)
                elif isinstance(n, ast.ImportFrom):
                    b = ".".join(pkg[:len(pkg) - n.level + 1] if n.level else []) + ("." if n.level and n.module else "") + (n.module or "")
                    by.setdefault(b, set()).add(m)
                    for a in n.names:
                        by.setdefault(b + "." + a.name, set()).add(m)
        late = {m for m in named if not by.get(m)}
        while True:
            more = {m for m in self.modules if m not in late and by.get(m) and by[m] <= late | named}
            more |= {m for m in named if m not in late and by.get(m, set()) <= late}
            if not more:
                return late
            late |= more

    def base(self, ctx=None):
        """State after importing every module of the package."""
        if getattr(self, "_base", None) is None:
            it = Interp(self)
            st = State()
            late = self.late() if self.full else ()
            for m in sorted(self.modules):
                if m not in late:
                    self.import_module(m, it, st)
            st.trace = None
            st.facts = {}
            self._base = st
            self.base_notes = it.imprecise
        return self._base

    def get(self, mod, name=None):
        sc = self.base().heap.get(("mod", mod))
        if sc is None:
            return None
        if name is None:
            return sc.attrs
        cur = None
        parts = name.split(".")
        cur = sc.attrs.get(parts[0])
        for p in parts[1:]:
            if isinstance(cur, Cls):
                cur = cur.lookup(p)
            else:
                return None
        return cur
