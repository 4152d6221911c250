"""Abstract runs of export commands on a summary tree."""
from __future__ import annotations

import cliinfo
from core import *  # noqa
from interp import Budget, Frame, Interp
from treectx import MAIN, TreeCtx, base_tree, flat

GET_TREES = MAIN + ".get_trees"


class Run:
    def __init__(self, it, outs, ctx, fn):
        self.it, self.outs, self.ctx, self.fn = it, outs, ctx, fn
        self.loads = []
        self.cut = False

    def events(self):
        for v, s in self.outs:
            for e, p in flat(s.events()):
                yield e, p, v, s

    def ok_outs(self):
        return [(v, s) for v, s in self.outs if not isinstance(v, Exc)]


def opt_sym(o):
    ty, truth, none = None, None, None
    if o.flag:
        ty = "bool"
    elif o.multiple:
        ty = "list"
    else:
        tn = o.type_name()
        if tn in ("Path", "File") and (o.type_kw().get("path_type") is not None):
            ty = "path"
        elif tn in ("int", "float", "str"):
            ty = tn
        elif tn is None and isinstance(o.default, C) and isinstance(o.default.v, (str, int)) and o.default.v is not None:
            ty = type(o.default.v).__name__
        elif tn in (None, "Choice"):
            ty = "str"
        none = False if (o.required or (o.default is not None and o.default != NONE)) else None
    s = Sym("opt:" + o.name, ty=ty, none=none if not (o.flag or o.multiple) else False, truth=True if (ty == "path" and none is False) else truth)
    if none is None and not (o.flag or o.multiple):
        s.none = None
    return s


def run_command(world, cmd, nodes=None, opts=None, types=True, ctx=None, trees=None, max_states=None, ctxcls=TreeCtx, budget=None):
    """Interpret the command function of `cmd`. opts: param -> V fixed values."""
    fn = cliinfo.command(world, cmd)
    if not isinstance(fn, Fn):
        return None
    loads = []
    nodes = nodes or base_tree(types=types)
    c = ctx or ctxcls(world, nodes)
    it = Interp(world, c)
    if max_states:
        it.max_states = max_states

    def get_trees(it, st, self_, args, kw, node):
        gt = world.get(MAIN, "get_trees")
        bound = it.bind_args(gt, list(args), kw, st, node) if isinstance(gt, Fn) else {}
        if isinstance(bound, Exc):
            return [(bound, st)]
        it.emit(st, "load", "get_trees", (), {k: it.sn(v, st) for k, v in bound.items()}, node=node, raw=bound)
        loads.append(Ev("load", "get_trees", (), {k: it.sn(v, st) for k, v in bound.items()}, it.loc(node)))
        if trees is not None:
            return trees(it, st, bound, node)
        return [(Tup((c.node("T"), c.node("U") if types and "U" in nodes else NONE)), st)]
    c.stubs.setdefault(GET_TREES, get_trees)
    st = world.base().clone()
    kw = {}
    for o in cliinfo.options(fn):
        kw[o.name] = (opts or {}).get(o.name, opt_sym(o))
    it.frames.append(Frame(("mod", fn.mod), None, fn.mod))
    pos = []
    a = fn.node.args
    names = [x.arg for x in a.args]
    # a context object passed by click.pass_context / pass_obj
    if any(isinstance(d, Ext) and "pass_" in d.name for d in fn.deco) and names and names[0] not in kw:
        pos = [Sym("click.ctx", ty="obj")]
    bare = Fn(fn.node, fn.mod, fn.scope, fn.name, fn.cls, fn.defaults, fn.kwdefaults)
    cut = False
    if budget:
        it.budget = budget
    try:
        outs = it.call_fn(bare, None, pos, kw, st, fn.node)
    except Budget:
        outs, cut = [], True
        it.note("analysis budget exhausted")
    run = Run(it, outs, c, fn)
    run.loads, run.cut = loads, cut
    return run


def run_fn(world, mod, name, args, kw=None, ctx=None, st=None, self_=None, max_states=None):
    """Interpret one function/method. -> list[(V|Exc, State)], Interp"""
    fn = world.get(mod, name)
    it = Interp(world, ctx)
    if max_states:
        it.max_states = max_states
    if not isinstance(fn, Fn):
        return None, it
    st = st if st is not None else world.base().clone()
    it.frames.append(Frame(("mod", fn.mod), None, fn.mod))
    bare = Fn(fn.node, fn.mod, fn.scope, fn.name, fn.cls, fn.defaults, fn.kwdefaults)
    if self_ is None and any(d == Ext("classmethod") for d in fn.deco):
        self_ = fn.cls
    outs = it.call_fn(bare, self_, list(args), kw or {}, st, fn.node)
    return outs, it
