"""Interpret a snippet (used by rules for built-in templates and for debugging)."""
import ast
from core import *  # noqa
from interp import Context, Frame, Interp


def snippet(world, src, args, mod="vss_tools.vspec.main", ctx=None, st=None):
    """src defines function f; returns (outs, it)"""
    tree = ast.parse(src)
    it = Interp(world, ctx or Context())
    st = st if st is not None else world.base().clone()
    fn = [n for n in tree.body if isinstance(n, ast.FunctionDef)][-1]
    f = Fn(fn, mod, ("mod", mod), fn.name)
    it.frames.append(Frame(("mod", mod), None, mod))
    return it.call_fn(f, None, list(args), {}, st, fn), it
