"""C32: the SAMM export selects signals by whole path segments and skips deprecated ones."""
import re

from rules.xmodel import *

SIG = "/m/signals.txt"
L = lambda **k: dict(kind="sensor", **k)
# (name, kind, attributes)
TREE = [
    ("V", "branch", {}),
    ("V.Cab", "branch", {}),
    ("V.Cab.Xa", "sensor", {"datatype": C("uint8"), "unit": C("km")}),
    ("V.Cab.Gone", "sensor", {"datatype": C("uint8"), "deprecation": C("v1")}),
    ("V.Cab.Inn", "branch", {}),
    ("V.Cab.Inn.Pe", "actuator", {"datatype": C("int8"), "min": C(-4)}),
    ("V.Cab.Inn.Qu", "attribute", {"datatype": C("string"), "allowed": [C("a"), C("b")], "default": C("a")}),
    ("V.Cab.Inn.Ha", "sensor", {"datatype": C("uint8"), "allowed": [C(1), C(2)]}),
    ("V.CabX", "sensor", {"datatype": C("string[]")}),
    ("V.Cabin", "branch", {}),
    ("V.Cabin.Yy", "sensor", {"datatype": C("float")}),
    ("V.Cabin.YyZ", "sensor", {"datatype": C("boolean")}),
    ("V.Cabin.Empt", "branch", {}),
    ("V.Da", "branch", {}),
    ("V.Da.Eb", "branch", {}),
    ("V.Da.Eb.Fc", "branch", {"instances": [C("L"), C("R")]}),
    ("V.Da.Eb.Fc.Gd", "sensor", {"datatype": C("double")}),
    ("V.Old", "branch", {"deprecation": C("v2")}),
    ("V.Old.Ol", "sensor", {"datatype": C("uint8")}),
    ("V.All", "branch", {}),
    ("V.All.Al", "sensor", {"datatype": C("uint8"), "deprecation": C("v3")}),
    ("V.All.Am", "sensor", {"datatype": C("uint8"), "deprecation": C("v3")}),
]
SELECT = [
    None, ["V"], ["V.Cab"], ["V.Cab.Xa"], ["V.Cab.Inn.Pe", "V.Da"], ["V.Cabin.Yy"], ["V.Cabin.YyZ"], ["V.CabX"], ["V.Ca"], ["V.Cabin", "V.Cab.Inn"], ["V.Da.Eb.Fc.Gd"],
    ["V.Da.Eb"], ["V.Nope.Xa"], ["V.Cabin.Yy.Deep"], ["Cab.Xa"], ["V.Cab.Gone", "V.CabX"], ["V.Old.Ol", "V.CabX"], ["V.All.Al", "V.CabX"], ["V.Cab.In", "V.CabX"],
    ["V.CabX", ""], ["v.cabx", "V.Cabin.YyZ"], ["V.Cabin.Empt", "V.CabX"],
]


def kept(sel):
    """names that stay: leaves by whole segments, branches with something below; (sure, possible)"""
    names = [n for n, _, _ in TREE]
    kind = {n: k for n, k, _ in TREE}
    at = {n: a for n, _, a in TREE}
    sel = None if sel is None else [s for s in sel if s]

    def under(a, b):
        return a == b or a.startswith(b + ".")
    leaves = [n for n in names if kind[n] != "branch" and (sel is None or any(under(n, s) or under(s, n) for s in sel))]
    if sel is None:
        stay = set(names)
    else:
        stay = set(leaves) | {n for n in names if kind[n] == "branch" and any(under(l, n) for l in leaves)}
    parents = lambda n: [n.rsplit(".", i)[0] for i in range(1, n.count(".") + 1)]
    dep = lambda n: "deprecation" in at[n]
    stay = {n for n in stay if not dep(n) and not any(dep(p) for p in parents(n))}
    # a branch left with deprecated children only
    maybe = {n for n in stay if kind[n] == "branch" and not any(m != n and under(m, n) for m in stay)}
    return stay - maybe, maybe


def graph(o):
    """triples of all files"""
    out = []
    for lab, k, p in o.order:
        if k != "text":
            return None
        for rec in p.split("\x1e"):
            f = rec.split("\x1f")
            if len(f) >= 3:
                out.append((f[0], f[1], "\x1f".join(f[2:]), lab))
    return out


PATH = re.compile(r"VSS path\s*:\s*(\S+)")


def reach(tr, root):
    """paths named by the descriptions that are reachable from the description of the root"""
    by = {}
    for s, p, o, _ in tr:
        by.setdefault(s, []).append((p, o))
    ns = {s.split("#")[0] for s in by}
    chars = {s for s, p, o, _ in tr if (m := PATH.search(o)) and m.group(1) == root}
    start = {s for s in by for p, o in by[s] if o in chars}
    seen, todo = set(), list(start)
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        for p, o in by.get(s, ()):
            if o in by:
                todo.append(o)
            elif o.lstrip().startswith("("):
                todo += [n + "#" + x for x in re.findall(r"(?<![\w\"]):(\w+)", o) for n in ns if n + "#" + x in by]
    return {m.group(1) for s in seen for p, o in by.get(s, ()) if (m := PATH.search(o))}


def job(r, j):
    sel, opts = j
    files = {ROOT: File([], Data(*[N(n, k, description=C("d " + n), **a) for n, k, a in TREE])), **UNITS2, **QUANT2}
    o = {"target_folder": P("/out/tf"), "output_namespace": C("com.x"), "split": C(opts[0]), "split_depth": C(opts[1])}
    if sel is not None:
        files[SIG] = File([], Data(), text=C("\n".join(sel) + "\n"))
        o["signals_file"] = P(SIG)
    tag = f"{'all' if sel is None else ' '.join(x or '<blank>' for x in sel)} {'split ' + str(opts[1]) if opts[0] else 'one file'}"
    what = f"samm of {'everything' if sel is None else 'the selection ' + ', '.join(x or 'an empty line' for x in sel)} ({'split up to depth ' + str(opts[1]) if opts[0] else 'no split'})"
    e = Export(r.world, "samm", files, opts=o)
    e.units_of(r)
    os_ = outputs(e)
    if not os_ or e.imprecise:
        r.undecided("kept", tag, str(e.imprecise[:2])[:200])
        return
    sure, maybe = kept(sel)
    for x in os_:
        if x.exc is not None:
            r.bad("runs", tag, f"{what}: the export ends with {x.exc.name} {str(x.exc.args)[:80]}")
            continue
        r.ok("runs", tag)
        tr = graph(x)
        if tr is None:
            r.undecided("kept", tag, "output not understood")
            continue
        said = {m.group(1) for _, _, ob, _ in tr if (m := PATH.search(ob))}
        if not said and any(sure) and not x.order:
            r.bad("kept", tag, f"{what}: nothing is written")
            continue
        if not said and sure:
            r.undecided("kept", tag, "no paths found in the output")
            continue
        got = reach(tr, "V")
        more, less = sorted(said - sure - maybe), sorted(sure - said)
        r.verdict(not more, "dropped", tag, f"{what}: {', '.join(more)} {'is' if len(more) == 1 else 'are'} exported")
        r.verdict(not less, "kept", tag, f"{what}: {', '.join(less)} {'is' if len(less) == 1 else 'are'} not exported")
        un = sorted((sure & said) - got)
        r.verdict(not un, "linked", tag, f"{what}: {', '.join(un)} cannot be reached from the aspect of the root")


def check(r):
    r.text("The whole SAMM export is interpreted on a tree with sibling names that are prefixes of each other, nested branches, instances, deprecated leaves and branches, under selections of leaves, branches, unknown paths, partial segments and empty lines, with and without splitting; the nodes described in the written graphs must be the selected ones, reachable from the root.")
    js = [(s, o) for s in SELECT for o in ((True, 1), (False, 1), (True, 3))]
    r.pmap(job, js)
    r.floor("kept", 30)
