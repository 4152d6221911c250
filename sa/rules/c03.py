"""C03: the loader runs every stage, in the required order, under every option combination."""
import itertools

from core import *  # noqa
from loader import Load, some
from rules.common import same_val, short, units_of
from treectx import base_tree, concrete

DT = "vss_tools.vspec.datatypes"

OPTION_SETS = {
    "strict": [FALSE, TRUE],
    "aborts": [Tup(()), Tup((C("unknown-attribute"),)), Tup((C("name-style"),)), Tup((C("unknown-attribute"), C("name-style")))],
    "uuid": [FALSE, TRUE],
    "expand": [TRUE, FALSE],
    "types": [0, 1, 2],
    "overlays": [0, 2],
    "units": [0, 1],
    "quantities": [0, 1],
    "include_dirs": [0, 1],
    "extended_attributes": [0, 1],
}


def mk(args):
    out = {}
    for k, v in args.items():
        out[k] = some(k, v, "str" if k == "extended_attributes" else "path") if isinstance(v, int) and not isinstance(v, bool) else v
    return out


def label(args):
    return ",".join(f"{k}={short(v, 40) if isinstance(v, V) else v}" for k, v in args.items()) or "defaults"


def is_types(l, x):
    """stage concerns the user types"""
    n, self_, kw, p, e = x
    if n == "load_vspec":
        return kw.get("identifier") not in (None, NONE) or touches(kw.get("specs"), "types#")
    if n == "build_tree":
        return l.is_types(kw)
    return self_ == l.ctx.node("U")


def touches(v, pre):
    return v is not None and any(isinstance(a, Sym) and a.path.startswith(pre) for a in atoms(v))


def order_job(r, args):
    a = mk(args)
    l = Load(r.world, a, nodes=base_tree(kind="branch", ckind="sensor", attrs={"delete": FALSE}, types=True))
    units_of(r, l.it)
    r.paths += len(l.outs)
    tag = label(args)
    oks = [(v, s) for v, s in l.outs if not isinstance(v, Exc)]
    if l.it.imprecise:
        r.undecided("stage-present", tag, str(l.it.imprecise[:2]))
        return
    if not oks:
        if all(isinstance(v, Exc) for v, s in l.outs) and l.outs:
            r.bad("stage-present", tag, f"loading an entirely valid model with {tag} always fails", l.outs[0][0].loc)
        return
    T, U = l.ctx.node("T"), l.ctx.node("U")
    ntypes = len(l.args["types"].items)
    for v, s in oks:
        st = l.stages(s)
        idx = {}

        def at(name, types=None, node=None):
            return [i for i, x in enumerate(st) if x[0] == name and (types is None or is_types(l, x) == types) and (node is None or x[1] == node)]

        def need(cl, name, pos, what):
            r.verdict(bool(pos), cl, f"{what}[{tag}]", f"options {tag}: {what} never happens before the model is handed out", None)
            return pos

        def before(p, q, what, msg):
            if p and q:
                r.verdict(max(p) < min(q), "stage-order", f"{what}[{tag}]", f"options {tag}: {msg}", st[min(q)][4].loc)

        lu = need("stage-present", "units", at("load_units"), "loading of units")
        lq = need("stage-present", "quantities", at("load_quantities"), "loading of quantities")
        bm = need("stage-present", "build", at("build_tree", False), "building of the signal tree")
        sm = need("stage-present", "spec", at("load_vspec", False), "merging of the spec files")
        rs = need("stage-present", "resolve", at("resolve", node=T), "validation of the nodes of the signal tree")
        dl = need("stage-present", "delete", at("delete_nodes", node=T), "removal of deleted nodes")
        ex = at("expand_instances", node=T)
        r.verdict(bool(ex) == (l.args["expand"] == TRUE), "stage-present", f"expansion[{tag}]",
                  f"options {tag}: instances are {'not expanded although expansion is on' if not ex else 'expanded although expansion is off'}", None)
        xa = need("stage-present", "extra", at("get_extra_attributes", node=T), "the attribute check of the signal tree")
        want_names = l.args["strict"] == TRUE or C("name-style") in l.args["aborts"].items
        nm = at("get_naming_violations", node=T)
        if want_names:
            need("stage-present", "names", nm, "the name check of the signal tree")
        before(lq, lu, "quantities<units", "units are loaded (and validated against the quantities) before the quantities are known")
        before(lu, bm, "units<build", "the tree is built before the units are known")
        before(lu, at("build_tree", True), "units<types", "the types tree is built before the units are known")
        before(sm, bm, "merge<build", "the tree is built before all specs are merged")
        before(ex, rs[-1:], "expand<resolve", "instances are expanded after the nodes were validated")
        before(rs[:1], dl, "resolve<delete", "nodes are deleted before they were validated")
        before(ex, dl, "expand<delete", "nodes are deleted before instances are expanded")
        before(dl, xa, "delete<attributes", "attributes are checked before nodes are deleted")
        before(dl, nm, "delete<names", "names are checked before nodes are deleted")
        before(ex, at("add_uuids"), "expand<uuid", "UUIDs are assigned before instances are expanded")
        if bm:
            kw = st[bm[-1]][2]
            r.verdict(kw.get("connect_orphans") == TRUE if isinstance(kw.get("connect_orphans", FALSE), C) else None, "orphans", f"connect[{tag}]",
                      "disconnected entries of the model are not attached (connect_orphans is off)", st[bm[-1]][4].loc)
        if ntypes:
            tb = need("stage-present", "types", at("build_tree", True), "building of the types tree")
            tr = need("stage-present", "types-resolve", at("resolve", node=U), "validation of the nodes of the types tree")
            need("stage-present", "types-extra", at("get_extra_attributes", node=U), "the attribute check of the types tree")
            before(tb, tr, "types-build<resolve", "types are validated before they are built")
            before(tb, bm, "types<model", "the signal tree is built before the types are known")
            before(tr, rs, "types-resolve<model-resolve", "the signal tree is validated before the types are")
            for i in range(ntypes):
                hit = [x for x in st if x[0] == "load_vspec" and touches(x[2].get("specs"), f"types#{i}")]
                r.verdict(bool(hit), "stage-present", f"types-file{i}[{tag}]", f"types file {i} is never loaded", None)
        # units / quantities known at validation time
        for i in lu:
            q = st[i][4].x.get("dq")
            r.verdict(q, "tables", f"quantities-known[{tag}]", "units are loaded before the loaded quantities were registered", st[i][4].loc)
        for i in bm:
            r.verdict(st[i][4].x.get("du"), "tables", f"units-known[{tag}]", "the tree is built before the loaded units were registered", st[i][4].loc)
        # what is returned
        if isinstance(v, Tup) and len(v.items) == 2:
            r.verdict(same_val(v.items[0], T), "result", f"tree[{tag}]", f"the loader returns {short(v.items[0])} instead of the checked signal tree")
            r.verdict(same_val(v.items[1], U if ntypes else NONE), "result", f"types[{tag}]", f"the loader returns {short(v.items[1])} instead of the checked types tree")


def fails(r, cl, key, msg, args=None, nodes=None, must=True, **sc):
    l = Load(r.world, mk(args or {}), nodes=nodes, **sc)
    units_of(r, l.it)
    r.paths += len(l.outs)
    ok = [v for v, s in l.outs if not isinstance(v, Exc)]
    if not l.outs:
        r.undecided(cl, key, "no outcome")
    elif must:
        r.verdict(True if not ok else (None if l.it.imprecise and len(ok) < len(l.outs) else False), cl, key, msg)
    else:
        r.verdict(True if ok else (None if l.it.imprecise else False), cl, key, msg)


def scen_job(r, job):
    kind = job[0]
    if kind == "orphans":
        fails(r, "orphans", "model", "a model with entries that cannot be attached is exported", orphans=True)
        fails(r, "orphans", "types", "a types tree with disconnected entries is accepted", types_orphans=True)
    elif kind == "kind":
        for which in ("T", "U"):
            bad = ("T", "U")[which == "U"]
            n = concrete({"T": ("branch", {}, ["D"]), "D": ("property" if bad == "T" else "sensor", {}, [])},
                         {"U": ("branch", {}, ["DU"]), "DU": ("struct" if bad == "T" else "branch", {}, ["EU"]), "EU": ("property", {}, [])})
            for ex in (TRUE, FALSE):
                for strict in (TRUE, FALSE):
                    fails(r, "kind-check", f"{which}[expand={ex.v},strict={strict.v}]",
                          f"a {'signal' if which == 'T' else 'types'} tree with a property below a branch is handed to the exporter",
                          {"expand": ex, "strict": strict}, nodes=n)
    elif kind == "resolve":
        fails(r, "validation", "model", "a model with an invalid node is handed to the exporter", resolve="raise")
        fails(r, "validation", "types", "a types tree with an invalid node is accepted", resolve="types-raise")
    elif kind == "delete":
        # only nodes marked for deletion are deleted, and all of them
        for dd, de in itertools.product((TRUE, FALSE), (TRUE, FALSE)):
            n = base_tree(kind="branch", ckind="sensor", attrs={"delete": dd}, cattrs={"delete": de}, types=False)
            l = Load(r.world, mk({"types": 0}), nodes=n)
            units_of(r, l.it)
            r.paths += len(l.outs)
            key = f"delete D={dd.v},E={de.v}"
            for v, s in l.outs:
                if isinstance(v, Exc):
                    continue
                calls = [x for x in l.stages(s) if x[0] == "delete_nodes"]
                got = set()
                exact = True
                for x in calls:
                    for a in atoms(x[2].get("nodes", NONE)):
                        if isinstance(a, Sym) and a.path in n:
                            got.add(a.path)
                    if x[3] or l.it.imprecise:
                        exact = False
                want = {k for k, d in (("D", dd), ("E", de)) if d == TRUE}
                if got == want:
                    r.ok("deletion", key)
                elif exact:
                    r.bad("deletion", key, f"nodes removed as deleted: {sorted(got)}, nodes marked for deletion: {sorted(want)}", calls[0][4].loc if calls else None)
                else:
                    r.undecided("deletion", key)


def check(r):
    r.text("The loader is interpreted abstractly under every pairwise combination of its options, with the operations of the other modules recorded as "
           "stages; presence, order, operands and result are compared with the documented pipeline.")
    sets = [{}]
    names = list(OPTION_SETS)
    for k in names:
        for v in OPTION_SETS[k]:
            sets.append({k: v})
    if r.thorough:
        pairs = itertools.combinations(names, 2)
    else:
        pairs = [("strict", "aborts"), ("uuid", "expand"), ("strict", "expand"), ("types", "strict"), ("types", "expand"), ("aborts", "expand"), ("overlays", "types")]
    for a, b in pairs:
        for x, y in itertools.product(OPTION_SETS[a], OPTION_SETS[b]):
            sets.append({a: x, b: y})
    r.pmap(job, [("opt", s) for s in sets] + [("scen", (k,)) for k in ("orphans", "kind", "resolve", "delete")])
    r.floor("stage-present", 50)
    r.floor("stage-order", 50)
    r.floor("kind-check", 2)


def job(r, j):
    (order_job if j[0] == "opt" else scen_job)(r, j[1])
