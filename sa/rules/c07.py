"""C07: instance expansion creates exactly the declared instances."""
import re

from core import *  # noqa
from full import *  # noqa


def names_of(s):
    m = re.fullmatch(r"([^\[\]]*)\[(\d+),(\d+)\]([^\[\]]*)", s)
    if not m:
        return [s], False
    return [f"{m[1]}{i}{m[4]}" for i in range(int(m[2]), int(m[3]) + 1)], True


class N0:
    def __init__(self, name, entry, parent):
        self.name, self.entry, self.parent, self.kids, self.inst = name, entry, parent, [], False
        if parent:
            parent.kids.append(self)

    def fqn(self):
        return (self.parent.fqn() + "." if self.parent else "") + self.name

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def clone(n, parent):
    c = N0(n.name, n.entry, parent)
    c.inst = n.inst
    for k in n.kids:
        clone(k, c)
    return c


def reference(entries):
    """entries: {fqn: (instances | None, instantiate)} in order -> {fqn: (is_instance, defining entry)}"""
    nodes = {}
    root = None
    for f in sorted(entries, key=lambda x: x.count(".")):
        p = f.rpartition(".")[0]
        nodes[f] = N0(f.split(".")[-1], f, nodes.get(p))
        root = root or nodes[f]

    def expand(n):
        inst = entries[n.entry][0] if not n.inst else None
        if inst:
            roots, gen = [n], []
            inst = [inst] if isinstance(inst, str) else inst
            keep = [k for k in n.kids if not entries[k.entry][1]]
            move = [k for k in n.kids if entries[k.entry][1]]
            n.kids = keep
            for i in inst:
                many = isinstance(i, list)
                ns = []
                for x in (i if many else [i]):
                    a, rng = names_of(x)
                    many = many or rng
                    ns += a
                new = []
                for x in ns:
                    for r in roots:
                        k = N0(x, n.entry, r)
                        k.inst = True
                        new.append(k)
                gen += new
                if many:
                    roots = new
            for g in gen:
                if not g.kids:
                    for k in move:
                        clone(k, g)
        for k in list(n.kids):
            expand(k)
    expand(root)
    return {n.fqn(): (n.inst, n.entry) for n in root.walk()}


INST = ["Row[1,3]", "Left", ["Left", "Right"], [["Left", "Right"]], ["Row[1,2]", ["L", "R"]], [["I1", "I2"], ["J1", "J2"], ["K1", "K2"]], ["Row[1,2]", "Col[1,2]"], "Row[8,11]",
        "Row[0,2]", "X[1,2]Y", ["Only"], [["Solo"]], ["I1", "I2", "I3"], [["Row[1,2]", "Spare"]], ["Row[1,2]", "Left"], [["One"], "Row[1,2]"], ["R[1,2]", "S[3,4]", "T[5,6]"],
        "Pos[10,12]", "Row[3,3]", "Row[0,0]", ["Row[2,2]", "Col[1,1]"], [["Row[5,5]"]], ["Row[1,2]", ["DriverSide", "PassengerSide"]]]


def conv(i):
    return [conv(x) for x in i] if isinstance(i, list) else C(i)


def scenario(inst, shape):
    e = {"A": (None, True), "A.C": (inst, True)}
    if shape == "leaf":
        e["A.C.X"] = (None, True)
    elif shape == "deep":
        e.update({"A.C.X": (None, True), "A.C.B": (None, True), "A.C.B.Y": (None, True), "A.C.B.D": (None, True), "A.C.B.D.Z": (None, True)})
    elif shape == "static":
        e.update({"A.C.X": (None, True), "A.C.S": (None, False), "A.C.B": (None, False), "A.C.B.Y": (None, True)})
    elif shape == "allstatic":
        e.update({"A.C.S": (None, False), "A.C.S2": (None, False)})
    elif shape == "nested":
        e.update({"A.C.B": (["P", "Q"], True), "A.C.B.Y": (None, True), "A.C.B.S": (None, False)})
    elif shape == "nestedstatic":
        e.update({"A.C.B": (["P", "Q"], False), "A.C.B.Y": (None, True), "A.C.X": (None, True)})
    elif shape == "nested2":
        e.update({"A.C.B": ("N[1,2]", True), "A.C.B.D": ([["P", "Q"]], True), "A.C.B.D.Y": (None, True)})
    elif shape == "siblings":
        e.update({"A.C.X": (None, True), "A.D": (["Left", "Right"], True), "A.D.X": (None, True), "A.E": (None, True), "A.E.X": (None, True)})
    elif shape == "root":
        e = {"A": (inst, True), "A.X": (None, True), "A.B": (None, True), "A.B.Y": (None, True)}
    return e


CONTAINERS = {"A", "A.C", "A.C.B", "A.C.B.D", "A.D", "A.E", "A.B"}


def files_of(e, extra=()):
    ent = []
    for f, (i, st) in e.items():
        kw = {} if i is None else {"instances": conv(i)}
        if not st:
            kw["instantiate"] = FALSE
        if any(g.startswith(f + ".") for g in e) or i is not None or f == "A":
            ent.append(branch(f, **kw))
        else:
            ent.append(leaf(f, **kw))
    return {ROOT: File([], Data(*ent, *extra))}


def job(r, s):
    if s == "reversed":
        for i in ("Row[3,1]", ["Row[1,2]", "Col[5,4]"], [["Row[10,9]"]], "Row[10,9]"):
            fails(r, "reversed", str(i), f"the reversed range in {i} is accepted", Full(r.world, files_of(scenario(i, "leaf"))))
        return
    if s == "specific":
        specific(r)
        return
    if s == "noexpand":
        for i in INST[:6]:
            e = scenario(i, "deep")
            f = Full(r.world, files_of(e), expand=False)
            for root, _ in loads(r, "exact", f"noexpand {i}", "loading without expansion", f):
                got = {n.fqn for n in root.walk()}
                r.verdict(None if f.imprecise else got == set(e), "exact", f"noexpand {i}", f"without expansion the nodes are {sorted(got ^ set(e))[:4]} off")
        return
    inst, shape = s
    e = scenario(inst, shape)
    want = reference(e)
    f = Full(r.world, files_of(e))
    key = f"{inst} {shape}"
    what = f"instances {inst} with {shape} children"
    for root, _ in loads(r, "exact", key + " loads", what, f):
        judge(r, key, what, f, root, want)


def judge(r, key, what, f, root, want):
    got = {}
    for n in root.walk():
        r.verdict(None if f.imprecise else n.fqn not in got, "exact", f"{key} twice {n.fqn}", f"{what}: {n.fqn} exists twice")
        got[n.fqn] = n
    miss = sorted(set(want) - set(got))
    more = sorted(set(got) - set(want))
    r.verdict(None if f.imprecise else not miss, "exact", key + " missing", f"{what}: missing {miss[:5]}")
    r.verdict(None if f.imprecise else not more, "exact", key + " extra", f"{what}: unexpected {more[:5]}")
    for fq, (inst, entry) in want.items():
        n = got.get(fq)
        if n is None:
            continue
        if "Branch" in n.cls.name:
            m = n.get("is_instance")
            r.verdict(m == C(inst) if isinstance(m, C) else None, "marked", f"{key} {fq}", f"{what}: {fq} is_instance={m}, expected {inst}")
            left = n.get("instances")
            r.verdict(left in ([], NONE, None) if not f.imprecise else None, "pending", f"{key} {fq}", f"{what}: {fq} keeps pending instances {left}")
        d = n.get("description")
        r.verdict((d == S(entry + ".descr")) if isinstance(d, Sym) else None, "content", f"{key} {fq}", f"{what}: {fq} carries the description of {d}")


def specific(r):
    for name, e, extra in (
        ("leaf", scenario(["Row[1,2]", ["L", "R"]], "deep"), [leaf("A.C.Row1.L.X", comment=S("s")), leaf("A.C.Row2.R.B.Y", comment=S("s"))]),
        ("branch", scenario(["Row[1,2]", ["L", "R"]], "leaf"), [branch("A.C.Row1", comment=S("s"))]),
        ("inner branch", scenario(["Row[1,2]", ["L", "R"]], "leaf"), [branch("A.C.Row1.L", comment=S("s"))]),
        ("new leaf", scenario("Row[1,2]", "leaf"), [leaf("A.C.Row2.New", comment=S("s"))]),
        ("new branch", scenario("Row[1,2]", "leaf"), [branch("A.C.Row2.NB"), leaf("A.C.Row2.NB.N", comment=S("s"))]),
    ):
        want = reference(e)
        f = Full(r.world, files_of(e, extra))
        what = f"definition for one instance ({name})"
        for root, _ in loads(r, "specific", name + " loads", what, f):
            by = {n.fqn: n for n in root.walk()}
            for n, d in extra:
                want.setdefault(n, (False, n))
            r.verdict(None if f.imprecise else set(by) == set(want), "specific", name, f"{what}: nodes differ {sorted(set(by) ^ set(want))[:5]}")
            for n, d in extra:
                c = dict(d.items).get("comment")
                if n in by and c is not None:
                    g = by[n].get("comment")
                    r.verdict(g == c if isinstance(g, (Sym, C)) else None, "specific", f"{name} {n}", f"{what}: the comment of {n} is {g}")
            for fq, (inst, _) in want.items():
                n = by.get(fq)
                if n is not None and "Branch" in n.cls.name:
                    m = n.get("is_instance")
                    r.verdict(m == C(inst) if isinstance(m, C) else None, "marked", f"{name} {fq}", f"{what}: {fq} is_instance={m}, expected {inst}")


def check(r):
    r.text("Loading is interpreted for every declared form of instances and several child layouts; the resulting node set, marks, pending instances and contents are compared with a reference expansion.")
    shapes = ["leaf", "deep", "static", "nested", "siblings", "root"] + ["allstatic", "nestedstatic", "nested2"]
    jobs = ["reversed", "specific", "noexpand"]
    for k, i in enumerate(INST):
        for j, s in enumerate(shapes):
            if s == "nested2" and len(reference(scenario(i, s))) > 90:
                continue
            if r.thorough or s in ("leaf", "static") or k in (0, 2, 4) or (k + j) % 4 == 0:
                jobs.append((i, s))
    r.pmap(job, jobs)
    for c in ("exact", "marked", "pending", "content", "reversed", "specific"):
        r.floor(c, 3)
