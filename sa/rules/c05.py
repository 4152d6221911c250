"""C05: includes are found, loaded completely and prefixed."""
import itertools

from core import *  # noqa
from corectx import Data, word
from rules.common import units_of
from specs import File, SpecRun, compare


def D(name, **kw):
    """one entry with symbolic attributes"""
    return (name, Data(("type", Sym(f"{name}.type", ty="str", truth=True)), ("description", Sym(f"{name}.descr", ty="str", truth=True)), *kw.items()))


def txt(n):
    return Sym(n, ty="str", truth=True)


def scenarios(thorough):
    out = []
    P, Q, R = word("P"), word("Q"), word("R")
    root = Data(D("Root"), D("Root.X"))
    # prefixes, depth 0..3, every subset of the levels carrying a prefix
    for depth in (1, 2, 3) + ((4,) if thorough else ()):
        for mask in itertools.product((0, 1), repeat=depth):
            files = {"/m/root.vspec": File([("f1.vspec", P if mask[0] else None)], root)}
            pre = [P, Q, R, word("S")]
            for i in range(1, depth + 1):
                inc = [(f"f{i + 1}.vspec", pre[i] if mask[i] else None)] if i < depth else []
                files[f"/m/f{i}.vspec"] = File(inc, Data(D(f"N{i}"), D(f"N{i}.K")))
            out.append(("prefix", f"depth {depth} prefixes {mask}", files, ["/m/root.vspec"], [], "nested includes"))
    # several includes, statement forms, position
    for fmt in ("#include {t}{p}\n", "   #include {t}{p}\n", "#include   {t}  {p}  \n", "#include\t{t}{p}\n", "#include {t}{p}\r\n"):
        files = {"/m/root.vspec": File([("a.vspec", P), ("b.vspec", None), ("c.vspec", Q)], root, fmt=fmt)}
        for n in "abc":
            files[f"/m/{n}.vspec"] = File([], Data(D(n.upper()), D("Same", comment=txt("comment." + n))))
        out.append(("all-includes", f"three includes, format {fmt!r}", files, ["/m/root.vspec"], [], "three includes"))
    for n in (1, 4):
        files = {"/m/root.vspec": File([(f"i{i}.vspec", None) for i in range(n)], root)}
        for i in range(n):
            files[f"/m/i{i}.vspec"] = File([], Data(D("Same", comment=txt(f"comment{i}"))))
        out.append(("order", f"{n} includes defining the same entry", files, ["/m/root.vspec"], [], "include order"))
    # depth first: the nested include of the first file comes before the second file
    files = {"/m/root.vspec": File([("a.vspec", None), ("b.vspec", None)], root), "/m/a.vspec": File([("n.vspec", None)], Data(D("A"))),
             "/m/n.vspec": File([], Data(D("Same", comment=txt("n")))), "/m/b.vspec": File([], Data(D("Same", comment=txt("b"))))}
    out.append(("order", "nested include before the next one", files, ["/m/root.vspec"], [], "include order"))
    # the same file included under several prefixes
    files = {"/m/root.vspec": File([("s.vspec", P), ("s.vspec", Q), ("d/t.vspec", R)], root), "/m/s.vspec": File([("u.vspec", None)], Data(D("A"))), "/m/u.vspec": File([], Data(D("U"))),
             "/m/d/t.vspec": File([("s.vspec", None)], Data(D("T")))}
    out.append(("all-includes", "one file included several times", files, ["/m/root.vspec"], [], "repeated include"))
    # files with no content of their own; entries without attributes
    files = {"/m/root.vspec": File([("e.vspec", P)], None), "/m/e.vspec": File([("x.vspec", Q)], None), "/m/x.vspec": File([], Data(D("X")))}
    out.append(("all-includes", "files holding only includes", files, ["/m/root.vspec"], [], "include-only files"))
    # overlays with includes of their own, next to the overlay
    files = {"/m/root.vspec": File([("a.vspec", P)], root), "/m/a.vspec": File([], Data(D("A"))), "/o/ov.vspec": File([("a.vspec", P)], Data(D("O"))),
             "/o/a.vspec": File([], Data(D("B"), D("A", comment=txt("ov"))))}
    out.append(("search", "overlay include found next to the overlay", files, ["/m/root.vspec", "/o/ov.vspec"], [], "overlay include"))
    files2 = {k: v for k, v in files.items()}
    out.append(("order", "two overlays", {**files2, "/p/ov2.vspec": File([], Data(D("O", comment=txt("second"))))}, ["/m/root.vspec", "/o/ov.vspec", "/p/ov2.vspec"], [], "overlays"))
    # search order: every subset of places
    places = {"root": "/m/inc/t.vspec", "I1": "/i1/inc/t.vspec", "I2": "/i2/inc/t.vspec", "self": "/m/sub/inc/t.vspec"}
    for k in range(0, 5):
        for sub in itertools.combinations(places, k):
            for dirs in (["/i1", "/i2"], ["/i2", "/i1"], []):
                files = {"/m/root.vspec": File([("sub/mid.vspec", P)], root), "/m/sub/mid.vspec": File([("inc/t.vspec", Q)], Data(D("Mid")))}
                for p in sub:
                    files[places[p]] = File([], Data(D("Found", comment=txt("in:" + p))))
                out.append(("search", f"target at {sub or 'no place'}, include dirs {dirs}", files, ["/m/root.vspec"], dirs, f"target present at {sub or 'no place'}"))
    for sub in itertools.chain.from_iterable(itertools.combinations(("root", "I1", "I2"), k) for k in range(1, 4)):
        files = {"/m/root.vspec": File([("inc/t.vspec", None)], root)}
        for p in sub:
            files[places[p]] = File([], Data(D("Found", comment=txt("in:" + p))))
        out.append(("search", f"include of the root file, target at {sub}", files, ["/m/root.vspec"], ["/i1", "/i2"], f"target present at {sub}"))
    deep = {"root": "/m/inc/t.vspec", "I1": "/i1/inc/t.vspec", "I2": "/i2/inc/t.vspec", "above": "/m/sub/inc/t.vspec", "self": "/m/sub/low/inc/t.vspec"}
    for sub in itertools.chain.from_iterable(itertools.combinations(deep, k) for k in range(1, 6)):
        files = {"/m/root.vspec": File([("sub/mid.vspec", P)], root), "/m/sub/mid.vspec": File([("low/low.vspec", Q)], Data(D("Mid"))),
                 "/m/sub/low/low.vspec": File([("inc/t.vspec", None)], Data(D("Low")))}
        for p in sub:
            files[deep[p]] = File([], Data(D("Found", comment=txt("in:" + p))))
        if sub != ("above",):
            out.append(("search", f"third level include, target at {sub}", files, ["/m/root.vspec"], ["/i1", "/i2"], f"target present at {sub}"))
        ov = {"/x/base.vspec": File([], root), **files}
        out.append(("search", f"third level include of an overlay, target at {sub}", ov, ["/x/base.vspec", "/m/root.vspec"], ["/i1", "/i2"], f"overlay, target present at {sub}"))
    # parent directory targets, file in an include dir including a neighbour
    files = {"/m/root.vspec": File([("a.vspec", None)], root), "/i1/a.vspec": File([("b.vspec", None)], Data(D("A"))), "/i1/b.vspec": File([], Data(D("B")))}
    out.append(("search", "neighbour inside an include dir", files, ["/m/root.vspec"], ["/i1"], "include dir"))
    files = {"/m/root.vspec": File([("x/a.vspec", None)], root), "/m/x/a.vspec": File([("y/b.vspec", None)], Data(D("A"))), "/m/x/y/b.vspec": File([("c.vspec", None)], Data(D("B"))),
             "/m/x/y/c.vspec": File([], Data(D("C")))}
    out.append(("search", "includes relative to nested files", files, ["/m/root.vspec"], [], "relative include"))
    return out


def job(r, s):
    if s[0] == "malformed":
        malformed(r)
        return
    compare(r, s[0], s[1], r.world, *s[2:5], what=s[5])


def malformed(r):
    for t in ("#include", "#include   ", "  #include\n"):
        files = {"/m/root.vspec": File([], Data(D("Root")), text=C("Root:\n" + t + "\n"))}
        run = SpecRun(r.world, files, ["/m/root.vspec"])
        units_of(r, run.l.it)
        ok = [v for v, s in run.l.outs if not isinstance(v, Exc)]
        r.verdict(True if not ok and run.l.outs else None if run.l.it.imprecise or not run.l.outs else False, "malformed", repr(t), f"the malformed include statement {t!r} is accepted")
    for dirs in ([], ["/i1"]):
        files = {"/m/root.vspec": File([("nowhere.vspec", None)], Data(D("Root")))}
        run = SpecRun(r.world, files, ["/m/root.vspec"], dirs)
        ok = [v for v, s in run.l.outs if not isinstance(v, Exc)]
        r.verdict(True if not ok and run.l.outs else None if run.l.it.imprecise or not run.l.outs else False, "malformed", f"nowhere{dirs}", "an include found nowhere is accepted")


def check(r):
    r.text("The loader's reading stages are interpreted on symbolic files (symbolic prefixes and attribute values; existence of each file known) covering every subset of "
           "search places, every prefix pattern to depth 3 (4 in thorough) and several statement forms; the mapping handed to the tree builder must equal the reference semantics.")
    r.pmap(job, scenarios(r.thorough) + [("malformed",)])
    for c in ("prefix", "search", "order", "all-includes", "malformed"):
        r.floor(c, 2)
