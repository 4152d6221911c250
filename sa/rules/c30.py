"""C30: exports are deterministic."""
import re

import interp
from rules.xmodel import *

# results that differ between runs or machines
ND = re.compile(r"^(uuid\.(uuid1|uuid4|getnode)|time\.(?!sleep)\w+|datetime\.(\w+\.)*(now|today|utcnow)|date\.today|random\.\w+|secrets\.\w+|os\.(getpid|getppid|urandom|getcwd|getlogin|uname|cpu_count|times|environ(\.\w+)*|getenv|listdir|scandir|walk|stat|getuid)"
                r"|pathlib\.Path\.(cwd|home)|socket\.\w+|getpass\.\w+|platform\.\w+|tempfile\.\w+|threading\.\w+|multiprocessing\.\w+|glob\.\w+|locale\.\w+|sys\.(argv|path|executable|platform|version\w*|prefix|getrefcount))$")
OPTS = {
    "csv": [{}, {"extended_attributes": ("xa", "xb", "xc")}, {"expand": False}, {"types_output": P("/out/types.csv")}, {"uuid": True}],
    "franca": [{}, {"uuid": True}],
    "json": [{}, {"pretty": True}, {"extended_attributes": ("xa", "xb", "xc"), "extend_all_attributes": True}, {"extended_attributes": ("xc", "xa")}, {"expand": False}],
    "yaml": [{}, {"extended_attributes": ("xa", "xb", "xc"), "extend_all_attributes": True}, {"expand": False}, {"types_output": P("/out/types.yaml")}],
    "jsonschema": [{}, {"extend_all_attributes": True, "extended_attributes": ("xa", "xb", "xc")}, {"require_all_properties": True, "no_additional_properties": True}],
    "id": [{}],
    "binary": [{}],
    "ddsidl": [{}, {"all_idl_features": True}],
    "protobuf": [{}, {"add_optional": True}],
    "graphql": [{}],
    "go": [{}, {"short_names": False}],
    "apigear": [{}],
    "tree": [{}],
}


def model(kind):
    m = Model(True)
    x = {"xa": C("1"), "xc": C("3"), "xb": C("2"), "xd": C("4")}
    types = kind == "structs"
    m.add("V", "branch", comment=C("c"), **x)
    for n in "ABCD":
        m.add(f"V.{n}", "branch", inst=[f"V.{n}", f"V.{n}.L", f"V.{n}.R"], instances=[C("L"), C("R")], **x)
        for i, s in enumerate(("T.N.R", "T.S", "T.M.Q[]", "T.K", "uint8", "string[]") if types else ("uint8", "string[]", "double", "boolean[]")):
            m.add(f"V.{n}.X{i}", "sensor", datatype=C(s), inst=[f"V.{n}.L.X{i}", f"V.{n}.R.X{i}"], **x)
        m.add(f"V.{n}.E", "sensor", datatype=C("string"), allowed=[C("q"), C("w"), C("e"), C("r"), C("t")], inst=[f"V.{n}.L.E", f"V.{n}.R.E"], **x)
    m.add("V.U", "sensor", datatype=C("uint16"), unit=C("km"), min=C(1), max=C(9), **x)
    m.add("V.W", "sensor", datatype=C("uint16"), unit=C("mm"), default=C(4), **x)
    if not types:
        return m
    m.add("T", "branch", types=True)
    for s in ("T.S", "T.K"):
        m.add(s, "struct", types=True)
        for i, d in enumerate(("T.M.Q", "T.N.R[]", "uint8", "T.O.P.Z")):
            m.add(f"{s}.Y{i}", "property", types=True, datatype=C(d))
    for b, s in (("T.N", "R"), ("T.M", "Q"), ("T.O.P", "Z")):
        if b == "T.O.P":
            m.add("T.O", "branch", types=True)
        m.add(b, "branch", types=True)
        m.add(f"{b}.{s}", "struct", types=True)
        m.add(f"{b}.{s}.Y", "property", types=True, datatype=C("uint16"), unit=C("km"))
    return m


def sig(o):
    """everything an outcome writes, in order"""
    return (o.exc.name if o.exc is not None else "", tuple((a, k, ph(p) if k != "text" else p) for a, k, p in o.seq), tuple(o.stdout))


def source(v):
    """the first nondeterministic source in a value"""
    for a in atoms(v):
        if isinstance(a, Op):
            if a.name in ("hash", "id"):
                return a.name
            if a.name == "call" and a.args and isinstance(a.args[0], (Ext, Meth)):
                n = a.args[0].name if isinstance(a.args[0], Ext) else ".".join(reversed(chain(a.args[0])))
                if ND.match(n):
                    return n
            if a.name == "mcall" and isinstance(a.args[0], C) and a.args[0].v in ("iterdir", "rglob", "glob", "stat"):
                return a.args[0].v
        elif isinstance(a, Ext) and ND.match(a.name):
            return a.name
        elif isinstance(a, Sym) and str(a.path).startswith("file:"):
            return "the path of the program"
    return None


def chain(m):
    out = []
    while isinstance(m, Meth):
        out.append(m.name)
        m = m.recv
    if isinstance(m, Ext):
        out.append(m.name)
    return out


def first_diff(a, b):
    for (l, k, x), (l2, k2, y) in zip(a[1], b[1]):
        if (l, k, x) != (l2, k2, y):
            i = next((i for i, (c, d) in enumerate(zip(str(x), str(y))) if c != d), 0)
            return f"{l}: …{str(x)[max(0, i - 30):i + 60]!r} or …{str(y)[max(0, i - 30):i + 60]!r}"
    return f"{len(a[1])} or {len(b[1])} writes"


def samm(r, sel):
    """the written graphs are compared as sorted statements: their serialisation orders them"""
    from rules.c32 import SIG, TREE, graph
    files = {ROOT: File([], Data(*[N(n, k, description=C("d " + n), **a) for n, k, a in TREE])), **UNITS2, **QUANT2}
    o = {"target_folder": P("/out/tf"), "output_namespace": C("com.x"), "split": C(sel is None), "split_depth": C(1)}
    if sel is not None:
        files[SIG] = File([], Data(), text=C("\n".join(sel) + "\n"))
        o["signals_file"] = P(SIG)
    tag = "samm " + ("all" if sel is None else " ".join(sel))
    got = []
    for rev in (False, True):
        interp.SET_REV = rev
        try:
            e = Export(r.world, "samm", files, opts=o)
        finally:
            interp.SET_REV = False
        e.units_of(r)
        os_ = outputs(e)
        gs = [graph(x) if x.exc is None else None for x in os_]
        if not os_ or e.imprecise or not all(gs):
            r.undecided("order", tag, str(e.imprecise[:2])[:200] or "no output")
            return
        got.append(sorted({tuple(sorted(g)) for g in gs}))
        if not rev:
            for x in os_[0].events:
                if x.kind == "sink" and x.name != "stdout":
                    s = next((s for s in map(source, x.args[1:]) if s), None)
                    r.verdict(s is None, "source", f"{tag} {x.loc}" if s else tag, f"samm: what is written depends on {s}", x.loc)
                    if s:
                        break
    a, b = got
    d = next((f"{p.split('#')[-1]} of {s.split('#')[-1]} is {x[:60]} or not, in {l}" for s, p, x, l in sorted(set(sum(a, ())) ^ set(sum(b, ())))), "")
    r.verdict(a == b if len(a) == len(b) else None, "order", tag, f"samm: the output depends on the iteration order of a set: {d}")


def job(r, j):
    cmd, kind, opts = j
    if cmd == "samm":
        return samm(r, kind)
    tag = f"{cmd} {kind} {' '.join(sorted(opts))}".strip()
    what = f"{cmd} {' '.join('--' + x.replace('_', '-') for x in sorted(opts))}".strip()
    sigs = []
    for rev in (False, True):
        interp.SET_REV = rev
        try:
            ext = {"extended_attributes": tuple(dict.fromkeys(opts.get("extended_attributes", ()) + ("xa", "xb", "xc", "xd")))}
            e = run(r, cmd, model(kind), **{**opts, **ext})
        finally:
            interp.SET_REV = False
        e.units_of(r)
        os_ = outputs(e)
        if not os_:
            r.undecided("order", tag, str(e.imprecise[:2])[:200])
            return
        sigs.append((e, sorted((sig(o) for o in os_), key=repr)))
        if not rev:
            for o in os_:
                r.verdict(None if e.imprecise else o.exc is None, "succeeds", tag, f"{what}: the export fails with {o.exc.name if o.exc else ''}")
                for x in o.events:
                    if x.kind != "sink" or x.name == "stdout":
                        continue
                    s = next((s for s in map(source, x.args[1:]) if s), None)
                    r.verdict(s is None, "source", f"{tag} {x.loc}" if s else tag, f"{what}: what is written depends on {s}", x.loc)
                    if s:
                        break
            for n in e.imprecise:
                m = re.match(r"depends on (?:ext:)?([\w.]+)$", str(n))
                if m and ND.match(m.group(1)) and len({sig(o) for o in os_}) > 1:
                    r.bad("source", f"{tag} {m.group(1)}", f"{what}: what is written is decided by {m.group(1)}")
    (e1, a), (e2, b) = sigs
    if a == b:
        r.ok("order", tag)
    elif e1.imprecise or e2.imprecise or len(a) != len(b):
        r.undecided("order", tag, str((e1.imprecise + e2.imprecise)[:2])[:200])
    else:
        d = next(first_diff(x, y) for x, y in zip(a, b) if x != y)
        r.bad("order", tag, f"{what}: the output depends on the iteration order of a set: {d}")


def check(r):
    r.text("Every export is interpreted twice on models with several extended attributes, instances, imports between struct packages and enumerations: once with sets iterated in insertion order and once in the reverse order; all that is written must be equal. Every written value is traced to its sources: none may be a clock, a random generator, an object or process identity, a hash, the environment or a directory listing.")
    js = [(c, "plain" if c in ("franca", "binary", "graphql") else "structs", o) for c, os_ in OPTS.items() for o in os_]
    js = [("samm", x, {}) for x in (None, ["V.Cab", "V.CabX", "V.Da.Eb"])] + js
    r.pmap(job, js)
    r.floor("order", 20)
    r.floor("source", 20)
