"""A model whose every metadata item is unique, with the expected attributes of every node of the loaded tree; shared by the export rules."""
import itertools
import uuid

from core import *  # noqa
from full import *
from outs import outputs, ph
from rules.views import view, txt, Unread, Broken
from rules.idref import succeed

UN = ["km", "mm", "mi", "cm"]
QUANT2 = {"/m/quantities.yaml": File([], Data(("distance", Data(("definition", C("d"))))))}
UNITS2 = {"/m/units.yaml": File([], Data(*[(u, Data(("definition", C("d")), ("unit", C("unit-" + u)), ("quantity", C("distance")), ("allowed-datatypes", [C(x) for x in ("uint16", "uint8", "int16", "int8", "uint32", "int32", "uint64", "int64", "float", "double", "numeric", "boolean", "string")]))) for u in UN]))}
NS = uuid.uuid5(uuid.NAMESPACE_OID, "vehicle_signal_specification")
ATTRS = ("min", "max", "unit", "default", "comment", "deprecation")


def uid5(fqn):
    return uuid.uuid5(NS, fqn).hex


class Model:
    """entries of a specification; nodes: {fqn in the loaded tree: {attribute: value}} (python values in C, symbolic texts, lists)"""
    def __init__(self, const=False):
        self.e, self.t = [], []
        self.nodes, self.types = {}, {}
        self.const = const
        self.k = 0

    def s(self, n):
        return C("~" + n.replace(".", "-")) if self.const else S(n)

    def add(self, name, kind, to=None, inst=None, types=False, **kw):
        """inst: names of the loaded nodes that come from this entry"""
        a = {"description": self.s(f"{name}.descr")}
        a.update(kw)
        e = {k: v for k, v in a.items()}
        if inst is not None and kind == "branch" and inst:
            pass
        (self.t if types else self.e).append(N(name, kind, **e))
        a.pop("instances", None)
        a.pop("instantiate", None)
        a["type"] = C(kind)
        for n in inst or [name]:
            (self.types if types else self.nodes)[n] = a
        return self

    def full(self, name, kind="sensor", attrs=ATTRS, datatype="uint16", inst=None, types=False, **kw):
        i = self.k = self.k + 1
        vals = {"min": C(10 + i), "max": C(30000 + i), "default": C(1000 + i), "unit": C(UN[i % len(UN)]), "comment": self.s(f"{name}.cm"), "deprecation": self.s(f"{name}.dep")}
        return self.add(name, kind, inst=inst, types=types, datatype=C(datatype), **{k: vals[k] for k in ATTRS if k in attrs}, **kw)

    def files(self):
        f = {ROOT: File([], Data(*self.e)), **UNITS2, **QUANT2}
        if self.t:
            f["/m/t.vspec"] = File([], Data(*self.t))
        return f


NUM = {"uint8": (0, 255), "int8": (-128, 127), "uint16": (0, 65535), "int16": (-32768, 32767), "uint32": (0, 2**32 - 1), "int32": (-2**31, 2**31 - 1), "uint64": (0, 2**64 - 1), "int64": (-2**63, 2**63 - 1), "float": (-1.5e9, 1.5e9), "double": (-1.5e12, 1.5e12), "numeric": (-900, 900)}
SCALARS = (*NUM, "boolean", "string")


def cross(const=False, types=True, arrays=True, full_range=False):
    """every datatype and its array form with units, limits (negative where possible), defaults and allowed values, for every kind"""
    m = Model(const)
    m.add("V", "branch")
    kinds = ("attribute", "sensor", "actuator")
    k = 0
    for where, kinds in (("V", kinds),) + ((("T.S", ("property",)),) if types else ()):
        ty = where != "V"
        if ty:
            m.add("T", "branch", types=True)
            m.add("T.S", "struct", types=True)
        for dt in SCALARS:
            for arr in ("", "[]")[:2 if arrays else 1]:
                lo, hi = NUM.get(dt, (0, 0))
                k += 1
                val = {"boolean": TRUE, "string": C(f"t{k}")}.get(dt) or C(type(hi)(min(hi, 60 + k % 60)))
                al = [FALSE, TRUE] if dt == "boolean" else [C(f"a{k}"), C(f"b{k}")] if dt == "string" else [C(type(hi)(x)) for x in (3 + k % 7, 20 + k % 9)]
                num = {"min": C(lo if full_range else lo + k), "max": C(hi if full_range else hi - k)} if dt in NUM else {}
                nm = f"{where}.{dt.capitalize()}{'A' if arr else ''}"
                m.add(nm + "1", kinds[k % len(kinds)], types=ty, datatype=C(dt + arr), unit=C(UN[k % 4]), comment=m.s(nm + ".cm"), **num)
                m.add(nm + "2", kinds[0], types=ty, datatype=C(dt + arr), unit=C(UN[(k + 1) % 4]), default=[val] if arr else val, deprecation=m.s(nm + ".dep"), **num)
                m.add(nm + "3", kinds[(k + 1) % len(kinds)], types=ty, datatype=C(dt + arr), allowed=al, comment=m.s(nm + "3.cm"), unit=C(UN[(k + 2) % 4]))
                m.add(nm + "4", kinds[0], types=ty, datatype=C(dt + arr), allowed=al, default=[al[1]] if arr else al[1])
                m.add(nm + "5", kinds[(k + 2) % len(kinds)], types=ty, datatype=C(dt + arr), deprecation=m.s(nm + "5.dep"))
    return m


def rich(const=False, types=True, part=None, parts=1):
    """all subsets of the optional attributes, all kinds and datatypes, allowed values, instances, structs; `part` of the subsets"""
    m = Model(const)
    m.add("V", "branch", comment=m.s("V.cm"), deprecation=m.s("V.dep"))
    m.add("V.B", "branch", comment=m.s("V.B.cm"))
    m.add("V.B.C", "branch", deprecation=m.s("V.B.C.dep"))
    subs = [s for k in range(7) for s in itertools.combinations(ATTRS, k)]
    subs = subs[::2] + subs[1::2][::-1]
    for i, s in enumerate(subs):
        if part is not None and i % parts != part:
            continue
        m.full(("V.", "V.B.", "V.B.C.")[i % 3] + f"L{i}", ("sensor", "actuator", "attribute")[i // 3 % 3] if "default" not in s else ("attribute", "sensor")[i % 2], s)
    m.add("V.B.A", "attribute", datatype=C("string"), allowed=[C("v1"), C("v2")], default=C("v2"))
    m.add("V.B.A2", "sensor", datatype=C("string"), allowed=[C("w1"), C("w2")], comment=m.s("A2.cm"))
    m.add("V.B.A3", "actuator", datatype=C("string[]"))
    m.add("V.I", "branch", inst=["V.I", "V.I.R1", "V.I.R2", "V.I.R1.P", "V.I.R1.Q", "V.I.R2.P", "V.I.R2.Q"], instances=[C("R[1,2]"), [C("P"), C("Q")]], comment=m.s("V.I.cm"))
    lv = [f"V.I.R{i}.{j}" for i in (1, 2) for j in "PQ"]
    m.full("V.I.X", "sensor", inst=[x + ".X" for x in lv])
    m.add("V.I.Y", "branch", inst=[x + ".Y" for x in lv])
    m.full("V.I.Y.Z", "actuator", ("min", "unit"), inst=[x + ".Y.Z" for x in lv])
    m.full("V.I.N", "sensor", ("max", "comment"), instantiate=FALSE, inst=["V.I.N"])
    if types:
        m.add("T", "branch", types=True, comment=m.s("T.cm"))
        m.add("T.S", "struct", types=True, deprecation=m.s("T.S.dep"))
        m.full("T.S.P", "property", ("min", "unit"), types=True)
        m.full("T.S.Q", "property", ("max", "comment", "deprecation"), types=True)
        m.add("T.S.D", "property", datatype=C("uint8"), types=True, default=C(77))
        m.add("T.N", "branch", types=True)
        m.add("T.N.R", "struct", types=True, comment=m.s("T.N.R.cm"))
        m.add("T.N.R.E", "property", types=True, datatype=C("string"), allowed=[C("x1"), C("x2")])
        m.add("T.N.R.G", "property", types=True, datatype=C("T.S[]"))
        m.add("V.U", "sensor", datatype=C("T.S"))
        m.add("V.U2", "actuator", datatype=C("T.N.R[]"), comment=m.s("U2.cm"))
    return m


TYPES = ("csv", "json", "yaml", "jsonschema", "tree", "ddsidl", "go", "protobuf", "apigear")     # commands that export the user-type tree
EXPORTS = ("csv", "franca", "json", "yaml", "jsonschema", "id", "binary", "ddsidl", "tree")
# label -> attribute, by command; (attribute, categories) limits an item to some nodes
LEAF = ("leaf",)
LABELS = {
    "csv": {"Type": "type", "DataType": "datatype", "Deprecated": "deprecation", "Unit": "unit", "Min": "min", "Max": "max", "Desc": "description", "Comment": "comment", "Allowed": "allowed", "Default": "default", "Id": "uuid"},
    "franca": {"type": "type", "datatype": "datatype", "description": "description", "unit": "unit", "min": "min", "max": "max", "allowed": "allowed", "uuid": "uuid"},
    "json": {k: k for k in ("type", "datatype", "description", "unit", "min", "max", "allowed", "default", "comment", "deprecation", "uuid")},
    "jsonschema": {"description": "description", "minimum": "min", "maximum": "max", "enum": "allowed", "default": "default", "x-VSStype": "type", "x-datatype": "datatype", "x-deprecation": "deprecation", "x-unit": "unit", "x-comment": "comment", "x-uuid": "uuid"},
    "id": {k: k for k in ("type", "datatype", "description", "unit", "min", "max", "allowed", "deprecation")},
    "binary": {k: k for k in ("type", "datatype", "description", "unit", "min", "max", "allowed", "default", "uuid")},
    "ddsidl": {"type": ("type", LEAF), "description": ("description", LEAF), "unit": ("unit", LEAF), "min": ("min", LEAF), "max": ("max", LEAF), "default": ("default", LEAF)},
}
LABELS["yaml"] = LABELS["json"]
NODESC = {"id": ("default",)}


def category(a):
    t = a["type"].v
    return "leaf" if t in ("sensor", "actuator", "attribute") else t


def ideal(cmd, label, a, v):
    """the text of the value of an attribute in a format"""
    if cmd == "binary" and label == "allowed":
        return "".join("%02x%s" % (len(txt(x)), txt(x)) for x in v)
    if cmd == "ddsidl" and label == "default":
        return "".join(txt(v).split()).replace("'", "")
    return txt(v)


def run(r, cmd, m, const=None, prev=None, **opts):
    tys = ["/m/t.vspec"] if m.t else []
    base = {"types_out_dir": P("/out/types")}
    base.update(opts)
    return Export(r.world, cmd, m.files(), types=tys, opts=base, prev=prev)


def views(r, cl, tag, what, cmd, e):
    """the node views of the successful outcomes"""
    for o in succeed(r, cl, tag, what, e):
        try:
            v = view(cmd, o)
        except Broken as x:
            r.verdict(None if e.imprecise else False, "format", tag, f"{what}: the output is not of the format: {x}")
            continue
        except (Unread, ValueError, IndexError, KeyError) as x:
            r.undecided(cl, tag, f"output not understood: {x}"[:200])
            continue
        yield o, v, not e.imprecise


def same(x, want):
    """True / False / None (not known)"""
    t = txt(x)
    if t.startswith("[") and want.startswith("[") and "'" not in want:
        t = t.replace("'", "")
    if t == want:
        return True
    return None if "\u27e6?" in t else False
