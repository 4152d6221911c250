"""C28: DDS-IDL identifiers never collide with keywords."""
import keyword as _kw
from rules.xmodel import *
from rules.views import idl_decls

IDL = """abstract any alias attribute bitfield bitmask bitset boolean case char component connector const consumes context custom default double emits enum eventtype exception factory FALSE finder fixed
float getraises home import in inout interface local long manages map mirrorport module multiple native Object octet oneway out port porttype primarykey private provides public publishes raises readonly sequence
setraises short string struct supports switch TRUE truncatable typedef typeid typename typeprefix union unsigned uses ValueBase valuetype void wchar wstring int8 int16 int32 int64 uint8 uint16 uint32 uint64""".split()
CK = """auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while""".split()
ALL = sorted(set(IDL + CK + list(_kw.kwlist)))
KW = {k.lower() for k in ALL}
PLAIN = ["Normal", "Ints", "XModule", "In2", "Values", "Struct_M"]


def esc(n):
    return "_" + n if n.lower() in KW else n


def epath(fqn):
    return tuple(esc(x) for x in fqn.split("."))


def forms(words, thorough):
    out = []
    for w in words:
        for x in dict.fromkeys((w, w.capitalize()) + ((w.upper(), w.lower()) if thorough else ())):
            out.append(x)
    return list(dict.fromkeys(out))


def model(pos, words):
    m = Model()
    m.add("V", "branch")
    if pos.startswith("t"):
        m.add("T", "branch", types=True)
    for i, w in enumerate(words):
        if pos == "leaf":
            m.add(f"V.{w}", ("sensor", "actuator", "attribute")[i % 3], datatype=C(("uint8", "string", "float[]")[i % 3]))
        elif pos == "branch":
            m.add(f"V.{w}", "branch")
            m.add(f"V.{w}.X{i}", "sensor", datatype=C("uint8"))
        elif pos == "inner":
            m.add(f"V.B{i}", "branch")
            m.add(f"V.B{i}.{w}", "branch")
            m.add(f"V.B{i}.{w}.{w}", "sensor", datatype=C("uint8"))
        elif pos == "enum":
            m.add(f"V.{w}", "attribute", datatype=C("string"), allowed=[C("a"), C(f"{i}b"), C(str(i))], default=C((f"{i}b", "a", str(i))[i % 3]))
        elif pos == "tbranch":
            m.add(f"T.{w}", "branch", types=True)
            m.add(f"T.{w}.S", "struct", types=True)
            m.add(f"T.{w}.S.P", "property", types=True, datatype=C("uint8"))
        elif pos == "tstruct":
            m.add(f"T.{w}", "struct", types=True)
            m.add(f"T.{w}.P", "property", types=True, datatype=C("float"))
        elif pos == "tprop":
            m.add(f"T.S{i}", "struct", types=True)
            m.add(f"T.S{i}.{w}", "property", types=True, datatype=C(("uint8", "string", "float[]", f"T.S{max(i - 1, 0)}", f"T.S{max(i - 2, 0)}[]")[i % 5]))
    if pos in ("tbranch", "tstruct"):
        tail = ".S" if pos == "tbranch" else ""
        m.add("T.Users", "struct", types=True)
        m.add("V.U", "branch")
        for i, w in enumerate(words):
            m.add(f"T.Users.P{i}", "property", types=True, datatype=C(f"T.{w}{tail}" + ("[]" if i % 2 else "")))
            m.add(f"V.U.L{i}", "sensor", datatype=C(f"T.{w}{tail}" + ("[]" if i % 3 == 0 else "")))
    if pos == "tprop":
        m.add("V.U", "sensor", datatype=C("T.S0"))
    return m


def order_models():
    """struct trees whose structs use each other forwards, backwards, across modules, themselves and through sequences"""
    out = []
    structs = ["T.A", "T.B.C", "T.B.D", "T.B.E.F", "T.G"]
    for k, use in enumerate([
            {0: [1, 2, 3, 4], 1: [0], 3: [2]}, {4: [0, 1, 2, 3]}, {0: [4], 4: [0]}, {1: [2], 2: [1]}, {2: [3], 3: [1, 4]}, {0: [1], 1: [3], 3: [4]}, {1: [1], 2: [0, 1]},
            {0: [2, 2], 1: [2], 3: [2], 4: [2]}]):
        for arr in (False, True):
            m = Model()
            m.add("V", "branch")
            m.add("T", "branch", types=True)
            done = {"T"}
            for i, s in enumerate(structs):
                p = s.split(".")
                for j in range(1, len(p)):
                    if ".".join(p[:j]) not in done:
                        done.add(".".join(p[:j]))
                        m.add(".".join(p[:j]), "branch", types=True)
                m.add(s, "struct", types=True)
                m.add(s + ".Z", "property", types=True, datatype=C("uint8"))
                for j, u in enumerate(use.get(i, [])):
                    m.add(f"{s}.P{j}", "property", types=True, datatype=C(structs[u] + ("[]" if arr or u == i else "")))
                m.add(f"V.L{i}", "sensor", datatype=C(s))
            out.append((f"order{k}{'a' if arr else ''}", m))
    return out


def model_literals():
    m = Model()
    m.add("V", "branch")
    lits = ["0", "1", "9a", "a9", "007", "1_2", "x", "D1", "5d"]
    for i, l in enumerate(lits):
        m.add(f"V.L{i}", "attribute", datatype=C("string"), allowed=[C(l), C("other")], default=C(l))
        m.add(f"V.S{i}", "sensor", datatype=C("string"), allowed=[C("other"), C(l)])
        m.add(f"V.A{i}", "actuator", datatype=C("string[]"), allowed=[C("b"), C(l)])
    return m


def resolve(ref, scope, known):
    p = tuple(x for x in ref.split("::") if x)
    if ref.startswith("::"):
        return p if p in known else None
    for k in range(len(scope), -1, -1):
        if scope[:k] + p in known:
            return scope[:k] + p
    return None


PRIM = {"octet", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double", "boolean", "string", "wstring", "char", "wchar",
        "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}


def inspect(r, tag, what, m, ds, exact, struct_only=False):
    v = lambda c, cl, key, msg: r.verdict(None if not exact else c, cl, f"{tag} {key}", f"{what}: {msg}")
    decl = {}
    seen = set()
    for i, (k, p, d) in enumerate(ds):
        if k in ("module", "struct", "enum", "fwd"):
            n = p[-1]
            v(n.lower() not in KW, "escaped", f"{k} {n}", f"the {k} {'::'.join(p)} is named like the keyword {n.lower()}")
            decl.setdefault(p, k)
        elif k == "member":
            v(d[1].lower() not in KW, "escaped", f"member {d[1]}", f"the member {d[1]} of {'::'.join(p)} is named like a keyword")
    for i, (k, p, d) in enumerate(ds):
        if k in ("struct", "enum", "fwd"):
            seen.add(p)
        if k == "enum":
            for l in d:
                v(bool(l) and not l[0].isdigit(), "literal", f"{'.'.join(p)} {l}", f"the literal {l!r} of {'::'.join(p)} starts with a digit")
        if k != "member":
            continue
        t = d[0]
        if t.startswith("sequence<"):
            t = t[9:].rstrip(">").split(",")[0].strip()
        if t in PRIM:
            continue
        q = resolve(t, p, {x for x, kk in decl.items() if kk in ("struct", "enum", "fwd")})
        v(q is not None, "reference", f"{'.'.join(p)} {d[1]}", f"{'::'.join(p)}.{d[1]} refers to {t}, which is not declared under that name")
        if q is not None:
            v(q in seen, "declared", f"{'.'.join(p)} {d[1]}", f"{'::'.join(p)}.{d[1]} uses {t} before its definition and without a forward declaration")
            v(any(kk in ("struct", "enum") and pp == q for kk, pp, _ in ds), "reference", f"{'.'.join(p)} {d[1]} def", f"{t} is declared but never defined")
            if d[2] is not None and any(kk == "enum" and pp == q for kk, pp, _ in ds):
                lits = [x for kk, pp, x in ds if kk == "enum" and pp == q][0]
                v(d[2].strip() in lits, "literal", f"{'.'.join(p)} default", f"the default {d[2]} of {'::'.join(p)} is no literal of its enum ({', '.join(lits)})")
    for n, a in {**m.nodes, **m.types}.items():
        e = epath(n)
        t = a["type"].v
        if t == "branch":
            v(decl.get(e) == "module", "named", n, f"the branch {n} has no module {'::'.join(e)}")
        elif t == "property":
            v(any(k == "member" and p == e[:-1] and d[1] == e[-1] for k, p, d in ds), "named", n, f"the property {n} has no member {e[-1]} in {'::'.join(e[:-1])}")
        else:
            v(any(k == "struct" and p == e for k, p, d in ds), "named", n, f"{n} has no struct {'::'.join(e)}")
        dt = txt(a["datatype"]) if "datatype" in a else ""
        if "." in dt:
            want = epath(dt.rstrip("[]"))
            scope, nm = (e[:-1], e[-1]) if t == "property" else (e, "value")
            for k, p, d in ds:
                if k == "member" and p == scope and d[1] == nm:
                    x = d[0][9:].rstrip(">").strip() if d[0].startswith("sequence<") else d[0]
                    v(resolve(x, p, set(decl)) == want, "reference", n + " target", f"{n} refers to {x}, its datatype is declared as {'::'.join(want)}")


def job(r, j):
    pos, words, opts = j
    if pos == "order":
        ms = [order_models()[words]]
    elif pos == "literals":
        ms = [("literals", model_literals())]
    else:
        ms = [(f"{pos}", model(pos, words))]
    for nm, m in ms:
        e = run(r, "ddsidl", m, **opts)
        what = f"ddsidl{' ' + ' '.join(opts) if opts else ''} ({nm})"
        tag = f"{nm}"
        for o in succeed(r, "succeeds", tag, what, e):
            try:
                ds = idl_decls(o.content("/out/output"))
            except (Unread, Broken, ValueError, IndexError, KeyError) as x:
                r.undecided("named", tag, f"output not understood: {x!r}"[:200])
                continue
            inspect(r, tag, what, m, ds, not e.imprecise)


def check(r):
    r.text("The DDS-IDL export is interpreted on models that use every IDL 4.2, C and Python keyword (in several spellings) as branch, leaf, enumerated leaf, struct branch, struct and property name, on struct trees that use each other in all orders, and on digit literals; the declared identifiers, references, declaration order and literals of the output are checked.")
    js = []
    words = forms(ALL, r.thorough) + PLAIN
    n = 24
    for pos in ("leaf", "branch", "inner", "enum", "tbranch", "tstruct", "tprop"):
        for i in range(0, len(words), n):
            js.append((pos, words[i:i + n], {"all_idl_features": True} if pos == "enum" and i % (2 * n) == 0 else {}))
    js += [("order", k, {}) for k in range(len(order_models()))]
    js += [("literals", None, {}), ("literals", None, {"all_idl_features": True})]
    r.pmap(job, js)
    for c, k in (("escaped", 500), ("named", 500), ("reference", 100), ("declared", 100), ("literal", 20)):
        r.floor(c, k)
