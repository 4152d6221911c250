"""Reading the outputs of every export command back into {qualified name: {label: text}} (by the format, not by the code)."""
import re
import struct

from core import *  # noqa
from full import *
from outs import outputs, ph, gql, known
from rules.c21 import nodes as struct_nodes


class Broken(Exception):
    """the output is fully known and is not of the format"""


class Unread(Exception):
    """the output does not have the shape the format has"""


def txt(v):
    if isinstance(v, list):
        return "[" + ", ".join(repr(x.v) if isinstance(x, C) else ph(x) for x in v) + "]"
    return ph(v) if isinstance(v, (V, dict)) else str(v)


def csv_view(o, f=None):
    rows = [r for lab in ([f] if f else o.labels()) for rs in o.data("rows", lab) for r in rs]
    if not rows or not all(isinstance(x, list) for x in rows):
        raise Unread("no rows")
    out = {}
    head = None
    for lab in [f] if f else o.labels():
        rs = [r for x in o.data("rows", lab) for r in x]
        head = [txt(x) for x in rs[0]]
        for r in rs[1:]:
            if len(r) != len(head):
                raise Unread("columns")
            d = dict(zip(head, r))
            n = txt(d.get("Signal", d.get("Node")))
            out[n] = {k: v for k, v in d.items() if k not in ("Signal", "Node") and v != C("")}
    return out


FIELD = re.compile(r'(\w+)\s*:\s*("(?:[^"]*)"|\[[^\]]*\]|[^,\n}]+)')


def franca_view(o):
    t = o.text()
    i = t.find("signal_spec")
    if i < 0:
        raise Unread("no signal_spec")
    out = {}
    for b in re.findall(r"\{([^{}]*)\}", t[i:]):
        d = {k: v.strip() for k, v in FIELD.findall(b)}
        n = d.pop("name", None)
        if n is None:
            raise Unread("no name")
        out[n.strip('"')] = {k: v[1:-1] if v.startswith('"') else v for k, v in d.items()}
    return out


def attrs_view(cmd):
    def f(o):
        out = {}
        for d in o.data("json") + o.data("yaml"):
            x = struct_nodes(cmd, d)
            if x is None:
                raise Unread("structure")
            for n, a in x.items():
                out[n] = {k: v for k, v in a.items() if k not in ("children", "properties")}
        if not out:
            raise Unread("nothing")
        return out
    return f


def tree_view(o):
    t = o.text()
    out, path = {}, []
    for line in t.split("\n"):
        m = re.match(r"^([\s\u2502\u251c\u2514\u2500|`+\\-]*)(\S.*)$", line)
        if not m:
            continue
        d = len(m.group(1)) // 4
        if d > len(path):
            raise Unread("indentation")
        path = path[:d] + [m.group(2).split(" ")[0]]
        out[".".join(path)] = {}
    if not out:
        raise Unread("nothing")
    return out


def binary_bytes(o):
    b = b""
    for lab, k, p in o.order:
        if k == "pack":
            if not all(isinstance(a, C) for a in p):
                raise Unread("symbolic")
            try:
                b += struct.pack(*[a.v for a in p])
            except struct.error as e:
                raise Unread(str(e))
        elif k == "text" and known(p):
            b += p.encode()
        else:
            raise Unread("not bytes")
    return b


FIELDS = (("name", "p"), ("type", "p"), ("uuid", "p"), ("description", "H"), ("datatype", "p"), ("min", "p"), ("max", "p"), ("unit", "p"), ("allowed", "H"), ("default", "p"), ("validate", "p"))


def binary_decode(b):
    """the documented layout: fields of a node in order, length prefixed; number of children; children"""
    pos = 0

    def take(n):
        nonlocal pos
        if pos + n > len(b):
            raise Broken("the file ends inside a node")
        x = b[pos:pos + n]
        pos += n
        return x

    def node(prefix):
        d = {}
        for n, k in FIELDS:
            ln = take(1)[0] if k == "p" else struct.unpack("<H", take(2))[0]
            d[n] = take(ln).decode("utf-8", "replace")
        fq = prefix + d.pop("name")
        out[fq] = {k: v for k, v in d.items() if v != ""}
        for _ in range(take(1)[0]):
            node(fq + ".")
    out = {}
    node("")
    if pos != len(b):
        raise Broken("bytes are left after the last node")
    return out


def binary_allowed(t):
    out, i = [], 0
    while i < len(t):
        n = int(t[i:i + 2], 16)
        out.append(t[i + 2:i + 2 + n])
        i += 2 + n
    return out


def binary_view(o):
    return binary_decode(binary_bytes(o))


# ---------------------------------------------------------------- IDL
def idl_tokens(t):
    return re.findall(r'//[^\n]*|"(?:[^"\\]|\\.)*"|\u27e6[^\u27e7]*\u27e7|-?\d+\.\d+(?:[eE][-+]?\d+)?|[\w@\u27e6\u27e7]+|::|[{}();,<>=.\[\]*?-]', t)


def idl_decls(t):
    """[(kind, path, detail)] of an IDL text: module, struct, fwd, enum, member(type tokens, name), meta(label, text)"""
    toks = []
    for line in t.split("\n"):
        ls = line.strip()
        if ls.startswith("//"):
            m = re.match(r'//\s*const\s+string\s+(\w+)\s*=\s*"(.*)"\s*;?$', ls)
            if m:
                toks.append(("meta", m.group(1), m.group(2)))
            continue
        m = re.match(r'const\s+string\s+(\w+)\s*=\s*"(.*)"\s*;$', ls)
        if m:
            toks.append(("meta", m.group(1), m.group(2)))
            continue
        if "\u27e6?" in line:
            raise Unread("unknown text")
        toks += idl_tokens(ls)
    pos = 0
    out = []

    def peek():
        return toks[pos] if pos < len(toks) else None

    def nxt(want=None):
        nonlocal pos
        if pos >= len(toks) or want is not None and toks[pos] != want:
            raise Unread(f"IDL: expected {want}, found {toks[pos] if pos < len(toks) else 'end'}")
        pos += 1
        return toks[pos - 1]

    def ann():
        a = []
        while isinstance(peek(), str) and peek().startswith("@"):
            n = nxt()
            d = []
            if peek() == "(":
                nxt()
                while peek() != ")":
                    d.append(nxt())
                nxt(")")
            a.append((n, d))
        return a

    def items(path):
        while peek() is not None and peek() != "}":
            k = nxt()
            if k == ";":
                continue
            if k == "module":
                n = nxt()
                out.append(("module", path + (n,), None))
                nxt("{")
                items(path + (n,))
                nxt("}")
                if peek() == ";":
                    nxt()
            elif k == "struct":
                n = nxt()
                if peek() == ";":
                    out.append(("fwd", path + (n,), None))
                    nxt()
                    continue
                out.append(("struct", path + (n,), None))
                nxt("{")
                members(path + (n,))
                nxt("}")
                nxt(";")
            elif k == "enum":
                n = nxt()
                nxt("{")
                vs, cur = [], []
                while peek() != "}":
                    x = nxt()
                    if x == ",":
                        vs.append("".join(cur))
                        cur = []
                    else:
                        cur.append(x)
                nxt("}")
                nxt(";")
                out.append(("enum", path + (n,), vs + ["".join(cur)] if cur or vs else []))
            else:
                raise Unread(f"IDL: unexpected {k}")

    def members(path):
        a = []
        while peek() != "}":
            if isinstance(peek(), tuple):
                _, l, v = nxt()
                out.append(("meta", path, (l, v)))
                continue
            if peek() is None:
                raise Unread("IDL: end in a struct")
            a = ann()
            ts = []
            while peek() not in (";", None) and not isinstance(peek(), tuple):
                ts.append(nxt())
            nxt(";")
            dflt = None
            if "default" in ts[1:]:
                i = ts.index("default", 1)
                dflt = "".join(ts[i + 1:])
                ts = ts[:i]
            if len(ts) < 2:
                raise Unread("IDL: member")
            # type name [= default tokens]
            if ts[0] == "sequence":
                i = len(ts) - 1 - ts[::-1].index(">")
                ty, rest = ts[:i + 1], ts[i + 1:]
            elif "::" in ts:
                i = 1
                while i < len(ts) and ts[i] == "::":
                    i += 2
                ty, rest = ts[:i], ts[i:]
            else:
                i = 1
                while i < len(ts) - 1 and ts[0] in ("unsigned", "long") and ts[i] in ("short", "long", "double"):
                    i += 1
                ty, rest = ts[:i], ts[i:]
            if not rest:
                raise Unread("IDL: member name")
            if len(rest) > 1:
                dflt = "".join(rest[1:]).lstrip("=")
            ty = " ".join(ty).replace(" :: ", "::").replace("sequence < ", "sequence<").replace(" >", ">")
            out.append(("member", path, (ty, rest[0], dflt, a)))
    items(())
    if pos != len(toks):
        raise Unread("IDL: rest")
    return out


def strip_(n):
    return n[1:] if n.startswith("_") else n


def ddsidl_view(o):
    out = {}
    enums = {}
    ds = idl_decls(o.content(o.labels()[0]) if len(o.labels()) == 1 else o.text())
    structs = {p for k, p, _ in ds if k == "struct"}
    for k, p, d in ds:
        n = ".".join(strip_(x) for x in p)
        if k == "module" and not p[-1].endswith("_M"):
            out.setdefault(n, {})
        elif k == "struct":
            out[n] = {}
        elif k == "enum":
            enums["::".join(p[-2:])] = d
        elif k == "meta":
            out[n][d[0]] = d[1]
        elif k == "member":
            ty, nm, dflt, a = d
            if nm == "uuid" and ty == "string":
                out[n]["uuid"] = ""
            elif nm == "value":
                out[n]["value"] = ty
                if ty in enums:
                    out[n]["enum"] = ",".join(enums[ty])
                if dflt is not None:
                    out[n]["default"] = dflt.strip('"')
                for an, ad in a:
                    s = "".join(ad)
                    m = re.match(r"min=(.*),max=(.*)$", s)
                    if an == "@range" and m:
                        out[n]["min"], out[n]["max"] = m.groups()
            else:
                out[n + "." + strip_(nm)] = {"value": ty}
    return out


# ---------------------------------------------------------------- protobuf
def proto_parse(t):
    """-> (imports, package, [(message, [(type, name, number)])]) of a .proto text; order of the statements kept in 'seq'"""
    if "\u27e6?" in t:
        raise Unread("unknown text")
    seq, msgs, cur = [], [], None
    for line in t.split("\n"):
        s = line.strip()
        if not s or s.startswith("//"):
            continue
        m = re.match(r'(syntax)\s*=\s*"(\w+)"\s*;$|(import)\s+"([^"]*)"\s*;$|(package)\s+([\w.]+)\s*;$', s)
        if m and cur is None:
            g = [x for x in m.groups() if x is not None]
            seq.append((g[0], g[1]))
            continue
        m = re.match(r"message\s+(\S+)\s*\{\s*(\})?$", s)
        if m and cur is None:
            msgs.append((m.group(1), []))
            seq.append(("message", m.group(1)))
            cur = None if m.group(2) else msgs[-1][1]
            continue
        if s == "}" and cur is not None:
            cur = None
            continue
        m = re.match(r"(.+?)\s+(\S+)\s*=\s*(\S+)\s*;$", s)
        if m and cur is not None:
            cur.append(m.groups())
            continue
        raise Unread(f"proto: {s[:60]}")
    if cur is not None:
        raise Unread("proto: unterminated message")
    return seq, msgs


# ---------------------------------------------------------------- Go
def go_parse(t):
    if "\u27e6?" in t:
        raise Unread("unknown text")
    out, cur = [], None
    for line in t.split("\n"):
        s = line.strip()
        if not s or s.startswith("//") or re.match(r"package\s+\w+$", s):
            continue
        m = re.match(r"type\s+(\S+)\s+struct\s*\{\s*(\})?$", s)
        if m and cur is None:
            out.append((m.group(1), []))
            cur = None if m.group(2) else out[-1][1]
        elif s == "}" and cur is not None:
            cur = None
        elif cur is not None and len(s.split()) == 2:
            cur.append(tuple(s.split()))
        else:
            raise Unread(f"go: {s[:60]}")
    return out


# ---------------------------------------------------------------- GraphQL
def gql_nodes(g):
    """[(type name, description, {field: field})] of every object type reachable from the schema"""
    out = []

    def rec(x):
        if isinstance(x, dict) and x.get("kind") == "GraphQLObjectType":
            out.append(x)
            fs = x.get("fields")
            for v in fs.values() if isinstance(fs, dict) else ():
                rec(v.get("type_") if isinstance(v, dict) else None)
    if not isinstance(g, dict):
        raise Unread("no schema")
    s = g.get("schema", g)
    q = s.get("query") if isinstance(s, dict) else None
    if not isinstance(q, dict):
        raise Unread("no query")
    rec(q)
    return out


VIEWS = {"csv": csv_view, "franca": franca_view, "json": attrs_view("json"), "yaml": attrs_view("yaml"), "jsonschema": attrs_view("jsonschema"), "id": attrs_view("yaml"),
         "tree": tree_view, "binary": binary_view, "ddsidl": ddsidl_view}


def cut(x):
    if isinstance(x, dict):
        return any(cut(k) or cut(v) for k, v in x.items())
    return any(map(cut, x)) if isinstance(x, (list, tuple)) else isinstance(x, Op) and x.name == "top"


def view(cmd, o):
    if any(cut(d) for d in o.data("json") + o.data("yaml")):
        raise Unread("part of the output is unknown")
    return VIEWS[cmd](o)
