# Reference semantics of the third-party RDF library, interpreted together with the analysed sources (never executed).
# A graph serializes to records of fields separated by the control characters 1e and 1f, in order of insertion.


class URIRef:
    def __init__(self, value, base=None):
        self.sa_v = str(value)

    def __str__(self):
        return self.sa_v

    def __repr__(self):
        return self.sa_v

    def __eq__(self, other):
        return isinstance(other, URIRef) and self.sa_v == other.sa_v

    def __ne__(self, other):
        return not (isinstance(other, URIRef) and self.sa_v == other.sa_v)

    def __hash__(self):
        return 1

    def __bool__(self):
        return len(self.sa_v) > 0

    def __len__(self):
        return len(self.sa_v)

    def __add__(self, other):
        return URIRef(self.sa_v + str(other))

    def __contains__(self, other):
        return str(other) in self.sa_v

    def __format__(self, spec):
        return self.sa_v

    def replace(self, old, new):
        return self.sa_v.replace(str(old), str(new))

    def split(self, sep=None, n=-1):
        return self.sa_v.split(sep, n)

    def rsplit(self, sep=None, n=-1):
        return self.sa_v.rsplit(sep, n)

    def startswith(self, p):
        return self.sa_v.startswith(str(p))

    def endswith(self, p):
        return self.sa_v.endswith(str(p))

    def removeprefix(self, p):
        return self.sa_v.removeprefix(str(p))

    def rpartition(self, p):
        return self.sa_v.rpartition(p)

    def partition(self, p):
        return self.sa_v.partition(p)

    def lower(self):
        return self.sa_v.lower()

    def upper(self):
        return self.sa_v.upper()

    def n3(self, nm=None):
        return "<" + self.sa_v + ">"


class Literal:
    def __init__(self, value, lang=None, datatype=None, normalize=None):
        self.value = value
        self.language = lang
        self.datatype = datatype

    def __str__(self):
        return str(self.value)

    def __eq__(self, other):
        return isinstance(other, Literal) and self.value == other.value and self.language == other.language and self.datatype == other.datatype


class Namespace:
    def __init__(self, value):
        self.sa_v = str(value)

    def __str__(self):
        return self.sa_v

    def __getattr__(self, name):
        return URIRef(self.sa_v + name)

    def __getitem__(self, name):
        return URIRef(self.sa_v + name)


class RDF:
    type = URIRef("rdf:type")
    first = URIRef("rdf:first")
    rest = URIRef("rdf:rest")
    nil = URIRef("rdf:nil")


class RDFS:
    label = URIRef("rdfs:label")
    comment = URIRef("rdfs:comment")
    subClassOf = URIRef("rdfs:subClassOf")


class XSD:
    anyURI = URIRef("xsd:anyURI")
    boolean = URIRef("xsd:boolean")
    byte = URIRef("xsd:byte")
    date = URIRef("xsd:date")
    dateTime = URIRef("xsd:dateTime")
    dateTimeStamp = URIRef("xsd:dateTimeStamp")
    decimal = URIRef("xsd:decimal")
    double = URIRef("xsd:double")
    float = URIRef("xsd:float")
    int = URIRef("xsd:int")
    integer = URIRef("xsd:integer")
    long = URIRef("xsd:long")
    short = URIRef("xsd:short")
    string = URIRef("xsd:string")
    unsignedByte = URIRef("xsd:unsignedByte")
    unsignedInt = URIRef("xsd:unsignedInt")
    unsignedLong = URIRef("xsd:unsignedLong")
    unsignedShort = URIRef("xsd:unsignedShort")


def sa_key(x):
    if isinstance(x, Literal):
        return "L" + str(x.value) + "\x1f" + str(x.language) + "\x1f" + str(x.datatype)
    return str(x)


class Graph:
    def __init__(self, *args, **kwargs):
        self.sa_triples = []
        self.sa_keys = []

    def bind(self, prefix, namespace, override=True, replace=False):
        pass

    def add(self, triple):
        s, p, o = triple
        k = sa_key(s) + "\x1d" + sa_key(p) + "\x1d" + sa_key(o)
        if k not in self.sa_keys:
            self.sa_keys.append(k)
            self.sa_triples.append(triple)
        return self

    def __contains__(self, triple):
        s, p, o = triple
        if s is None or p is None or o is None:
            return len(self.triples(triple)) > 0
        return sa_key(s) + "\x1d" + sa_key(p) + "\x1d" + sa_key(o) in self.sa_keys

    def __iter__(self):
        return iter(self.sa_triples)

    def __len__(self):
        return len(self.sa_triples)

    def triples(self, pattern):
        a, b, c = pattern
        return [t for t in self.sa_triples if (a is None or sa_key(a) == sa_key(t[0])) and (b is None or sa_key(b) == sa_key(t[1])) and (c is None or sa_key(c) == sa_key(t[2]))]

    def serialize(self, destination=None, format="turtle", **kwargs):
        out = ""
        for s, p, o in self.sa_triples:
            out += str(s) + "\x1f" + str(p) + "\x1f" + str(o) + "\x1e"
        return out
