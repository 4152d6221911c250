# Reference semantics of the third-party tree library, interpreted together with the analysed sources (never executed).


class Node:
    separator = "/"

    def __init__(self, name, parent=None, children=None, **kwargs):
        for k in kwargs:
            setattr(self, k, kwargs[k])
        self.name = name
        self.sa_parent = None
        self.sa_children = []
        self.parent = parent
        if children:
            self.children = children

    @property
    def parent(self):
        return self.sa_parent

    @parent.setter
    def parent(self, value):
        old = self.sa_parent
        if old is value:
            return
        if value is not None:
            if value is self:
                raise LoopError()
            cur = value
            for _ in range(60):
                if cur is None:
                    break
                if cur is self:
                    raise LoopError()
                cur = cur.sa_parent
        if old is not None:
            self._pre_detach(old)
            kept = []
            for c in old.sa_children:
                if c is not self:
                    kept.append(c)
            old.sa_children = kept
            self.sa_parent = None
            self._post_detach(old)
        if value is not None:
            self._pre_attach(value)
            value.sa_children = value.sa_children + [self]
            self.sa_parent = value
            self._post_attach(value)

    @property
    def children(self):
        return tuple(self.sa_children)

    @children.setter
    def children(self, value):
        value = tuple(value)
        for c in self.sa_children:
            c.parent = None
        for c in value:
            c.parent = self

    def _pre_attach(self, parent):
        pass

    def _post_attach(self, parent):
        pass

    def _pre_detach(self, parent):
        pass

    def _post_detach(self, parent):
        pass

    @property
    def path(self):
        out = []
        cur = self
        for _ in range(60):
            if cur is None:
                break
            out.insert(0, cur)
            cur = cur.sa_parent
        return tuple(out)

    @property
    def ancestors(self):
        if self.parent is None:
            return ()
        return self.parent.path

    @property
    def descendants(self):
        return tuple(sa_pre(self)[1:])

    @property
    def root(self):
        return self.path[0]

    @property
    def siblings(self):
        if self.sa_parent is None:
            return ()
        return tuple([c for c in self.sa_parent.sa_children if c is not self])

    @property
    def leaves(self):
        return tuple([n for n in sa_pre(self) if len(n.sa_children) == 0])

    @property
    def is_leaf(self):
        return len(self.sa_children) == 0

    @property
    def is_root(self):
        return self.sa_parent is None

    @property
    def size(self):
        return len(sa_pre(self))

    @property
    def depth(self):
        return len(self.path) - 1

    @property
    def height(self):
        d = len(self.path)
        m = 0
        for n in sa_pre(self):
            h = len(n.path) - d
            if h > m:
                m = h
        return m


class LoopError(RuntimeError):
    pass


def sa_pre(node, stop=None, level=None):
    if level is not None and level < 1:
        return []
    if stop is not None and stop(node):
        return []
    out = [node]
    for c in node.sa_children:
        out.extend(sa_pre(c, stop, None if level is None else level - 1))
    return out


def sa_post(node, stop=None, level=None):
    if level is not None and level < 1:
        return []
    if stop is not None and stop(node):
        return []
    out = []
    for c in node.sa_children:
        out.extend(sa_post(c, stop, None if level is None else level - 1))
    out.append(node)
    return out


def PreOrderIter(node, filter_=None, stop=None, maxlevel=None):
    return [n for n in sa_pre(node, stop, maxlevel) if filter_ is None or filter_(n)]


def PostOrderIter(node, filter_=None, stop=None, maxlevel=None):
    return [n for n in sa_post(node, stop, maxlevel) if filter_ is None or filter_(n)]


def LevelOrderIter(node, filter_=None, stop=None, maxlevel=None):
    out = []
    level = [node]
    depth = 0
    for _ in range(60):
        depth += 1
        if len(level) == 0 or (maxlevel is not None and depth > maxlevel):
            break
        nxt = []
        for n in level:
            if stop is not None and stop(n):
                continue
            if filter_ is None or filter_(n):
                out.append(n)
            nxt.extend(n.sa_children)
        level = nxt
    return out


def findall(node, filter_=None, stop=None, maxlevel=None, mincount=None, maxcount=None):
    r = tuple(PreOrderIter(node, filter_, stop, maxlevel))
    if mincount is not None and len(r) < mincount:
        raise CountError()
    if maxcount is not None and len(r) > maxcount:
        raise CountError()
    return r


def find(node, filter_=None, stop=None, maxlevel=None):
    r = PreOrderIter(node, filter_, stop, maxlevel)
    if len(r) > 1:
        raise CountError()
    return r[0] if len(r) == 1 else None


def find_by_attr(node, value, name="name", maxlevel=None):
    return find(node, lambda n: getattr(n, name, None) == value, None, maxlevel)


def findall_by_attr(node, value, name="name", maxlevel=None, mincount=None, maxcount=None):
    return findall(node, lambda n: getattr(n, name, None) == value, None, maxlevel, mincount, maxcount)


class CountError(RuntimeError):
    pass


class ContStyle:
    def __init__(self):
        self.vertical = "\u2502   "
        self.cont = "\u251c\u2500\u2500 "
        self.end = "\u2514\u2500\u2500 "


class AsciiStyle:
    def __init__(self):
        self.vertical = "|   "
        self.cont = "|-- "
        self.end = "+-- "


def sa_rows(node, style, maxlevel, conts, out):
    if maxlevel is not None and maxlevel < 1:
        return out
    indent = ""
    for c in conts[:-1]:
        indent = indent + (style.vertical if c else " " * len(style.vertical))
    if conts:
        pre = indent + (style.cont if conts[-1] else style.end)
        fill = indent + (style.vertical if conts[-1] else " " * len(style.vertical))
    else:
        pre = ""
        fill = ""
    out.append((pre, fill, node))
    n = len(node.sa_children)
    for i, c in enumerate(node.sa_children):
        sa_rows(c, style, None if maxlevel is None else maxlevel - 1, conts + [i + 1 < n], out)
    return out


def RenderTree(node, style=None, childiter=list, maxlevel=None):
    if style is None:
        style = ContStyle()
    return sa_rows(node, style, maxlevel, [], [])
