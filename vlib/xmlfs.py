"""Contracts of ElementTree and of the file system for the persistence properties: an XML document is a tree of elements (tag, text,
attributes, children in order) which writing and reading back reproduces; a path holds what was last written to it.
The number of children of an element and the number of files may be symbolic."""
import types

from loops import SDict, TList
from opaque import Tok, Opaque
from pyvc import SInt, Unsupported, cur, z3, blift


class SElement:
    """xml.etree.ElementTree.Element"""
    _tick = 0

    def __init__(self, tag, attrib=None, payload=None, **extra):
        self.tag, self.text, self.tail, self.attrib, self.payload = tag, None, None, dict(attrib or {}, **extra), payload
        self.kids = TList()

    # a sequence when the number of children is symbolic
    @property
    def _is_sseq(self):
        if self.kids.sym is None:
            raise AttributeError("_is_sseq")
        return True

    def _slen(self): return self.kids.sym._slen()
    @property
    def n(self): return self.kids.sym.n
    def at(self, i): return self.kids.sym.at(i)
    def copy(self): return self.kids.sym.copy()
    __copy__ = lambda self: self.clone()

    def __iter__(self): return iter(self.kids)
    def __len__(self): return len(self.kids)
    def __bool__(self): return bool(self.kids)

    def __getitem__(self, i): return self.kids[i]

    def append(self, e):
        assert isinstance(e, SElement)
        self.kids.append(e)

    def extend(self, es): self.kids.extend(es)

    def remove(self, e):
        if self.kids.sym is not None:
            raise Unsupported("remove from a symbolic element")
        list.remove(self.kids, e)

    def set(self, k, v): self.attrib[k] = v
    def get(self, k, d=None): return self.attrib.get(k, d)

    def findall(self, t):
        if self.kids.sym is None:
            return [k for k in self.kids if k.tag == t]
        k = SInt(cur().fresh_int("kid"))
        if self.at(k).tag != t:
            raise Unsupported("findall in a symbolic element")
        return self.kids.sym

    def find(self, t):
        if self.kids.sym is not None:
            raise Unsupported("find in a symbolic element")
        for k in self.kids:
            if k.tag == t:
                return k
        return None

    def findtext(self, t, default=None):
        k = self.find(t)
        return default if k is None else (k.text if k.text is not None else "")

    def clone(self):
        e = SElement(self.tag, self.attrib, self.payload)
        e.text, e.tail = self.text, self.tail
        if self.kids.sym is not None:
            e.kids = self.kids.copy()
        else:
            for k in self.kids:
                list.append(e.kids, k.clone())
        return e

    def __deepcopy__(self, memo):
        return self.clone()


def sub(parent, tag, attrib=None, **extra):
    e = SElement(tag, attrib, **extra)
    parent.append(e)
    return e


class Doc:
    """bytes of an XML document"""

    def __init__(self, root):
        self.root = root.clone()


class ParseError(SyntaxError):
    pass


class FS:
    """files by path; those written in a loop over a symbolic sequence form one segment"""

    def __init__(self):
        self.entries = []
        self.many = SDict()
        self.dirs = []

    @staticmethod
    def same(a, b):
        r = a == b
        return bool(r)

    def isdir(self, p): return any(self.same(d, p) for d in self.dirs)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        if self.isdir(p):
            if exist_ok:
                return
            raise FileExistsError("exists")
        self.dirs.append(p)

    def write(self, p, what):
        from loops import recording
        if recording(self.many) is not None:
            self.many[p] = what
            return
        for e in self.entries:
            if self.same(e[0], p):
                e[1] = what
                return
        self.entries.append([p, what])

    def lookup(self, p):
        for e in self.entries:
            if self.same(e[0], p):
                return e[1]
        return self.many.get(p) if self.many.seg is not None else None

    def exists(self, p): return self.isdir(p) or self.lookup(p) is not None

    def read(self, p):
        w = self.lookup(p)
        if w is None:
            raise FileNotFoundError("no such file")
        return w

    def state(self):
        return [tuple(e) for e in self.entries], self.many.seg, list(self.dirs)

    def unchanged(self, st):
        e, seg, d = self.state()
        return len(e) == len(st[0]) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(e, st[0])) and seg is st[1] and len(d) == len(st[2])


class File:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.name = fs, path, mode, path
        if "w" in mode:
            fs.write(path, Opaque("empty file"))
        elif "r" in mode:
            fs.read(path)
        else:
            raise Unsupported("file mode " + mode)

    def write(self, what): self.fs.write(self.path, what)
    def read(self): return self.fs.read(self.path)
    def close(self): pass
    def flush(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class Tree:
    def __init__(self, element=None): self.root = element
    def getroot(self): return self.root

    def write(self, f, encoding=None, xml_declaration=None, default_namespace=None, method=None, **kw):
        d = Doc(self.root)
        if isinstance(f, File):
            f.write(d)
        else:
            CTX.fs.write(f, d)


CTX = types.SimpleNamespace(fs=None)


def content(f):
    d = f.read() if isinstance(f, File) else CTX.fs.read(f)
    return fromstring(d)


def fromstring(d):
    if not isinstance(d, Doc):
        raise ParseError("not a document")
    return d.root.clone()


ET = types.SimpleNamespace(Element=SElement, SubElement=sub, ElementTree=Tree, parse=lambda f: Tree(content(f)), fromstring=fromstring, XML=fromstring,
                           tostring=lambda e, *a, **k: Doc(e), iselement=lambda e: isinstance(e, SElement), ParseError=ParseError)


def join(a, *ps):
    for p in ps:
        a = Tok(a, "/", p) if isinstance(a, Tok) or isinstance(p, Tok) else a + "/" + p
    return a


def fopen(path, mode="r", *a, **k):
    return File(CTX.fs, path, mode)


OS = types.SimpleNamespace(
    path=types.SimpleNamespace(join=join, exists=lambda p: CTX.fs.exists(p), isdir=lambda p: CTX.fs.isdir(p),
                               isfile=lambda p: CTX.fs.lookup(p) is not None, sep="/"),
    makedirs=lambda *a, **k: CTX.fs.makedirs(*a, **k), mkdir=lambda *a, **k: CTX.fs.makedirs(*a), sep="/")
