"""C15 GLB packaging: byte sequences of any length, any number of buffers, buffer views and images."""
import os as _os
import types

from load import World
from pyvc import SBool, EndPath, SInt, Unsupported, z3, ilift, cur
from seq import SSeq, in_range, sseq
from npseq import DictInvariant, Rec, induction, monotone
from loops import SDict
from meshlib import zand

I, B = z3.IntSort(), z3.BoolSort()
DEL = object()
SPACE = 32


def fn(name, *sorts):
    return z3.Function(cur()._name(name), *sorts)


def same(a, b):
    return cur().known(ilift(a) == ilift(b))


# --- bytes ---------------------------------------------------------------------------------------------

class Bytes:
    """a byte string: length and byte at each position (terms)"""

    def __init__(self, n, f, kind=None): self.n, self.f, self.kind = n, f, kind

    @staticmethod
    def of(x):
        if isinstance(x, Bytes):
            return x
        if isinstance(x, (bytes, bytearray)):
            def f(i, x=bytes(x)):
                r = z3.IntVal(0)
                for k, c in reversed(list(enumerate(x))):
                    r = z3.IntVal(c) if k == len(x) - 1 else z3.If(i == k, z3.IntVal(c), r)
                return r
            return Bytes(len(x), f)
        raise Unsupported("bytes of %s" % type(x).__name__)

    def _slen(self): return self.n if isinstance(self.n, (int, SInt)) else SInt(self.n)
    def __len__(self): return self._slen()
    def __bool__(self): return bool(SBool(ilift(self.n) > 0)) if not isinstance(self.n, int) else self.n > 0

    def plus(self, o):
        o = Bytes.of(o)
        if isinstance(self.n, int) and self.n == 0:
            return Bytes(o.n, o.f, o.kind)
        n, f, g = ilift(self.n), self.f, o.f
        t = z3.simplify(n + ilift(o.n))
        cur().keep.append(t)
        return Bytes(SInt(t), lambda i: z3.If(i < n, f(i), g(i - n)), self.kind)

    def __add__(self, o): return type(self)._make(self.plus(o))
    def __radd__(self, o): return Bytes.of(o) + self

    @classmethod
    def _make(cls, b): return b

    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        raise Unsupported("bytes.%s" % a)


class Text:
    """a document as text"""

    def __init__(self, doc, wrote=None): self.doc, self.wrote = doc, wrote

    def encode(self, encoding="utf-8", *a):
        if a or encoding.lower().replace("-", "") not in ("utf8", "ascii") or self.wrote is None or encoding.lower() == "ascii" and not self.wrote:
            raise Unsupported("encoding of a document")
        return self.doc.bytes()

    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        raise Unsupported("str.%s of a document" % a)


class Raw(Bytes):
    """the bytes of the input document"""

    def __init__(self, doc): self.doc = doc

    def decode(self, encoding="utf-8", *a):
        if a or encoding.lower().replace("-", "") != "utf8":
            raise Unsupported("decoding of a document")
        return Text(self.doc)


class ByteBuf(Bytes):
    """bytearray"""
    live = []

    def __init__(self, x=b""):
        b = Bytes.of(x) if not isinstance(x, ByteBuf) else x
        if isinstance(x, Raw):
            raise Unsupported("bytes of the input document")
        self.n, self.f, self.kind = b.n, b.f, b.kind
        ByteBuf.live.append(self)

    @classmethod
    def _make(cls, b): return ByteBuf(b)
    def set(self, b): self.n, self.f = b.n, b.f

    def extend(self, o): self.set(self.plus(o))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def append(self, c): self.extend(Bytes(1, lambda i: ilift(c)))
    def state(self): return self.n, self.f

    def ljust(self, w, fill=b" "):
        if len(fill) != 1:
            raise Unsupported("ljust")
        if not bool(SBool(ilift(w) > ilift(self.n))):
            return ByteBuf(self)
        return ByteBuf(self.plus(Bytes(SInt(ilift(w) - ilift(self.n)), lambda i: z3.IntVal(fill[0]), None)))


def word(v, i):
    """byte i of the little-endian 32-bit number v"""
    if isinstance(v, int):
        return z3.IntVal(v >> (8 * i) & 255)
    return z3.Function("byte", I, I, I)(ilift(v), z3.IntVal(i))


class Struct:
    error = type("error", (Exception,), {})

    @staticmethod
    def pack(fmt, *vals):
        if not isinstance(fmt, str) or fmt[:1] != "<" or fmt[1:] not in ("I" * len(vals), "L" * len(vals), "%dI" % len(vals)):
            raise Unsupported("struct format")
        out = Bytes(0, lambda i: z3.IntVal(0))
        for v in vals:
            if not isinstance(v, int) and not bool(SBool(z3.And(ilift(v) >= 0, ilift(v) < 2 ** 32))):
                raise Struct.error("argument out of range")
            if isinstance(v, int) and not 0 <= v < 2 ** 32:
                raise Struct.error("argument out of range")

            def f(i, v=v):
                r = word(v, 3)
                for k in (2, 1, 0):
                    r = z3.If(i == k, word(v, k), r)
                return r
            out = out.plus(Bytes(4, f))
        return out


# --- the document --------------------------------------------------------------------------------------

class Uri:
    """the reference of buffer or image number m (counted over the buffers and then the images)"""

    def __init__(self, m): self.m = m
    def __bool__(self): return True


class Path:
    def __init__(self, folder, uri): self.folder, self.uri = folder, uri


class Mime:
    def __init__(self, m): self.m = m


def equal(a, b):
    """equality of values of members as a condition"""
    if isinstance(a, (Uri, Mime)) or isinstance(b, (Uri, Mime)):
        return ilift(a.m) == ilift(b.m) if type(a) is type(b) else z3.BoolVal(False)
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) and not isinstance(b, bool):
        return ilift(a) == ilift(b)
    return z3.BoolVal(False)


class Item:
    """a member of an array of the document"""

    def __init__(self, lst, i): self.lst, self.i = lst, i

    def own(self):
        for i, w in self.lst.over:
            if same(i, self.i):
                return w
        for i, w in self.lst.over:
            if not cur().known(ilift(i) != ilift(self.i)):
                raise Unsupported("a member that may be another one that was changed")
        return None

    def entry(self, k):
        w = self.own()
        if w is not None and k in w:
            return (z3.BoolVal(False), None) if w[k] is DEL else (z3.BoolVal(True), w[k])
        r = self.lst.base(ilift(self.i))
        if k not in r and r.get(None):
            return z3.BoolVal(False), None
        if k not in r:
            raise Unsupported("member %s" % (k,))
        return r[k]

    def has(self, k):
        p = self.entry(k)[0]
        return bool(SBool(p))

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        return self.entry(k)[1]

    def get(self, k, d=None): return self[k] if self.has(k) else d
    def __contains__(self, k): return self.has(k)

    def put(self, k, v):
        w = self.own()
        if w is None:
            w = {}
            self.lst.over.append((self.i, w))
        w[k] = v

    def __setitem__(self, k, v): self.put(k, v)

    def __delitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        self.put(k, DEL)

    def pop(self, k, *d):
        if not self.has(k):
            if d:
                return d[0]
            raise KeyError(k)
        v = self.entry(k)[1]
        self.put(k, DEL)
        return v

    def setdefault(self, k, d=None):
        if not self.has(k):
            self.put(k, d)
        return self.entry(k)[1]

    def update(self, *a, **kw):
        for x in a:
            for k in x:
                self.put(k, x[k])
        for k in kw:
            self.put(k, kw[k])

    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        raise Unsupported("dict.%s of a member" % a)


class GList:
    """an array of the document; base: what is known of member j, over: what was written since"""
    _is_sseq = True

    def __init__(self, name, n, base): self.name, self.n, self.base, self.over = name, n, base, []

    def _slen(self): return self.n if isinstance(self.n, (int, SInt)) else SInt(ilift(self.n))
    def at(self, i): return Item(self, i)
    def __bool__(self): return bool(SBool(ilift(self.n) > 0))
    def __iter__(self): raise Unsupported("iteration")

    def __getitem__(self, i):
        if isinstance(i, slice) or isinstance(i, bool) or not isinstance(i, (int, SInt)):
            raise Unsupported("slice of an array of the document")
        if isinstance(i, int) and i < 0:
            i = self._slen() + i
        if not bool(SBool(z3.And(ilift(i) >= 0, ilift(i) < ilift(self.n)))):
            raise IndexError(i)
        return Item(self, i)

    def append(self, x):
        it = Item(self, self._slen())
        self.n = SInt(z3.simplify(ilift(self.n) + 1))
        d = plain(x)
        d[None] = True
        self.over.append((it.i, d))

    def state(self): return self.n, self.base, len(self.over), [(k, dict(w)) for k, w in self.over]

    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        raise Unsupported("list.%s of an array of the document" % a)


def plain(x):
    if not isinstance(x, dict) or type(x) is SDict and (x.seg is not None or x.inv is not None):
        raise Unsupported("a member of unknown content is added")
    return {k: dict.__getitem__(x, k) for k in dict.keys(x)}


class Doc:
    def __init__(self, G):
        self.G, self.lists, self.pres, self.other = G, {}, {}, []

    def has(self, k):
        if k not in self.pres:
            raise Unsupported("member %s of the document" % (k,))
        return bool(SBool(self.pres[k]))

    def __contains__(self, k): return self.has(k)

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        return self.lists[k]

    def get(self, k, d=None): return self.lists[k] if self.has(k) else d

    def __setitem__(self, k, v):
        if k not in self.pres:
            self.other.append(k)
            return
        if v is self.lists[k]:
            return
        if not isinstance(v, list) or getattr(v, "sym", None) is not None:
            raise Unsupported("an array of unknown content")
        new = GList(k, 0, lambda j: {None: True})
        for x in list.__iter__(v):
            new.append(x)
        self.lists[k].__dict__.update(new.__dict__)
        self.pres[k] = z3.BoolVal(True)

    def setdefault(self, k, d=None):
        if not self.has(k):
            self[k] = d
        return self.lists[k]

    def __delitem__(self, k): self.other.append(k)

    def bytes(self):
        n = SInt(self.G.S.fresh_int("json"))
        cur().axiom(n.e >= 2)
        f = fn("text", I, I)
        self.G.text = (n, f)
        return Bytes(n, lambda i: f(i), "json")

    def frozen(self):
        d = Doc(self.G)
        d.pres, d.other = dict(self.pres), list(self.other)
        for k, l in self.lists.items():
            d.lists[k] = GList(k, l.n, l.base)
            d.lists[k].over = [(i, dict(w)) for i, w in l.over]
        return d

    def state(self): return dict(self.pres), list(self.other), [l.state()[:3] for l in self.lists.values()]

    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        raise Unsupported("dict.%s of the document" % a)


# --- the body parts and the buffer offsets ---------------------------------------------------------------

class Parts(list):
    """the parts of the body after k files: offset and bytes of each in turn"""
    _is_sseq = True

    def __init__(self, G, k):
        self.G, self.k, self.tail = G, k, []

    @property
    def n(self): return SInt(z3.simplify(2 * ilift(self.k) + len(self.tail)))
    def _slen(self): return self.n
    def __len__(self): return self.n
    def __bool__(self): return bool(SBool(self.n.e > 0))

    def append(self, x): self.tail.append(x)
    def extend(self, xs): self.tail += list(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def at(self, i):
        e = ilift(i)
        if self.tail:
            raise Unsupported("parts that were just added are read")
        q, r = None, None
        for q_ in (z3.simplify(e / 2),):
            q = q_
            if cur().known(e == 2 * q):
                return self.G.off(SInt(q))
            if cur().known(e == 2 * q + 1):
                return self.G.packed(q)
        raise Unsupported("a part of unknown kind")

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.stop is not None or i.start not in (None, 0, 1) or i.step != 2:
                raise Unsupported("slice of the parts")
            o = i.start or 0
            if self.tail:
                raise Unsupported("parts that were just added are read")
            return SSeq(SInt(ilift(self.k)), lambda j: self.at(SInt(2 * ilift(j) + o)))
        return self.at(i)

    def __iter__(self): raise Unsupported("iteration over the parts")


class Offsets(DictInvariant):
    """buffer number -> offset of the buffer in the body"""

    def __init__(self, G, d):
        self.G, self.free, self.count = G, False, z3.IntVal(0)

        def good(ks, v):
            if not self.free:
                G.S.prove("the offset noted for a buffer is where its bytes go", SBool(ilift(v) == G.off(ks[0]).e))
        DictInvariant.__init__(self, G.S, d, 1, good, lambda k: G.off(k))

    def present(self, ks):
        k = ilift(ks[0])
        return SBool(z3.Or(z3.And(k >= 0, k < self.count), *[k == ilift(u[0]) for u in self.known]))

    def get(self, pre, k, d=None, default=False):
        if self.free:
            raise Unsupported("offsets of buffers are read after the images")
        return DictInvariant.get(self, pre, k if isinstance(k, SInt) else SInt(ilift(k)), d, default)

    def contains(self, pre, k): return self.present((k,))
    def store(self, pre, k, v): DictInvariant.store(self, pre, k if isinstance(k, SInt) else SInt(ilift(k)), v)


class Ghost:
    def __init__(self, S):
        self.S = S
        low = lambda r: r.randint(0, 3)
        self.nb, self.nv, self.ni = [S.int(x, 0, sampler=low) for x in ("buffers", "views", "images")]
        self.N = SInt(self.nb.e + self.ni.e)
        self.flen, self.q4, self.fb = fn("length", I, I), fn("words", I, I), fn("content", I, I, I)
        self.vb, self.vo, self.vl, self.hv = fn("view_buffer", I, I), fn("view_offset", I, I), fn("view_length", I, I), fn("view_has_offset", I, B)
        self.bl, self.hb = fn("byteLength", I, I), fn("has_byteLength", I, B)
        self.pres = {k: S.fresh_bool("has_" + k) for k in ("buffers", "bufferViews", "images")}
        for k, n in (("buffers", self.nb), ("bufferViews", self.nv), ("images", self.ni)):
            S.axiom(z3.Implies(z3.Not(self.pres[k]), n.e == 0))
        self.Off = Rec("offset", 0, self.N.e + 1, 0, lambda i, before: SInt(before.e + self.size(i.e - 1)), real=False)
        self.mono = monotone(S, "offsets do not decrease", 0, self.N.e, lambda k: self.off(k))
        self.words = induction(S, "offsets are multiples of four", 0, self.N.e, lambda k: SBool(self.off(k).e % 4 == 0))
        # an arbitrary byte of an arbitrary file
        self.m, self.t = S.fresh_int("m"), S.fresh_int("t")
        S.axiom(z3.And(self.m >= 0, self.m < self.N.e, self.t >= 0, self.t < self.flen(self.m)))
        self.size(self.m)
        self.off(SInt(self.m + 1))
        self.doc, self.text, self.dumped, self.files, self.enc = Doc(self), None, None, {}, None
        self.phase = 0
        d = self.doc
        d.pres = dict(self.pres)
        d.lists = {"buffers": GList("buffers", self.nb, self.buffer), "bufferViews": GList("bufferViews", self.nv, self.view),
                   "images": GList("images", self.ni, self.image)}
        self.orig = d.frozen()
        self.parts = None
        ByteBuf.live = []

    def size(self, j):
        """the length of file j in the body: the next multiple of four"""
        j = ilift(j)
        n, s = self.flen(j), 4 * self.q4(j)
        self.S.axiom(z3.And(n >= 0, s >= n, s < n + 4))
        return s

    def off(self, k):
        k = k if isinstance(k, SInt) else SInt(ilift(k))
        return self.Off.at(k)

    def packed(self, j):
        """the bytes of file j in the body: its content and padding"""
        pad = z3.Function("padding", I, I, I)
        j = ilift(j)
        n = self.flen(j)
        return ByteBuf(Bytes(SInt(self.size(j)), lambda i: z3.If(i < n, self.fb(j, i), pad(j, i))))

    # members of the input document
    def buffer(self, j):
        return {"uri": (z3.BoolVal(True), Uri(SInt(j))), "byteLength": (self.hb(j), SInt(self.bl(j)))}

    def view(self, j):
        self.S.axiom(z3.Implies(in_range(SInt(j), self.nv), z3.And(self.vb(j) >= 0, self.vb(j) < self.nb.e, self.vo(j) >= 0, self.vl(j) >= 1)))
        return {"buffer": (z3.BoolVal(True), SInt(self.vb(j))), "byteOffset": (self.hv(j), SInt(self.vo(j))), "byteLength": (z3.BoolVal(True), SInt(self.vl(j)))}

    def image(self, j):
        return {"uri": (z3.BoolVal(True), Uri(SInt(self.nb.e + j))), "bufferView": (z3.BoolVal(False), None), "mimeType": (z3.BoolVal(False), None)}

    # members of the packed document
    def buffer2(self, j):
        return {"uri": (z3.BoolVal(False), None), "byteLength": (z3.BoolVal(True), SInt(self.size(j)))}

    def view2(self, j):
        o = z3.If(self.hv(j), self.vo(j), 0) + self.off(SInt(self.vb(j))).e
        return dict(self.view(j), buffer=(z3.BoolVal(True), SInt(z3.IntVal(0))), byteOffset=(z3.BoolVal(True), SInt(o)))

    def image2(self, j):
        return {"uri": (z3.BoolVal(False), None), "bufferView": (z3.BoolVal(True), SInt(self.nv.e + j)), "mimeType": (z3.BoolVal(True), Mime(SInt(self.nb.e + j)))}

    def added(self, j):
        """view j of the images"""
        j = self.nb.e + j
        return {"buffer": (z3.BoolVal(True), SInt(z3.IntVal(0))), "byteOffset": (z3.BoolVal(True), self.off(SInt(j))), "byteLength": (z3.BoolVal(True), SInt(self.size(j))), None: True}

    def mixed(self, c, new, old):
        """base: new(j) where c(j), else old(j)"""
        def base(j):
            a, b = new(j), old(j)
            if self.S.known(c(j)):
                return a
            if self.S.known(z3.Not(c(j))):
                return b
            out = {}
            for k in set(a) | set(b):
                if k is None:
                    continue
                (p, x), (q, y) = a.get(k, (z3.BoolVal(False), None)), b.get(k, (z3.BoolVal(False), None))
                v = x if y is None or x is y else y if x is None else None
                if v is None and x is not None:
                    if isinstance(x, SInt) and isinstance(y, SInt):
                        v = SInt(z3.If(c(j), x.e, y.e))
                    elif self.S.known(equal(x, y)):
                        v = x
                    else:
                        raise Unsupported("a member that may be packed or not")
                out[k] = (z3.If(c(j), p, q), v)
            return out
        return base

    def agree(self, what, lst, i, want):
        """member i is as wanted and no other was changed since"""
        S = self.S
        others = [e for e, w in lst.over if not same(e, i)]
        S.prove("%s: no other member is changed" % what, not others)
        it, ok = Item(lst, i), []
        w = it.own() or {}
        have = {} if w.get(None) else lst.base(ilift(i))
        for k in sorted({k for k in set(w) | set(have) | set(want) if k is not None}):
            p, x = (z3.BoolVal(w[k] is not DEL), w[k]) if k in w else have.get(k, (z3.BoolVal(False), None))
            q, y = want.get(k, (z3.BoolVal(False), None))
            S.prove("%s: %s" % (what, k), SBool(z3.And(p == q, z3.Implies(q, equal(x, y)) if y is not None else z3.BoolVal(True))))

    # annotations
    def annotate(self, info):
        try:
            return self.loop(info)
        except (AttributeError, KeyError, TypeError) as e:
            raise Unsupported("loop annotation: %s" % e)

    def probe(self, info):
        e = info.seq.at(SInt(self.S.fresh_int("probe")))
        return next((x for x in (e if isinstance(e, tuple) else (e,)) if isinstance(x, Item)), None)

    def encoder(self, loc):
        for v in loc.values():
            d = getattr(v, "__dict__", None)
            if d is not None and type(v).__module__ == self.module and sum(isinstance(x, list) for x in d.values()) == 1:
                return v
        raise Unsupported("the encoder of the body")

    def loop(self, info):
        it = self.probe(info)
        if it is not None:
            k = {"buffers": Buffers, "bufferViews": Views, "images": Images}[it.lst.name]
            return k(self, info, it.lst)
        held = list({id(x): x for x in list(info.stored.values()) + [x for x in info.carried.values() if isinstance(x, ByteBuf)]}.values())
        others = [x for x in held if not isinstance(x, ByteBuf)]
        bufs = [x for x in held if isinstance(x, ByteBuf)]
        if len(bufs) != 1 or [x for x in others if hasattr(x, "_is_sseq") or isinstance(x, (list, dict))]:
            return None
        e = info.seq.at(SInt(self.S.fresh_int("probe")))
        if self.parts is not None and same(info.n, self.parts.k):
            return Join(self, info, bufs[0])
        if isinstance(e, SInt):
            return Pad(self, info, bufs[0])
        return None


class Ann:
    def __init__(self, G, info): self.G, self.S, self.info = G, G.S, info

    def snapshot(self, skip):
        """everything else stays as it is"""
        self.kept = [(b, b.state()) for b in ByteBuf.live if b is not skip]

    def unchanged(self):
        self.S.prove("other byte arrays are not changed", all(b.state()[1] is s[1] for b, s in self.kept))

    def ints(self, vals, known):
        """carried variables: those of known value, others any number"""
        for k, v in known.items():
            if k in vals:
                self.S.prove("loop invariant: %s" % k, SBool(ilift(vals[k]) == ilift(v)) if isinstance(vals[k], (int, SInt)) else False)

    def some(self, known):
        out = {}
        for k, v in self.info.carried.items():
            out[k] = known[k] if k in known else SInt(self.S.fresh_int(k))
        return out

    def loose(self, vals, known, i):
        for k, v in vals.items():
            if k not in known and not isinstance(v, (int, SInt, Item)) and not self.S.known(ilift(i) == 0):
                raise Unsupported("carried variable %s" % k)


class Pad(Ann):
    """a byte array is extended by one byte at a time"""

    def __init__(self, G, info, buf):
        Ann.__init__(self, G, info)
        self.buf, self.first = buf, Bytes(buf.n, buf.f)
        self.json = buf.kind == "json"
        self.extra = fn("pad", I, I)

    def enter(self, i):
        n, f = ilift(self.first.n), self.first.f
        new = (lambda x: z3.IntVal(SPACE)) if self.json else self.extra
        t = z3.simplify(n + ilift(i))
        self.S.keep.append(t)
        self.buf.set(Bytes(SInt(t), lambda x: z3.If(x < n, f(x), new(x))))
        self.snapshot(self.buf)
        return self.some({})

    def check(self, i, vals):
        n = ilift(self.first.n)
        self.S.prove("padding: one byte more", SBool(ilift(self.buf.n) == n + ilift(i)))
        self.loose(vals, {}, i)
        if hasattr(self, "kept"):
            x = self.S.fresh_int("x")
            self.S.axiom(z3.And(x >= 0, x < n))
            self.S.prove("padding: the bytes before it stay", SBool(self.buf.f(x) == self.first.f(x)))
            if self.json:
                self.S.prove("padding of the document is white space", SBool(self.buf.f(n + ilift(i) - 1) == SPACE))
            self.unchanged()


class Join(Ann):
    """the files are appended one after the other"""

    def __init__(self, G, info, buf):
        Ann.__init__(self, G, info)
        self.buf, self.first = buf, Bytes(buf.n, buf.f)
        self.g = fn("body", I, I)
        self.names = [k for k, v in info.carried.items() if v is buf]

    def enter(self, k):
        G, S = self.G, self.S
        n, f = ilift(self.first.n), self.first.f
        G.mono(SInt(z3.IntVal(0)), k)
        t = z3.simplify(n + G.off(k).e)
        S.keep.append(t)
        self.k = k
        self.buf.set(Bytes(SInt(t), lambda x: z3.If(x < n, f(x), self.g(x - n))))
        at = G.off(SInt(G.m)).e + G.t
        S.axiom(z3.Implies(G.m < ilift(k), self.g(at) == G.fb(G.m, G.t)))
        self.snapshot(self.buf)
        return self.some({v: self.buf for v in self.names})

    def check(self, k, vals):
        G, S = self.G, self.S
        n = ilift(self.first.n)
        self.loose(vals, dict.fromkeys(self.names), k)
        b = [vals[v] for v in self.names]
        S.prove("the bytes are collected in one place", all(x is self.buf for x in b))
        S.prove("body: length", SBool(ilift(self.buf.n) == n + G.off(k).e))
        if hasattr(self, "kept"):
            x = S.fresh_int("x")
            S.axiom(z3.And(x >= 0, x < n))
            S.prove("body: what is before it stays", SBool(self.buf.f(x) == self.first.f(x)))
            m = SInt(G.m)
            G.mono(SInt(z3.IntVal(0)), m), G.mono(SInt(G.m + 1), self.k), G.mono(SInt(z3.IntVal(0)), self.k)
            G.size(self.k.e)
            S.prove("body: the bytes of every file at its offset", SBool(z3.Implies(G.m < ilift(k), self.buf.f(n + G.off(m).e + G.t) == G.fb(G.m, G.t))))
            self.unchanged()


class Packing(Ann):
    """files are added to the body"""

    def begin(self, start):
        self.start = start
        G = self.G
        e = self.enc = G.encoder(self.info.loc)
        if G.enc not in (None, e):
            raise Unsupported("another encoder")
        G.enc = e
        self.lname = [k for k, v in e.__dict__.items() if isinstance(v, list)][0]
        ints = [k for k, v in e.__dict__.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
        if len(ints) != 1:
            raise Unsupported("the length of the body")
        self.iname = ints[0]
        self.rest = {k: v for k, v in e.__dict__.items() if k not in (self.lname, self.iname)}

    def encoded(self, k, done):
        """the encoder holds the first start + k files"""
        e, G, S = self.enc, self.G, self.S
        p, tot = getattr(e, self.lname), z3.simplify(ilift(self.start) + ilift(k))
        S.prove("length of the body", SBool(ilift(getattr(e, self.iname)) == G.off(SInt(tot)).e))
        if not isinstance(p, Parts):
            if getattr(p, "sym", None) is not None or list.__len__(p):
                raise Unsupported("parts of the body")
            S.prove("nothing is in the body yet", SBool(tot == 0))
        elif not done:
            S.prove("parts of the body", SBool(ilift(p.n) == 2 * tot))
        else:
            ok = p is self.p and len(p.tail) == 2 and isinstance(p.tail[0], (int, SInt)) and isinstance(p.tail[1], Bytes)
            if not ok:
                raise Unsupported("form of the parts of the body")
            at = tot - 1
            b = p.tail[1]
            S.prove("offset of the file in the body", SBool(ilift(p.tail[0]) == G.off(SInt(z3.simplify(at))).e))
            S.prove("length of the file in the body: the next multiple of four", SBool(ilift(b.n) == G.size(z3.simplify(at))))
            x = S.fresh_int("x")
            S.axiom(z3.And(x >= 0, x < G.flen(at)))
            S.prove("bytes of the file in the body", SBool(b.f(x) == G.fb(at, x)))
        if done:
            S.prove("the rest of the encoder is not changed", {k: v for k, v in e.__dict__.items() if k not in (self.lname, self.iname)} == self.rest)
            self.unchanged()

    def arrive(self, k):
        tot = SInt(z3.simplify(ilift(self.start) + ilift(k)))
        self.p = self.G.parts = Parts(self.G, tot)
        setattr(self.enc, self.lname, self.p)
        setattr(self.enc, self.iname, self.G.off(tot))
        self.snapshot(None)


def only(stored, allowed):
    return all(any(v is a for a in allowed) or isinstance(v, (Item, GList, Doc)) for v in stored.values())


class Buffers(Packing):
    def __init__(self, G, info, lst):
        Ann.__init__(self, G, info)
        self.lst = lst
        dicts = [v for v in info.stored.values() if isinstance(v, SDict)]
        if len(dicts) > 1 or not only(info.stored, dicts):
            raise Unsupported("containers changed over the buffers")
        self.map = None
        if dicts:
            d = dicts[0]
            self.map = G.map = Offsets(G, d)
        self.begin(z3.IntVal(0))
        self.inside = False

    def known(self, i):
        i = ilift(i)
        return {"buffer_offset": self.G.off(SInt(i)), "buffer_index": SInt(z3.If(i > 0, i - 1, 0))}

    def enter(self, i):
        G = self.G
        G.size(i.e), G.off(i), G.off(i + 1)
        self.lst.base, self.lst.over = G.mixed(lambda j: j < ilift(i), G.buffer2, G.buffer), []
        self.arrive(i)
        if self.map:
            self.map.known, self.map.count = [], ilift(i)
        self.inside = i
        self.doc = G.doc.state()
        return self.some(self.known(i))

    def check(self, i, vals):
        G, S = self.G, self.S
        self.ints(vals, self.known(i))
        self.loose(vals, self.known(i), i)
        self.encoded(i, self.inside is not False)
        if self.inside is not False:
            j = self.inside
            G.agree("buffer", self.lst, j, G.buffer2(j.e))
            if self.map:
                S.prove("the offset of the buffer is noted", self.map.present((j,)))
            S.prove("the rest of the document is not changed", G.doc.state()[:2] == self.doc[:2] and all(not l.over for l in G.doc.lists.values() if l is not self.lst))


class Views(Ann):
    def __init__(self, G, info, lst):
        Ann.__init__(self, G, info)
        self.lst = lst
        if not only(info.stored, []):
            raise Unsupported("containers changed over the buffer views")
        self.inside = False

    def enter(self, i):
        G = self.G
        self.lst.base, self.lst.over = G.mixed(lambda j: j < ilift(i), G.view2, G.view), []
        self.inside = i
        self.over = [(l, len(l.over)) for l in G.doc.lists.values() if l is not self.lst]
        self.doc = G.doc.state()
        self.snapshot(None)
        self.encs = dict(G.enc.__dict__) if G.enc else None
        if self.S.known(G.nb.e == 0) and self.S.known(ilift(i) < G.nv.e):
            # there is no buffer to refer to
            G.view(ilift(i))
            if self.S.prove("views only with buffers", SBool(G.nb.e > 0)):
                raise EndPath()
        return self.some({})

    def check(self, i, vals):
        G, S = self.G, self.S
        self.loose(vals, {}, i)
        if self.inside is not False:
            j = self.inside
            G.agree("view", self.lst, j, G.view2(j.e))
            S.prove("the rest of the document is not changed", G.doc.state()[:2] == self.doc[:2] and all(len(l.over) == n for l, n in self.over))
            S.prove("the body is not changed", G.enc is None or G.enc.__dict__ == self.encs and not (G.parts and G.parts.tail))
            self.unchanged()


class Images(Packing):
    def __init__(self, G, info, lst):
        Ann.__init__(self, G, info)
        self.lst, self.views = lst, G.doc.lists["bufferViews"]
        dicts = [v for v in info.stored.values() if isinstance(v, SDict)]
        m = getattr(G, "map", None)
        if [d for d in dicts if d.inv is None or d.inv[0] is not m] and not (m is None and len(dicts) == 1):
            raise Unsupported("containers changed over the images")
        if dicts and m is None:
            m = G.map = Offsets(G, dicts[0])
        if not only(info.stored, dicts):
            raise Unsupported("containers changed over the images")
        if m and dicts:
            m.free = True
        self.begin(G.nb.e)
        self.inside = False
        self.v0 = self.views.base
        self.had = G.doc.pres["bufferViews"]
        self.clean = not self.views.over

    def enter(self, i):
        G = self.G
        G.size(G.nb.e + i.e), G.off(SInt(G.nb.e + i.e)), G.off(SInt(G.nb.e + i.e + 1))
        self.lst.base, self.lst.over = G.mixed(lambda j: j < ilift(i), G.image2, G.image), []
        if not self.clean:
            raise Unsupported("buffer views changed before the images")
        self.views.n = SInt(z3.simplify(G.nv.e + ilift(i)))
        self.views.base, self.views.over = G.mixed(lambda j: j >= G.nv.e, lambda j: G.added(j - G.nv.e), self.v0), []
        G.doc.pres["bufferViews"] = z3.simplify(z3.Or(self.had, ilift(i) > 0))
        self.arrive(i)
        self.inside = i
        self.doc = G.doc.state()
        return self.some({})

    def check(self, i, vals):
        G, S = self.G, self.S
        self.loose(vals, {}, i)
        self.encoded(i, self.inside is not False)
        S.prove("one buffer view for each image", SBool(z3.And(ilift(self.views.n) == G.nv.e + ilift(i), G.doc.pres["bufferViews"] == z3.Or(self.had, ilift(i) > 0))))
        if self.inside is not False:
            j = self.inside
            G.agree("image", self.lst, j, G.image2(j.e))
            G.agree("view of the image", self.views, SInt(G.nv.e + j.e), G.added(j.e))
            S.prove("the rest of the document is not changed", G.doc.other == self.doc[1] and G.doc.pres["buffers"] is self.doc[0]["buffers"] and
                    G.doc.pres["images"] is self.doc[0]["images"] and not [l for l in G.doc.lists.values() if l.name == "buffers" and l.over])


# --- files -----------------------------------------------------------------------------------------------

class File:
    def __init__(self, G, path, mode): self.G, self.path, self.mode, self.open = G, path, mode, True
    def __enter__(self): return self
    def __exit__(self, *a): self.open = False
    def close(self): self.open = False

    def read(self, *a):
        if a:
            raise Unsupported("reading a part of a file")
        if isinstance(self.path, Path):
            m = ilift(self.path.uri.m)
            n = self.G.flen(m)
            self.G.size(m)
            return Bytes(SInt(n), lambda i: self.G.fb(m, i))
        return Raw(self.G.doc) if "b" in self.mode else Text(self.G.doc)

    def write(self, b):
        if not self.open or "w" not in self.mode or "b" not in self.mode:
            raise Unsupported("writing")
        old = self.G.files[self.path]
        self.G.files[self.path] = Bytes.of(b) if old is None else old.plus(b)
        return b._slen() if isinstance(b, Bytes) else len(b)


def prove(V):
    W = World(V)
    U = W.load("sumo.threedee.glb_converter")
    V.trust("struct.pack('<I', v): the four bytes of v, little-endian; bytes and bytearray: sequences under concatenation",
            "json.loads and json.dumps: reading what was written, followed by white space, gives an equal document, whatever the layout options; UTF-8 encoding",
            "open, read, write: a path holds what was last written to it; os.path.join names the file a reference leads to from a folder; mimetypes.guess_type")
    V.assume("every buffer and image has a non-empty external reference, every buffer view refers to a buffer of the document; the packed file is smaller than 4 GB")


    def convert(S, src, arg, out):
        S.attribute_stores = True
        G = Ghost(S)
        G.module = U.__name__
        S.invariants = [G.annotate]
        folder = _os.path.dirname(src)

        def open_(p, mode="r", *a, **k):
            if a or k and not (set(k) == {"encoding"} and str(k["encoding"]).lower().replace("-", "") == "utf8"):
                raise Unsupported("options of open")
            if isinstance(p, Path):
                S.prove("references are resolved next to the document", p.folder == folder)
                if mode != "rb":
                    raise Unsupported("mode of a binary file")
            elif "w" in mode:
                G.files[p] = None
            else:
                S.prove("the document that was asked for is read", p == src and "r" in mode)
            return File(G, p, mode)

        def join(*a):
            if not isinstance(a[-1], Uri):
                return _os.path.join(*a)
            return Path(_os.path.join(*a[:-1]) if len(a) > 1 else "", a[-1])

        def loads(t, **k):
            if k or not isinstance(t, Text):
                raise Unsupported("what is parsed")
            return G.doc

        def dumps(d, **k):
            if d is not G.doc or set(k) - {"sort_keys", "separators", "ensure_ascii", "indent"}:
                raise Unsupported("what is written as a document")
            G.dumped = G.doc.frozen()
            return Text(G.doc, k.get("ensure_ascii", True) is not False)

        def guess(u, *a):
            if a or not isinstance(u, Uri):
                raise Unsupported("media type")
            return Mime(u.m), None

        class OsPath:
            def __getattr__(self, a): return getattr(_os.path, a)
        OsPath.join = staticmethod(join)
        U.open, U.bytearray, U.struct = open_, ByteBuf, Struct
        U.os = types.SimpleNamespace(path=OsPath(), sep=_os.sep)
        U.json = types.SimpleNamespace(loads=loads, dumps=dumps, load=lambda f, **k: loads(f.read() if "b" not in f.mode else f.read().decode(), **k))
        U.mimetypes = types.SimpleNamespace(guess_type=guess)
        # no 32-bit overflow

        N = G.N
        G.mono(SInt(z3.IntVal(0)), N), G.words(N), G.words(SInt(G.m))
        orig = G.doc.bytes

        def limited():
            b = orig()
            S.axiom(ilift(b.n) + G.off(N).e + 64 < 2 ** 32)
            return b
        G.doc.bytes = limited
        U.gltf2glb(src) if arg is None else U.gltf2glb(src, arg)
        S.prove("one file is written, where it was asked for", list(G.files) == [out] and G.files[out] is not None)
        o, d = G.files.get(out), G.dumped
        if o is None or d is None or G.text is None:
            return
        f, n = o.f, ilift(o.n)
        nj, ft = G.text[0].e, G.text[1]
        jl = S.fresh_int("padded")
        S.axiom(z3.And(jl >= nj, jl < nj + 4, jl % 4 == 0))
        body = G.off(N).e

        def number(at, v): return z3.And(*[f(at + k) == word(v, k) for k in range(4)])
        V_ = z3.IntVal
        S.prove("total length", SBool(n == 28 + jl + body))
        S.prove("magic", SBool(number(V_(0), 0x46546C67)))
        S.prove("version", SBool(number(V_(4), 2)))
        S.prove("declared length", SBool(number(V_(8), SInt(28 + jl + body))))
        S.prove("length of the JSON chunk", SBool(number(V_(12), SInt(jl))))
        S.prove("type of the JSON chunk", SBool(number(V_(16), 0x4E4F534A)))
        x = S.fresh_int("x")
        S.axiom(z3.And(x >= 0, x < jl))
        S.prove("JSON chunk: the document and spaces", SBool(f(20 + x) == z3.If(x < nj, ft(x), SPACE)))
        S.prove("length of the binary chunk", SBool(number(20 + jl, SInt(body))))
        S.prove("type of the binary chunk", SBool(number(24 + jl, 0x004E4942)))
        S.prove("lengths of the chunks are multiples of four", SBool(z3.And(jl % 4 == 0, body % 4 == 0)))
        at = lambda k: f(28 + jl + k)
        m, t = G.m, G.t
        G.mono(SInt(z3.IntVal(0)), SInt(m)), G.mono(SInt(m + 1), N)
        S.prove("every byte of every file is in the binary chunk", SBool(z3.And(G.off(SInt(m)).e + t < body, at(G.off(SInt(m)).e + t) == G.fb(m, t))))
        # the document
        S.prove("other members of the document are unchanged", not d.other)
        S.prove("arrays of the document", SBool(z3.And(d.pres["images"] == G.pres["images"], d.pres["bufferViews"] == z3.Or(G.pres["bufferViews"], G.ni.e > 0),
                z3.Implies(body > 0, z3.And(d.pres["buffers"], ilift(d.lists["buffers"].n) >= 1)), ilift(d.lists["images"].n) == G.ni.e,
                ilift(d.lists["bufferViews"].n) == G.nv.e + G.ni.e)))

        def member(k, i, key):
            """(present, value) of a member of the packed document"""
            i = SInt(ilift(i))
            l = d.lists[k]
            es = [(e, w) for e, w in l.over]
            base = l.base(i.e)
            p, v = base.get(key, (z3.BoolVal(False), None))
            for e, w in es:
                if key in w or w.get(None):
                    p2, v2 = (z3.BoolVal(False), None) if w.get(key, DEL) is DEL else (z3.BoolVal(True), w[key])
                    if S.known(ilift(e) == i.e):
                        p, v = p2, v2
                    elif not S.known(ilift(e) != i.e):
                        c = ilift(e) == i.e
                        p = z3.If(c, p2, p)
                        v = SInt(z3.If(c, ilift(v2), ilift(v))) if v is not None and v2 is not None else v if v2 is None else v2
            if v is None and key != "uri":
                v = Mime(SInt(S.fresh_int("none"))) if key == "mimeType" else SInt(S.fresh_int("none"))
            return p, v
        v = SInt(S.fresh_int("v"))
        if S.known(z3.Not(in_range(v, G.nv))) is False and bool(SBool(G.nv.e > 0)):
            S.axiom(in_range(v, G.nv))
            G.view(v.e)
            p, b = member("bufferViews", v, "buffer")
            q, o_ = member("bufferViews", v, "byteOffset")
            r_, l_ = member("bufferViews", v, "byteLength")
            was = z3.If(G.hv(v.e), G.vo(v.e), 0)
            S.prove("views are in the first buffer", SBool(z3.And(p, ilift(b) == 0, q)))
            S.prove("views keep their length", SBool(z3.And(r_, ilift(l_) == G.vl(v.e))))
            k = S.fresh_int("k")
            S.axiom(z3.And(k >= 0, k < G.vl(v.e)))
            S.prove("a view yields the bytes it yielded before",
                    SBool(z3.Implies(z3.And(m == G.vb(v.e), t == was + k), z3.And(at(ilift(o_) + k) == G.fb(m, t), ilift(o_) + k < body, ilift(o_) >= 0))))
            S.prove("views: nothing else is changed", all(set(w) <= {"buffer", "byteOffset", "byteLength", None} for e, w in d.lists["bufferViews"].over))
        if bool(SBool(G.ni.e > 0)):
            i = SInt(S.fresh_int("i"))
            S.axiom(in_range(i, G.ni))
            p, b = member("images", i, "bufferView")
            q, mt = member("images", i, "mimeType")
            u, _ = member("images", i, "uri")
            S.prove("images have a buffer view of their own", SBool(z3.And(p, ilift(b) == G.nv.e + i.e)))
            S.prove("images have the media type of their file", SBool(z3.And(q, equal(mt, Mime(SInt(G.nb.e + i.e))))))
            S.prove("no image keeps its reference", SBool(z3.Not(u)))
            j = SInt(G.nv.e + i.e)
            p, b = member("bufferViews", j, "buffer")
            q, o_ = member("bufferViews", j, "byteOffset")
            r_, l_ = member("bufferViews", j, "byteLength")
            S.prove("the view of an image contains its bytes, up to padding", SBool(z3.And(p, q, r_, ilift(b) == 0, z3.Implies(m == G.nb.e + i.e, z3.And(
                ilift(l_) >= G.flen(m), ilift(l_) < G.flen(m) + 4, at(ilift(o_) + t) == G.fb(m, t), ilift(o_) + ilift(l_) <= body)))))
        if bool(SBool(ilift(d.lists["buffers"].n) > 0)):
            j = SInt(S.fresh_int("j"))
            S.axiom(in_range(j, SInt(ilift(d.lists["buffers"].n))))
            u, _ = member("buffers", j, "uri")
            p, bl = member("buffers", SInt(z3.IntVal(0)), "byteLength")
            S.prove("no buffer keeps its reference", SBool(z3.Not(u)))
            S.prove("the first buffer is the binary chunk", SBool(z3.And(p, ilift(bl) == body)))
            S.prove("buffers: nothing else is changed", all(set(w) <= {"uri", "byteLength", None} for e, w in d.lists["buffers"].over))

    def case(where):
        def f(v):
            g = lambda k: max(0, min(4, int(v.get(k, 0) or 0)))
            return {"check": "convert", "args": {"seed": 7, "nbuf": g("buffers") or (0 if g("images") else 2), "nview": g("views") or 2, "nimg": g("images"), "spare": True, "where": where}}
        return f

    for src, arg, out, where in (("d/in.file.gltf", None, "d/in.file.glb", "default"), ("in.gltf", "o.glb", "o.glb", "cwd"), ("a/x.gltf", "b/y.glb", "b/y.glb", "path")):
        V.forall("gltf2glb (%s)" % where, ["gltf2glb", "BodyEncoder.__init__", "BodyEncoder.add_to_body", "GlbEncoder.__init__", "GlbEncoder.export", "GlbEncoder.export_string"],
                 lambda S, a=(src, arg, out): convert(S, *a), case(where))
