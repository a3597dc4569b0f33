"""C28 PLY files."""
import os
import re

import numpy as np

import cppmodel
import pyvc
from cppmodel import CppError, StdVec, It, CPP
from load import World
from pyvc import SBool, SInt, SReal, Unsupported, z3, ilift
from seq import SArr, SSeq, in_range, as_sarr
from meshlib import zand
import c20

UNIT = "sumo/threedee/point_cloud_ply_c.cpp"
SIZE = {"FLOAT32": 4, "FLOAT64": 8, "UINT8": 1, "INT32": 4}
PLY = "sumo.threedee.point_cloud_ply"


class Flag:
    def __init__(self, names): self.names = frozenset(names)

    def cpp_op(self, name, o):
        if name == "or" and isinstance(o, Flag):
            return Flag(self.names | o.names)
        raise Unsupported("operation on open modes")


class Type:
    def __init__(self, name): self.name = name
    def cpp_op(self, name, o):
        if name in ("eq", "ne"):
            return (self is o) == (name == "eq")
        raise Unsupported("operation on PLY types")


TYPES = {n: Type(n) for n in ("FLOAT32", "FLOAT64", "UINT8", "INT8", "INT16", "UINT16", "INT32", "UINT32", "INVALID")}


class Disk:
    """ghost file system: path -> None (no such file), "bad" (not a PLY file) or Ply"""

    def __init__(self): self.files, self.folder = {}, True


class Ply:
    """an element with groups of properties: {element: (count, [(names, type, value(point, k))])}"""

    def __init__(self): self.elements = {}


def text(p):
    return p.decode() if isinstance(p, bytes) else p


class InFile:
    def __init__(self, p, *mode):
        if mode and not (isinstance(mode[0], Flag) and mode[0].names <= {"in", "binary"}):
            raise Unsupported("open mode")
        self.f = DISK[0].files.get(text(p))
        self.bad = self.f is None

    def good(self): return not self.bad
    def is_open(self): return not self.bad
    def fail(self): return self.bad


class Buf:
    """the bytes of a property group that was read"""

    def __init__(self, data, off=0): self.data, self.off = data, off
    def get(self): return self
    def size_bytes(self): return self.data.count * len(self.data.names) * SIZE[self.data.t.name]

    def cpp_op(self, name, o):
        if name == "add":
            return Buf(self.data, self.off + o if not (isinstance(self.off, int) and self.off == 0) else o)
        raise Unsupported("pointer arithmetic")


class Data:
    def __init__(self, names): self.names, self.count, self.t, self.buffer = names, 0, TYPES["INVALID"], None


class PlyFile:
    def __init__(self): self.src, self.asked, self.groups = None, [], []

    def parse_header(self, ss):
        if not isinstance(ss.f, Ply):
            raise CppError("not a PLY file")
        self.src = ss.f

    def request_properties_from_element(self, element, names, *size):
        if size or self.src is None:
            raise Unsupported("a list property is asked for")
        if element not in self.src.elements:
            raise CppError("no such element")
        count, groups = self.src.elements[element]
        names = tuple(names)
        have = {n for g in groups for n in g[0]}
        if not set(names) <= have:
            raise CppError("no such property")
        g = [g for g in groups if g[0] == names]
        if len(g) != 1:
            raise Unsupported("properties across the groups of the file")
        d = Data(names)
        d.count, d.t = count, g[0][1]
        self.asked.append((d, g[0]))
        return d

    def read(self, ss):
        if ss.f is not self.src:
            raise Unsupported("another file is read")
        for d, g in self.asked:
            d.value = g[2]
            d.buffer = Buf(d)

    def add_properties_to_element(self, element, names, t, count, data, listtype, listcount):
        if not isinstance(data, StdVec) or listtype is not TYPES["INVALID"]:
            raise Unsupported("data of a property group")
        self.groups.append((element, tuple(names), t, count, data))

    def write(self, stream, binary):
        p = Ply()
        for element, names, t, count, vec in self.groups:
            m = len(names)
            want = {"FLOAT32": "float", "UINT8": "unsigned char"}.get(t.name)
            cppmodel.obligation("the data have the type that is written", want is not None and vec.elem == want)
            cppmodel.obligation("the data suffice for the points that are written", SBool(ilift(count) * m <= ilift(vec.n)))
            s = vec.seq()
            c, groups = p.elements.setdefault(element, (count, []))
            cppmodel.obligation("all groups have one row per point", SBool(ilift(c) == ilift(count)))
            groups.append((names, t, lambda i, k, s=s, m=m: s.at(i * m + k if m != 1 else i)))
        stream.put(p)


class FileBuf:
    def __init__(self): self.path = None

    def open(self, p, mode):
        if not (isinstance(mode, Flag) and mode.names in ({"out", "binary"}, {"out", "binary", "trunc"})):
            raise Unsupported("open mode")
        if DISK[0].folder:
            self.path = text(p)
            DISK[0].files[self.path] = "bad"
            return self
        return None

    def is_open(self): return self.path is not None
    def close(self): pass


class OutStream:
    def __init__(self, fb): self.fb = fb

    def put(self, ply):
        if self.fb.path is None:
            raise Unsupported("writing to a file that is not open")
        DISK[0].files[self.fb.path] = ply


DISK = [None]


def memcpy(dst, src, n):
    if not isinstance(dst, StdVec) or not isinstance(src, Buf) or not (isinstance(src.off, int) and src.off == 0):
        raise Unsupported("memcpy")
    d = src.data
    m = len(d.names)
    cppmodel.obligation("memcpy within both", SBool(z3.And(ilift(n) <= 4 * ilift(dst.n), ilift(n) <= ilift(src.size_bytes()))))
    cppmodel.obligation("memcpy of equal types", dst.elem == "float" and d.t.name == "FLOAT32")
    whole = SBool(ilift(n) == 4 * ilift(dst.n))
    if not pyvc.cur().known(whole.e):
        raise Unsupported("part of a vector is copied")
    fill(dst, d, m)


def fill(dst, d, m):
    n = dst.n

    def at(i):
        import loops
        q, r = loops.split_affine(i, m)
        v = d.value(q, r) if isinstance(r, int) else pyvc.ite(pyvc.eq(r, 0), d.value(q, 0), pyvc.ite(pyvc.eq(r, 1), d.value(q, 1), d.value(q, 2)))
        return v
    dst.clear()
    dst.append(SSeq(n, at))


def copy(a, b, out):
    if not (isinstance(a, Buf) and isinstance(b, Buf) and isinstance(out, It) and a.data is b.data) or not (isinstance(a.off, int) and a.off == 0 and isinstance(out.off, int) and out.off == 0):
        raise Unsupported("copy")
    d = a.data
    m = len(d.names)
    cppmodel.obligation("copy within both", SBool(z3.And(ilift(b.off) <= ilift(d.count) * m, ilift(b.off) <= ilift(out.v.n))))
    if d.t.name != "FLOAT64" or not pyvc.cur().known(ilift(b.off) == ilift(out.v.n)):
        raise Unsupported("copy of a part")
    fill(out.v, d, m)


def cvec(x, elem):
    """a numpy array as a C++ vector argument"""
    if isinstance(x, StdVec):
        return x
    a = as_sarr(x)
    if a.ndim != 1:
        raise Unsupported("a vector is made of an array that is not one-dimensional")
    v = StdVec(elem)
    v.append(SSeq(a.shape[0], lambda i: a.f(i)))
    return v


def prove(V):
    api = V.repo + "/sumo-api"
    P, notes, _ = cppmodel.load(V, api, UNIT)
    W = c20.world(V)
    CPP.types.update({"tinyply::PlyFile": PlyFile, "PlyFile": PlyFile, "std::basic_ifstream<char>": InFile, "std::basic_filebuf<char>": FileBuf,
                      "std::basic_ostream<char>": OutStream, "std::basic_string<char>": lambda s="": s, "std::runtime_error": lambda s="": s})
    CPP.ext.update({k: Flag([k]) for k in ("in", "out", "binary", "trunc", "app", "ate")})
    CPP.ext.update(TYPES)
    CPP.ext.update({"memcpy": memcpy, "copy": copy})
    V.notes += [UNIT + ": " + x for x in notes] + W.notes
    V.trust("tinyply (vendored): a written element is read back with its properties, types and values; an error for files that are no PLY files or lack a property",
            "std::ifstream, std::filebuf, memcpy, std::copy by their documented contracts", "numpy.reshape; Cython's conversion of an array to a vector")
    V.assume("float32 rounding is left out (machine numbers are real numbers)", "sizes are mathematical integers")
    W.inject[PLY] = {"readPoints": lambda p: P.readPoints(text(p)), "writePoints": lambda a, p: P.writePoints(cvec(a, "float"), text(p)),
                     "writePointsAndColors": lambda a, b, p: P.writePointsAndColors(cvec(a, "float"), cvec(b, "unsigned char"), text(p))}
    M = W.load(PLY)
    PC = W.load("sumo.threedee.point_cloud").PointCloud
    base = os.path.join(api, "sumo/threedee")
    decls = "\n".join(open(os.path.join(base, n)).read() for n in sorted(os.listdir(base)) if n.endswith((".pxd", ".pxi", ".pyx")))

    def start(S):
        DISK[0] = Disk()
        return DISK[0]

    def case(v):
        p, c = c20.CloudIn.case(v, "a") if "aP" in v else ([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], None)
        if not p:
            p, c = [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], [[1, 2, 3], [4, 5, 6]]
        return {"check": "roundtrip", "args": {"pts": p, "cols": c, "api": "ply", "order": "C", "twice": False}}

    def ccase(v):
        d = case(v)
        d["args"]["api"] = "cloud"
        return d

    def bad(v):
        return {"check": "unreadable", "args": {"kind": "text", "api": "ply"}}

    def same_points(S, what, Q, c):
        j = SInt(S.fresh_int("j"))
        S.axiom(in_range(j, c.n))
        S.prove("%s: as many points" % what, zand(Q.ndim == 2, pyvc.eq(Q.shape[0], 3), pyvc.eq(Q.shape[1], c.n)))
        S.prove("%s: every point in its place" % what, zand(*[pyvc.eq(Q.f(k, j), c.P.f(k, j)) for k in range(3)]))

    def file_is(S, D, path, c):
        """the file has the points, and the colours of a coloured cloud with their points"""
        F = D.files.get(path)
        if not S.prove("a PLY file is written", isinstance(F, Ply) and list(F.elements) == ["vertex"]):
            return
        count, groups = F.elements["vertex"]
        S.prove("one row per point", pyvc.eq(count, c.n))
        want = [("x", "y", "z"), ("red", "green", "blue")][:2 if c.C is not None else 1]
        if not S.prove("properties of a point", [g[0] for g in groups] == want):
            return
        j = SInt(S.fresh_int("row"))
        S.axiom(in_range(j, c.n))
        S.prove("points in the file", zand(*[pyvc.eq(groups[0][2](j, k), c.P.f(k, j)) for k in range(3)]))
        if c.C is not None:
            S.prove("colours in the file", zand(*[pyvc.eq(groups[1][2](j, k), c.C.f(k, j)) for k in range(3)]))

    FNS = ["readPoints", "writePoints", "writePointsAndColors", "read_points", "write_points", "write_points_and_colors", "numpy_from_unraveled_points"]
    for colored in (False, True):
        def functions(S, colored=colored):
            D = start(S)
            c = c20.CloudIn(S, "a", colored)
            keep = c.P.f
            if colored:
                M.write_points_and_colors(c.P, c.C, "c.ply")
            else:
                M.write_points(c.P, "c.ply")
            file_is(S, D, "c.ply", c)
            S.prove("only this file is written", list(D.files) == ["c.ply"])
            Q, n = M.read_points("c.ply")
            S.prove("number of points", pyvc.eq(n, c.n))
            same_points(S, "read back", Q, c)
            S.prove("the points given are unchanged", c.P.f is keep)
        V.forall("write and read (%s)" % ("coloured" if colored else "uncoloured"), FNS, functions, case)

        def clouds(S, colored=colored):
            D = start(S)
            c = c20.CloudIn(S, "a", colored)
            S.axiom(c.n.e > 0)
            pc = PC(c.P, c.C) if colored else PC(c.P)
            pc.write_ply("c.ply")
            file_is(S, D, "c.ply", c)
            same_points(S, "loaded cloud", PC.load_ply("c.ply").points(), c)
        V.forall("clouds (%s)" % ("coloured" if colored else "uncoloured"), FNS + ["PointCloud.write_ply", "PointCloud.load_ply"], clouds, ccase)

    def doubles(S):
        D = start(S)
        c = c20.CloudIn(S, "a", False)
        F = Ply()
        F.elements["vertex"] = (c.n, [(("x", "y", "z"), TYPES["FLOAT64"], lambda i, k: c.P.f(k, i))])
        D.files["c.ply"] = F
        Q, n = M.read_points("c.ply")
        same_points(S, "file of doubles", Q, c)
    V.forall("files of doubles", ["readPoints", "read_points"], doubles, lambda v: {"check": "foreign", "args": {"pts": [[1.0, 2.0, 3.0], [4.0, 5.0, 6.5]], "kind": "double", "fmt": "binary_little_endian"}})

    def integers(S):
        D = start(S)
        c = c20.CloudIn(S, "a", False)
        F = Ply()
        F.elements["vertex"] = (c.n, [(("x", "y", "z"), TYPES["INT32"], lambda i, k: c.P.f(k, i))])
        D.files["c.ply"] = F
        try:
            Q, n = M.read_points("c.ply")
        except CppError:
            S.prove("another type is refused", True)
            return
        same_points(S, "file of integers", Q, c)
    V.forall("files of other types", ["readPoints", "read_points"], integers, lambda v: {"check": "foreign", "args": {"pts": [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], "kind": "int", "fmt": "binary_little_endian"}})

    def refused(S):
        D = start(S)
        for name, f in (("missing", None), ("bad", "bad"), ("noxyz", Ply()), ("nothing", Ply())):
            if name == "noxyz":
                f.elements["vertex"] = (SInt(ilift(1)), [(("a",), TYPES["FLOAT32"], lambda i, k: SReal(pyvc.rv(0)))])
            D.files = {} if f is None else {"c.ply": f}
            for g in (M.read_points, PC.load_ply):
                try:
                    g("c.ply")
                except CppError:
                    S.prove("refused: " + name, True)
                else:
                    S.prove("refused: " + name, False)
        D.folder = False
        c = c20.CloudIn(S, "a", True)
        for g in (lambda: M.write_points(c.P, "c.ply"), lambda: M.write_points_and_colors(c.P, c.C, "c.ply")):
            try:
                g()
            except CppError:
                S.prove("an unwritable file is refused", True)
            else:
                S.prove("an unwritable file is refused", False)
        for f in ("readPoints", "writePoints", "writePointsAndColors"):
            d = re.findall(r"\bcdef\s+[\w\[\] ]+?\b%s\s*\([^()]*\)[ \t]*(except[ \t]*\+)?" % f, decls)
            if not d:
                raise Unsupported("declaration of " + f)
            S.prove("exceptions of %s reach Python" % f, all(d))
    V.forall("unreadable files", FNS, refused, bad)
