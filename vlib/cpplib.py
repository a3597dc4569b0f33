"""Contracts of the library classes other than vectors: std::string, std::map, tinygltf::Parameter and Material, cv::Mat_."""
import cppmodel
import pyvc
from cppmodel import Vec, copy_, val_, recording
from pyvc import SBool, Unsupported


class Entry:
    """an iterator into a map"""

    def __init__(self, m, key):
        self.m, self.key = m, key
        if key is not None:
            self.first, self.second = key, m.d[key]

    def cpp_copy(self):
        return self

    def cpp_op(self, name, o):
        if name not in ("eq", "ne"):
            raise Unsupported("map iterator")
        r = self.m is o.m and self.key == o.key
        return r if name == "eq" else not r


class Place:
    def __init__(self, m, key):
        self.m, self.key = m, key

    def val(self):
        return self.m.d[self.key]

    def set_(self, x):
        self.m.d[self.key] = copy_(x)

    def cpp_assign(self, x):
        self.set_(x)

    def cpp_copy(self):
        return copy_(self.val())

    def __getattr__(self, n):
        return getattr(self.val(), n)


class Map:
    """std::map with string keys, of a concrete size"""

    def __init__(self, make):
        self.make, self.d = make, {}

    def cpp_copy(self):
        m = Map(self.make)
        m.d = {k: copy_(v) for k, v in self.d.items()}
        return m

    def cpp_assign(self, o):
        self.d = {k: copy_(v) for k, v in o.d.items()}

    def key(self, k):
        if not isinstance(k, str):
            raise Unsupported("map key %r" % (k,))
        return k

    def ref_(self, k):
        k = self.key(k)
        if k not in self.d:
            self.d[k] = self.make()
        return Place(self, k)

    get_ = ref_

    def find(self, k):
        k = self.key(k)
        return Entry(self, k if k in self.d else None)

    def end(self):
        return Entry(self, None)

    def begin(self):
        return Entry(self, min(self.d) if self.d else None)

    def at(self, k):
        k = self.key(k)
        if k not in self.d:
            raise IndexError("map::at")
        return self.d[k]

    def count(self, k):
        return int(self.key(k) in self.d)

    def size(self):
        return len(self.d)

    def empty(self):
        return not self.d

    def clear(self):
        self.d = {}

    def erase(self, k):
        if isinstance(k, Entry):
            k = k.key
        self.d.pop(k, None)

    def cpp_op(self, name, o):
        if name not in ("eq", "ne"):
            raise Unsupported("map operation")
        r = sorted(self.d) == sorted(o.d)
        if r:
            for k in self.d:
                r = r & same(self.d[k], o.d[k]) if not isinstance(r, bool) else (same(self.d[k], o.d[k]) if r else r)
        if name == "ne":
            r = ~r if isinstance(r, SBool) else not r
        return r

    def __iter__(self):
        for k in sorted(self.d):
            yield Entry(self, k)


def same(a, b):
    if isinstance(a, (Map, Record)):
        return a.cpp_op("eq", b)
    return pyvc.eq(a, b)


class Record:
    """a plain structure"""
    FIELDS = {}

    def __init__(self):
        for k, f in self.FIELDS.items():
            object.__setattr__(self, k, f())

    def cpp_copy(self):
        o = type(self)()
        for k in self.FIELDS:
            object.__setattr__(o, k, copy_(getattr(self, k)))
        return o

    def cpp_assign(self, o):
        for k in self.FIELDS:
            setattr(self, k, copy_(getattr(o, k)))

    def cpp_op(self, name, o):
        if name not in ("eq", "ne"):
            raise Unsupported("operation on %s" % type(self).__name__)
        r = True
        for k in self.FIELDS:
            q = same(getattr(self, k), getattr(o, k))
            r = q if r is True else r if q is True else False if (r is False or q is False) else r & q
        if name == "ne":
            r = ~r if isinstance(r, SBool) else not r
        return r


class NumberArray(list):
    def cpp_copy(self):
        return NumberArray(copy_(x) for x in self)

    def cpp_assign(self, o):
        self[:] = [copy_(x) for x in o]

    def cpp_op(self, name, o):
        if len(self) != len(o):
            return name == "ne"
        r = True
        for a, b in zip(self, o):
            q = pyvc.eq(a, b)
            r = q if r is True else r & q
        return r if name == "eq" else (~r if isinstance(r, SBool) else not r)


class Parameter(Record):
    """tinygltf::Parameter"""
    FIELDS = {"bool_value": lambda: False, "has_number_value": lambda: False, "string_value": str, "number_array": NumberArray, "json_double_value": lambda: Map(lambda: 0.0),
              "number_value": lambda: 0.0}


class Material(Record):
    """tinygltf::Material"""
    FIELDS = {"name": str, "values": lambda: Map(Parameter), "additionalValues": lambda: Map(Parameter)}


class Mat:
    """cv::Mat_: a header that shares its pixels; clone() copies them.  The pixels are identified by a token (never changed by the code under contract)."""

    def __init__(self, rows=0, cols=0, data=None):
        self.rows, self.cols, self.data = rows, cols, data

    def __getitem__(self, i):
        """dereference of a pointer to it"""
        return self

    def __call__(self, i, j):
        """pixel (i, j): a number, or its channels"""
        S = pyvc.CUR
        cppmodel.obligation("pixel inside the image", SBool(pyvc.z3.And(*[pyvc.z3.And(pyvc.ilift(a) >= 0, pyvc.ilift(a) < pyvc.ilift(n)) for a, n in ((i, self.rows), (j, self.cols))])))
        d = self.data
        if d.ndim == 2:
            return d.f(i, j)
        return Vec([d.f(i, j, k) for k in range(d.shape[2])])

    def clone(self):
        return Mat(self.rows, self.cols, self.data)

    def cpp_copy(self):
        return Mat(self.rows, self.cols, self.data)

    def cpp_assign(self, o):
        self.rows, self.cols, self.data = o.rows, o.cols, o.data

    def empty(self):
        if isinstance(self.rows, int) and isinstance(self.cols, int):
            return self.rows == 0 or self.cols == 0
        return (self.rows == 0) | (self.cols == 0)


def string(*a):
    if not a:
        return ""
    if len(a) == 1 and isinstance(a[0], str):
        return a[0]
    raise Unsupported("std::string")


def mat(*a):
    if not a:
        return Mat()
    if len(a) == 1 and isinstance(a[0], Mat):
        return a[0].cpp_copy()
    raise Unsupported("cv::Mat construction")


TYPES = {"basic_string<char>": string, "string": string, "Material": Material, "Parameter": Parameter, "cv::Mat_<cv::Vec<unsigned char, 3>>": mat,
         "cv::Mat_<Vec3b>": mat, "cv::Mat_<cv::Vec3b>": mat, "Mat3b": mat}
cppmodel.CPP.types.update(TYPES)


def _equal(first, last, other, pred=None):
    """std::equal over whole maps"""
    if not all(isinstance(x, Entry) for x in (first, last, other)) or last.key is not None or first.m is not last.m or \
            first.key != first.m.begin().key or other.key != other.m.begin().key:
        raise Unsupported("std::equal of these ranges")
    if len(other.m.d) < len(first.m.d):
        raise Unsupported("std::equal reads past the end")
    for a, b in zip(first.m, other.m):
        if not (pred(a, b) if pred is not None else cppmodel.op_("eq", a.first, b.first) and same(a.second, b.second)):
            return False
    return True


cppmodel.CPP.ext["equal"] = _equal


class WRAP:
    """Contract of sumo.opencv.wrap: an image and its cv::Mat hold the same pixels."""

    @staticmethod
    def mat3b_from_array(a):
        return Mat(a.shape[0], a.shape[1], a.copy())

    mat1f_from_array = mat3b_from_array

    @staticmethod
    def array_from_mat3b(m):
        import numpy as np
        return np.zeros((0, 0, 3), np.uint8) if m.data is None else m.data.copy()

    array_from_mat1f = array_from_mat3b
