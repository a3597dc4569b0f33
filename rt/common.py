"""Helpers of the contract evaluation (replay) part."""
import math
import os
import sys
import types

import numpy as np


class Skip(Exception):
    pass


class Known(Exception):
    def __init__(self, id, msg):
        Exception.__init__(self, msg)
        self.id = id


class Broken(AssertionError):
    """A contract does not hold."""


def require(cond, msg, *args):
    if not cond:
        raise Broken(msg % args if args else msg)


def same(a, b, what="", exact=True, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    if exact:
        ok = np.array_equal(a, b) or (a.dtype.kind == "f" and np.array_equal(a, b, equal_nan=True))
    else:
        ok = np.allclose(a, b, rtol=rtol, atol=atol)
    require(ok, "%s: got %s, expected %s", what, short(a), short(b))


def short(a):
    s = np.array2string(np.asarray(a), threshold=40, precision=10)
    return s.replace("\n", " ")[:400]


def close(a, b, what="", rtol=1e-9, atol=1e-9):
    same(a, b, what, False, rtol, atol)


def internal(obj, name):
    """An internal name of the code: a check that needs it is skipped when the code no longer has it."""
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Skip()


def refuses(f, exc=Exception, what="call", never=()):
    """f() must raise one of exc."""
    try:
        r = f()
    except exc:
        return
    except Exception as ex:
        raise Broken("%s raised %s instead of %s" % (what, type(ex).__name__, exc))
    raise Broken("%s was accepted (returned %s)" % (what, repr(r)[:200]))


def rot(q):
    """Rotation matrix of quaternion (w,x,y,z), normalised (independent oracle)."""
    w, x, y, z = np.asarray(q, dtype=float) / np.linalg.norm(q)
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def rquat(rnd):
    k = rnd.randrange(6)
    if k == 0:
        q = [0.0, 0.0, 0.0, 0.0]
        q[rnd.randrange(4)] = 1.0
        return q
    if k == 1:
        h = rnd.choice([0.5 ** 0.5, 0.5 ** 0.5 * 1.0])
        q = [0.0] * 4
        i, j = rnd.sample(range(4), 2)
        q[i], q[j] = h * rnd.choice([1, -1]), h
        return q
    q = [rnd.gauss(0, 1) for _ in range(4)]
    if k == 2:
        q[0] *= 0.01
    n = math.sqrt(sum(v * v for v in q))
    return [v / n for v in q]


def rvec(rnd, n=3, scale=None):
    s = scale or rnd.choice([0.5, 3.0, 100.0])
    v = [rnd.uniform(-s, s) for _ in range(n)]
    if rnd.random() < 0.3:
        v[rnd.randrange(n)] = float(rnd.randint(-2, 2))
    return v


def frozen(*arrays):
    """Copies for a later unchanged() test."""
    return [np.array(a, copy=True) for a in arrays]


def unchanged(arrays, copies, what="operand"):
    for i, (a, c) in enumerate(zip(arrays, copies)):
        require(np.array_equal(np.asarray(a), c), "%s %d was modified", what, i)
