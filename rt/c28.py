MODULES = ["sumo.base.vector", "sumo.geometry.rot3", "sumo.geometry.pose3", "sumo.geometry.quaternion", "sumo.threedee.point_cloud", "sumo.threedee.point_cloud_ply"]
BUDGET = 10
import os
import re
import subprocess
import sys
import tempfile

import numpy as np

from common import *

RULE = ("clouds of 1-400 points (of several magnitudes, negative and denormal-free values), with and without colours (ends of the range, repeated), both "
        "array orders, written twice to the same file; unreadable files; distinct by content")


def setup():
    global PointCloud, ply
    from sumo.threedee.point_cloud import PointCloud
    import sumo.threedee.point_cloud_ply as ply


def parse(path):
    """Independent reader: rows of the vertex element, in property order."""
    raw = open(path, "rb").read()
    head, body = raw.split(b"end_header\n", 1)
    lines = [l.strip() for l in head.decode("ascii").splitlines()]
    require(lines[0] == "ply", "PLY header %s", lines[:2])
    fmt = [l for l in lines if l.startswith("format")][0].split()[1]
    props, count, cur, elements = [], None, None, 0
    for l in lines:
        w = l.split()
        if l.startswith("element "):
            cur = w[1]
            elements += 1
            if cur == "vertex":
                count = int(w[2])
        if l.startswith("property ") and cur == "vertex":
            props.append((w[2], {"float": "f4", "float32": "f4", "double": "f8", "uchar": "u1", "uint8": "u1"}[w[1]]))
    require(elements == 1, "%d elements", elements)
    if fmt == "ascii":
        rows = [r.split() for r in body.decode().split("\n") if r.strip()]
        rows = [[float(x) for x in r] for r in rows]
    else:
        e = "<" if fmt == "binary_little_endian" else ">"
        a = np.frombuffer(body, dtype=[(n, e + t) for n, t in props])
        rows = [list(x) for x in a.tolist()]
    require(len(rows) == count, "%d vertex rows, header says %s", len(rows), count)
    return [p[0] for p in props], rows


def roundtrip(pts, cols, api, order, twice):
    P = np.array(pts, float).reshape(-1, 3).T
    C = None if cols is None else np.array(cols, np.uint8).reshape(-1, 3).T
    if order == "F":
        P = np.asfortranarray(P)
        C = None if C is None else np.asfortranarray(C)
    K = P.copy(), None if C is None else C.copy()
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "c.ply")
        if twice:
            ply.write_points(np.zeros((3, 50)), f)
        if api == "cloud":
            (PointCloud(P, C) if C is not None else PointCloud(P)).write_ply(f)
        elif C is not None:
            ply.write_points_and_colors(P, C, f)
        else:
            ply.write_points(P, f)
        Q, n = ply.read_points(f)
        L = PointCloud.load_ply(f)
        props, rows = parse(f)
    require(n == P.shape[1] and Q.shape == P.shape, "%d points written, %s read as %s", P.shape[1], n, Q.shape)
    close(Q, K[0], "points read back", rtol=1e-6, atol=1e-30)
    close(L.points(), K[0], "loaded cloud", rtol=1e-6, atol=1e-30)
    require(L.num_points() == n, "loaded cloud has %d points", L.num_points())
    require(props[:3] == ["x", "y", "z"], "properties %s", props)
    require(props[3:] == ([] if C is None else ["red", "green", "blue"]), "properties %s", props)
    for i, r in enumerate(rows):
        close([float(v) for v in r[:3]], K[0][:, i], "row %d of the file" % i, rtol=1e-6, atol=1e-30)
        if C is not None:
            require([int(v) for v in r[3:]] == [int(v) for v in K[1][:, i]], "colour of row %d is %s, expected %s", i, r[3:], K[1][:, i])
    same(P, K[0], "points argument")
    if C is not None:
        same(C, K[1], "colour argument")


CODE = """
import os, sys
sys.path[:0] = sys.argv[1].split(":")
import sumo.threedee.point_cloud_ply as ply
from sumo.threedee.point_cloud import PointCloud
f, kind, api = sys.argv[2:5]
import numpy as np
try:
    if kind == "unwritable":
        ply.write_points(np.zeros((3, 2)), f)
    elif api == "cloud":
        PointCloud.load_ply(f)
    else:
        ply.read_points(f)
except Exception as ex:
    print("REFUSED", type(ex).__name__)
else:
    print("ACCEPTED")
"""


def unreadable(kind, api):
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "c.ply")
        if kind == "text":
            open(f, "w").write("hello\nworld\n")
        elif kind == "empty":
            open(f, "w").close()
        elif kind == "folder":
            os.mkdir(f)
        elif kind == "noxyz":
            open(f, "w").write("ply\nformat ascii 1.0\nelement vertex 1\nproperty float a\nend_header\n1\n")
        elif kind == "unwritable":
            f = os.path.join(t, "no", "c.ply")
        r = subprocess.run([sys.executable, "-c", CODE, ":".join(sys.path), f, kind, api], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    require("REFUSED" in r.stdout, "%s (%s): exit status %s instead of an exception: %s", kind, api, r.returncode, r.stdout[-200:])


def foreign(pts, kind, fmt):
    """A file from elsewhere: read faithfully or refused."""
    P = np.array(pts, float).reshape(-1, 3)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "c.ply")
        head = "ply\nformat %s 1.0\nelement vertex %d\nproperty %s x\nproperty %s y\nproperty %s z\nend_header\n" % ((fmt, len(P)) + (kind,) * 3)
        t8 = {"float": "<f4", "double": "<f8", "int": "<i4"}[kind]
        if fmt == "ascii":
            body = "".join("%s %s %s\n" % tuple(repr(v.item()) for v in r.astype(t8)) for r in P).encode()
        else:
            body = P.astype(t8).tobytes()
        open(f, "wb").write(head.encode() + body)
        try:
            Q, n = ply.read_points(f)
        except Exception:
            return
    require(n == len(P), "%d points read from %d", n, len(P))
    close(Q, P.astype(t8).T, "points of a %s %s file" % (fmt, kind), rtol=1e-6, atol=1e-30)


CHECKS = {"foreign": foreign, "roundtrip": roundtrip, "unreadable": unreadable}


def cases(rnd, tier):
    for kind in ("missing", "text", "empty", "folder", "noxyz", "unwritable"):
        yield "unreadable", {"kind": kind, "api": "ply"}
    yield "unreadable", {"kind": "missing", "api": "cloud"}
    for kind in ("float", "double", "int"):
        for fmt in ("ascii", "binary_little_endian"):
            for k in (1, 3, 7, 200):
                yield "foreign", {"pts": [[rnd.uniform(-9, 9) for _ in range(3)] for _ in range(k)], "kind": kind, "fmt": fmt}
    for n in range(5000 if tier == "thorough" else 600):
        k = rnd.choice([1, 2, 3, 10, 400] if n % 20 == 0 else [1, 2, 3, 10])
        s = rnd.choice([1.0, 1.0, 1e-3, 1e4, 1e7])
        pts = [[rnd.choice([rnd.uniform(-s, s), float(rnd.randint(-3, 3))]) for _ in range(3)] for _ in range(k)]
        cols = [[rnd.choice([0, 255, rnd.randrange(256)]) for _ in range(3)] for _ in range(k)] if rnd.random() < 0.6 else None
        yield "roundtrip", {"pts": pts, "cols": cols, "api": rnd.choice(["cloud", "ply"]), "order": rnd.choice(["C", "F"]), "twice": rnd.random() < 0.2}
