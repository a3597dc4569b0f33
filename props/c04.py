"""C04 cube-map back-projection and point clouds of images."""
import types

import numpy as np

import cppmodel
import cpplib
import pyvc
from cppmodel import Vec, ctor_
from load import World
from pyvc import SBool, SInt, SReal, z3, ilift, lift
from seq import SArr, in_range
from meshlib import zand, zor
import c20

NAMES = ["back", "left", "front", "right", "up", "down"]
# centre, image right, image down of each face
FACES = [((0, 0, -1), (-1, 0, 0), (0, 1, 0)), ((-1, 0, 0), (0, 0, 1), (0, 1, 0)), ((0, 0, 1), (1, 0, 0), (0, 1, 0)),
         ((1, 0, 0), (0, 0, -1), (0, 1, 0)), ((0, -1, 0), (1, 0, 0), (0, 0, 1)), ((0, 1, 0), (1, 0, 0), (0, 0, -1))]


def on_face(f, u, v):
    """the point of face f at the fractions u, v of its width and height"""
    c, r, d = FACES[f]
    return [c[k] + r[k] * (u * 2 - 1) + d[k] * (v * 2 - 1) for k in range(3)]


def prove(V):
    V.trust("std::vector, std::array, Eigen fixed-size vectors and cv::Mat_ by their documented contracts (vlib/cppmodel.py, vlib/cpplib.py); element accesses carry index obligations",
            "sumo.opencv.wrap: an image and its cv::Mat hold the same pixels")
    V.assume("machine floats are treated as real numbers; plus infinity is a number larger than every finite input; sizes and indices as mathematical integers")

    W = c20.world(V, "sumo/images/Rgbdci360.cpp")
    C = W.C
    W.contracts["sumo.opencv.wrap"] = cpplib.WRAP
    W.contracts["sumo.images.rgbd_tiff"] = types.SimpleNamespace(MultiImagePageType=None)
    W.contracts["sumo.geometry.inverse_depth"] = types.SimpleNamespace()
    W.inject["sumo.images.rgbdci_360"] = {"createPointCloud": C.createPointCloud}
    W.cworld += ("sumo.images.rgbdci_360", "sumo.opencv.wrap")
    Image = W.load("sumo.images.rgbdci_360").Rgbdci360
    V.notes += W.notes

    def side(S):
        n = S.int("side", 1, sampler=lambda r: r.randint(1, 5))
        return n

    def pixel(*a):
        return ctor_("Vector2", list(a))

    def face(f):
        def b(S):
            n = side(S)
            u, y = S.real("u", sampler=lambda r: r.uniform(0, 0.999)), S.real("v", sampler=lambda r: r.uniform(0, 1))
            S.assume(SBool(z3.And(u.e >= 0, u.e < 1)))
            m = C.CubeMap(n)
            N = SReal(lift(n))
            p = m.unproject(pixel(N * (u + f), N * y))
            S.prove_eq("%s face: the pixel's place on the face" % NAMES[f], np.array(list(p), dtype=object), np.array(on_face(f, u, y), dtype=object))
            # the middle of the pixels, as createPointCloud asks for them
            if f == 0:
                w, h = m.size()
                S.prove("size: six faces side by side", zand(pyvc.eq(w, n * 6), pyvc.eq(h, n)))
                p, q = m.unproject(pixel(N * 6, N * y)), m.unproject(pixel(N * 0, N * y))
                S.prove_eq("the right border is the start of the back face", np.array(list(p), dtype=object), np.array(list(q), dtype=object))
                r, c = S.int("row", 0), S.int("col", 0)
                x = C.CubeMap.pixelCoordinates(r, c)
                S.prove_eq("middle of a pixel", np.array(list(x), dtype=object), np.array([SReal(lift(c)) + 0.5, SReal(lift(r)) + 0.5], dtype=object))
        return b
    for f in range(6):
        V.forall("unproject: %s face" % NAMES[f], ["CubeMap::CubeMap", "CubeMap::unproject", "CubeMap::sensorOfPixel", "CubeMap::size", "CubeMap::pixelCoordinates"], face(f),
                 lambda v, f=f: {"check": "ray", "args": {"side": int(v["side"]), "x": float((f + v["u"]) * int(v["side"])), "y": float(v["v"] * int(v["side"]))}})

    def seams(S):
        """the faces (as proved above) meet: limits at the open edges equal the neighbour's values"""
        t = S.real("t")
        one, zero = SReal(pyvc.rv(1)), SReal(pyvc.rv(0))
        for a, e, b, g in [(0, (one, t), 1, (zero, t)), (1, (one, t), 2, (zero, t)), (2, (one, t), 3, (zero, t)), (3, (one, t), 0, (zero, t)),
                           (4, (t, one), 2, (t, zero)), (5, (t, zero), 2, (t, one)), (4, (t, zero), 0, (one - t, zero)), (5, (t, one), 0, (one - t, one)),
                           (4, (zero, t), 1, (t, zero)), (4, (one, one - t), 3, (t, zero)), (5, (zero, one - t), 1, (t, one)), (5, (one, t), 3, (t, one))]:
            S.prove_eq("%s and %s share an edge" % (NAMES[a], NAMES[b]), np.array(on_face(a, *e), dtype=object), np.array(on_face(b, *g), dtype=object))
    V.forall("faces meet at their edges", ["CubeMap::unproject"], seams, lambda v: {"check": "seams", "args": {"side": 3, "t": min(1.0, max(0.0, float(v["t"])))}})

    def with_contract(S, n, check=True):
        """CubeMap::unproject by the contract proved above: some point of the cube that depends on the side and the pixel only"""
        R = z3.RealSort()
        U = [z3.Function("unproject%s" % k, R, R, R, R) for k in "xyz"]

        def unproject(m, p):
            a = [lift(m.side_), lift(p.x()), lift(p.y())]
            us = [u(*a) for u in U]
            key = ("unproj", tuple(z3.simplify(x).get_id() for x in a))
            if key not in S.memo:
                S.memo[key] = True
                S.keep += a + us + [z3.simplify(x) for x in a]
                cppmodel.obligation("pixel asked for is inside the image", SBool(z3.And(a[1] >= 0, a[1] < 6 * a[0])))
                S.axiom(z3.Or(*[z3.Or(u == 1, u == -1) for u in us]))
                S.axiom(us[0] * us[0] + us[1] * us[1] + us[2] * us[2] >= 1)
            return Vec([SReal(u) for u in us])
        return unproject

    def on_ray(S, what, p, u, r):
        """p lies on the ray through u at distance r"""
        p, u = list(p), list(u)
        S.prove_eq(what + ": on the ray of the pixel", np.array([p[i] * u[j] for i, j in ((0, 1), (1, 2), (2, 0))], dtype=object),
                   np.array([p[j] * u[i] for i, j in ((0, 1), (1, 2), (2, 0))], dtype=object))
        S.prove_eq(what + ": at the distance of its range", sum((x * x for x in p), SReal(pyvc.rv(0))), r * r)
        d = sum((x * y for x, y in zip(p, u)), SReal(pyvc.rv(0)))
        S.prove(what + ": in front of the camera", SBool(lift(d) > 0))

    class patched:
        def __init__(self, f):
            self.f = f

        def __enter__(self):
            self.old = C.CubeMap.unproject
            C.CubeMap.unproject = self.f

        def __exit__(self, *a):
            C.CubeMap.unproject = self.old

    def image(S, allp):
        h = S.int("side", 1, sampler=lambda r: r.randint(1, 2))
        w = h * 6
        inf = S.real("INF", sampler=lambda r: 3.0)
        S.axiom(inf.e > 0)
        S.memo["infinity"] = inf
        A = SArr.input(S, "rgb", (h, w, 3), "int", 0, 255)
        B = SArr.input(S, "range", (h, w))

        def rng(i, j):
            x = B.f(i, j)
            k = ("rngv", x.e.get_id())
            if k not in S.memo:
                S.memo[k] = True
                S.keep.append(x.e)
                S.axiom(z3.And(x.e <= inf.e, x.e >= -inf.e))
            return x
        rgb = SArr((h, w, 3), A.f, np.uint8)
        d = SArr((h, w), rng, np.float32)
        cat = SArr((h, w), lambda i, j: SInt(z3.IntVal(0)), np.uint16)
        # by its contract
        U = with_contract(S, h)
        with patched(U):
            cloud(S, allp, h, w, inf, A, rgb, rng, d, cat, U)

    def cloud(S, allp, h, w, inf, A, rgb, rng, d, cat, U):
        img = Image(rgb, d, cat, cat)
        pc = img.create_point_cloud(allp) if allp else img.create_point_cloud()
        P, D = pc.points(), pc.colors()
        valid = lambda i, j: SBool(z3.And(lift(rng(i, j)) > 0, lift(rng(i, j)) < inf.e))
        M = S.memo.get(("flat", z3.simplify(ilift(h)).get_id(), z3.simplify(ilift(w)).get_id()))
        if not S.prove("pixels in row-major order", M is not None):
            return
        n = P.shape[1]
        S.prove("as many points as colours", zand(pyvc.eq(D.shape[1], n), pyvc.eq(pc.num_points(), n)))
        cube = C.CubeMap(h)

        def ray(i, j):
            return U(cube, ctor_("Vector2", [SReal(lift(j)) + 0.5, SReal(lift(i)) + 0.5]))
        j = SInt(S.fresh_int("out"))
        S.axiom(in_range(j, n))
        if allp:
            S.prove("a point for every pixel", pyvc.eq(n, M.size))
            r, c = M.at(j)
            ok = valid(r, c)
        else:
            F = ([f for f in S.memo.get("filters", []) if f.n is M.size] or [None])[-1]
            if not S.prove("a selection of the pixels", F is not None):
                return
            S.prove("number of points", pyvc.eq(n, SInt(F.m)))
            q = SInt(S.fresh_int("pixel"))
            S.axiom(in_range(q, M.size))
            S.prove("exactly the pixels with finite positive range", SBool(F.lam.at(q.e) == valid(*M.at(q)).e))
            F.position(j.e)
            r, c = M.at(SInt(F.pos(j.e)))
            ok = valid(r, c)
            S.prove("only pixels with finite positive range", ok)
        if S.fork(ok.e):
            p = [P.f(k, j) for k in range(3)]
            on_ray(S, "point", p, ray(r, c), rng(r, c))
            S.prove("carries the colour of its pixel", zand(*[pyvc.eq(D.f(k, j), A.f(r, c, k)) for k in range(3)]))
        else:
            S.prove("invalid pixel: the origin", zand(*[pyvc.eq(P.f(k, j), SReal(pyvc.rv(0))) for k in range(3)]))
            S.prove("invalid pixel: black", zand(*[pyvc.eq(D.f(k, j), SInt(z3.IntVal(0))) for k in range(3)]))

    def icase(allp):
        def f(v):
            h, inf = int(v["side"]), float(v["INF"])
            fl = lambda x: float("inf") if x >= inf else float("-inf") if x <= -inf else float(x)
            return {"check": "raw_cloud", "args": {"rgb": [[[int(x) for x in p] for p in q] for q in v["rgb"]], "range": [[fl(x) for x in q] for q in v["range"]], "all_points": allp}}
        return f
    for allp in (False, True):
        V.forall("point cloud (%s)" % ("all points" if allp else "valid points"), ["createPointCloud", "pointFromRange", "Rgbdci360.create_point_cloud", "create_point_cloud_", "PointCloud::PointCloud"],
                 lambda S, allp=allp: image(S, allp), icase(allp))
