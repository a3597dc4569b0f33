MODULES = ["sumo.base.vector", "sumo.geometry.rot3", "sumo.geometry.pose3", "sumo.geometry.quaternion", "sumo.threedee.point_cloud", "sumo.threedee.point_cloud_ply"]
BUDGET = 12
import numpy as np

from common import *

RULE = ("clouds of 0-12 points with and without colours, every order of combining up to five of them (merge, +, sum, append, register, chains), empty "
        "operands, mixed coloured/uncoloured operands, self-append, poses from random and special rotations, thinning to 0-30 points; distinct by content")


def setup():
    global PointCloud, Pose3, Rot3
    from sumo.threedee.point_cloud import PointCloud
    from sumo.geometry.pose3 import Pose3
    from sumo.geometry.rot3 import Rot3


def arr(c):
    P = np.array(c[0], float).reshape(-1, 3).T
    C = None if c[1] is None else np.array(c[1], np.uint8).reshape(-1, 3).T
    return P, C


def make(c):
    P, C = arr(c)
    return PointCloud(P, C) if C is not None else PointCloud(P)


def consistent(pc, what):
    n = pc.num_points()
    P, C = pc.points(), pc.colors()
    require(P.shape == (3, n), "%s: points() is %s for %d points", what, P.shape, n)
    require(pc.colored() == (C.shape[1] > 0), "%s: colored() %s with %d colours", what, pc.colored(), C.shape[1])
    require(C.shape[1] in (0, n), "%s: %d colours for %d points", what, C.shape[1], n)
    for i in range(min(n, 4)):
        same(pc.point(i), P[:, i], "%s: point(%d)" % (what, i))
        if pc.colored():
            same(pc.color(i), C[:, i], "%s: color(%d)" % (what, i))


def is_cloud(pc, P, C, what, exact=True):
    consistent(pc, what)
    same(pc.points(), P, what + ": points", exact, rtol=1e-9, atol=1e-9 * (1 + np.abs(P).max() if P.size else 1))
    if C is None or C.shape[1] == 0:
        require(not pc.colored(), "%s is coloured", what)
    else:
        require(pc.colored(), "%s lost its colours", what)
        same(pc.colors(), C, what + ": colours")


def basic(c):
    P, C = arr(c)
    k = [P.copy()] + ([C.copy()] if C is not None else [])
    pc = make(c)
    is_cloud(pc, P, C, "cloud")
    if P.shape[1]:
        is_cloud(PointCloud(np.asfortranarray(P), None if C is None else np.asfortranarray(C)), P, C, "cloud from column-major arrays")
        is_cloud(PointCloud(P[:, ::-1], None if C is None else C[:, ::-1]), P[:, ::-1], None if C is None else C[:, ::-1], "cloud from reversed views")
        pts = pc.points()
        pts[:] = 7
        if C is not None:
            pc.colors()[:] = 7
        is_cloud(pc, P, C, "cloud after its returned arrays were written")
    is_cloud(PointCloud(), np.zeros((3, 0)), None, "empty cloud")


def mixed(cs):
    """True when both coloured and uncoloured points are present."""
    return len({c[1] is not None for c in cs if len(c[0])}) > 1


def cat(cs):
    Ps, Cs = zip(*[arr(c) for c in cs]) if cs else ((), ())
    P = np.concatenate(Ps, axis=1) if Ps else np.zeros((3, 0))
    Cs = [C for C in Cs if C is not None and C.shape[1]]
    return P, (np.concatenate(Cs, axis=1) if Cs else None)


def combine(cs, how, order, poses):
    src = [make(c) for c in cs]
    sel = [cs[i] for i in order]
    ops = [src[i] for i in order]

    def register():
        return PointCloud.register([(Pose3(Rot3(rot(q)), np.array(t)), o) for (q, t), o in zip(poses, ops)])

    def append():
        r = PointCloud()
        for o in ops:
            r.append(o)
        return r

    def append0():
        r = make(sel[0])
        for o in ops[1:]:
            r.append(o)
        return r

    def merge():
        r = ops[0]
        for o in ops[1:]:
            r = PointCloud.merge(r, o)
        return r

    def plus():
        r = ops[0]
        for o in ops[1:]:
            r = r + o
        return r

    def plusr():
        r = ops[-1]
        for o in ops[-2::-1]:
            r = o + r
        return r
    f = {"register": register, "append": append, "append0": append0, "merge": merge, "plus": plus, "plusr": plusr, "sum": lambda: sum(ops)}[how]
    if mixed(sel):
        try:
            r = f()
        except Exception:
            r = None
        if r is not None:
            consistent(r, "%s of coloured and uncoloured clouds" % how)
            require(not r.colored(), "%s of coloured and uncoloured clouds is coloured", how)
            same(r.points(), cat(sel)[0], "%s: points" % how, how != "register", atol=1e-6)
    else:
        try:
            r = f()
        except ValueError:
            # a coloured cloud with an uncoloured one: refusing is allowed also when one of them is empty
            if len({c[1] is not None and len(c[0]) > 0 for c in sel}) > 1 or len(sel) == 0:
                r = None
            else:
                raise
        if r is not None:
            P, C = cat(sel)
            if how == "register":
                Ps = [rot(q) @ arr(c)[0] + np.array(t).reshape(3, 1) for (q, t), c in zip(poses, sel)]
                P = np.concatenate(Ps, axis=1)
            is_cloud(r, P, C, "%s of %d clouds" % (how, len(sel)), how != "register")
    for s, c in zip(src, cs):
        is_cloud(s, *arr(c), "operand of %s" % how)


def selfappend(c):
    P, C = arr(c)
    r = make(c)
    s = PointCloud.merge(r, r)
    is_cloud(s, np.concatenate([P, P], axis=1), None if C is None else np.concatenate([C, C], axis=1), "cloud merged with itself")
    is_cloud(r, P, C, "operand of merge with itself")


def move(c, q, t):
    P, C = arr(c)
    T = Pose3(Rot3(rot(q)), np.array(t))
    R = rot(q)
    pc = make(c)
    f = pc.transform_from(T)
    is_cloud(f, R @ P + np.array(t).reshape(3, 1), C, "transform_from", False)
    g = pc.transform_to(T)
    is_cloud(g, R.T @ (P - np.array(t).reshape(3, 1)), C, "transform_to", False)
    is_cloud(f.transform_to(T), P, C, "there and back", False)
    is_cloud(g.transform_from(T), P, C, "back and there", False)
    is_cloud(pc, P, C, "transformed cloud")
    same(T.matrix34() if hasattr(T, "matrix34") else T.matrix(), np.hstack([R, np.array(t).reshape(3, 1)]) if hasattr(T, "matrix34") else T.matrix(), "pose", False)


def thin(c, n, seed):
    P, C = arr(c)
    pc = make(c)
    np.random.seed(seed)
    r = pc.thin(n)
    consistent(r, "thinned cloud")
    require(r.num_points() == n, "thinning to %d keeps %d", n, r.num_points())
    require(r.colored() == (C is not None and n > 0), "thinned cloud colored() is %s", r.colored())
    pairs = {tuple(P[:, i]) + (tuple(C[:, i]) if C is not None else ()) for i in range(P.shape[1])}
    Q, D = r.points(), r.colors()
    for i in range(n):
        k = tuple(Q[:, i]) + (tuple(D[:, i]) if C is not None else ())
        require(k in pairs, "thinned point %s is not one of the originals with its colour", k)
    is_cloud(pc, P, C, "thinned-from cloud")


CHECKS = {"basic": basic, "combine": combine, "selfappend": selfappend, "move": move, "thin": thin}


def cloud(rnd, colored, n=None):
    n = rnd.choice([0, 1, 2, 5, 12]) if n is None else n
    P = [rvec(rnd) for _ in range(n)]
    return [P, [[rnd.randrange(256) for _ in range(3)] for _ in P] if colored else None]


def cases(rnd, tier):
    for n in range(20000 if tier == "thorough" else 1500):
        k = rnd.choice([1, 2, 2, 3, 5])
        mode = rnd.choice(["c", "u", "m"])
        cs = [cloud(rnd, mode == "c" or (mode == "m" and rnd.random() < 0.5)) for _ in range(k)]
        order = list(range(k))
        rnd.shuffle(order)
        if rnd.random() < 0.2:
            order.append(order[0])
        yield "combine", {"cs": cs, "how": rnd.choice(["register", "append", "append0", "merge", "plus", "plusr", "sum"]), "order": order,
                          "poses": [[rquat(rnd), rvec(rnd)] for _ in order]}
        c = cloud(rnd, rnd.random() < 0.5)
        if n % 2:
            yield "basic", {"c": c}
            yield "selfappend", {"c": c}
        yield "move", {"c": c, "q": rquat(rnd), "t": rvec(rnd)}
        c = cloud(rnd, rnd.random() < 0.5, rnd.choice([1, 2, 5, 12]))
        yield "thin", {"c": c, "n": rnd.choice([0, 1, 3, 30]), "seed": rnd.randrange(10 ** 6)}
