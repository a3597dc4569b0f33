"""Stand-ins for the plotting / mesh libraries which sumo.metrics imports but which are not installed here.
Everything but the import itself is a failure."""
import sys
import types


class _Missing(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "use":
            return lambda *a, **k: None
        m = _Missing(self.__name__ + "." + n)
        return m

    def __call__(self, *a, **k):
        raise RuntimeError("library %s is not available" % self.__name__)


def install():
    for n in ("pymesh", "pyny3d", "pyny3d.geoms", "matplotlib", "matplotlib.pyplot"):
        if n not in sys.modules:
            m = _Missing(n)
            m.__path__ = []
            sys.modules[n] = m
    for n in ("pyny3d.geoms", "matplotlib.pyplot"):
        setattr(sys.modules[n.split(".")[0]], n.split(".")[1], sys.modules[n])


class Solid:
    """Stand-in of pymesh.Mesh for closed convex triangle meshes."""

    def __init__(self, vertices, faces):
        import numpy as np
        self.vertices = np.asarray(vertices, dtype=float).reshape(-1, 3)
        self.faces = np.asarray(faces, dtype=int).reshape(-1, 3)

    @property
    def volume(self):
        import numpy as np
        if not len(self.faces):
            return 0.0
        a, b, c = (self.vertices[self.faces[:, k]] - self.vertices[0] for k in range(3))
        return float(np.sum(a * np.cross(b, c)) / 6)


def _intersection(m1, m2, operation="intersection", **k):
    """Boolean intersection of two convex solids: clips the polygons of one by the planes of the other."""
    import numpy as np
    from scipy.spatial import ConvexHull, QhullError
    if operation != "intersection":
        raise RuntimeError("operation %s" % operation)
    h1, h2 = ConvexHull(m1.vertices), ConvexHull(m2.vertices)
    pts = []
    for a, b in ((h1, h2), (h2, h1)):
        eqs = b.equations
        for tri in a.points[a.simplices]:
            poly = list(tri)
            for e in eqs:
                out = []
                for p, q in zip(poly, poly[1:] + poly[:1]):
                    dp, dq = e[:3] @ p + e[3], e[:3] @ q + e[3]
                    if dp <= 1e-9:
                        out.append(p)
                    if (dp < -1e-9 and dq > 1e-9) or (dp > 1e-9 and dq < -1e-9):
                        out.append(p + (q - p) * dp / (dp - dq))
                poly = out
                if not poly:
                    break
            pts += poly
    if len(pts) < 4:
        return Solid(np.zeros((0, 3)), np.zeros((0, 3)))
    P = np.array(pts)
    keep = []
    for i in range(len(P)):
        if all(np.max(np.abs(P[i] - P[j])) > 1e-8 for j in keep):
            keep.append(i)
    try:
        h = ConvexHull(P[keep])
    except (QhullError, ValueError):
        return Solid(np.zeros((0, 3)), np.zeros((0, 3)))
    mid = h.points.mean(0)
    F = []
    for s in h.simplices:
        a, b, c = h.points[s]
        F.append(list(s) if np.dot(np.cross(b - a, c - a), a - mid) > 0 else [s[0], s[2], s[1]])
    if abs(Solid(h.points, F).volume - h.volume) > 1e-7 * (1e-3 + h.volume):
        raise RuntimeError("stand-in of pymesh: intersection volume is unreliable")
    return Solid(h.points, F)


def install_pymesh():
    """The part of pymesh the bounding-box track needs."""
    install()
    import numpy as np
    p = types.ModuleType("pymesh")
    p.__path__ = []
    p.form_mesh = lambda v, f, *a: Solid(v, f)
    p.boolean = _intersection
    u = types.ModuleType("pymesh.meshutils")
    u.remove_duplicated_vertices_raw = lambda v, f, *a, **k: (np.asarray(v), np.asarray(f), {})
    p.meshutils = u
    p.remove_duplicated_vertices_raw = u.remove_duplicated_vertices_raw
    sys.modules["pymesh"], sys.modules["pymesh.meshutils"] = p, u
