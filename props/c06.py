"""C06 interchange formats of rotations, poses and boxes."""
import types
import xml.etree.ElementTree as ET

import numpy as np

import pyvc
from load import World
from pyvc import oarr, quat_matrix, SReal, SInt, Sym
from seq import SArr
from c05 import quatc, vecc, snap, I3, mm, tr, det, proper, mv


def el(tag, *children, text=None):
    e = ET.Element(tag)
    e.text = text
    e.extend(children)
    return e


class EigenQuat:
    """Contract of Eigen::Quaterniond (trusted)."""
    S = None

    def __init__(self, *a):
        if len(a) == 4:
            self.q = list(a)
        else:
            M = a[0]
            S = pyvc.cur()
            # a quaternion of a proper rotation matrix is a unit quaternion with that matrix
            name = "eig%d" % len(S.inputs)
            self.q = None
            for k, q in S.memo.get("quats", []):
                if all(S.ring.equal(pyvc.lift(x), pyvc.lift(y)) for x, y in zip(np.asarray(M, dtype=object).reshape(-1), np.asarray(k, dtype=object).reshape(-1))):
                    s = S.memo.setdefault(("sgn", id(k)), S.choose(2))
                    self.q = [c if s == 0 else -c for c in q]
            if self.q is None:
                raise pyvc.Unsupported("Quaterniond of a matrix that is not a known rotation")

    def w(self): return self.q[0]
    def x(self): return self.q[1]
    def y(self): return self.q[2]
    def z(self): return self.q[3]

    def normalized(self):
        n = pyvc.m_sqrt(sum((c * c for c in self.q), SReal(pyvc.rv(0))))
        return EigenQuat(*[c / n for c in self.q])

    def toRotationMatrix(self):
        # Eigen computes I - 2(yy+zz) ... : assumes a unit quaternion
        w, x, y, z = self.q
        return oarr([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])
    matrix = toRotationMatrix


def eigen_world(V):
    W = World(V)
    W.new["Quaterniond"] = EigenQuat
    W.inject["sumo.geometry.quaternion"] = {"array_from_matrix3": lambda m: m, "matrix3_of_array": lambda a: a}
    V.trust("Eigen::Quaterniond: constructor from (w,x,y,z), normalized(), matrix(), and construction from a rotation matrix "
            "(a unit quaternion of that matrix, either sign)",
            "array_from_matrix3 / matrix3_of_array: memcpy between numpy (Fortran order) and Eigen column-major storage is the identity on matrices",
            "numpy.array2string / numpy.fromstring: a printed number reads back as itself (replay: to 8 digits)",
            "xml.etree.ElementTree (executed as is)")
    return W


def prove(V):
    W = eigen_world(V)
    Rot3 = W.load("sumo.geometry.rot3").Rot3
    Pose3 = W.load("sumo.geometry.pose3").Pose3
    Quaternion = W.load("sumo.geometry.quaternion").Quaternion
    W.contracts["sumo.threedee.mesh"] = types.SimpleNamespace(Mesh=None)
    W.contracts["sumo.threedee.textured_mesh"] = types.SimpleNamespace(TexturedMesh=None)
    Box3d = W.load("sumo.threedee.box_3d").Box3d
    V.assume("machine floats are treated as real numbers (replay uses the compiled float code)",
             "rotations are exactly the matrices of unit quaternions")
    through = lambda e: ET.fromstring(ET.tostring(e))
    dflt = {"q": [0.5, 0.5, 0.5, 0.5], "t": [1.0, 2.0, 3.0], "c1": [1.0, -2.0, 3.0], "c2": [0.0, 5.0, 1.0]}

    def xcase(v):
        a = dict(dflt)
        for n in ("t", "c1", "c2"):
            if n + "_0" in v:
                a[n] = vecc(v, n)
        return {"check": "xml", "args": a}

    def ecase(v):
        return {"check": "exact", "args": {"M": [v.get("M_%d_%d" % (i, j), 1.0 + i + 3 * j) for i in range(3) for j in range(3)],
                                            "t": vecc(v, "t") if "t_0" in v else [1.0, 2.0, 3.0]}}

    def num(v):
        return ", ".join(pyvc.cur().text_of(x) if isinstance(x, Sym) else repr(x) for x in v)

    # --- XML, rotation
    def rot_xml(S):
        M = S.mat("M", 3, 3)
        m0 = snap(M)
        x = through(Rot3(M).to_xml())
        S.prove("root tag", x.tag == "rotation" and [c.tag for c in x] == ["c1", "c2", "c3"])
        S.prove_eq("round trip", Rot3.from_xml(x).matrix(), M)
        import itertools
        for perm in itertools.permutations(range(3)):
            e = el("rotation", *[el("c%d" % (k + 1), text=num(M[:, k])) for k in perm])
            S.prove_eq("document in child order %s" % (perm,), Rot3.from_xml(through(e)).matrix(), M)
        S.prove("matrix unchanged", all(a is b for a, b in zip(snap(M), m0)))
    V.forall("rotation XML", ["Rot3.to_xml", "Rot3.from_xml"], rot_xml, lambda v: dict(xcase(v)))

    def pose_xml(S):
        M, t = S.mat("M", 3, 3), S.vec("t")
        y = Pose3.from_xml(through(Pose3(Rot3(M), t).to_xml()))
        S.prove_eq("round trip: rotation", y.rotation().matrix(), M)
        S.prove_eq("round trip: translation", y.translation(), t)
        r = lambda: el("rotation", *[el("c%d" % (k + 1), text=num(M[:, k])) for k in range(3)])
        for flip in (0, 1):
            kids = [el("translation", text=num(t)), r()]
            y = Pose3.from_xml(through(el("pose", *(kids[::-1] if flip else kids))))
            S.prove_eq("document order %d: rotation" % flip, y.rotation().matrix(), M)
            S.prove_eq("document order %d: translation" % flip, y.translation(), t)
    V.forall("pose XML", ["Pose3.to_xml", "Pose3.from_xml"], pose_xml, xcase)

    def box_xml(S):
        a, b = S.vec("c1"), S.vec("c2")
        lo, hi = oarr([pyvc.smin2(x, y) for x, y in zip(a, b)]), oarr([pyvc.smax2(x, y) for x, y in zip(a, b)])
        B = Box3d(a, b)
        y = Box3d.from_xml(through(B.to_xml()))
        S.prove_eq("round trip: min", y.min_corner, lo)
        S.prove_eq("round trip: max", y.max_corner, hi)
        for flip in (0, 1):
            kids = [el("corner1", text=num(a)), el("corner2", text=num(b))]
            y = Box3d.from_xml(through(el("box3d", *(kids[::-1] if flip else kids))))
            S.prove_eq("document order %d: min" % flip, y.min_corner, lo)
            S.prove_eq("document order %d: max" % flip, y.max_corner, hi)
    V.forall("box XML", ["Box3d.to_xml", "Box3d.from_xml", "Box3d.__init__"], box_xml, xcase)

    # --- refusals: a vector of any other length, a wrong or missing tag
    def vtext(S, n):
        return S.vector_text(S.int("len_" + n, 0, sampler=lambda r: r.choice([0, 1, 2, 4, 5])), n)

    def refused(S, name, f):
        try:
            f()
        except pyvc.Unsupported:
            raise
        except Exception as ex:
            if pyvc._engine_fault(ex):
                raise pyvc.Unsupported("%s: %s" % (type(ex).__name__, ex))
            S.prove(name + ": refused", True)
            return
        S.prove(name + ": refused", False)

    g3 = "1, 2, 3"

    def lengths(kind, tag, build, read):
        def body(S):
            n = S.int("len", 0, sampler=lambda r: r.choice([0, 1, 2, 4, 5]))
            S.assume(n != 3)
            refused(S, "%s: %s with other than three numbers" % (kind, tag), lambda: read(build(S.vector_text(n, "V"))))
        V.forall("%s XML, wrong length %s" % (kind, tag), {"rotation": "Rot3.from_xml", "pose": "Pose3.from_xml", "box": "Box3d.from_xml"}[kind], body,
                 lambda v: {"check": "bad", "args": {"kind": kind, "v": [1.0, 2.0, 3.0], "n": int(v.get("len", 1)), "tag": tag, "drop": False}})

    def tags(kind, tag, drop, build, read):
        def body(S):
            refused(S, "%s: %s %s" % (kind, "missing" if drop else "wrong", tag), lambda: read(build()))
        V.forall("%s XML, %s %s" % (kind, "missing" if drop else "wrong", tag), {"rotation": "Rot3.from_xml", "pose": "Pose3.from_xml", "box": "Box3d.from_xml"}[kind], body,
                 lambda v: {"check": "bad", "args": {"kind": kind, "v": [1.0, 2.0, 3.0], "n": 3, "tag": tag, "drop": drop}})

    def rdoc(items=None, root="rotation"):
        return el(root, *[el(k, text=s) for k, s in (items or [("c1", g3), ("c2", g3), ("c3", g3)])])

    for k in ("c1", "c2", "c3"):
        sub = lambda t, k=k: [(c, t if c == k else g3) for c in ("c1", "c2", "c3")]
        lengths("rotation", k, lambda t, sub=sub: rdoc(sub(t)), Rot3.from_xml)
        lengths("pose", k, lambda t, sub=sub: el("pose", el("translation", text=g3), rdoc(sub(t))), Pose3.from_xml)
        for drop in (True, False):
            items = [(c, g3) for c in ("c1", "c2", "c3") if c != k] if drop else [(c if c != k else c + "x", g3) for c in ("c1", "c2", "c3")]
            tags("rotation", k, drop, lambda items=items: rdoc(items), Rot3.from_xml)
    tags("rotation", "root", False, lambda: rdoc(root="rot"), Rot3.from_xml)
    lengths("pose", "translation", lambda t: el("pose", el("translation", text=t), rdoc()), Pose3.from_xml)
    tags("pose", "translation", True, lambda: el("pose", rdoc()), Pose3.from_xml)
    tags("pose", "translation", False, lambda: el("pose", el("Translation", text=g3), rdoc()), Pose3.from_xml)
    tags("pose", "rotation", True, lambda: el("pose", el("translation", text=g3)), Pose3.from_xml)
    tags("pose", "rotation", False, lambda: el("pose", el("translation", text=g3), rdoc(root="Rotation")), Pose3.from_xml)
    tags("pose", "extra", False, lambda: el("pose", el("translation", text=g3), rdoc(), el("scale", text=g3)), Pose3.from_xml)
    tags("pose", "root", False, lambda: el("Pose", el("translation", text=g3), rdoc()), Pose3.from_xml)
    for k in ("corner1", "corner2"):
        lengths("box", k, lambda t, k=k: el("box3d", *[el(c, text=t if c == k else g3) for c in ("corner1", "corner2")]), Box3d.from_xml)
        tags("box", k, True, lambda k=k: el("box3d", *[el(c, text=g3) for c in ("corner1", "corner2") if c != k]), Box3d.from_xml)
        tags("box", k, False, lambda k=k: el("box3d", *[el("corner" if c == k else c, text=g3) for c in ("corner1", "corner2")]), Box3d.from_xml)
    tags("box", "extra", False, lambda: el("box3d", *[el(c, text=g3) for c in ("corner1", "corner2", "corner3")]), Box3d.from_xml)
    tags("box", "root", False, lambda: el("box", *[el(c, text=g3) for c in ("corner1", "corner2")]), Box3d.from_xml)

    # --- JSON and 3x4
    def js(S):
        M, t = S.mat("M", 3, 3), S.vec("t")
        j = Rot3(M).to_json()
        S.prove("rotation keys", sorted(j) == ["X", "Y", "Z"])
        for k, n in enumerate("XYZ"):
            S.prove_eq("column %s" % n, list(j[n]), list(M[:, k]))
        S.prove_eq("rotation round trip", Rot3.from_json(j).matrix(), M)
        j = Pose3(Rot3(M), t).to_json()
        S.prove("pose keys", sorted(j) == ["Rotation", "Translation"])
        y = Pose3.from_json(j)
        S.prove_eq("pose round trip: rotation", y.rotation().matrix(), M)
        S.prove_eq("pose round trip: translation", y.translation(), t)
        y = Pose3.FromMatrix34(Pose3(Rot3(M), t).matrix34())
        S.prove_eq("3x4 round trip: rotation", y.rotation().matrix(), M)
        S.prove_eq("3x4 round trip: translation", y.translation(), t)
    V.forall("JSON and 3x4 forms", ["Rot3.to_json", "Rot3.from_json", "Rot3.FromColumns", "Pose3.to_json", "Pose3.from_json", "Pose3.matrix34",
                                    "Pose3.FromMatrix34", "Vector3"], js, ecase)

    def shape(S):
        r, c = S.int("r", 1, sampler=lambda r: r.randint(1, 5)), S.int("c", 1, sampler=lambda r: r.randint(1, 5))
        S.assume(pyvc.SBool(pyvc.z3.Not(pyvc.z3.And(r.e == 3, c.e == 4))))
        P = SArr.input(S, "P", (r, c))
        try:
            Pose3.FromMatrix34(P)
        except ValueError:
            S.prove("any other shape is refused", True)
            return
        S.prove("any other shape is refused", False)
    V.forall("FromMatrix34 refuses", "Pose3.FromMatrix34", shape, lambda v: {"check": "shapes", "args": {"r": min(int(v["r"]), 6), "c": min(int(v["c"]), 6)}})

    # --- quaternions
    def qcase(v):
        return {"check": "quaternion", "args": {"q": quatc(v, "q"), "t": vecc(v, "t") if "t_0" in v else [1.0, 2.0, 3.0], "s": abs(v.get("s", 2.0)) or 2.0}}

    def quat(S):
        q = S.unit_quaternion("q")
        t = S.vec("t")
        A = quat_matrix(*q)
        s = S.real("s", sampler=lambda r: r.choice([r.uniform(-9, 9), 0.01, 40.0]))
        S.assume(s != 0)
        w, x, y, z = [s * c for c in q]
        m = Quaternion(oarr([w, x, y, z])).to_rotation_matrix()
        S.prove_eq("matrix of a scaled quaternion", m, A)
        S.prove_eq("as_vector", Quaternion(oarr([w, x, y, z])).as_vector(), [w, x, y, z])
        p = Pose3.from_surreal({"QuaternionXYZW": [x, y, z, w], "Translation": list(t)})
        R = p.rotation().matrix()
        S.prove_eq("from_surreal rotation", R, A)
        S.prove_eq("from_surreal translation", p.translation(), t)
    V.forall("quaternion reading", ["Quaternion.__cinit__", "Quaternion.as_vector", "Quaternion.to_rotation_matrix", "Pose3.from_surreal"], quat, qcase)

    def proper_q(S):
        A = quat_matrix(*S.unit_quaternion("q"))
        proper(S, "matrix of a unit quaternion", A)
    V.forall("quaternion matrices are rotations (lemma)", "Quaternion.to_rotation_matrix", proper_q, qcase)

    def surreal(S):
        q = S.unit_quaternion("q")
        t = S.vec("t")
        A = quat_matrix(*q)
        S.memo["quats"] = [(A, q)]
        p = Pose3(Rot3(A), t)
        j = p.to_surreal()
        S.prove("keys", sorted(j) == ["QuaternionXYZW", "Translation"])
        X = list(j["QuaternionXYZW"])
        S.prove("four numbers", len(X) == 4)
        S.prove_eq("written quaternion, XYZW", quat_matrix(X[3], X[0], X[1], X[2]), A)
        y = Pose3.from_surreal(j)
        S.prove_eq("round trip: rotation", y.rotation().matrix(), A)
        S.prove_eq("round trip: translation", y.translation(), t)
    V.forall("surreal round trip", ["Pose3.to_surreal", "Pose3.from_surreal", "Quaternion.__cinit__"], surreal, qcase)
