MODULES = ["sumo.threedee.gltf_model"]
import json
import os
import shutil
import struct
import tempfile

import numpy as np

from common import *

BUDGET = 12
RULE = ("models built from sequences of plain and textured meshes (many sizes, value ranges, texture shapes, repeated and re-added meshes), inspected in memory, "
        "through saved glTF and GLB files and after deep copies; the reference data of the repository; distinct by content")


def setup():
    global Mesh, TexturedMesh, GltfModel
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh
    from sumo.threedee.gltf_model import GltfModel


def tex(r, empty):
    if empty:
        return np.zeros((0, 0, 3), np.uint8)
    return r.randint(0, 256, (r.randint(1, 6), r.randint(1, 6), 3)).astype(np.uint8)


def data(r, kind, scale):
    n = 0 if kind.endswith("empty") else r.choice([1, 2, 3, 5, 17])
    t = r.choice([1, 2, 5]) if n else 0
    idx = r.randint(0, n, 3 * t).astype(np.uint32) if n else np.zeros(0, np.uint32)
    V = (r.uniform(-1, 1, (3, n)) * scale).astype(np.float32)
    if r.rand() < 0.2:
        V = np.abs(V)
    elif r.rand() < 0.2:
        V = -np.abs(V) - np.float32(1)
    N = r.uniform(-1, 1, (3, n)).astype(np.float32)
    d = [idx, V, N]
    if kind not in ("plain", "empty"):
        d += [r.uniform(-1, 2, (2, n)).astype(np.float32), tex(r, kind == "nocolor"), tex(r, kind == "norough")]
    return d


def build(d):
    return Mesh(*d) if len(d) == 3 else TexturedMesh(*d)


def same_mesh(m, d, what, textures=True):
    require(m.is_textured() == (len(d) > 3), "%s: is_textured is %s", what, m.is_textured())
    same(m.indices(), d[0], what + ": indices")
    same(m.vertices(), d[1], what + ": vertices")
    same(m.normals(), d[2], what + ": normals")
    if len(d) > 3:
        require(isinstance(m, TexturedMesh), "%s: class %s", what, type(m))
        same(m.uv_coords(), d[3], what + ": texture coordinates")
        if textures:
            same(m.base_color().reshape(-1, 3), d[4].reshape(-1, 3), what + ": base colour")
            require(m.base_color().shape == d[4].shape or d[4].size == 0, "%s: base colour shape", what)
            require(m.metallic_roughness().size == d[5].size, "%s: metallic roughness size", what)
            if d[5].size:
                same(m.metallic_roughness(), d[5], what + ": metallic roughness")


def same_model(m, ds, what, textures=True):
    require(m.num_primitive_meshes() == len(ds), "%s: %d meshes for %d added", what, m.num_primitive_meshes(), len(ds))
    ms = m.primitive_meshes()
    require(len(ms) == len(ds), "%s: %d listed meshes", what, len(ms))
    for i, d in enumerate(ds):
        same_mesh(ms[i], d, "%s: listed mesh %d of %d" % (what, i, len(ds)), textures)
        same_mesh(m.extract_primitive_mesh(i), d, "%s: mesh %d of %d" % (what, i, len(ds)), textures)
        if len(d) > 3:
            same_mesh(m.extract_textured_primitive_mesh(i), d, "%s: textured mesh %d of %d" % (what, i, len(ds)), textures)
    for bad in (len(ds), len(ds) + 1, 10 ** 9, -1):
        refuses(lambda: m.extract_primitive_mesh(bad), Exception, "extracting mesh %d of %d" % (bad, len(ds)))
        refuses(lambda: m.extract_textured_primitive_mesh(bad), Exception, "extracting textured mesh %d of %d" % (bad, len(ds)))


COMP = {5123: ("H", 2), 5125: ("I", 4), 5126: ("f", 4), 5121: ("B", 1)}
NUM = {"SCALAR": 1, "VEC2": 2, "VEC3": 3}


def consistent(g, load, what):
    """Every cross reference of the JSON document points to an existing element within bounds."""
    # the writer puts null for an element without any property
    for t in g:
        if isinstance(g[t], list):
            g[t] = [{} if x is None else x for x in g[t]]

    def ref(i, table, name):
        require(isinstance(i, int) and 0 <= i < len(g.get(table, [])), "%s: %s refers to %s[%s] of %d", what, name, table, i, len(g.get(table, [])))
    bufs = [load(b) for b in g.get("buffers", [])]
    for i, b in enumerate(g.get("buffers", [])):
        require(len(bufs[i]) >= b["byteLength"], "%s: buffer %d has %d of %d bytes", what, i, len(bufs[i]), b["byteLength"])
    for i, v in enumerate(g.get("bufferViews", [])):
        ref(v["buffer"], "buffers", "buffer view %d" % i)
        require(0 <= v.get("byteOffset", 0) and v.get("byteOffset", 0) + v["byteLength"] <= g["buffers"][v["buffer"]]["byteLength"],
                "%s: buffer view %d is out of its buffer", what, i)
    arrays = []
    for i, a in enumerate(g.get("accessors", [])):
        ref(a["bufferView"], "bufferViews", "accessor %d" % i)
        v = g["bufferViews"][a["bufferView"]]
        c, s = COMP[a["componentType"]]
        k = NUM[a["type"]]
        require(a.get("byteOffset", 0) + a["count"] * s * k <= v["byteLength"], "%s: accessor %d is out of its view", what, i)
        require(v.get("byteStride", 0) in (0, s * k), "%s: stride of view %d", what, a["bufferView"])
        raw = bufs[v["buffer"]][v.get("byteOffset", 0) + a.get("byteOffset", 0):][:a["count"] * s * k]
        arr = np.frombuffer(raw, dtype=np.dtype("<" + c)).reshape(a["count"], k)
        arrays.append(arr)
        if a["count"]:
            same(np.array(a["min"]).astype(arr.dtype), arr.min(0), "%s: minimum of accessor %d" % (what, i))
            same(np.array(a["max"]).astype(arr.dtype), arr.max(0), "%s: maximum of accessor %d" % (what, i))
    for i, m in enumerate(g.get("meshes", [])):
        for p in m["primitives"]:
            ref(p["indices"], "accessors", "mesh %d indices" % i)
            counts = set()
            for k, x in p["attributes"].items():
                ref(x, "accessors", "mesh %d %s" % (i, k))
                counts.add(len(arrays[x]))
            require(len(counts) == 1, "%s: mesh %d attribute counts %s", what, i, counts)
            require(len(arrays[p["indices"]]) == 0 or int(arrays[p["indices"]].max()) < counts.pop(), "%s: mesh %d indices out of range", what, i)
            ref(p["material"], "materials", "mesh %d material" % i)
    for i, n in enumerate(g.get("nodes", [])):
        if "mesh" in n:
            ref(n["mesh"], "meshes", "node %d" % i)
        for c in n.get("children", []):
            ref(c, "nodes", "node %d" % i)
    for i, s in enumerate(g.get("scenes", [])):
        for c in s.get("nodes", []):
            ref(c, "nodes", "scene %d" % i)
    if "scene" in g:
        ref(g["scene"], "scenes", "default scene")
    for i, t in enumerate(g.get("textures", [])):
        ref(t["source"], "images", "texture %d" % i)
    for i, m in enumerate(g.get("materials", [])):
        for d in (m, m.get("pbrMetallicRoughness", {})):
            for k, x in d.items():
                if k.endswith("Texture"):
                    ref(x["index"], "textures", "material %d %s" % (i, k))
    for i, im in enumerate(g.get("images", [])):
        if "bufferView" in im:
            ref(im["bufferView"], "bufferViews", "image %d" % i)


def check_gltf(path, ds, what):
    g = json.load(open(path))
    d = os.path.dirname(path)
    consistent(g, lambda b: open(os.path.join(d, b["uri"]), "rb").read(), what)
    require(len(g.get("meshes", [])) == len(ds) and len(g.get("nodes", [])) == len(ds), "%s: %d meshes, %d nodes", what, len(g.get("meshes", [])), len(g.get("nodes", [])))
    # every mesh is reachable from the scene exactly once, in order
    if ds:
        nodes = g["scenes"][g.get("scene", 0)]["nodes"]
        require([g["nodes"][n]["mesh"] for n in nodes] == list(range(len(ds))), "%s: scene nodes %s", what, nodes)
    for im in g.get("images", []):
        require(os.path.exists(os.path.join(d, im["uri"])), "%s: image %s was not written", what, im["uri"])


def check_glb(path, what):
    b = open(path, "rb").read()
    n = struct.unpack("<I", b[12:16])[0]
    g = json.loads(b[20:20 + n])
    body = b[28 + n:]
    consistent(g, lambda x: body, what)


def files(m, ds, what, textures=True):
    tmp = tempfile.mkdtemp()
    try:
        p = m.save_as_gltf(tmp, "model")
        require(os.path.dirname(p) == tmp, "%s: saved at %s", what, p)
        check_gltf(p, ds, what + " (glTF)")
        same_model(GltfModel.load_from_gltf(p), ds, what + " loaded from glTF", textures)
        q = os.path.join(tmp, "sub.glb")
        m.save_as_glb(q)
        check_glb(q, what + " (GLB)")
        same_model(GltfModel.load_from_glb(q), ds, what + " loaded from GLB", textures)
        same_model(m, ds, what + " after saving", textures)
    finally:
        shutil.rmtree(tmp)


def add(seed, kinds, poly, scale, save):
    r = np.random.RandomState(seed)
    m = GltfModel()
    ds = []
    for i, k in enumerate(kinds):
        if ds and r.rand() < 0.15:
            d = ds[r.randint(len(ds))]
        else:
            d = data(r, k, scale)
        x = build(d)
        if poly:
            m.add_mesh(x)
        elif len(d) > 3:
            m.add_textured_primitive_mesh(x)
        else:
            m.add_primitive_mesh(x)
        same_mesh(x, d, "added mesh")
        del x
        ds.append(d)
        require(m.num_nodes() == len(ds), "%d nodes for %d meshes", m.num_nodes(), len(ds))
        if i % 2 == 0 or i == len(kinds) - 1:
            same_model(m, ds, "model")
    if not kinds:
        same_model(m, [], "empty model")
    if save and any(d[1].size for d in ds):
        # a model without base colour is written without image
        files(m, ds, "model %s" % kinds)


def again(seed, kinds, scale):
    """Meshes extracted from one model, merged or re-added into others."""
    r = np.random.RandomState(seed)
    a, ds = GltfModel(), []
    for k in kinds:
        d = data(r, k, scale)
        a.add_mesh(build(d))
        ds.append(d)
    order = list(r.permutation(len(ds)))
    b = GltfModel()
    pre = data(r, r.choice(["plain", "textured"]), scale)
    b.add_mesh(build(pre))
    for i in order:
        b.add_mesh(a.extract_primitive_mesh(int(i)))
    want = [pre] + [ds[i] for i in order]
    same_model(b, want, "model of extracted meshes")
    same_model(a, ds, "source model")
    a.add_mesh(a.extract_primitive_mesh(0))
    same_model(a, ds + [ds[0]], "model with its own mesh added")
    if any(d[1].size for d in want):
        files(b, want, "model of extracted meshes")


def copies(seed, kinds, scale):
    r = np.random.RandomState(seed)
    a, ds = GltfModel(), []
    for k in kinds:
        d = data(r, k, scale)
        a.add_mesh(build(d))
        ds.append(d)
    b = a.deepcopy()
    same_model(b, ds, "deep copy")
    d = data(r, "textured", scale)
    b.add_mesh(build(d))
    e = data(r, "plain", scale)
    same_model(a, ds, "original after changing the copy")
    a.add_mesh(build(e))
    same_model(b, ds + [d], "copy after changing the original")
    same_model(a, ds + [e], "changed original")
    b.update_materials("", [{"color": np.array([0.5, 0.25, 0.125]), "uri": ""}] + [None] * len(ds))
    a_ms = a.extract_primitive_mesh(0)
    require(not b.extract_primitive_mesh(0).has_same_material(a_ms) or not ds, "material of the copy")
    c = GltfModel()
    c.add_mesh(build(ds[0]))
    x, y = a.extract_primitive_mesh(0), c.extract_primitive_mesh(0)
    require(x.has_same_material(y), "material of the original changed with the copy")
    del a
    same_model(b, ds + [d], "copy after the original is gone")


def plain_view(seed, scale):
    """A textured mesh added as a plain one gives a plain one."""
    r = np.random.RandomState(seed)
    m = GltfModel()
    d = data(r, "textured", scale)
    m.add_primitive_mesh(build(d))
    same_model(m, [d[:3]], "model of a textured mesh added as plain")
    files(m, [d[:3]], "model of a textured mesh added as plain")
    e = data(r, "textured", scale)
    m.add_mesh(build(e))
    same_model(m, [d[:3], e], "model")
    files(m, [d[:3], e], "model")


def relative(seed):
    r = np.random.RandomState(seed)
    m = GltfModel()
    d = data(r, "textured", 1.0)
    m.add_mesh(build(d))
    tmp = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        os.mkdir("sub")
        for p in ("rel.glb", os.path.join("sub", "rel.glb")):
            m.save_as_glb(p)
            require(os.path.exists(os.path.join(tmp, p)), "save_as_glb(%r) did not write the file", p)
            same_model(GltfModel.load_from_glb(p), [d], "model loaded from %r" % p)
        p = m.save_as_gltf("sub", "m")
        same_model(GltfModel.load_from_gltf(p), [d], "model loaded from %r" % p)
        require(os.getcwd() == os.path.realpath(tmp), "current directory changed")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def reference(name):
    """Models of the repository's test data: re-adding and saving keeps their geometry."""
    p = os.path.join(os.environ["SUMO_SRC"], "sumo", "threedee", "test_data", name)
    if not os.path.exists(p):
        raise Skip()
    m = GltfModel.load_from_glb(p) if p.endswith("glb") else GltfModel.load_from_gltf(p)
    def read(x):
        d = [x.indices(), x.vertices(), x.normals()]
        return d + ([x.uv_coords(), x.base_color(), x.metallic_roughness()] if x.is_textured() else [])
    ds = [read(x) for x in m.primitive_meshes()]
    n = GltfModel()
    for x in m.primitive_meshes():
        n.add_mesh(x)
    same_model(n, ds, name)
    files(n, ds, name)


def extra(seed):
    """A mesh whose material has a texture the mesh does not carry (normal map), moved to another model."""
    r = np.random.RandomState(seed)
    d = data(r, "textured", 1.0)
    a = GltfModel()
    for k in range(3):
        a.add_mesh(build(d))
    tmp = tempfile.mkdtemp()
    try:
        p = a.save_as_gltf(tmp, "m")
        g = json.load(open(p))
        g["materials"][0]["normalTexture"] = {"index": 4}
        json.dump(g, open(p, "w"))
        a = GltfModel.load_from_gltf(p)
        same_model(a, [d, d, d], "model with a normal map")
        b = GltfModel()
        b.add_mesh(a.extract_primitive_mesh(0))
        same_model(b, [d], "model of a mesh with a normal map")
        p = b.save_as_gltf(tmp, "n")
        g = json.load(open(p))
        t = g["materials"][0].pop("normalTexture", None)
        consistent(g, lambda x: open(os.path.join(tmp, x["uri"]), "rb").read(), "model of a mesh with a normal map")
        if t is not None and not 0 <= t["index"] < len(g["textures"]):
            raise Known("extra-textures", "normalTexture %s of %d textures" % (t, len(g["textures"])))
    finally:
        shutil.rmtree(tmp)


CHECKS = {"extra": extra, "add": add, "again": again, "copies": copies, "plain_view": plain_view, "relative": relative, "reference": reference}


def cases(rnd, tier):
    S = lambda: rnd.randrange(1 << 30)
    yield "add", {"seed": S(), "kinds": [], "poly": True, "scale": 1.0, "save": False}
    yield "relative", {"seed": S()}
    yield "extra", {"seed": S()}
    for scale in (1.0, 1e-6, 1e6, 1e12, 3e38):
        yield "add", {"seed": S(), "kinds": ["plain", "textured"], "poly": True, "scale": scale, "save": True}
    yield "plain_view", {"seed": S(), "scale": 1.0}
    for n in ("Cube.gltf", "Cube.glb", "bed.glb"):
        yield "reference", {"name": n}
    K = ["plain", "textured", "textured", "norough", "nocolor", "plain", "textured", "empty", "textured-empty"]
    for n in range(8000 if tier == "thorough" else 700):
        kinds = [rnd.choice(K) for _ in range(rnd.choice([1, 2, 3, 5]))]
        sc = rnd.choice([1.0, 1.0, 100.0, 1e-3, 1e5])
        yield "add", {"seed": S(), "kinds": kinds, "poly": rnd.random() < 0.7, "scale": sc, "save": rnd.random() < 0.5}
        if n % 3 == 0:
            yield "again", {"seed": S(), "kinds": kinds, "scale": sc}
            yield "copies", {"seed": S(), "kinds": kinds, "scale": sc}
        if n % 20 == 0:
            yield "plain_view", {"seed": S(), "scale": sc}
            yield "relative", {"seed": S()}
