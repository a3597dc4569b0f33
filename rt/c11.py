MODULES = ["sumo.threedee.mesh", "sumo.threedee.textured_mesh"]
import numpy as np

from common import *

BUDGET = 15
RULE = ("plain and textured meshes of many sizes (also empty), every number of shared vertices, chains of merges, replacements, renumberings by "
        "permutations and into larger blocks, quadrant merging; distinct by content")


def setup():
    global Mesh, TexturedMesh
    from sumo.threedee.mesh import Mesh
    from sumo.threedee.textured_mesh import TexturedMesh


def data(r, n, t, share=None, k=0, uv=True):
    idx = r.randint(0, n, (3 * t,)).astype(np.uint32) if n else np.zeros(0, np.uint32)
    V = r.uniform(-9, 9, (3, n)).astype(np.float32)
    N = r.uniform(-1, 1, (3, n)).astype(np.float32)
    U = r.uniform(0, 1, (2, n)).astype(np.float32)
    if share is not None:
        V[:, :k], N[:, :k], U[:, :k] = share[1][:, :k], share[2][:, :k], share[3][:, :k]
    return idx, V, N, U


def tex(r):
    return r.randint(0, 256, (r.randint(1, 5), r.randint(1, 5), 3)).astype(np.uint8)


def make(kind, d, textures):
    if kind == "plain":
        return Mesh(d[0], d[1], d[2])
    return TexturedMesh(d[0], d[1], d[2], d[3], *textures)


def read(m):
    out = [m.indices(), m.vertices(), m.normals()]
    out.append(m.uv_coords() if m.is_textured() else np.zeros((2, 0), np.float32))
    if m.is_textured():
        out += [m.base_color(), m.metallic_roughness()]
    return out


def corners(idx, a):
    return a[:, idx.astype(int)]


def sane(m, what):
    idx, V, N, U = read(m)[:4]
    require(m.num_indices() == len(idx) and m.num_vertices() == V.shape[1], "%s: counts", what)
    require(N.shape == V.shape, "%s: %s normals for %s vertices", what, N.shape, V.shape)
    if m.is_textured():
        require(U.shape[1] == V.shape[1], "%s: %s texture coordinates for %s vertices", what, U.shape, V.shape)
    require(len(idx) == 0 or int(idx.max()) < V.shape[1], "%s: index %s, %d vertices", what, idx.max() if len(idx) else 0, V.shape[1])


def merged(a, b, k, kind):
    """Expected data of merging b (sharing its first k vertices) into a."""
    n1 = a[1].shape[1]
    j = b[0].astype(np.int64)
    j = np.where(j < k, j, j - k + n1)
    out = [np.concatenate([a[0], j.astype(np.uint32)])] + [np.hstack([a[i], b[i][:, k:]]) for i in (1, 2, 3)]
    return out


def merge(seed, kind, other, sizes, tris, ks):
    r = np.random.RandomState(seed)
    textures = (tex(r), tex(r))
    cur = data(r, sizes[0], tris[0])
    m = make(kind, cur, textures)
    twin = make(kind, cur, textures)
    for n, t, k in zip(sizes[1:], tris[1:], ks):
        k = min(k, n, cur[1].shape[1])
        d = data(r, n, t, cur, k)
        o = make(other if kind == "plain" else kind, d, (tex(r), tex(r)))
        before = read(o)
        if k:
            m.merge(o, k)
        else:
            m.merge(o) if seed % 2 else m.merge(o, 0)
        for x, y in zip(read(o), before):
            same(x, y, "the other mesh after merge")
        want = merged(cur, d, k, kind)
        got = read(m)
        sane(m, "merged mesh")
        n0 = cur[1].shape[1]
        # existing part is kept, new triangles have the corners they had
        same(got[0][:len(cur[0])], cur[0], "existing triangles")
        for i, nm in ((1, "vertices"), (2, "normals"), (3, "texture coordinates")):
            if i == 3 and kind == "plain":
                continue
            same(got[i], want[i], nm)
            same(corners(got[0][len(cur[0]):], got[i]), corners(d[0], d[i]), "corner %s of the appended triangles" % nm)
        same(got[0], want[0], "indices")
        if kind != "plain":
            same(got[4], textures[0], "base colour")
            same(got[5], textures[1], "metallic roughness")
        require(m.has_same_material(twin), "material changed by merge")
        cur = want


def replace(seed, kind, other, sizes, tris):
    r = np.random.RandomState(seed)
    textures = (tex(r), tex(r))
    a, b = data(r, sizes[0], tris[0]), data(r, sizes[1], tris[1])
    m, twin = make(kind, a, textures), make(kind, a, textures)
    o = make(other if kind == "plain" else kind, b, (tex(r), tex(r)))
    before = read(o)
    m.replace_geometry(o)
    got = read(m)
    for i, nm in ((0, "indices"), (1, "vertices"), (2, "normals"), (3, "texture coordinates")):
        if i == 3 and kind == "plain":
            continue
        same(got[i], b[i], nm + " after replace")
    if kind != "plain":
        same(got[4], textures[0], "base colour")
        same(got[5], textures[1], "metallic roughness")
    require(m.has_same_material(twin), "material changed by replace")
    sane(m, "replaced mesh")
    m.merge(make(kind, a, textures))
    sane(m, "mesh merged after replace")
    same(read(m)[1], np.hstack([b[1], a[1]]), "vertices merged after replace")
    m.cleanup_long_edges(0.0)
    for x, y in zip(read(o), before):
        same(x, y, "the other mesh after replace")


def renumber(seed, n, t, extra, block):
    """block leading vertices are permuted (into block+extra places)."""
    r = np.random.RandomState(seed)
    d = data(r, n, t)
    textures = (tex(r), tex(r))
    m, twin = make("textured", d, textures), make("textured", d, textures)
    size = block + extra
    perm = r.permutation(size)[:block].tolist()
    m.renumber(size, [int(i) for i in perm])
    got = read(m)
    want_idx = np.array([perm[i] if i < block else i - block + size for i in d[0]], np.uint32).reshape(-1)
    faulty = np.array([perm[i] if i < block else i + size for i in d[0]], np.uint32).reshape(-1)
    for i, nm in ((1, "vertices"), (2, "normals"), (3, "texture coordinates")):
        require(got[i].shape[1] == n + extra, "%s: %d after renumbering %d of %d into %d", nm, got[i].shape[1], block, n, size)
        same(got[i][:, perm], d[i][:, :block], nm + " of the renumbered block")
        same(got[i][:, size:], d[i][:, block:], nm + " behind the renumbered block")
    require(m.has_same_material(twin), "material changed by renumber")
    same(got[4], textures[0], "base colour")
    if not np.array_equal(got[0], want_idx) and np.array_equal(got[0], faulty):
        raise Known("renumber-partial", "renumber(%d, %s) of %d vertices maps indices %s to %s" % (size, perm, n, d[0], got[0]))
    same(got[0], want_idx, "renumbered indices")
    sane(m, "renumbered mesh")
    for i, nm in ((1, "position"), (2, "normal"), (3, "texture coordinate")):
        same(corners(got[0], got[i]), corners(d[0], d[i]), "corner %ss" % nm)


def quadrants(seed):
    r = np.random.RandomState(seed)
    indices = np.array([0, 1, 2, 1, 3, 2], np.uint32)
    V = r.uniform(-9, 9, (3, 9)).astype(np.float32)
    N = r.uniform(-9, 9, (3, 9)).astype(np.float32)
    U = r.uniform(0, 1, (2, 9)).astype(np.float32)
    quads = [[0, 5, 4, 6], [5, 1, 6, 8], [4, 6, 2, 7], [6, 8, 7, 3]]
    ms = [TexturedMesh(indices, V[:, q], N[:, q], U[:, q], tex(r), tex(r)) for q in quads]
    tri = [(V[:, [q[i] for i in indices]], N[:, [q[i] for i in indices]], U[:, [q[i] for i in indices]]) for q in quads]
    m = TexturedMesh.merge_quadrant_meshes(*ms)
    sane(m, "merged quadrants")
    got = read(m)
    same(got[1], V, "vertices")
    same(got[2], N, "normals")
    same(got[3], U, "texture coordinates")
    same(got[0], np.concatenate([[q[i] for i in indices] for q in quads]).astype(np.uint32), "indices")


def plain(d):
    f = lambda a, k: np.ascontiguousarray(np.array(a, dtype=np.float64).reshape(k, -1).astype(np.float32))
    return np.array(d["idx"], dtype=np.uint32), f(d["V"], 3), f(d["N"], 3), f(d["U"], 2)


def raw_pair(a, b, textured, other):
    t = (np.zeros((1, 1, 3), np.uint8),) * 2
    x, y = plain(a), plain(b)
    k = lambda q: "textured" if q else "plain"
    return x, y, make(k(textured), x, t), make(k(other), y, t)


def raw_merge(a, b, textured, other, k):
    x, y, X, Y = raw_pair(a, b, textured, other)
    c = k or 0
    for p, q in list(zip(x, y))[1:4 if textured else 3]:
        if not np.array_equal(p[:, :c], q[:, :c]):
            raise Skip()
    before = read(Y)
    X.merge(Y) if k is None else X.merge(Y, k)
    for p, q in zip(read(Y), before):
        same(p, q, "the other mesh after merge")
    want, got = merged(x, y, c, textured), read(X)
    sane(X, "merged mesh")
    for i in range(4 if textured else 3):
        same(got[i], want[i], "part %d of the merged mesh" % i)


def raw_replace(a, b, textured, other):
    x, y, X, Y = raw_pair(a, b, textured, other)
    before = read(Y)
    X.replace_geometry(Y)
    for p, q in zip(read(Y), before):
        same(p, q, "the other mesh after replace")
    sane(X, "replaced mesh")
    for i in range(4 if textured else 3):
        same(read(X)[i], y[i], "part %d of the replaced mesh" % i)


def raw_renumber(a, size, perm):
    x = plain(a)
    n, L = x[1].shape[1], len(perm)
    if len(set(perm)) < L or any(not 0 <= p < size for p in perm) or L > n or L > size:
        raise Skip()
    t = (np.zeros((1, 1, 3), np.uint8),) * 2
    m = make("textured", x, t)
    m.renumber(size, perm)
    got = read(m)
    for i, nm in ((1, "vertices"), (2, "normals"), (3, "texture coordinates")):
        require(got[i].shape[1] == n - L + size, "%s: %d after renumbering %d of %d into %d", nm, got[i].shape[1], L, n, size)
        same(got[i][:, perm], x[i][:, :L], nm + " of the renumbered block")
        same(got[i][:, size:], x[i][:, L:], nm + " behind the renumbered block")
    require(len(got[0]) == len(x[0]), "%d indices", len(got[0]))
    for p, q in zip(x[0], got[0]):
        require(p >= L or q == perm[p], "index %d becomes %d", p, q)


def raw_material(how):
    for seed in range(5):
        if how == "renumber":
            renumber(seed, 4, 2, 0, 4)
        elif how == "merge":
            merge(seed, "textured", "textured", [3, 4], [1, 2], [1])
        else:
            replace(seed, "textured", "textured", [3, 4], [1, 2])


CHECKS = {"raw_material": raw_material, "raw_merge": raw_merge, "raw_replace": raw_replace, "raw_renumber": raw_renumber, "merge": merge, "replace": replace, "renumber": renumber, "quadrants": quadrants}


def cases(rnd, tier):
    for n in range(20000 if tier == "thorough" else 2500):
        steps = rnd.choice([1, 1, 2, 4])
        kind = rnd.choice(["plain", "textured"])
        sizes = [rnd.choice([0, 1, 2, 3, 5, 8, 20]) for _ in range(steps + 1)]
        tris = [rnd.choice([0, 1, 2, 7]) for _ in sizes]
        other = rnd.choice(["plain", "plain", "textured"])
        s = rnd.randrange(1 << 30)
        yield "merge", {"seed": s, "kind": kind, "other": other, "sizes": sizes, "tris": tris, "ks": [rnd.choice([0, 0, 1, 2, 3, 100]) for _ in range(steps)]}
        yield "replace", {"seed": s, "kind": kind, "other": other, "sizes": sizes[:2], "tris": tris[:2]}
        k = rnd.choice([1, 2, 3, 4, 6, 9])
        yield "renumber", {"seed": s, "n": k, "t": rnd.choice([0, 1, 2, 5]), "extra": rnd.choice([0, 0, 0, 1, 3]),
                           "block": k if rnd.random() < 0.8 else rnd.randrange(k)}
        if n % 5 == 0:
            yield "quadrants", {"seed": s}
