MODULES = ["sumo.threedee.glb_converter"]
import copy
import json
import mimetypes
import os
import shutil
import struct
import tempfile

import numpy as np

from common import *

BUDGET = 12
RULE = ("glTF documents with 0 to 4 buffers and 0 to 4 images of every length modulo four, buffer views with and without offset in every buffer, several image "
        "types, extra members everywhere, non-ASCII text; distinct by content")


def setup():
    global gltf2glb
    from sumo.threedee.glb_converter import gltf2glb


def document(seed, nbuf, nview, nimg, spare):
    """A glTF document and its files."""
    r = np.random.RandomState(seed)
    g = {"asset": {"version": "2.0", "generator": "g\u00e9n\u00e9rateur \u2603" if spare else "x"}}
    files = {}
    lens = []
    bufs = []
    for i in range(nbuf):
        n = int(r.choice([1, 2, 3, 4, 5, 7, 8, 33, 100]))
        lens.append(n)
        name = "b%d.bin" % i if r.rand() < 0.7 else "data%d/b.bin" % i
        files[name] = r.bytes(n)
        b = {"uri": name, "byteLength": n}
        if spare:
            b["name"] = "buffer %d" % i
            b["extras"] = {"k": [1, 2.5, None, "uri"]}
        bufs.append(b)
    if nbuf:
        g["buffers"] = bufs
    views = []
    for i in range(nview if nbuf else 0):
        b = int(r.randint(nbuf))
        off = int(r.randint(lens[b]))
        v = {"buffer": b, "byteLength": int(r.randint(1, lens[b] - off + 1)), "byteOffset": off}
        if r.rand() < 0.4:
            v["byteLength"] = int(r.randint(1, lens[b] + 1))
            v.pop("byteOffset")
        if r.rand() < 0.5:
            v["target"] = 34963
            v["byteStride"] = 12
        if spare and r.rand() < 0.5:
            v["name"] = "view"
        views.append(v)
    if views:
        g["bufferViews"] = views
    imgs = []
    for i in range(nimg):
        ext = r.choice(["png", "jpg", "jpeg", "PNG"])
        name = "i%d.%s" % (i, ext) if r.rand() < 0.7 else "tex/i %d.%s" % (i, ext)
        files[name] = r.bytes(int(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 50, 51])))
        im = {"uri": name}
        if spare and r.rand() < 0.5:
            im["name"] = "image \u00fc"
            im["extras"] = {"a": 1}
        imgs.append(im)
    if nimg and nimg > 1 and r.rand() < 0.2:
        imgs[-1]["uri"] = imgs[0]["uri"]
    if imgs:
        g["images"] = imgs
        g["textures"] = [{"source": i} for i in range(nimg)]
    g["accessors"] = [{"bufferView": i, "count": 1, "componentType": 5126, "type": "SCALAR", "min": [0.1], "max": [1e-7]} for i in range(len(views))]
    g["meshes"] = [{"primitives": [{"attributes": {"POSITION": 0}}]}]
    if spare:
        g["extensions"] = {"E": {"bufferView": 77, "uri": "keep me", "buffers": [1]}}
        g["nodes"] = [{"name": "\u4e2d\u6587", "matrix": [0.1] * 16}, {"children": [0]}]
    return g, files


def convert(seed, nbuf, nview, nimg, spare, where):
    g, files = document(seed, nbuf, nview, nimg, spare)
    tmp = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        for n, b in files.items():
            os.makedirs(os.path.dirname(os.path.join(tmp, n)), exist_ok=True)
            open(os.path.join(tmp, n), "wb").write(b)
        src = os.path.join(tmp, "in.file.gltf")
        with open(src, "w", encoding="utf-8") as f:
            json.dump(g, f, ensure_ascii=bool(seed % 2), indent=seed % 3 or None)
        if where == "default":
            gltf2glb(src)
            out = os.path.join(tmp, "in.file.glb")
        elif where == "cwd":
            os.chdir(tmp)
            gltf2glb("in.file.gltf", "o.glb")
            out = os.path.join(tmp, "o.glb")
        else:
            os.mkdir(os.path.join(tmp, "out"))
            out = os.path.join(tmp, "out", "x.glb")
            gltf2glb(src, out)
        require(os.path.exists(out), "no GLB file at %s", out)
        for n, b in files.items():
            require(open(os.path.join(tmp, n), "rb").read() == b, "input file %s was changed", n)
        require(json.load(open(src, encoding="utf-8")) == g, "input document was changed")
        glb = open(out, "rb").read()
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)
    check(glb, g, files)


def check(glb, g, files):
    require(glb[:4] == b"glTF", "magic %r", glb[:4])
    version, total, jl = struct.unpack("<III", glb[4:16])
    require(version == 2, "version %s", version)
    require(total == len(glb), "declared length %s of %s bytes", total, len(glb))
    require(glb[16:20] == b"JSON", "JSON chunk type %r", glb[16:20])
    require(jl % 4 == 0 and 20 + jl <= len(glb), "JSON chunk length %s", jl)
    doc = json.loads(glb[20:20 + jl].decode("utf-8"))
    body = b""
    rest = glb[20 + jl:]
    if rest or files:
        require(len(rest) >= 8, "binary chunk header is missing")
        bl = struct.unpack("<I", rest[:4])[0]
        require(rest[4:8] == b"BIN\0", "binary chunk type %r", rest[4:8])
        require(bl % 4 == 0 and bl == len(rest) - 8, "binary chunk length %s of %s", bl, len(rest) - 8)
        body = rest[8:]
    want = copy.deepcopy(g)
    views = doc.get("bufferViews", [])
    nv = len(g.get("bufferViews", []))
    if body:
        n = doc["buffers"][0]["byteLength"]
        require(n <= len(body) and len(body) - n < 4, "first buffer has length %s, binary chunk %s", n, len(body))

    def read(v):
        require(v["buffer"] == 0, "buffer view refers to buffer %s", v["buffer"])
        o = v.get("byteOffset", 0)
        require(0 <= o and o + v["byteLength"] <= doc["buffers"][0]["byteLength"], "buffer view %s is out of the buffer", v)
        return body[o:o + v["byteLength"]]

    require(len(views) >= nv, "%d buffer views, expected %d", len(views), nv)
    for i, v in enumerate(g.get("bufferViews", [])):
        raw = files[g["buffers"][v["buffer"]]["uri"]]
        o = v.get("byteOffset", 0)
        require(views[i]["byteLength"] == v["byteLength"], "length of view %d changed", i)
        require(read(views[i]) == raw[o:o + v["byteLength"]], "buffer view %d (%s) yields other bytes", i, v)
        require({k: x for k, x in views[i].items() if k not in ("buffer", "byteOffset")} ==
                {k: x for k, x in v.items() if k not in ("buffer", "byteOffset")}, "buffer view %d changed: %s", i, views[i])
    used = set()
    for i, im in enumerate(g.get("images", [])):
        m = doc["images"][i]
        require("uri" not in m, "image %d keeps an external reference", i)
        b = m["bufferView"]
        require(nv <= b < len(views), "image %d has view %s", i, b)
        used.add(b)
        raw = files[im["uri"]]
        got = read(views[b])
        require(got[:len(raw)] == raw and len(got) - len(raw) < 4, "image %d has other bytes", i)
        mime = "image/png" if im["uri"].lower().endswith("png") else "image/jpeg"
        require(m["mimeType"] == mime, "image %d has type %s", i, m["mimeType"])
        require({k: x for k, x in m.items() if k not in ("bufferView", "mimeType")} == {k: x for k, x in im.items() if k != "uri"}, "image %d changed: %s", i, m)
    require(len(used) == len(views) - nv, "%d buffer views added for %d images", len(views) - nv, len(used))
    require(not any("uri" in b for b in doc.get("buffers", [])), "a buffer keeps an external reference")
    for i, b in enumerate(g.get("buffers", [])):
        d = doc["buffers"][i] if i < len(doc["buffers"]) else None
        if d is not None:
            require({k: x for k, x in d.items() if k != "byteLength"} == {k: x for k, x in b.items() if k not in ("byteLength", "uri")}, "buffer %d changed: %s", i, d)
    for k in set(g) | set(doc):
        if k not in ("buffers", "bufferViews", "images"):
            require(doc.get(k) == want.get(k), "member %s changed from %s to %s", k, want.get(k), doc.get(k))


CHECKS = {"convert": convert}


def cases(rnd, tier):
    for nbuf in range(4):
        for nview in (0, 2):
            for nimg in range(4):
                if nbuf == 0 and nimg == 0:
                    continue
                yield "convert", {"seed": rnd.randrange(1 << 30), "nbuf": nbuf, "nview": nview, "nimg": nimg, "spare": bool(nimg % 2), "where": "path"}
    for n in range(20000 if tier == "thorough" else 3000):
        yield "convert", {"seed": rnd.randrange(1 << 30), "nbuf": rnd.choice([1, 1, 2, 3, 4]), "nview": rnd.choice([1, 2, 4, 6]), "nimg": rnd.choice([0, 1, 2, 3, 4]),
                          "spare": rnd.random() < 0.5, "where": rnd.choice(["path", "default", "cwd"])}
