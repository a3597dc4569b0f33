MODULES = ["sumo.images.rgbd_tiff", "sumo.images.multi_image_tiff", "sumo.images.rgbd_360", "sumo.images.rgbdci_360"]
import math
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as np

from common import *

BUDGET = 12
RULE = ("image sets of many sizes, page combinations, near planes and value ranges (zero, infinite, inside the near plane, every code), through all four "
        "classes; every wrong element type, dimension, page name, missing page and damaged file; distinct by content")


def setup():
    global T, MultiImageTiff, Rgbd360, Rgbdci360, P
    import sumo.images.rgbd_tiff as T
    from sumo.images.multi_image_tiff import MultiImageTiff
    from sumo.images.rgbd_360 import Rgbd360
    from sumo.images.rgbdci_360 import Rgbdci360
    P = T.MultiImagePageType


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return os.path.join(self.d, "x.tif")

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def f32(x):
    return float(np.float32(x))


def range_ok(saved, loaded, near):
    """loaded represents the 16-bit code of saved."""
    require(loaded.dtype == np.float32 and loaded.shape == saved.shape, "range is %s %s", loaded.dtype, loaded.shape)
    nf = f32(near)
    for d, l in zip(saved.reshape(-1).tolist(), loaded.reshape(-1).tolist()):
        if d == 0 or math.isinf(d):
            require(math.isinf(l) and l > 0, "range %s loads as %s", d, l)
            continue
        if d <= nf:
            require(abs(l - nf) <= nf * 3e-7, "range %s inside near %s loads as %s", d, nf, l)
            continue
        x = nf * 65535 / d
        if math.isinf(l):
            require(x <= 0.5 * (1 + 1e-6) + 1e-6, "range %s (near %s) loads as %s", d, nf, l)
            continue
        c = nf * 65535 / l
        k = round(c)
        require(abs(c - k) <= 1e-6 * c + 1e-9 and 1 <= k <= 65535, "loaded range %s is no code under near %s", l, nf)
        require(abs(k - x) <= 0.5 + x * 1e-6 + 1e-6, "range %s (near %s): code %s, exact %s", d, nf, k, x)


def images(seed, h, w, near):
    r = np.random.RandomState(seed)
    rgb = r.randint(0, 256, (h, w, 3)).astype(np.uint8)
    d = (near * np.exp(r.uniform(-1, 8, (h, w)))).astype(np.float32)
    d[r.rand(h, w) < 0.1] = 0
    d[r.rand(h, w) < 0.1] = np.inf
    d[r.rand(h, w) < 0.1] = np.float32(near)
    cat = r.choice([0, 1, 255, 256, 65535, 1234], (h, w)).astype(np.uint16)
    ins = r.randint(0, 65536, (h, w)).astype(np.uint16)
    return rgb, d, cat, ins


def roundtrip(seed, h, w, near, pages, via, order):
    n = 0.3 if near is None else near
    rgb, d, cat, ins = images(seed, h, w, n)
    kw = {} if near is None else {"near": near}
    m = {P.RGB: rgb, P.Depth: d}
    if "c" in pages:
        m[P.Category] = cat
    if "i" in pages:
        m[P.Instance] = ins
    keys = sorted(m)
    if order:
        keys = keys[order % len(keys):] + keys[:order % len(keys)]
    m = {k: m[k] for k in keys}
    fz = frozen(rgb, d, cat, ins)
    with Dir() as f:
        if via == "tiff":
            T.save(m, f, **kw)
            got = T.load(f)
            require(set(got) == set(m), "pages %s, saved %s", sorted(got), sorted(m))
        elif via == "multi":
            MultiImageTiff(m).save(f, **kw)
            x = MultiImageTiff.load(f)
            got = {P.RGB: x.rgb, P.Depth: x.range, P.Category: x.category, P.Instance: x.instance}
            require(("c" in pages) == (x.category is not None) and ("i" in pages) == (x.instance is not None), "pages of MultiImageTiff")
            got = {k: v for k, v in got.items() if v is not None}
        elif via == "rgbd":
            m = {P.RGB: rgb, P.Depth: d}
            Rgbd360(rgb, d).save(f, **kw)
            x = Rgbd360.load(f)
            got = {P.RGB: x.rgb, P.Depth: x.range}
        else:
            m = {P.RGB: rgb, P.Depth: d, P.Category: cat, P.Instance: ins}
            Rgbdci360(rgb, d, cat, ins).save(f, **kw)
            x = Rgbdci360.load(f)
            got = {P.RGB: x.rgb, P.Depth: x.range, P.Category: x.category, P.Instance: x.instance}
    unchanged([rgb, d, cat, ins], fz, "saved image")
    for k, v in m.items():
        if k == P.Depth:
            range_ok(v, got[k], n)
        else:
            require(got[k].dtype == v.dtype, "%s loads as %s", k, got[k].dtype)
            same(got[k], v, k)


def codes(near, cols, swap):
    """Every 16-bit code, saved directly as inverse depth."""
    a = np.arange(65536, dtype=np.uint16).reshape(-1, cols)
    if swap:
        a = np.ascontiguousarray(a[::-1])
    rgb = np.zeros(a.shape + (3,), np.uint8)
    rgb[..., 0] = 200
    with Dir() as f:
        T.save({P.RGB: rgb, P.InverseDepth: a}, f, near=near)
        m = T.load(f)
    same(m[P.RGB], rgb, "rgb")
    d = m[P.Depth].astype(float)
    with np.errstate(divide="ignore"):
        want = f32(near) * 65535.0 / a
    ok = (np.isinf(d) & (d > 0) & (a == 0)) | ((a > 0) & (np.abs(d - want) <= want * 3e-7))
    bad = np.argwhere(~ok)
    require(len(bad) == 0, "code %s under near %s loads as %s, expected %s", a[tuple(bad[0])] if len(bad) else 0, near,
            d[tuple(bad[0])] if len(bad) else 0, want[tuple(bad[0])] if len(bad) else 0)


BAD = {
    "rgb16": ("rgb", lambda h, w: np.zeros((h, w, 3), np.uint16)),
    "rgbfloat": ("rgb", lambda h, w: np.zeros((h, w, 3), np.float32)),
    "rgb2d": ("rgb", lambda h, w: np.zeros((h, w), np.uint8)),
    "rgb1": ("rgb", lambda h, w: np.zeros((h, w, 1), np.uint8)),
    "rgb4": ("rgb", lambda h, w: np.zeros((h, w, 4), np.uint8)),
    "rgb4d": ("rgb", lambda h, w: np.zeros((h, w, 3, 1), np.uint8)),
    "depth64": ("depth", lambda h, w: np.ones((h, w), np.float64)),
    "depth16": ("depth", lambda h, w: np.ones((h, w), np.float16)),
    "depthint": ("depth", lambda h, w: np.ones((h, w), np.uint16)),
    "depth3d": ("depth", lambda h, w: np.ones((h, w, 1), np.float32)),
    "depth1d": ("depth", lambda h, w: np.ones((h * w,), np.float32)),
    "inv8": ("invdepth", lambda h, w: np.ones((h, w), np.uint8)),
    "inv32": ("invdepth", lambda h, w: np.ones((h, w), np.int32)),
    "invfloat": ("invdepth", lambda h, w: np.ones((h, w), np.float32)),
    "inv3d": ("invdepth", lambda h, w: np.ones((h, w, 3), np.uint16)),
    "cat8": ("category", lambda h, w: np.ones((h, w), np.uint8)),
    "cats16": ("category", lambda h, w: np.ones((h, w), np.int16)),
    "cat32": ("category", lambda h, w: np.ones((h, w), np.uint32)),
    "catfloat": ("category", lambda h, w: np.ones((h, w), np.float32)),
    "cat3d": ("category", lambda h, w: np.ones((h, w, 1), np.uint16)),
    "cat1d": ("category", lambda h, w: np.ones((h * w,), np.uint16)),
    "ins8": ("instance", lambda h, w: np.ones((h, w), np.uint8)),
    "inss16": ("instance", lambda h, w: np.ones((h, w), np.int16)),
    "ins64": ("instance", lambda h, w: np.ones((h, w), np.int64)),
    "insfloat": ("instance", lambda h, w: np.ones((h, w), np.float32)),
    "ins3d": ("instance", lambda h, w: np.ones((h, w, 3), np.uint16)),
}


def badsave(kind, seed, h, w, full):
    rgb, d, cat, ins = images(seed, h, w, 0.3)
    m = {"rgb": rgb, "depth": d}
    if full:
        m.update(category=cat, instance=ins)
    page, make = BAD[kind]
    if page == "invdepth":
        del m["depth"]
    m[page] = make(h, w)
    with Dir() as f:
        refuses(lambda: T.save(m, f), Exception, "saving %s" % kind)
        refuses(lambda: MultiImageTiff(m).save(f), Exception, "saving %s" % kind)
    if page == "rgb":
        refuses(lambda: Rgbd360(m["rgb"], d), Exception, "Rgbd360 with %s" % kind)
        refuses(lambda: Rgbdci360(m["rgb"], d, cat, ins), Exception, "Rgbdci360 with %s" % kind)
    if page == "depth":
        refuses(lambda: Rgbd360(rgb, m["depth"]), Exception, "Rgbd360 with %s" % kind)
        refuses(lambda: Rgbdci360(rgb, m["depth"], cat, ins), Exception, "Rgbdci360 with %s" % kind)
    if page == "category":
        refuses(lambda: Rgbdci360(rgb, d, m["category"], ins), Exception, "Rgbdci360 with %s" % kind)
    if page == "instance":
        refuses(lambda: Rgbdci360(rgb, d, cat, m["instance"]), Exception, "Rgbdci360 with %s" % kind)
    # the valid ones are accepted
    Rgbd360(rgb, d)
    Rgbdci360(rgb, d, cat, ins)


def missing(seed, h, w, what):
    rgb, d, cat, ins = images(seed, h, w, 0.3)
    m = {"rgb": rgb, "depth": d, "category": cat, "instance": ins}
    for k in what.split("+"):
        if k.startswith("="):
            m[k[1:]] = cat
        else:
            del m[k]
    with Dir() as f:
        refuses(lambda: T.save(m, f), Exception, "saving with %s" % what)


def strip(src, dst, keep):
    """Copies the first page(s) of a TIFF by dropping the link to the next directory (classic little/big endian TIFF)."""
    b = bytearray(open(src, "rb").read())
    e = "little" if b[:2] == b"II" else "big"
    off = int.from_bytes(b[4:8], e)
    for i in range(keep):
        n = int.from_bytes(b[off:off + 2], e)
        link = off + 2 + 12 * n
        nxt = int.from_bytes(b[link:link + 4], e)
        if i == keep - 1:
            b[link:link + 4] = b"\0\0\0\0"
        off = nxt
    open(dst, "wb").write(b)


def badload(seed, how, at):
    rgb, d, cat, ins = images(seed, 6, 36, 0.3)
    with Dir() as f:
        if how == "missing":
            for g in (T.load, MultiImageTiff.load, Rgbd360.load, Rgbdci360.load):
                refuses(lambda: g(f), Exception, "loading a missing file")
            return
        if how == "garbage":
            open(f, "wb").write(np.random.RandomState(seed).bytes(at))
            refuses(lambda: T.load(f), Exception, "loading garbage")
            return
        if how == "dir":
            os.mkdir(f)
            refuses(lambda: T.load(f), Exception, "loading a directory")
            return
        if how == "nosuchdir":
            g = os.path.join(f + "-none", "x.tif")
            refuses(lambda: T.save({"rgb": rgb, "depth": d}, g), Exception, "saving to an unwritable place")
            return
        T.save({"rgb": rgb, "depth": d, "category": cat, "instance": ins}, f)
        if how == "rgbonly":
            strip(f, f + "2", 1)
            refuses(lambda: T.load(f + "2"), Exception, "loading a file without depth page")
            refuses(lambda: Rgbd360.load(f + "2"), Exception, "loading a file without depth page")
            return
        if how == "nolabels":
            strip(f, f + "2", 2)
            m = T.load(f + "2")
            same(m["rgb"], rgb, "rgb")
            refuses(lambda: Rgbdci360.load(f + "2"), Exception, "loading a file without label pages as Rgbdci360")
            return
        b = open(f, "rb").read()
        cut = max(0, int(len(b) * at))
        open(f, "wb").write(b[:cut])
        # the colour and range pages come first: a file cut inside them is unreadable
        refuses(lambda: T.load(f), Exception, "loading a file cut after %d of %d bytes" % (cut, len(b)))


def strided(seed, h, w, view):
    """Views that are not contiguous: saved exactly or refused, never garbled."""
    rgb, d, cat, ins = images(seed, 2 * h, 2 * w, 0.3)
    v = {"flip": np.s_[:, ::-1], "rows": np.s_[::2], "crop": np.s_[1:h + 1, 1:w + 1], "up": np.s_[::-1]}.get(view)
    if view == "F":
        rgb, d, cat, ins = [np.asfortranarray(a) for a in (rgb, d, cat, ins)]
        v = np.s_[:]
    if view == "bgr":
        m = {"rgb": rgb[..., ::-1], "depth": d, "category": cat, "instance": ins}
    else:
        m = {"rgb": rgb[v], "depth": d[v], "category": cat[v], "instance": ins[v]}
    for keep in (("rgb",), ("depth",), ("category",), ("instance",), tuple(m)):
        n = {k: (x if k in keep else np.ascontiguousarray(x)) for k, x in m.items()}
        with Dir() as f:
            try:
                T.save(n, f)
            except ValueError:
                continue
            got = T.load(f)
        for k in n:
            if k == "depth":
                range_ok(n[k], got[k], 0.3)
            else:
                same(got[k], n[k], "%s of a %s view" % (k, view))


CHECKS = {"strided": strided, "roundtrip": roundtrip, "codes": codes, "badsave": badsave, "missing": missing, "badload": badload}


def cases(rnd, tier):
    for k in BAD:
        yield "badsave", {"kind": k, "seed": rnd.randrange(1 << 30), "h": rnd.choice([1, 4]), "w": rnd.choice([3, 24]), "full": rnd.random() < 0.5}
    for w in ("rgb", "depth", "rgb+depth", "=foo", "=inv_depth", "=RGB", "depth+=semantic"):
        yield "missing", {"seed": rnd.randrange(1 << 30), "h": 3, "w": 18, "what": w}
    for how in ("missing", "dir", "nosuchdir", "rgbonly", "nolabels"):
        yield "badload", {"seed": rnd.randrange(1 << 30), "how": how, "at": 0}
    for at in (0, 1, 100, 5000):
        yield "badload", {"seed": rnd.randrange(1 << 30), "how": "garbage", "at": at}
    for at in (0, 0.01, 0.1, 0.2, 0.3, 0.4):
        yield "badload", {"seed": rnd.randrange(1 << 30), "how": "cut", "at": at}
    for view in ("flip", "rows", "crop", "up", "F", "bgr"):
        yield "strided", {"seed": rnd.randrange(1 << 30), "h": 5, "w": 7, "view": view}
    for near in (0.3, 1.0, 0.1, 7.0, 0.0123):
        yield "codes", {"near": near, "cols": rnd.choice([256, 64, 1024, 65536]), "swap": rnd.random() < 0.5}
    for n in range(8000 if tier == "thorough" else 700):
        yield "roundtrip", {"seed": rnd.randrange(1 << 30), "h": rnd.choice([1, 2, 5, 16]), "w": rnd.choice([1, 6, 7, 30, 96]),
                            "near": rnd.choice([None, None, 0.3, 1.0, 0.5, 2, 0.05, 100.0, f32(rnd.uniform(0.01, 3)), rnd.uniform(0.01, 3), 1e-4]),
                            "pages": rnd.choice(["", "c", "i", "ci", "ci"]),
                            "via": rnd.choice(["tiff", "tiff", "multi", "rgbd", "rgbdci"]), "order": rnd.randrange(4)}
