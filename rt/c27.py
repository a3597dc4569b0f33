MODULES = ["sumo.base.colored_category"]
import os
import tempfile

import numpy as np

from common import *

RULE = ("generated category files of 1-60 categories (columns in several orders, extra columns, quoted names, colours at the ends of the range, repeated colours), "
        "every id and name of each, ids just outside, unknown and partial names, index images of several shapes and element types, and "
        "files with one defect; distinct by content")


def setup():
    global ColoredCategory
    from sumo.base.colored_category import ColoredCategory


def write(path, header, rows, eol="\n"):
    with open(path, "w", newline="") as f:
        f.write(eol.join([",".join(header)] + [",".join(r) for r in rows]) + eol)


def rows_of(names, colors, header, id0):
    out = []
    for k, (n, c) in enumerate(zip(names, colors)):
        d = {"id": str(k + id0), "category": n if "," not in n else '"%s"' % n, "is_evaluated": "True" if k % 2 else "False",
             "color": ";".join(map(str, c)), "note": "x%d" % k}
        out.append([d[h] for h in header])
    return out


def lookup(names, colors, header, id0, images, probe, first, eol):
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "c.csv")
        write(p, header, rows_of(names, colors, header, id0), eol)
        cc = ColoredCategory(p)
    if first == "lut":
        cc.LUT
    n = len(names)
    idx = {nm: k for k, nm in enumerate(names)}

    def ids():
        for k in range(n):
            same(np.array(cc.category_id_to_rgb(k)), np.array(colors[k]), "colour of id %d" % k)
            same(np.array(cc.category_id_to_rgb(np.uint16(k))), np.array(colors[k]), "colour of id %d" % k)
        for k in (n, n + 1, n + 100, -1, -n, -n - 1):
            refuses(lambda: cc.category_id_to_rgb(k), KeyError, "category id %d of %d" % (k, n))

    def byname():
        for nm, k in idx.items():
            same(np.array(cc.category_name_to_rgb(nm)), np.array(colors[k]), "colour of name %r" % nm)
        for nm in probe:
            if nm not in idx:
                refuses(lambda: cc.category_name_to_rgb(nm), KeyError, "category name %r" % nm)

    def ims():
        L = cc.LUT
        require(L.shape == (n, 3), "lookup table is %s for %d categories", L.shape, n)
        same(L.astype(int), np.array(colors), "lookup table")
        for shape, vals, kind in images:
            im = np.resize(np.array(vals) % n, shape).astype(kind)
            keep = im.copy()
            out = cc.convert_to_rgb_im(im)
            require(out.shape == tuple(shape) + (3,), "image %s converts to %s", shape, out.shape)
            for v in range(shape[0]):
                for u in range(shape[1]):
                    same(out[v, u].astype(int), np.array(colors[int(im[v, u])]), "pixel (%d,%d) of category %d" % (v, u, im[v, u]))
            same(im, keep, "index image")
            bad = im.copy()
            bad[-1, -1] = n
            refuses(lambda: cc.convert_to_rgb_im(bad), LookupError, "image with category %d of %d" % (n, n))
            same(cc.LUT, L, "lookup table after use")
    for f in {"ids": (ids, byname, ims), "lut": (ims, byname, ids), "name": (byname, ims, ids)}[first]:
        f()
    ids()
    byname()


def malformed(what, names, colors):
    header = ["id", "category", "is_evaluated", "color"]
    rows = rows_of(names, colors, header, 0)
    r = rows[len(rows) // 2]
    if what in ("category", "is_evaluated", "color"):
        k = header.index(what)
        header = header[:k] + header[k + 1:]
        rows = [x[:k] + x[k + 1:] for x in rows]
    elif what == "renamed":
        header[3] = "colour"
    elif what == "short":
        r.pop()
    elif what == "empty":
        r[3] = ""
    elif what == "word":
        r[3] = "red"
    elif what == "float":
        r[3] = "1;2.5;3"
    elif what == "space":
        r[3] = "1 2 3"
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "c.csv")
        if what == "absent":
            refuses(lambda: ColoredCategory(p), IOError, "a missing file")
            return
        write(p, header, rows)
        refuses(lambda: ColoredCategory(p), Exception, "a category file with defect %r" % what)


CHECKS = {"lookup": lookup, "malformed": malformed}


def rnames(rnd, n):
    base = ["empty", "chair", "arm chair", "bed_room", "a", "A", "desk, small", "0", "12", "tv-stand", "lampe", "é"]
    out = []
    while len(out) < n:
        x = rnd.choice(base) + ("" if rnd.random() < 0.3 else "_%d" % rnd.randrange(1000))
        if x not in out:
            out.append(x)
    return out


def cases(rnd, tier):
    for n in range(4000 if tier == "thorough" else 300):
        k = rnd.choice([1, 1, 2, 3, 7, 60]) if n % 40 else 300
        names = rnames(rnd, k)
        colors = [[rnd.choice([0, 255, rnd.randrange(256)]) for _ in range(3)] for _ in range(k)]
        header = ["id", "category", "is_evaluated", "color"]
        if rnd.random() < 0.3:
            header.append("note")
        if rnd.random() < 0.4:
            rnd.shuffle(header)
        kinds = ["uint16", "int64", "int32"] + (["uint8"] if k < 256 else [])
        images = [[rnd.choice([[1, 1], [1, 5], [5, 1], [3, 4], [4, 3], [3, 3], [6, 2]]), [rnd.randrange(k) for _ in range(13)], rnd.choice(kinds)] for _ in range(3)]
        yield "lookup", {"names": names, "colors": colors, "header": header, "id0": rnd.choice([0, 0, 1, 7]), "images": images,
                         "probe": ["", "nope", names[0][:-1], names[0] + " ", names[0].upper(), " " + names[-1], "0", "1"],
                         "first": rnd.choice(["ids", "lut", "name"]), "eol": rnd.choice(["\n", "\r\n"])}
    for what in ("category", "is_evaluated", "color", "renamed", "short", "empty", "word", "float", "space", "absent"):
        for k in (1, 4):
            yield "malformed", {"what": what, "names": rnames(rnd, k), "colors": [[1, 2, 3]] * k}
