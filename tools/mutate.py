#!/usr/bin/env python3
"""Systematic mutation of the code behind a property, in scratch copies: mutate.py ID COUNT [SEED] [check args]
Each mutant changes one place of a source file; survivors (check exits 0) are printed for review. Never touches /repo."""
import os, re, random, shutil, subprocess, sys, tempfile

A = "sumo-api/sumo/"
FILES = {
    "C01": [("geometry/inverse_depth.pyx", None)],
    "C02": [("geometry/inverse_depth.pyx", None)],
    "C03": [("images/RgbdTiff.cpp", None), ("images/rgbd_tiff.pyx", None), ("images/rgbdci_360.pyx", None), ("images/rgbd_360.pyx", None), ("images/multi_image_tiff.pyx", None)],
    "C04": [("images/CubeMap.h", None), ("images/Rgbdci360.cpp", None), ("images/rgbdci_360.pyx", "create_point_cloud")],
    "C05": [("geometry/rot3.pyx", "^(?!.*(xml|json|surreal))"), ("geometry/pose3.pyx", "^(?!.*(xml|json|surreal))")],
    "C06": [("geometry/rot3.pyx", "xml|json"), ("geometry/pose3.pyx", "xml|json|surreal|From"), ("geometry/quaternion.pyx", None), ("threedee/box_3d.pyx", "xml")],
    "C07": [("semantic/object_symmetry.py", None)],
    "C08": [("threedee/box_3d.pyx", None), ("threedee/compute_bbox.pyx", None)],
    "C09": [("threedee/box_3d.pyx", "mesh|corners")],
    "C10": [("threedee/voxel_grid.py", None)],
    "C11": [("threedee/Mesh.cpp", "merge|replace"), ("threedee/TexturedMesh.cpp", None), ("threedee/textured_mesh.pyx", None)],
    "C12": [("threedee/Mesh.cpp", "cleanup"), ("threedee/Mesh.h", None)],
    "C13": [("threedee/Mesh.cpp", "Normals|Example"), ("threedee/mesh.pyx", None)],
    "C14": [("threedee/GltfModel.cpp", None), ("threedee/gltf_model.pyx", None)],
    "C15": [("threedee/glb_converter.pyx", None)],
    "C16": [("semantic/project_scene.py", None), ("semantic/project_object_dict.py", None), ("semantic/project_object.py", None)],
    "C17": [("semantic/project_object.py", "transform"), ("semantic/project_scene.py", "transform")],
    "C18": [("semantic/project_converter.py", None)],
    "C19": [("threedee/model_sampler.pyx", None), ("threedee/voxelizer.pyx", None), ("metrics/mesh_evaluator.py", "sample")],
    "C20": [("threedee/point_cloud.pyx", None), ("threedee/PointCloud.h", None)],
    "C21": [("metrics/evaluator.py", "similarity_cache|assoc|Corr|sort_corrs|__init__|__lt__")],
    "C22": [("metrics/utils.py", "compute_")],
    "C23": [("metrics/evaluator.py", "score|error|settings|evaluate|__init__|_geometry"), ("metrics/bb_evaluator.py", None), ("metrics/voxel_evaluator.py", None), ("metrics/mesh_evaluator.py", None)],
    "C24": [("metrics/evaluator.py", "rotation_error|symmetric")],
    "C25": [("metrics/utils.py", "quat|euler|matrix")],
    "C26": [("metrics/utils.py", "points_iou|nearest|rmsssd")],
    "C27": [("base/colored_category.pyx", None)],
    "C28": [("threedee/point_cloud_ply_c.cpp", None), ("threedee/point_cloud_ply.pyx", None)],
    "C29": [("scripts/download_sumo_datasets.py", None)],
}
SWAP = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!-])<(?![<=])", "<="), (r"(?<![->=])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="),
        (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r"\band\b", "or"), (r"\bor\b", "and"), (r"&&", "||"), (r"\|\|", "&&"),
        (r"\bnot ", ""), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue\b", "pass"), (r"\bbreak\b", "pass"),
        (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"\b3\b", "2"), (r"\.x\b", ".y"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
        (r"\+=", "-="), (r"\+\+", "--"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"), (r"\.copy\(\)", ""), (r"\bis None\b", "is not None"),
        (r"\bif \(", "if (!"), (r"\bif ", "if not "), (r"\.transpose\(\)|\.T\b", ""), (r"\.inverse\(\)", "")]


def lines(src, cpp, pat):
    out, doc, name, names = [], False, "", []
    for k, l in enumerate(src):
        t = l.strip()
        if cpp:
            if doc or t.startswith("/*"):
                doc = "*/" not in t
                continue
            if re.match(r"^\w[\w:<>,&* ]*\b([\w:~]+)\s*\(", l):
                name = l
            if t.startswith(("//", "/*", "*", "#include", "#")) or not t or "assert" in t:
                continue
        else:
            m = re.match(r"^(\s*)(?:cp?def|def|class)\s+(.*?)\(", l)
            if m:
                d = len(m.group(1))
                names = [x for x in names if x[0] < d] + [(d, m.group(2))]
                name = " ".join(n for _, n in names)
            q = len(re.findall(r'"""|\'\'\'', t))
            if doc or q:
                if q == 1:
                    doc = not doc
                continue
            if not t or t.startswith(("#", "import", "from", "@", "cimport", "print", "logg")) or m:
                continue
        if pat is None or re.search(pat, name):
            out.append(k)
    return out


def mutants(root, prop):
    res = []
    for f, pat in FILES[prop]:
        p = os.path.join(root, A, f) if os.path.exists(os.path.join(root, A, f)) else subprocess.check_output(["find", root, "-name", os.path.basename(f)], text=True).split()[0]
        src = open(p, newline="").read().split("\n")
        cpp = p.endswith((".cpp", ".h"))
        for k in lines(src, cpp, pat):
            code = src[k]
            cut = code.find("//") if cpp else code.find("#")
            head, tail = (code[:cut], code[cut:]) if cut > 0 else (code, "")
            for a, b in SWAP:
                for m in re.finditer(a, head):
                    res.append((p, k, head[:m.start()] + b + head[m.end():] + tail, src))
            t = head.strip()
            if cpp and t.endswith(";") and not t.startswith(("return", "}", "using", "typedef")) and ("=" in t or t.endswith(");")):
                res.append((p, k, ";", src))
            if not cpp and t and not t.endswith((":", ",", "\\", "(", "[")) and not t.startswith(("return", "cdef", "else", ")", "]")) and t.count("(") == t.count(")") and not src[k - 1].rstrip().endswith((",", "\\", "(", "and", "or", "+", "-", "*")):
                res.append((p, k, head[:len(head) - len(head.lstrip())] + "pass", src))
    return res


def main():
    prop, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    d = tempfile.mkdtemp(prefix="mutants-", dir="/tmp")
    try:
        root = d + "/repo"
        os.makedirs(root)
        subprocess.check_call("cd /repo && tar cf - --exclude='*.so' --exclude=build --exclude=.git . | tar xf - -C %s" % root, shell=True)
        ms = mutants(root, prop)
        r = random.Random(seed)
        r.shuffle(ms)
        count = {}
        for p, k, new, src in ms[:n]:
            open(p, "w", newline="").write("\n".join(src[:k] + [new] + src[k + 1:]))
            try:
                o = subprocess.run(["/verif/bin/check.py", prop] + (sys.argv[4:] or ["--no-proof"]), env=dict(os.environ, SUMO_REPO=root, VERIF_DIR_OUT=d), capture_output=True, text=True, timeout=600)
                rc, out = o.returncode, o.stdout + o.stderr
            except subprocess.TimeoutExpired:
                rc, out = "timeout", ""
            open(p, "w", newline="").write("\n".join(src))
            bad = "build" if re.search(r"rror.*compil|does not build|failed to build|SyntaxError|IndentationError", out) else ""
            count[(rc, bad)] = count.get((rc, bad), 0) + 1
            if rc != 1:
                print("%s survives (%s%s) %s:%d\n   - %s\n   + %s" % (prop, rc, " " + bad if bad else "", os.path.basename(p), k + 1, src[k].strip(), new.strip()), flush=True)
                if bad or rc != 0:
                    print("     " + out.strip()[-150:].replace("\n", " / "), flush=True)
        print(prop, "of", len(ms), "mutants", count, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
