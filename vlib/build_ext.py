"""Runs under /opt/venv/bin/python with cwd = scratch copy of sumo-api.

Builds the extension modules named on the command line (dotted names; 'ALL'
for every one) exactly as setup.py describes them: setup.py is executed with
`setup` and `cythonize` intercepted, so sources, include paths, libraries and
flags come from the current tree.  Each distinct translation unit is compiled
once and linked into every extension that lists it.
"""
import glob
import hashlib
import os
import re
import runpy
import shlex
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import setuptools
import Cython.Build

captured = []


def fake_cythonize(exts, *a, **k):
    captured.extend(exts)
    return []


def main():
    want = sys.argv[1:]
    Cython.Build.cythonize = fake_cythonize
    real_setup = setuptools.setup
    setuptools.setup = lambda *a, **k: None
    argv, sys.argv = sys.argv, ["setup.py", "build_ext", "--inplace"]
    sys.path.insert(0, os.getcwd())
    runpy.run_path("setup.py", run_name="__main__")
    setuptools.setup = real_setup
    sys.argv = argv

    # expand the patterns:  module -> (pyx, extension template)
    mods = {}
    for ext in captured:
        for src in ext.sources:
            if src.endswith(".pyx"):
                for f in sorted(glob.glob(src)):
                    mods[f[:-4].replace("/", ".")] = (f, ext)

    # closure over (c)imports of sumo modules, so that importing works
    def deps(mod):
        base = mod.replace(".", "/")
        out = set()
        for f in (base + ".pyx", base + ".pxd", base + ".py", base + "/__init__.py"):
            if os.path.exists(f):
                txt = open(f, encoding="utf-8").read()
                for m in re.finditer(r"^[ \t]*(?:from\s+(sumo[\w.]*)\s+c?import\s+(\(?[\w ,*]+)|c?import\s+(sumo[\w.]*))", txt, re.M):
                    if m.group(1):
                        out.add(m.group(1))
                        for n in re.findall(r"\w+", m.group(2)):
                            out.add(m.group(1) + "." + n)
                    else:
                        out.add(m.group(3))
        return out

    todo = list(mods) if want == ["ALL"] else list(want)
    seen = set()
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        todo.extend(deps(m))
    need = {m: mods[m] for m in sorted(seen) if m in mods}

    from distutils.sysconfig import customize_compiler
    from distutils.ccompiler import new_compiler
    import sysconfig
    cc = new_compiler()
    customize_compiler(cc)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    pyinc = sysconfig.get_path("include")
    venv_inc = os.path.join(sys.prefix, "include")

    jobs = {}   # key -> (src, obj, cmd)
    links = []
    for mod, (pyx, ext) in need.items():
        srcs = [pyx] + [s for s in ext.sources if not s.endswith(".pyx")]
        objs = []
        for s in srcs:
            is_pyx = s.endswith(".pyx")
            inc = [f"-I{d}" for d in ext.include_dirs + [venv_inc, pyinc]]
            defs = [f"-D{n}={v}" if v else f"-D{n}" for n, v in ext.define_macros]
            key = hashlib.md5(repr((s, inc, defs, ext.extra_compile_args)).encode()).hexdigest()[:10]
            obj = "build_v/%s.%s.o" % (s.replace("/", "_"), key)
            if obj not in jobs:
                jobs[obj] = (s, is_pyx, inc + defs, ext.extra_compile_args)
            objs.append(obj)
        links.append((mod, pyx[:-4] + suffix, objs, ext))
    os.makedirs("build_v", exist_ok=True)
    cxx_so = [c for c in cc.compiler_so]
    if "gcc" in cxx_so[0]:
        cxx_so[0] = "g++"
    # CC is "ccache gcc": pick CXX for C++ as distutils does
    cxx = shlex.split(os.environ.get("CXX", "g++"))
    flags = [c for c in cc.compiler_so if c.startswith("-")]
    flags = [f for f in flags if f not in ("-g",)] + ["-g0"]
    cxxflags = shlex.split(os.environ.get("CXXFLAGS", ""))
    for i, f in enumerate(cxxflags):
        if f == "-include" or (i and cxxflags[i - 1] == "-include") or f not in flags:
            flags.append(f)

    def run(cmd, what):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))
        return r.stdout

    def compile_one(item):
        obj, (s, is_pyx, inc, extra) = item
        src = s
        if is_pyx:
            src = s[:-4] + ".cpp"
            if os.path.exists(src) and s[:-4].endswith("colored_category"):
                pass
            run([sys.executable, "-m", "cython", "--cplus", s, "-o", src], "cython " + s)
        run(cxx + flags + inc + ["-c", src, "-o", obj] + list(extra), "compile " + src)

    with ThreadPoolExecutor(os.cpu_count()) as ex:
        # big ones first
        items = sorted(jobs.items(), key=lambda kv: -(os.path.getsize(kv[1][0]) + (100000 if "Gltf" in kv[1][0] else 0)))
        list(ex.map(compile_one, items))

        def link(l):
            mod, out, objs, ext = l
            ld = shlex.split(os.environ.get("LDFLAGS", ""))
            run(shlex.split(os.environ.get("CXX", "g++")) + ["-shared", "-O1", "-Wl,-Bsymbolic-functions"] + objs +
                [f"-L{d}" for d in ext.library_dirs if os.path.isdir(d)] + [f"-l{x}" for x in ext.libraries] + ld +
                list(ext.extra_link_args) + ["-o", out], "link " + out)
        list(ex.map(link, links))
    print("built", len(links), "modules", len(jobs), "objects")


main()
