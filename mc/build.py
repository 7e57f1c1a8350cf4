"""Builds the extensions of a copy of /repo's working tree in a scratch directory.

The copy leaves every build product behind, so nothing of an earlier build can stand in
for the current sources, and /repo is only read.  The real setup.py decides what is
compiled and how; this driver only parallelises it (and compiles a source that several
extensions share once).  Run as a script:  build.py <sumo-api dir> [ext ...]
"""
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("MC_REPO", "/repo")


def copy_tree(dst):
    """Copy sumo-api and tools of the working tree to dst, without build products."""
    def ignore(d, names):
        out = set()
        nameset = set(names)
        for n in names:
            if n.endswith((".so", ".pyc")) or n in ("__pycache__", "build", ".git"):
                out.add(n)
            elif n.endswith(".cpp") and n[:-4] + ".pyx" in nameset:
                out.add(n)
            elif n == "tests" and "metrics" not in d:
                out.add(n)
        return out
    for top in ("sumo-api", "tools"):
        shutil.copytree(os.path.join(REPO, top), os.path.join(dst, top), ignore=ignore,
                        symlinks=True)


def build(dst, exts=None, extra_cxxflags=""):
    env = dict(os.environ)
    env["CCACHE_NOHASHDIR"] = "1"
    if extra_cxxflags:
        env["CXXFLAGS"] = env.get("CXXFLAGS", "") + " " + extra_cxxflags
    r = subprocess.run([sys.executable, os.path.abspath(__file__), os.path.join(dst, "sumo-api")]
                       + list(exts or []), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
        raise SystemExit("the extensions do not build")


def _dist_cmd(ext, tmp):
    from setuptools import Distribution
    from Cython.Distutils import build_ext
    d = Distribution({"name": "sumo", "ext_modules": [ext], "cmdclass": {"build_ext": build_ext}})
    c = d.get_command_obj("build_ext")
    c.inplace = 1
    c.force = 1
    c.build_temp = tmp
    c.ensure_finalized()
    return c


def _build_one(ext):
    _dist_cmd(ext, os.path.join("build", "t_" + ext.name)).run()


def _compile_one(a):
    ext, src, i = a
    from distutils.sysconfig import customize_compiler
    from setuptools import Extension
    c = _dist_cmd(ext, os.path.join("build", "s_%d" % i))
    # run() sets the compiler up and then calls build_extensions
    def only_compile():
        c.compiler.compile([src], output_dir=c.build_temp, macros=ext.define_macros[:],
                           include_dirs=ext.include_dirs, extra_postargs=ext.extra_compile_args,
                           depends=ext.depends)
    c.build_extensions = only_compile
    c.run()


def main():
    os.chdir(sys.argv[1])
    want = set(sys.argv[2:])
    import multiprocessing as mp
    import Cython.Build as CB
    import setuptools
    orig = CB.cythonize
    got = {}
    CB.cythonize = lambda e, **k: orig(e, **dict(dict(nthreads=os.cpu_count()), **k))
    setuptools.setup = lambda **k: got.update(k)
    sys.argv = ["setup.py", "build_ext", "--inplace"]
    sys.path.insert(0, os.getcwd())
    exec(compile(open("setup.py").read(), "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
    exts = [e for e in got["ext_modules"] if not want or e.name in want]
    count = {}
    for e in exts:
        for s in e.sources:
            count.setdefault(s, []).append(e)
    shared = [(es[0], s, i) for i, (s, es) in enumerate(sorted(count.items())) if len(es) > 1]
    own = [(es[0], s, i + len(count)) for i, (s, es) in enumerate(sorted(count.items())) if len(es) == 1]
    with mp.get_context("fork").Pool(os.cpu_count()) as p:
        p.map(_compile_one, shared + own, chunksize=1)   # fills ccache, each source once
        p.map(_build_one, exts, chunksize=1)


if __name__ == "__main__":
    main()
