"""Build sumo-api from /repo's working tree in a scratch directory.

The extension list comes from the repository's own setup.py (cythonize and setup are
intercepted), each distinct (source, flags) pair is compiled once, in parallel, and the
shared objects are linked beside the copied sources.  Variants:

  plain  the flags of /opt/vp/env.sh (-O2 -DNDEBUG)
  asan   -O1 -g -fsanitize=address,undefined, libstdc++ assertions on
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("SUMO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
PY = "/opt/venv/bin/python"
SRC_EXT = (".pyx", ".pxd", ".h", ".hpp", ".cpp", ".cc", ".c", ".pxi")
BASE_CXX = ["-O2", "-include", "opencv2/imgproc/types_c.h"]
VARIANTS = {
    "plain": dict(cflags=["-O2", "-DNDEBUG", "-g0"], ldflags=[]),
    "asan": dict(
        cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG",
                "-fsanitize=address,undefined",
                "-fno-sanitize=vptr,alignment,nonnull-attribute", "-fno-sanitize-recover=undefined",
                "-D_GLIBCXX_ASSERTIONS"],
        ldflags=["-fsanitize=address,undefined"]),
}


def _tree(root):
    """Relative paths of the source files under <root>, generated ones left out."""
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("build", "__pycache__", ".git", "dist"))
        names = set(files)
        for f in sorted(files):
            if f.endswith((".so", ".o", ".pyc")):
                continue
            stem, ext = os.path.splitext(f)
            if ext in (".cpp", ".c") and stem + ".pyx" in names:
                continue  # Cython output
            out.append(os.path.relpath(os.path.join(d, f), root))
    return out


def _hash(root, rels, extra):
    h = hashlib.sha256(extra.encode())
    for r in rels:
        h.update(r.encode() + b"\0")
        with open(os.path.join(root, r), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


_CYTHONIZE = r'''
import json, os, sys
sys.path.insert(0, os.getcwd())
import setuptools, Cython.Build
cap = {}
real = Cython.Build.cythonize
def cyth(exts, **kw):
    kw["nthreads"] = 8
    kw["force"] = True
    kw["quiet"] = True
    return real(exts, **kw)
def cap_setup(**kw):
    cap.update(kw)
Cython.Build.cythonize = cyth
setuptools.setup = cap_setup
sys.argv = ["setup.py", "build_ext", "--inplace"]
src = open("setup.py").read()
exec(compile(src, "setup.py", "exec"), {"__name__": "__main__", "__file__": "setup.py"})
out = []
for e in cap["ext_modules"]:
    out.append(dict(name=e.name, sources=e.sources, include_dirs=[str(x) for x in e.include_dirs],
                    library_dirs=e.library_dirs, libraries=e.libraries,
                    cargs=e.extra_compile_args, largs=e.extra_link_args,
                    macros=[list(m) for m in e.define_macros]))
json.dump(out, open(".exts.json", "w"))
'''


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("build step failed: %s\n%s" % (" ".join(cmd)[:400], p.stdout[-6000:]))
    return p.stdout


def _env():
    env = dict(os.environ)
    env.update(PYTHONPATH="/opt/vp/compat", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="2G")
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return env


def build(variant="plain", log=lambda s: None):
    """Return the directory of a built copy of /repo/sumo-api (with tools beside it)."""
    src = os.path.join(REPO, "sumo-api")
    rels = _tree(src)
    code = [r for r in rels if r.endswith(SRC_EXT) and "/tests/" not in r] + ["setup.py"]
    v = VARIANTS[variant]
    nat = _hash(src, code, json.dumps([variant, v, BASE_CXX, open(__file__).read()]))
    os.makedirs(CACHE, exist_ok=True)
    dest = os.path.join(CACHE, "%s-%s" % (variant, nat))
    with open(os.path.join(CACHE, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dest, ".ok")):
            log("building variant %s" % variant)
            # keep at most a few cached builds
            old = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE)
                         if d.split("-")[0] in VARIANTS)
            for _, d in old[:-6]:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
            if os.path.exists(dest):
                shutil.rmtree(dest)
            _build_into(src, rels, dest, v)
            open(os.path.join(dest, ".ok"), "w").close()
        os.utime(dest)
        # The Python sources (and data) are refreshed on every run: they are not part of the key.
        _sync_py(src, rels, os.path.join(dest, "sumo-api"))
        tools = os.path.join(REPO, "tools")
        shutil.rmtree(os.path.join(dest, "tools"), ignore_errors=True)
        if os.path.isdir(tools):
            shutil.copytree(tools, os.path.join(dest, "tools"),
                            ignore=shutil.ignore_patterns("__pycache__"))
    return os.path.join(dest, "sumo-api")


def _sync_py(src, rels, dst):
    want = {r for r in rels if not r.endswith(SRC_EXT)}
    for d, dirs, files in os.walk(dst):
        for f in files:
            r = os.path.relpath(os.path.join(d, f), dst)
            if r.endswith(".py") and r not in want:
                os.unlink(os.path.join(d, f))
    for r in sorted(want):
        a, b = os.path.join(src, r), os.path.join(dst, r)
        try:
            with open(a, "rb") as x, open(b, "rb") as y:
                if x.read() == y.read():
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(b), exist_ok=True)
        shutil.copyfile(a, b)


def _build_into(src, rels, dest, v):
    tree = os.path.join(dest, "sumo-api")
    for r in rels:
        p = os.path.join(tree, r)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copyfile(os.path.join(src, r), p)
    env = _env()
    _run([PY, "-c", _CYTHONIZE], tree, env)
    with open(os.path.join(tree, ".exts.json")) as fh:
        exts = json.load(fh)
    out = subprocess.run([PY, "-c", "import sysconfig as s,json;print(json.dumps("
                          "[s.get_paths()['include'], s.get_config_var('EXT_SUFFIX')]))"],
                         stdout=subprocess.PIPE, text=True, check=True, env=env).stdout
    pyinc, suffix = json.loads(out)
    use_ccache = [shutil.which("ccache")] if shutil.which("ccache") else []
    cxx = use_ccache + ["/usr/bin/g++"]
    objs, jobs = {}, []
    os.makedirs(os.path.join(dest, "obj"), exist_ok=True)
    for e in exts:
        flags = (BASE_CXX + v["cflags"] + ["-fPIC", "-w", "-fwrapv", "-I/usr/include/opencv4"] +
                 ["-I" + d for d in e["include_dirs"]] + ["-I" + pyinc] + e["cargs"] +
                 ["-D%s%s" % (m[0], "" if m[1] is None else "=" + str(m[1])) for m in e["macros"]])
        e["objs"] = []
        for s in e["sources"]:
            key = (s, tuple(flags))
            if key not in objs:
                o = os.path.join("..", "obj", hashlib.sha256(repr(key).encode()).hexdigest()[:16] + ".o")
                objs[key] = o
                jobs.append((os.path.getsize(os.path.join(tree, s)), cxx + flags + ["-c", s, "-o", o]))
            e["objs"].append(objs[key])
    jobs.sort(key=lambda j: -j[0])
    links = []
    for e in exts:
        outp = e["name"].replace(".", "/") + suffix
        links.append(["/usr/bin/g++", "-shared"] + v["ldflags"] + ["-Wl,--no-as-needed"] + e["objs"] +
                     ["-L" + d for d in e["library_dirs"]] +
                     ["-l" + l for l in e["libraries"]] +
                     ["-lopencv_imgcodecs", "-lboost_filesystem"] + e["largs"] + ["-o", outp])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(lambda j: _run(j[1], tree, env), jobs))
        list(ex.map(lambda c: _run(c, tree, env), links))
    shutil.rmtree(os.path.join(dest, "obj"))


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain", log=print))
    print("%.1fs" % (time.time() - t))
