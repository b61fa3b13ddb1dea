"""Compile the repository's C++ sources (unmodified, from its working tree) into
importable extension modules, plain or under a sanitizer.

The binding layer is /verif/shim (a nanobind subset); Eigen comes from the system.
Results are cached under /verif/build by the hash of every input file, so a change
in /repo/cpp_source always leads to a new build.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPP = os.path.join(REPO, "cpp_source")
SHIM = os.path.join(VERIF, "shim")
BUILD = os.path.join(VERIF, "build")

# module -> (source relative to cpp_source, dotted name)
MODULES = {
    "_ials_core": ("als/wrapper.cpp", "irspack.recommenders._ials_core"),
    "_knn": ("knn/wrapper.cpp", "irspack.recommenders._knn"),
    "_util_cpp": ("util.cpp", "irspack.utils._util_cpp"),
    "_core_evaluator": ("evaluator.cpp", "irspack.evaluation._core_evaluator"),
}
COMMON = ["-std=c++17", "-fPIC", "-shared", "-fvisibility=hidden", "-pthread", "-w"]
VARIANTS = {
    "plain": ("g++", ["-O2"]),
    # Eigen's and libstdc++'s own bounds assertions are kept on: they catch
    # out-of-range element access that stays inside one allocation.
    "asan": (
        "g++",
        ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
         "-fno-sanitize-recover=all",
         # Eigen forms references to the (null) data of empty matrices without reading them
         "-fno-sanitize=vptr,null,nonnull-attribute,returns-nonnull-attribute", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG", "-include", os.path.join(SHIM, "eigen_assert.h")],
    ),
    "tsan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DNDEBUG"]),
}
SAN_LIBS = {"asan": "libasan.so", "tsan": "libtsan.so"}


class BuildError(Exception):
    pass


def _tree_hash(variant):
    h = hashlib.sha256()
    h.update(repr((variant, VARIANTS[variant], COMMON, sys.version)).encode())
    for root in (CPP, SHIM):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:20]


def _compile(variant, module, out):
    src, full = MODULES[module]
    cxx, flags = VARIANTS[variant]
    cmd = [cxx, *COMMON, *flags, "-I", SHIM, "-isystem", "/usr/include/eigen3", "-I", CPP,
           "-I", sysconfig.get_paths()["include"], f'-DNBSHIM_FULLNAME="{full}"',
           os.path.join(CPP, src), "-o", os.path.join(out, module + ".so")]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(cmd)}\n{r.stderr[-4000:]}")


def build(variant="plain", modules=None):
    """Return the directory that holds the extension modules of this tree."""
    out = os.path.join(BUILD, variant, _tree_hash(variant))
    wanted = list(modules or MODULES)
    if all(os.path.exists(os.path.join(out, m + ".so")) for m in wanted):
        return out
    os.makedirs(os.path.join(BUILD, variant), exist_ok=True)
    for old in os.listdir(os.path.join(BUILD, variant)):  # keep the disk small
        p = os.path.join(BUILD, variant, old)
        if p != out and time.time() - os.path.getmtime(p) > 3600 * 6:
            shutil.rmtree(p, ignore_errors=True)
    tmp = f"{out}.tmp{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    try:
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda m: _compile(variant, m, tmp), wanted))
        os.makedirs(out, exist_ok=True)
        for m in wanted:
            os.replace(os.path.join(tmp, m + ".so"), os.path.join(out, m + ".so"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def preload(variant):
    """The sanitizer runtime to preload into the interpreter, or None."""
    if variant not in SAN_LIBS:
        return None
    def path(lib):
        r = subprocess.run(["gcc", f"-print-file-name={lib}"], capture_output=True, text=True)
        return os.path.realpath(r.stdout.strip())

    # libstdc++ too: the interpreter does not load it before the sanitizer looks
    # for the real __cxa_throw
    return path(SAN_LIBS[variant]) + ":" + path("libstdc++.so.6")


def injector():
    """The preloadable fault injector."""
    src = os.path.join(SHIM, "faults.cpp")
    with open(src, "rb") as fh:
        h = hashlib.sha256(fh.read()).hexdigest()[:16]
    out = os.path.join(BUILD, f"faults-{h}.so")
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = f"{out}.{os.getpid()}"
        r = subprocess.run(["g++", "-O1", "-std=c++17", "-shared", "-fPIC", "-fno-builtin", src, "-o", tmp, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        os.replace(tmp, out)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(v, build(v), f"{time.time() - t:.1f}s")
