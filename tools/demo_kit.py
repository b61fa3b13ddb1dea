"""Stand-alone kit of the demonstrations: builds the extension modules of the
tree in the working directory into a scratch directory and makes it importable.
Copied beside every demo.py together with the nanobind subset in ./shim."""
import atexit
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import types
from concurrent.futures import ThreadPoolExecutor

ROOT = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
MODULES = {
    "irspack.recommenders._ials_core": "als/wrapper.cpp",
    "irspack.recommenders._knn": "knn/wrapper.cpp",
    "irspack.utils._util_cpp": "util.cpp",
    "irspack.evaluation._core_evaluator": "evaluator.cpp",
}
sys.dont_write_bytecode = True


def scratch():
    d = tempfile.mkdtemp(prefix="demo-")
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d


def bare():
    """Only the package path, for parts without extension modules."""
    pkg = types.ModuleType("irspack")
    pkg.__path__ = [os.path.join(ROOT, "src", "irspack")]
    sys.modules["irspack"] = pkg


def load(flags=("-O1",), modules=MODULES):
    out = scratch()

    def compile_one(full):
        name = full.rsplit(".", 1)[1]
        subprocess.run(["g++", "-std=c++17", "-fPIC", "-shared", "-fvisibility=hidden", "-pthread", "-w", *flags,
                        "-I", os.path.join(HERE, "shim"), "-isystem", "/usr/include/eigen3",
                        "-I", os.path.join(ROOT, "cpp_source"), "-I", sysconfig.get_paths()["include"],
                        f'-DNBSHIM_FULLNAME="{full}"', os.path.join(ROOT, "cpp_source", MODULES[full]),
                        "-o", os.path.join(out, name + ".so")], check=True)
        return full

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(compile_one, modules))

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name in MODULES:
                p = os.path.join(out, name.rsplit(".", 1)[1] + ".so")
                return importlib.util.spec_from_file_location(
                    name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
            if name == "irspack._version":
                return importlib.machinery.ModuleSpec(name, Finder)
            return None

        @staticmethod
        def create_module(spec):
            return None

        @staticmethod
        def exec_module(module):
            module.__version__ = "0"

    sys.meta_path.insert(0, Finder)
    sys.path.insert(0, os.path.join(ROOT, "src"))
    return out
