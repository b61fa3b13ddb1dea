"""Make `import irspack` resolve to /repo/src with the compiled extensions."""
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import build as _b

SRC = os.path.join(_b.REPO, "src")


class _Finder:
    def __init__(self, ext_dir):
        self.ext = {full: os.path.join(ext_dir, m + ".so") for m, (_, full) in _b.MODULES.items()}

    def find_spec(self, name, path=None, target=None):
        if name in self.ext:
            p = self.ext[name]
            return importlib.util.spec_from_file_location(
                name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        if name == "irspack._version":
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__version__ = "0.0.0"


def install(ext_dir):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(ext_dir))
    sys.path.insert(0, SRC)


def install_bare():
    """Only the package path: for parts that need no extension module."""
    sys.dont_write_bytecode = True
    pkg = types.ModuleType("irspack")
    pkg.__path__ = [os.path.join(SRC, "irspack")]
    sys.modules["irspack"] = pkg
