"""Run the repository's whole test suite on the shim build (not a check)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import build, loader
loader.install(build.build("plain"))
import pytest
sys.exit(pytest.main(["-q", "-x" if "-x" in sys.argv else "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors",
                      os.path.join(build.REPO, "tests")] + [a for a in sys.argv[1:] if a != "-x"]))
