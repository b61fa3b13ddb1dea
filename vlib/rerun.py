"""Repeat a seeded computation in fresh interpreters (other string hash seeds)."""
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def records(module, function, seed, hash_seed):
    """What checks.<module>.<function>(seed) returns (JSON) in a fresh interpreter."""
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "vlib.rerun", module, function, str(seed)],
                       cwd=HERE, env=env, capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise RuntimeError(f"child interpreter: {r.stderr[-2000:]}")
    return json.loads(r.stdout.splitlines()[-1])


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    from vlib import build, loader
    loader.install(build.build("plain"))
    mod = importlib.import_module(f"checks.{sys.argv[1]}")
    out = getattr(mod, sys.argv[2])(int(sys.argv[3]))
    print(json.dumps(out))
