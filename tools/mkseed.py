"""Turn a planted change into seeded/<id>: mkseed.py SPEC.py

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (source of
demo.py after the kit import).  The change is confirmed in a scratch copy: it
applies, passes the repository's tests, and the demonstration tells the trees apart."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def main(spec):
    s = runpy.run_path(spec)
    dst = os.path.join(V, "seeded", s["ID"])
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        good, bad = os.path.join(tmp, "good"), os.path.join(tmp, "bad")
        subprocess.run(["git", "clone", "-q", "/repo", good], check=True)
        subprocess.run(["git", "clone", "-q", "/repo", bad], check=True)
        for f, old, new in s["EDITS"]:
            p = os.path.join(bad, f)
            t = open(p).read()
            assert t.count(old) == 1, f"{s['ID']}: {f}: {t.count(old)} matches of {old!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], bad).stdout
        assert diff
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        shutil.copy(os.path.join(V, "tools", "demo_kit.py"), os.path.join(dst, "kit.py"))
        if "kit.load" in s["DEMO"]:
            shutil.copytree(os.path.join(V, "shim", "nanobind"), os.path.join(dst, "shim", "nanobind"))
        open(os.path.join(dst, "demo.py"), "w").write(
            "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport kit\n" + s["DEMO"])
        open(os.path.join(dst, "demo.sh"), "w").write(
            "#!/bin/bash\nexec /opt/venv/bin/python -W ignore \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        t0 = time.time()
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        a = sh(["bash", os.path.join(dst, "demo.sh")], good, env=env, timeout=300)
        t1 = time.time()
        b = sh(["bash", os.path.join(dst, "demo.sh")], bad, env=env, timeout=300)
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/dataset"], bad, env=dict(env, PYTHONPATH="src"))
        ok = a.returncode == 0 and b.returncode != 0
        print(s["ID"], "OK" if ok else "FAILED", f"good={a.returncode} bad={b.returncode} demo {t1 - t0:.0f}s")
        if not ok:
            print(a.stdout[-1500:], a.stderr[-1500:], "---- bad", b.stdout[-800:], b.stderr[-800:])
        else:
            print("   ", (b.stderr.strip().splitlines() or ["?"])[-1][:200])
        return ok
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(0 if all([main(x) for x in sys.argv[1:]]) else 1)
