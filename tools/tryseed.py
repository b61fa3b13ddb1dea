"""Apply planted changes to /repo one at a time and run the stable tests and checks: tryseed.py ID[:CHECK,..] ..."""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(arg):
    sid, _, checks = arg.partition(":")
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedtests.json"], capture_output=True)
        t = json.load(open("/tmp/seedtests.json"))
        np = len(t["passed"]) if not isinstance(t["passed"], int) else t["passed"]
        for c in (checks.split(",") if checks else [meta["property"]]):
            t0 = time.time()
            r = subprocess.run([sys.executable, "run_check.py", c], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            caught = r.returncode == 1 and f"VIOLATION property={c}" in r.stdout
            print(f"{sid:32s} {c} {'caught' if caught else 'MISSED rc=%d' % r.returncode} tests={np}/9 {time.time() - t0:.0f}s", flush=True)
            lines = [x for x in r.stdout.splitlines() if x.startswith("  ")]
            if lines:
                print("      ", lines[0][:180], flush=True)
            elif not caught:
                print(r.stdout[-500:], r.stderr[-500:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)


for a in sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded"))):
    one(a)
