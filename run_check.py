#!/usr/bin/env python3
"""run_check.py PROPERTY [--replay FILE] | --all

Builds what the check needs from /repo's working tree, runs it in a child
process, and turns a crash of the child (signal, sanitizer report) into a
violation that names the case that was running.
"""
import ast
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]])
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vlib import build as B  # noqa: E402


def header(prop):
    """Constants of the check module, read without importing it."""
    out = {}
    with open(os.path.join(VERIF, "checks", prop + ".py")) as fh:
        for node in ast.parse(fh.read()).body:
            if isinstance(node, ast.Assign) and len(node.targets) == 1:
                try:
                    out[node.targets[0].id] = ast.literal_eval(node.value)
                except (ValueError, AttributeError):
                    pass
    return out


def write_crash_evidence(prop, head, tier, seed, t0, what, log):
    ev = {"property": prop, "tier": tier, "seed": seed, "level": head.get("LEVEL", "exploration"),
          "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": head.get("RULE", ""),
                       "samples": [{"crash": what, "log": log[-1500:]}]},
          "wall_s": round(time.time() - t0, 2), "violations": 1}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)


def run(prop, replay=None):
    t0 = time.time()
    head = header(prop)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    args = []
    if replay:
        with open(replay) as fh:
            r = json.load(fh)
        seed, tier = r["seed"], r["tier"]
        args = [r["family"], str(r["index"])]
    env = dict(os.environ)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONPATH=VERIF, PYTHONWARNINGS="ignore", HF_HUB_OFFLINE="1")
    for k in ("IRSPACK_NUM_THREADS_DEFAULT", "HF_TOKEN", "HUGGING_FACE_HUB_TOKEN"):
        env.pop(k, None)
    work = tempfile.mkdtemp(prefix=f"irsv-{prop}-")
    env["VERIF_JOURNAL"] = os.path.join(work, "journal.json")
    env["TMPDIR"] = work
    env["HOME"] = os.path.join(work, "home")
    os.makedirs(env["HOME"])
    variant = head.get("EXT", "plain")
    try:
        if variant:
            try:
                env["VERIF_EXT_DIR"] = B.build(variant)
            except B.BuildError as e:
                print(f"BUILD-ERROR property={prop}\n{e}")
                return 4
            if head.get("INJECT"):
                env["LD_PRELOAD"] = B.injector()
            lib = B.preload(variant)
            if lib:
                env["LD_PRELOAD"] = lib
                logp = os.path.join(work, "san")
                env["ASAN_OPTIONS"] = (f"detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:"
                                       f"log_path={logp}:allocator_may_return_null=1:"
                                       f"detect_stack_use_after_return=0")
                env["UBSAN_OPTIONS"] = f"print_stacktrace=1:halt_on_error=1:exitcode=77:log_path={logp}"
                env["TSAN_OPTIONS"] = (f"halt_on_error=0:exitcode=0:log_path={logp}:"
                                       f"suppressions={VERIF}/tsan.supp:history_size=4:"
                                       f"report_signal_unsafe=0")
                env["VERIF_SAN_LOG"] = logp
                env["PYTHONMALLOC"] = "malloc"
        limit = float(os.environ.get("VERIF_TIMEOUT", "700" if tier == "quick" else "14400"))
        cmd = [PY, "-X", "faulthandler", "-m", "vlib.harness", prop, *args]
        try:
            p = subprocess.run(cmd, cwd=VERIF, env=env, timeout=limit, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
            print((out.decode(errors="replace") if isinstance(out, bytes) else out)[-3000:])
            # a case takes well under a second; one that has run for minutes has hung
            j = env["VERIF_JOURNAL"]
            stuck = time.time() - os.path.getmtime(j) if os.path.exists(j) else 0
            if stuck < 300:
                print(f"INCONCLUSIVE property={prop}: watchdog fired after {limit:.0f}s")
                return 5
            with open(j) as fh:
                rec = json.load(fh)
            what = f"no progress for {stuck:.0f}s"
            rec.update(mechanism="hang", message=what)
            from vlib.harness import replay_path
            path = replay_path(prop, f"hang-{rec['family']}-{rec['index']}-s{seed}")
            with open(path, "w") as fh:
                json.dump(rec, fh, indent=1)
            write_crash_evidence(prop, head, tier, seed, t0, what, "")
            print(f"\nVIOLATION property={prop} replay={path}")
            return 1
        sys.stdout.write(p.stdout[-20000:])
        if p.returncode in (0, 1, 3) and not (p.returncode == 1 and "VIOLATION property=" not in p.stdout):
            return p.returncode
        # the child crashed: a signal, or a sanitizer's exit code
        log = "".join(open(f, errors="replace").read() for f in sorted(glob.glob(os.path.join(work, "san.*"))))
        crashed = p.returncode < 0 or p.returncode in (77, 134, 139)
        if not crashed or not os.path.exists(env["VERIF_JOURNAL"]):
            print(f"CHECK-ERROR property={prop} exit={p.returncode}\n{log[-3000:]}")
            return 6
        with open(env["VERIF_JOURNAL"]) as fh:
            rec = json.load(fh)
        from vlib.harness import load_known, replay_path
        what = crash_summary(log or p.stdout, p.returncode)
        rec.update(mechanism="native-crash", message=what, log=log[:8000] or p.stdout[-4000:])
        path = replay_path(prop, f"crash-{rec['family']}-{rec['index']}-s{seed}")
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1)
        write_crash_evidence(prop, head, tier, seed, t0, what, log or p.stdout)
        print(log[:6000])
        print(f"  {rec['family']}#{rec['index']} [native-crash] {what}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def crash_summary(log, rc):
    m = re.search(r".*runtime error: .*", log) or re.search(r"SUMMARY: .*", log) \
        or re.search(r".*Assertion .*", log) or re.search(r"terminate called.*\n.*", log)
    return (m.group(0) if m else f"child ended with {rc}")[:500]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--all":
        props = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(VERIF, "checks", "[A-Z]*.py")))
        bad = 0
        for p in props:
            t = time.time()
            rc = run(p)
            print(f"== {p} exit={rc} {time.time() - t:.1f}s", flush=True)
            bad |= rc != 0
        return int(bad)
    return run(a[0], a[2] if len(a) > 2 and a[1] == "--replay" else None)


if __name__ == "__main__":
    sys.exit(main())
