"""Case runner shared by all checks.

A check is a module in /verif/checks that defines PROPERTY, RULE, FAMILIES and
optionally EXT ("plain", "asan", "tsan" or None), ASSUMPTIONS, LEVEL.
A family is (name, function, quick_count, thorough_count); the function gets a
`Case` and drives the real code, calling case.fail(...) when the oracle disagrees.
"""
import contextlib
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "build", "run")


class Violation(Exception):
    def __init__(self, mechanism, message):
        super().__init__(f"[{mechanism}] {message}")
        self.mechanism = mechanism
        self.message = message


class Case:
    def __init__(self, ctx, family, index):
        self.ctx = ctx
        self.family = family
        self.index = index
        self.rng = np.random.default_rng(
            [ctx.seed & 0x7FFFFFFF, zlib.crc32(family.encode()), index])
        self.thorough = ctx.tier == "thorough"
        self.sig = None
        self.note = {}

    # -- verdicts
    def fail(self, mechanism, message):
        raise Violation(mechanism, message)

    def check(self, cond, mechanism, message=""):
        self.ctx.counters["oracle_comparisons"] = self.ctx.counters.get("oracle_comparisons", 0) + 1
        if not cond:
            raise Violation(mechanism, message() if callable(message) else message)

    def close(self, got, want, mechanism, rtol=1e-9, atol=1e-9, message=""):
        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        self.ctx.counters["oracle_comparisons"] = self.ctx.counters.get("oracle_comparisons", 0) + 1
        self.ctx.counters["values_compared"] = self.ctx.counters.get("values_compared", 0) + int(want.size)
        if got.shape != want.shape:
            raise Violation(mechanism, f"shape {got.shape} != {want.shape} {message}")
        bad = ~np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad)) if got.ndim else ()
            raise Violation(mechanism, f"{int(bad.sum())} of {bad.size} values differ, first at {i}: "
                                       f"got {got[i]!r}, expected {want[i]!r} {message}")

    def raises(self, exc, fn, mechanism, message=""):
        self.ctx.counters["rejections_checked"] = self.ctx.counters.get("rejections_checked", 0) + 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation(mechanism, f"raised {type(e).__name__}: {e} instead of {exc} {message}")
        raise Violation(mechanism, f"accepted, returned {type(r).__name__} {message}")

    # -- evidence
    def count(self, name, n=1):
        self.ctx.counters[name] = self.ctx.counters.get(name, 0) + int(n)

    def seen(self, *signature, **note):
        """Mark the case as non-trivial; the signature decides distinctness."""
        self.sig = hashlib.sha1(repr((self.family,) + signature).encode()).hexdigest()
        self.note = note


class Ctx:
    def __init__(self, module, seed, tier):
        self.module = module
        self.property = module.PROPERTY
        self.seed = seed
        self.tier = tier
        self.counters = {}
        self.cases = 0
        self.signatures = set()
        self.samples = []
        self.families = {}
        self.violations = []
        self.known = {}
        self.t0 = time.time()
        self.journal = os.environ.get("VERIF_JOURNAL")


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [f for f in json.load(fh)["findings"]
                if f["property"] == prop and f["status"] == "known"]


def replay_path(prop, name):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{prop}-{name}.json")


def run_cases(ctx, only=None, budget=None):
    known = {f["mechanism"]: f for f in load_known(ctx.property)}
    fams = ctx.module.FAMILIES
    # round-robin in slices so that a time budget cuts every family, not the last
    plan = []
    for name, fn, nq, nt in fams:
        n = nt if ctx.tier == "thorough" else nq
        ctx.families[name] = {"planned": n, "run": 0, "nontrivial": 0}
        plan += [((i + 0.5) / n, name, fn, i) for i in range(n)]
    plan.sort(key=lambda t: (t[0], t[1]))
    if only is not None:
        plan = [(0, n, f, only[1]) for n, f, _, _ in fams if n == only[0]]
    for _, name, fn, i in plan:
        if budget is not None and time.time() - ctx.t0 > budget:
            break
        case = Case(ctx, name, i)
        if ctx.journal:
            with open(ctx.journal, "w") as fh:
                json.dump({"property": ctx.property, "seed": ctx.seed, "tier": ctx.tier,
                           "family": name, "index": i}, fh)
        t = time.time()
        try:
            fn(case)
        except Violation as v:
            record_violation(ctx, case, known, v.mechanism, v.message)
        except Exception as e:
            tb = traceback.format_exc()
            record_violation(ctx, case, known, f"unexpected-{type(e).__name__}",
                             f"{type(e).__name__}: {e}", tb)
        fam = ctx.families[name]
        fam["run"] += 1
        fam["seconds"] = round(fam.get("seconds", 0) + time.time() - t, 3)
        ctx.cases += 1
        if case.sig is not None:
            fam["nontrivial"] += 1
            ctx.signatures.add(case.sig)
            if sum(1 for s in ctx.samples if s["family"] == name) < 1 and case.note:
                ctx.samples.append({"family": name, "case": i, **case.note})
        if len(ctx.violations) >= 5:
            break


def record_violation(ctx, case, known, mechanism, message, tb=None):
    if mechanism in known:
        ctx.known.setdefault(mechanism, known[mechanism]["what"])
        return
    rec = {"property": ctx.property, "seed": ctx.seed, "tier": ctx.tier, "family": case.family,
           "index": case.index, "mechanism": mechanism, "message": message[:4000]}
    if tb:
        rec["traceback"] = tb[-6000:]
    path = replay_path(ctx.property, f"{case.family}-{case.index}-s{ctx.seed}")
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1)
    rec["path"] = path
    ctx.violations.append(rec)


def write_evidence(ctx, extra=None):
    m = ctx.module
    cov = {
        "evaluations": ctx.cases,
        "distinct_nontrivial": len(ctx.signatures),
        "rule": m.RULE,
        "samples": ctx.samples[:12] or [{"note": "no non-trivial case"}],
        "families": ctx.families,
        "monitor_counters": ctx.counters,
    }
    if extra:
        cov.update(extra)
    ev = {
        "property": ctx.property, "tier": ctx.tier, "seed": ctx.seed,
        "level": getattr(m, "LEVEL", "exploration"), "coverage": cov,
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", ctx.property + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, default=_json_default)
    os.replace(path + ".tmp", path)


def _json_default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def main():
    """Runs in the child process: argv = property [family index]."""
    prop = sys.argv[1]
    only = (sys.argv[2], int(sys.argv[3])) if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    ext_dir = os.environ.get("VERIF_EXT_DIR")
    from . import loader
    if ext_dir:
        loader.install(ext_dir)
    else:
        loader.install_bare()
    module = importlib.import_module("checks." + prop)
    ctx = Ctx(module, seed, tier)
    budget = float(os.environ.get("VERIF_BUDGET", "500" if tier == "quick" else "7200"))
    if hasattr(module, "setup"):
        module.setup(ctx)
    with open(os.devnull, "w") as sink, contextlib.redirect_stdout(sink):     # progress bars
        run_cases(ctx, only=only, budget=budget)
        if hasattr(module, "teardown"):
            module.teardown(ctx)
    write_evidence(ctx)
    for mech, what in sorted(ctx.known.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    for v in ctx.violations:
        print(f"  {v['family']}#{v['index']} [{v['mechanism']}] {v['message'][:600]}")
        if "traceback" in v:
            print("    " + v["traceback"][-1500:].replace("\n", "\n    "))
    if ctx.violations:
        print(f"VIOLATION property={prop} replay={ctx.violations[0]['path']}")
        sys.stdout.flush()
        os._exit(1)
    # a run in which a family never reached its monitor is inconclusive
    idle = [n for n, f in ctx.families.items() if f["run"] and not f["nontrivial"]]
    unrun = [n for n, f in ctx.families.items() if f["planned"] and not f["run"]]
    if only is None and (idle or unrun):
        print(f"INCONCLUSIVE property={prop}: idle={idle} not-run={unrun}")
        sys.stdout.flush()
        os._exit(3)
    print(f"OK property={prop} cases={ctx.cases} distinct={len(ctx.signatures)} "
          f"comparisons={ctx.counters.get('oracle_comparisons', 0)} "
          f"wall={time.time() - ctx.t0:.1f}s")
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
