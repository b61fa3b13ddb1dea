"""Search ranges against their declaration, and dimension doubling against its own trial record."""
import logging
import signal

import numpy as np
import optuna
import pandas as pd

from vlib import evals, gen

PROPERTY = "O03"
RULE = ("one case = one range asked many times by a real sampler, a set of names and bounds, or one whole dimension-doubling run; non-trivial when values "
        "vary or at least two dimensions were tried; distinct by bounds, sampler and dimensions")
ASSUMPTIONS = ["later dimensions search only the float parameters of the previous best, as documented",
               "bounds are finite and on the declared step, as optuna requires"]
optuna.logging.set_verbosity(optuna.logging.ERROR)
logging.disable(logging.INFO)


class Slow(Exception):
    pass


def limited(fn, seconds=20):
    """Run fn with a limit on its own processor time."""
    def hit(*a):
        raise Slow()
    old = signal.signal(signal.SIGVTALRM, hit)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def samplers(rng):
    s = int(rng.integers(1000))
    return gen.pick(rng, [optuna.samplers.RandomSampler(seed=s), optuna.samplers.TPESampler(seed=s, n_startup_trials=4), optuna.samplers.QMCSampler(seed=s)])


def ranges(case):
    from irspack.optimization import CategoricalRange, LogUniformFloatRange, LogUniformIntegerRange, UniformFloatRange, UniformIntegerRange
    rng = case.rng
    kind = int(rng.integers(5))
    name = gen.pick(rng, ["alpha", "top_k", "a", "x-1", "reg_", "n_components", "A9_b-", "3d"])
    prefix = gen.pick(rng, ["", "pre_", "0."])
    if kind == 0:
        low = float(gen.pick(rng, [-3.5, 0.0, 1e-6, 10.0]))
        high = low + float(gen.pick(rng, [0.0, 1e-3, 1.0, 1000.0]))
        r, want = UniformFloatRange(name, low, high), dict(low=low, high=high, log=False, step=None)
    elif kind == 1:
        low = float(gen.pick(rng, [1e-9, 1e-3, 2.0]))
        high = low * float(gen.pick(rng, [1.0, 1.5, 1e4]))
        r, want = LogUniformFloatRange(name, low, high), dict(low=low, high=high, log=True, step=None)
    elif kind == 2:
        low, step = int(gen.pick(rng, [-5, 0, 4])), int(gen.pick(rng, [1, 1, 2, 7]))
        high = low + step * int(gen.pick(rng, [0, 1, 2, 5, 90]))
        r, want = UniformIntegerRange(name, low, high, step) if step != 1 or rng.random() < 0.5 else UniformIntegerRange(name, low, high), dict(low=low, high=high, log=False, step=step)
    elif kind == 3:
        low = int(gen.pick(rng, [1, 4, 100]))
        high = low + int(gen.pick(rng, [0, 1, 2, 300]))
        r, want = LogUniformIntegerRange(name, low, high), dict(low=low, high=high, log=True, step=1)
    else:
        choices = gen.pick(rng, [["a"], ["NONE", "TF_IDF", "BM_25"], [1, 2.5, "x", None], [True, False], [32, 64, 128]])
        r, want = CategoricalRange(name, choices), dict(choices=tuple(choices))
    study = optuna.create_study(sampler=samplers(rng))
    values = []
    for _ in range(12):
        t = study.ask()
        v = r.suggest(t, prefix) if prefix or rng.random() < 0.5 else r.suggest(t)
        values.append(v)
        case.check(set(t.params) == {prefix + name}, "suggested-name", f"{t.params} {prefix + name}")
        case.check(t.params[prefix + name] == v, "suggested-value", f"{v} {t.params}")
        if kind == 4:
            case.check(any(v == c and type(v) is type(c) for c in choices), "outside-choices", f"{v!r} {choices}")
        else:
            case.check(want["low"] <= v <= want["high"], "outside-range", f"{v} {want}")
            case.check(type(v) is (int if kind in (2, 3) else float), "wrong-type", f"{v!r}")
            if kind == 2:
                case.check((v - want["low"]) % want["step"] == 0, "off-step", f"{v} {want}")
        d = t.distributions[prefix + name]
        for k, x in want.items():
            case.check(getattr(d, k) == x, "declared-distribution", f"{d} {k} {x}")
        study.tell(t, float(rng.random()))
    # both ends can be reached
    if kind != 4:
        for end in (want["low"], want["high"]):
            case.check(r.suggest(optuna.trial.FixedTrial({prefix + name: end}), prefix) == end, "end-of-range", f"{end} {want}")
    case.count("suggestions", len(values))
    if len(set(map(str, values))) > 1:
        case.seen(kind, name, prefix, str(want), range=type(r).__name__, declared={k: str(v) for k, v in want.items()}, values=[str(v) for v in values[:4]])


def rejected(case):
    from irspack.optimization import CategoricalRange, LogUniformFloatRange, LogUniformIntegerRange, ParameterRange, UniformFloatRange, UniformIntegerRange
    rng = case.rng
    make = [lambda n: UniformFloatRange(n, 0, 1), lambda n: LogUniformFloatRange(n, 0.1, 1), lambda n: UniformIntegerRange(n, 0, 1), lambda n: LogUniformIntegerRange(n, 1, 2), lambda n: CategoricalRange(n, ["a"])]
    alnum = list("abcXYZ019")
    for _ in range(6):
        f = make[int(rng.integers(5))]
        good = "".join(rng.choice(alnum, 1)) + "".join(rng.choice(alnum + ["_", "-"], int(rng.integers(0, 40))))
        case.check(limited(lambda: f(good)).name == good, "valid-name-rejected", good)
        k = int(rng.integers(0, len(good) + 1))
        bad = gen.pick(rng, ["", "_" + good, "-" + good, good[:k] + gen.pick(rng, ["@", " ", ".", "/", "$", "é"]) + good[k:], good + "@20", "catalog_coverage_of_everything@20", "a" * 60 + "!"])
        try:
            case.raises(ValueError, lambda: limited(lambda: f(bad)), "invalid-name-accepted", bad)
        except Exception as e:
            if "Slow" in str(e):
                case.fail("name-check-does-not-return", f"{bad!r}")
            raise
        case.count("names", 2)
    lo = float(rng.random() + 0.5)
    hi = lo - float(gen.pick(rng, [1e-9, 0.1, 0.4]))
    case.raises(ValueError, lambda: UniformFloatRange("x", lo, hi), "reversed-range-accepted", f"{lo} {hi}")
    case.raises(ValueError, lambda: LogUniformFloatRange("x", lo, hi), "reversed-range-accepted", f"{lo} {hi}")
    a = int(rng.integers(2, 50))
    b = a - int(rng.integers(1, a))
    case.raises(ValueError, lambda: UniformIntegerRange("x", a, b), "reversed-range-accepted", f"{a} {b}")
    case.raises(ValueError, lambda: LogUniformIntegerRange("x", a, b), "reversed-range-accepted", f"{a} {b}")
    case.seen(lo, a, b)


def defaults(case):
    """The ranges every recommender declares, as asked through its own suggestion."""
    import irspack.recommenders as R
    rng = case.rng
    from vlib import models
    for name in models.ALL:
        c = models.cls(name)
        declared = {r.name: r for r in c.default_tune_range}
        fixed = {k: None for k in declared if rng.random() < 0.3}
        study = optuna.create_study(sampler=samplers(rng))
        t = study.ask()
        got = c.default_suggest_parameter(t, fixed)
        case.check(set(got) == set(declared) - set(fixed) and got == t.params, "default-suggestions", f"{name} {got} {sorted(fixed)}")
        for k, v in got.items():
            r = declared[k]
            ok = v in r.choices if hasattr(r, "choices") else r.low <= v <= r.high
            case.check(ok, "outside-range", f"{name} {k}={v}")
        case.count("suggestions", len(got))
    case.seen(int(rng.integers(10 ** 9)))


def doubling(case):
    import irspack as ir
    rng = case.rng
    n, m = int(rng.integers(8, 20)), int(rng.integers(6, 14))
    X = gen.covered_csr(rng, n, m, 0.4, "ones")
    A, B = ir.rowwise_train_test_split(X, test_ratio=0.4, random_state=1)
    if not B.nnz or not A.nnz:
        return
    initial, extra = int(gen.pick(rng, [1, 2, 3, 5])), int(rng.integers(0, 4))
    maximal = initial * 2 ** extra + int(gen.pick(rng, [0, 0, 1])) * (initial * 2 ** extra - 1)
    if rng.random() < 0.4:                          # an upper end anywhere between two doublings
        initial = int(rng.integers(1, 9))
        maximal = int(rng.integers(initial, 5 * initial))
    maximal = max(maximal, initial)
    dims = []
    d = initial
    while d <= maximal:
        dims.append(d)
        d *= 2
    scale = float(gen.pick(rng, [1.0, 1.1, 3.0]))
    kind = gen.pick(rng, ["real", "ties", "target", "near"])
    goal = gen.pick(rng, dims)
    tried = []

    class Ev(evals.scripted(ir)):
        def measure(self, model):
            s = self.measured(model)
            if kind == "ties":
                s["ndcg"] = 0.5
            elif kind == "near":                       # differences far below what is printed
                s["ndcg"] = 0.5 - 1e-7 * abs(np.log(model.n_components / goal)) - 1e-9 * model.alpha0
            elif kind == "target":
                s["ndcg"] = round(1 / (1 + abs(np.log(model.n_components / goal)) + abs(np.log(model.alpha0 / 0.1)) / 5), 6)
            tried.append((model.n_components, model.alpha0, model.reg))
            return s
    ev = Ev(B, cutoff=3, target_metric="ndcg", n_threads=1)
    n1, n2 = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    own = rng.random() < 0.3

    low, high = gen.pick(rng, [(0.05, 0.2), (0.05, 0.2), (2.0, 5.0)])

    def suggest(trial):
        return dict(alpha0=trial.suggest_float("alpha0", low, high, log=True), max_cg_steps=trial.suggest_int("max_cg_steps", 1, 4), reg=trial.suggest_float("reg", 0.01, 0.02))
    storage = optuna.storages.InMemoryStorage() if rng.random() < 0.5 else None
    kw = dict(n_trials_initial=n1, n_trials_following=n2, n_startup_trials_initial=int(gen.pick(rng, [0, 10])), n_startup_trials_following=int(gen.pick(rng, [0, 5])), max_epoch=3,
              neighborhood_scale=scale, random_seed=gen.pick(rng, [None, int(rng.integers(100)), int(rng.integers(100))]), suggest_function_initial=suggest if own else None, study_name_prefix="p", storage=storage)
    bp, df = ir.IALSRecommender.tune_doubling_dimension(A, ev, initial, maximal, **kw)
    w = f"{initial}..{maximal} dims {dims} trials {n1}/{n2} scale {scale} {kind} own={own}"
    got = list(df["n_components"])
    case.check(got == [d for i, d in enumerate(dims) for _ in range(n1 if i == 0 else n2)], "dimensions-and-trials", f"{got} {w}")
    case.check({t[0] for t in tried} <= set(dims), "trained-other-dimension", f"{sorted({t[0] for t in tried})} {w}")
    prev = None
    for d in dims:
        part = df[df["n_components"] == d]
        if prev is not None:
            for _, row in part.iterrows():
                ok = any(all(p[k] / scale * (1 - 1e-9) <= row[k] <= p[k] * scale * (1 + 1e-9) for k in ("alpha0", "reg")) for _, p in prev.iterrows())
                case.check(ok, "outside-neighbourhood", f"dim {d}: {row[['alpha0', 'reg']].to_dict()} around {prev[['alpha0', 'reg']].to_dict('records')} {w}")
                case.count("neighbourhood_trials")
            if storage is not None:                 # and the whole of it is searched
                for t in optuna.load_study(study_name=f"p_{d}", storage=storage).trials:
                    for k in ("alpha0", "reg"):
                        r = t.distributions[k]
                        ok = any(np.isclose(r.low, p[k] / scale, rtol=1e-9, atol=0) and np.isclose(r.high, p[k] * scale, rtol=1e-9, atol=0) for _, p in prev.iterrows())
                        case.check(ok and r.log, "neighbourhood", f"dim {d}: {k} {r} around {list(prev[k])} {w}")
        elif not own:
            for _, row in part.iterrows():
                case.check(3e-3 <= row["alpha0"] <= 1 and 1e-4 <= row["reg"] <= 1e-1, "outside-range", w)
        done = part[part["state"] == "COMPLETE"]
        prev = done[done["value"] == done["value"].min()]
    done = df[df["state"] == "COMPLETE"]
    best = done[done["value"] == done["value"].min()]
    keys = ["alpha0", "reg", "n_components", "train_epochs"]
    case.check(any(all(bp[k] == row[k] for k in keys) for _, row in best.iterrows()), "not-the-best-trial", f"{bp} best {best[keys].to_dict('records')} {w}")
    if kind == "target" and len(dims) > 1 and scale > 1 and n2 > 1:
        case.count("targeted_runs")
    rec = ir.IALSRecommender(A, **bp, n_threads=1).learn()
    case.check(rec.n_components == bp["n_components"], "returned-parameters-unusable", w)
    if kind != "real" and kw["random_seed"] is not None and rng.random() < 0.4:
        again = {**kw, "storage": None, "study_name_prefix": None}                     # another name and storage, the same search
        bp2, df2 = ir.IALSRecommender.tune_doubling_dimension(A, ev, initial, maximal, **again)
        cols = ["n_components", "alpha0", "reg"]
        case.check(df2[cols].equals(df[cols]) and bp2 == bp, "seeded-tuning-differs", f"{bp} {bp2} {w}")
        case.count("repeated_searches")
    if storage is not None:
        names = sorted(s.study_name for s in optuna.get_all_study_summaries(storage))
        case.check(names == sorted(f"p_{d}" for d in dims), "study-names", f"{names} {w}")
    case.count("dimensions", len(dims))
    if len(dims) > 1:
        case.seen(tuple(dims), n1, n2, scale, kind, own, tuple(df["value"].round(6)), dimensions=dims, trials=[n1, n2], kind=kind)


FAMILIES = [("ranges", ranges, 300, 12000), ("rejected", rejected, 100, 4000), ("defaults", defaults, 10, 300), ("doubling", doubling, 70, 2500)]
