"""Tuning runs: every constructed model and every score is recorded and compared with what is returned."""
import logging
import threading
import time
from unittest import mock

import numpy as np
import optuna
import scipy.sparse as sps

from vlib import evals, gen, models

PROPERTY = "O02"
RULE = ("one case = one tuning run (or several on one study, in sequence or by concurrent workers) whose models and scores are recorded; non-trivial when "
        "trials differ in score; distinct by model, ranges, fixed parameters, trial outcomes")
ASSUMPTIONS = ["the study minimises, as the objective is the negated score", "a fixed train_epochs does not take part (tuning sets the epochs)"]
optuna.logging.set_verbosity(optuna.logging.ERROR)
QUIET = logging.getLogger("verif-quiet")
QUIET.addHandler(logging.NullHandler())
QUIET.propagate = False


def build(rng, epochs=False):
    """A recommender and an evaluator that only record; the score is a function of the parameters."""
    import irspack as ir
    from irspack.optimization import CategoricalRange, LogUniformFloatRange, LogUniformIntegerRange, UniformFloatRange, UniformIntegerRange
    from irspack.recommenders.base_earlystop import TrainerBase
    names = ["p1", "reg", "i1", "i2", "flag"]
    w = rng.normal(size=4)
    lock = threading.Lock()
    made = []
    plan = {}

    def quality(p):
        return round(float(np.tanh(w[0] * p["p1"] + w[1] * p["reg"] + w[2] * p["i1"] / 10 + w[3] * p["i2"] / 500 + (p["flag"] == "foo"))), 6)

    def ctor(self, X, p1=1.0, reg=1.0, i1=1, i2=1, flag="bar", extra=None, **more):
        with lock:
            made.append(self)
            self.number = len(made) - 1
        self.given = dict(p1=p1, reg=reg, i1=i1, i2=i2, flag=flag)
        self.extra, self.more = extra, more
        act = plan.get(self.number)
        if act == "error":
            raise ZeroDivisionError("planned")
        if act == "prune":
            raise optuna.TrialPruned()
    ranges = [UniformFloatRange("p1", 0, 1), LogUniformFloatRange("reg", 0.5, 2.0), UniformIntegerRange("i1", 10, 20, 5), LogUniformIntegerRange("i2", 100, 1000),
              CategoricalRange("flag", ["foo", "bar"])]
    if not epochs:
        class Rec(ir.BaseRecommender, register_class=False):
            default_tune_range = ranges

            def __init__(self, X, **kw):
                super().__init__(X)
                ctor(self, X, **kw)

            def _learn(self):
                self.learnt_config["learnt"] = round(self.given["p1"] * 3, 3)

            def get_score(self, idx):
                return np.zeros((len(idx), self.n_items))
    else:
        class T(TrainerBase):
            def __init__(self):
                self.epoch = 0

            def run_epoch(self):
                self.epoch += 1

            def save_state(self, ofs):
                ofs.write(str(self.epoch).encode())

            def load_state(self, ifs):
                self.epoch = int(ifs.read())

        class Rec(ir.BaseRecommenderWithEarlyStopping, register_class=False):
            default_tune_range = ranges

            def __init__(self, X, train_epochs=128, **kw):
                super().__init__(X, train_epochs=train_epochs)
                ctor(self, X, **kw)

            def _create_trainer(self):
                return T()

            def get_score(self, idx):
                return np.zeros((len(idx), self.n_items))

    class Ev(evals.scripted(ir)):
        pause = 0.0

        def measure(self, model):
            if self.pause:
                time.sleep(self.pause)
            s = quality(model.given)
            if epochs:                            # best at an epoch that depends on the parameters
                peak = 1 + int(abs(model.given["p1"]) * 7)
                s -= 0.01 * abs(model.trainer.epoch - peak)
            if plan.get(model.number) == "nan":
                s = float("nan")
            return {"ndcg": s, "recall": s / 2 + 1, "hit": float(model.number)}
    return Rec, Ev, made, plan, names, quality


def check_history(case, df, study, by_number, epochs, w):
    """One row per trial with its own parameters and metrics."""
    case.check(list(df.index) == [t.number for t in study.trials] and df.index.is_unique, "history-rows", f"{list(df.index)} {w}")
    for t in study.trials:
        row = df.loc[t.number]
        for k, v in t.params.items():
            case.check(row[k] == v, "history-parameter", f"trial {t.number} {k}: {row[k]!r} instead of {v!r} {w}")
        rec = by_number.get(t.number)
        if t.state == optuna.trial.TrialState.COMPLETE:
            case.check(rec is not None, "history-trial", w)
            s = rec.final
            case.check(row["value"] == -s["ndcg"] and t.value == -s["ndcg"], "history-value", f"trial {t.number}: {row['value']} {s} {w}")
            for k, v in s.items():
                case.check(row[f"{k}@{rec.cut}"] == v, "history-metric", f"trial {t.number} {k}: {row[f'{k}@{rec.cut}']!r} instead of {v!r} {w}")
            for k, v in rec.learnt_config.items():
                case.check(row[k] == v, "history-learnt", f"trial {t.number} {k} {w}")
        elif t.state == optuna.trial.TrialState.PRUNED and f"ndcg@{case.cut}" in df:
            case.check(np.isnan(row[f"ndcg@{case.cut}"]), "metric-of-pruned-trial", f"trial {t.number} {row.to_dict()} {w}")
        case.check(row["state"] == t.state.name, "history-state", w)
    case.count("history_rows", len(df))


def track(Rec, Ev, made, cut):
    """Associate models with trial numbers and keep each model's final metrics."""
    by_number, local = {}, threading.local()
    learn = Rec.learn_with_optimizer

    def watched(self, evaluator, trial, *a, **kw):
        if trial is not None:
            by_number[trial.number] = self
            Rec.searched = trial.study
        self.cut = cut
        return learn(self, evaluator, trial, *a, **kw)
    Rec.learn_with_optimizer = watched
    score = Ev.measure

    def get(self, model):
        s = score(self, model)
        model.final = dict(s)
        return s
    Ev.measure = get
    return by_number


def recorded(case):
    rng = case.rng
    epochs = bool(rng.integers(2))
    Rec, Ev, made, plan, names, quality = build(rng, epochs)
    X = gen.pick(rng, [sps.csr_matrix, sps.csc_matrix])(np.array([[1.0, 2.5, 0, 4, 1e-3], [0, 0.25, 7, 1, 300]]) * gen.pick(rng, [1.0, 0.1]))
    cut = case.cut = int(rng.integers(1, 5))
    by_number = track(Rec, Ev, made, cut)
    ev = Ev(X, cutoff=cut, target_metric="ndcg")
    token = object()
    values = dict(p1=0.25, reg=1.5, i1=12, i2=321, flag="foo") if rng.random() < 0.6 else dict(p1=0.0, reg=0.0, i1=0, i2=False, flag=gen.pick(rng, [None, ""]))
    fixed = {k: values[k] for k in names if rng.random() < 0.35}
    fixed["extra"] = token
    mode = int(rng.integers(4))
    study = None if mode == 0 else optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=int(rng.integers(1000))), pruner=optuna.pruners.NopPruner())
    suggest = None
    chosen = ["p1"] + [k for k in rng.permutation(names[1:]) if rng.random() < 0.6]
    chosen = [str(k) for k in rng.permutation(chosen)]
    if rng.random() < 0.4:
        def suggest(trial):
            make = {"p1": lambda: trial.suggest_float("p1", -1, 1), "i1": lambda: trial.suggest_int("i1", 1, 9), "flag": lambda: trial.suggest_categorical("flag", ["foo", "bar", "baz"]),
                    "reg": lambda: trial.suggest_float("reg", 0.1, 3, log=True), "i2": lambda: trial.suggest_int("i2", 1, 500)}
            return {k: make[k]() for k in chosen}
    n = int(rng.integers(1, 12))
    for k in range(n):
        if k and rng.random() < 0.25:
            plan[k] = gen.pick(rng, ["prune"] if epochs else ["nan", "prune"])
    kw = dict(n_trials=n, parameter_suggest_function=suggest, logger=QUIET, max_epoch=9, validate_epoch=1, score_degradation_max=3)
    if mode == 0:
        kw["tuning_random_seed"] = int(rng.integers(1000))
    bp, df = Rec.tune(X, ev, study=study, **kw, **fixed)
    study = study or Rec.searched
    w = f"epochs={epochs} fixed={sorted(fixed)} suggest={'own' if suggest else 'default'} plan={plan} n={n}"

    def judge(bp, df, total):
        case.check(len(study.trials) == total, "number-of-trials", f"{len(study.trials)} instead of {total} {w}")
        check_history(case, df, study, by_number, epochs, w)
        done = [t for t in study.trials if t.state == optuna.trial.TrialState.COMPLETE]
        top = max(by_number[t.number].final["ndcg"] for t in done)
        best = [t for t in done if by_number[t.number].final["ndcg"] == top]
        case.check(any(all(bp.get(k) == v for k, v in t.params.items() if k not in fixed) for t in best), "not-the-best-trial", f"{bp} best {[t.params for t in best]} {w}")
        case.check(not set(bp) & set(fixed), "fixed-parameter-returned", f"{sorted(set(bp) & set(fixed))} {w}")
        t = next(t for t in best if all(bp.get(k) == v for k, v in t.params.items() if k not in fixed))
        learnt = by_number[t.number].learnt_config
        case.check(all(bp.get(k) == v for k, v in learnt.items()), "learnt-not-returned", f"{bp} {learnt} {w}")
        case.check(set(bp) == (set(t.params) - set(fixed)) | set(learnt), "extra-parameters-returned", f"{sorted(bp)} {w}")
        for r in made:
            case.check(r.X_train_all.shape == X.shape and np.array_equal(r.X_train_all.toarray(), X.toarray()), "other-data-trained", lambda: f"{r.X_train_all.toarray().tolist()} {w}")
            case.check(r.extra is token and all(r.given[k] == v for k, v in fixed.items() if k != "extra"), "fixed-parameter-altered", f"{r.given} {w}")
        if suggest is None:
            for t in study.trials:
                case.check(not set(t.params) & set(fixed), "fixed-parameter-suggested", f"{sorted(t.params)} {w}")
                case.check(set(t.params) == set(names) - set(fixed) or t.state != optuna.trial.TrialState.COMPLETE, "suggested-names", f"{sorted(t.params)} {w}")
        # the returned parameters reproduce the score
        if "p1" in bp or "p1" in fixed:
            again = {k: v for k, v in bp.items() if k != "learnt"}
            hold, made_n = dict(plan), len(made)
            plan.clear()
            rec = Rec(X, **again, **fixed)
            rec.learn()
            case.close(Ev.measure(ev, rec)["ndcg"], top, "returned-parameters-do-not-reproduce", rtol=1e-12, atol=1e-12, message=w)
            plan.update(hold)
        case.count("trials", total)
    judge(bp, df, n)
    scores = {by_number[t.number].final["ndcg"] for t in study.trials if t.state == optuna.trial.TrialState.COMPLETE}
    if rng.random() < 0.5:                         # go on with the same study, with an error in between
        extra = 0
        if rng.random() < 0.6:
            plan[len(made)] = "error"
            try:
                Rec.tune(X, ev, study=study, **{**kw, "n_trials": 2}, **fixed)
                case.fail("error-swallowed", w)
            except ZeroDivisionError:
                extra = 1
            except optuna.exceptions.OptunaError:
                extra = 1
            case.count("failed_trials")
        more = int(rng.integers(1, 5))
        bp, df = Rec.tune(X, ev, study=study, **{**kw, "n_trials": more}, **fixed)
        judge(bp, df, n + extra + more)
    if len(scores) > 1 or n == 1:
        case.seen(epochs, tuple(sorted(fixed)), bool(suggest), n, tuple(sorted(plan.items())), tuple(sorted(scores)), fixed=sorted(fixed), trials=n,
                  outcomes={str(k): v for k, v in plan.items()}, best={k: str(v) for k, v in bp.items()})


def workers(case):
    """Several workers share a study, as in distributed optimisation; storage calls are delayed."""
    from irspack.optimization.optimizer import Optimizer
    rng = case.rng
    epochs = bool(rng.integers(2))
    Rec, Ev, made, plan, names, quality = build(rng, epochs)
    X = sps.csr_matrix(np.ones((2, 5)))
    cut = case.cut = int(rng.integers(1, 5))
    by_number = track(Rec, Ev, made, cut)
    ev = Ev(X, cutoff=cut, target_metric="ndcg")
    ev.pause = 0.001
    study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=int(rng.integers(1000))), pruner=optuna.pruners.NopPruner())
    n_workers, each = int(rng.integers(2, 6)), int(rng.integers(2, 5))
    delay = rng.random(200) * 0.006
    state = {"k": 0}

    def slow(fn):
        def f(*a, **k):
            state["k"] += 1
            time.sleep(delay[state["k"] % 200])
            return fn(*a, **k)
        return f
    results, errors = [], []

    def work():
        try:
            results.append(Rec.tune(X, ev, study=study, n_trials=each, logger=QUIET, max_epoch=3, validate_epoch=1, score_degradation_max=3, extra=7))
        except Exception as e:
            errors.append(e)
    with mock.patch.object(optuna.study.Study, "set_user_attr", slow(optuna.study.Study.set_user_attr)), \
            mock.patch.object(optuna.Trial, "set_user_attr", slow(optuna.Trial.set_user_attr)):
        ts = [threading.Thread(target=work) for _ in range(n_workers)]
        # optuna forbids optimising one Study object from two threads of one call only when nested
        [t.start() for t in ts]
        [t.join() for t in ts]
    w = f"{n_workers} workers x {each}"
    if errors:
        raise errors[0]
    case.check(len(study.trials) == n_workers * each, "number-of-trials", w)
    from irspack.optimization.optimizer import study_to_dataframe
    check_history(case, study_to_dataframe(study), study, by_number, epochs, w)
    case.count("concurrent_trials", n_workers * each)
    case.seen(n_workers, each, tuple(sorted(r.number for r in made)), epochs, round(float(delay.sum()), 4), workers=n_workers, trials_each=each)


def limits(case):
    """Epoch and time limits given to tune bind every trial."""
    from checks.O01 import expected
    rng = case.rng
    Rec, Ev, made, plan, names, quality = build(rng, True)
    X = sps.csr_matrix(np.ones((2, 5)))
    cut = case.cut = 3
    seen = {}
    curve = [float(x) for x in (np.arange(40) if rng.random() < 0.5 else rng.integers(0, 6, 40))]

    def get(self, model):
        log = seen.setdefault(model.number, [])
        log.append(model.trainer.epoch)
        return {"ndcg": curve[min(model.trainer.epoch, 39)], "recall": 0.5}
    Ev.measure = get
    by_number = track(Rec, Ev, made, cut)
    ev = Ev(X, cutoff=cut, target_metric="ndcg")
    top, every, patience, n = int(rng.integers(1, 20)), int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    every = min(every, top)
    study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=3), pruner=optuna.pruners.NopPruner())
    bp, df = Rec.tune(X, ev, study=study, n_trials=n, logger=QUIET, max_epoch=top, validate_epoch=every, score_degradation_max=patience)
    scores = [curve[e] for e in range(every, top + 1, every)]
    epochs, validated, reports, best, _ = expected(scores + [np.nan] * top, top, every, patience, None)
    w = f"max {top} every {every} patience {patience} curve {curve[:20]}"
    for t in study.trials:
        log = seen[by_number[t.number].number]
        # the trial's own score may be taken once more at the end, from the restored model
        case.check(log[:len(validated)] == list(validated) and len(log) <= len(validated) + 1 and all(e == best for e in log[len(validated):]), "validated-epochs",
                   f"{log} instead of {list(validated)}, best {best} {w}")
        if validated:
            case.check(t.value == -curve[best] and by_number[t.number].learnt_config.get("train_epochs") == best, "best-epoch",
                       f"{t.value} {by_number[t.number].learnt_config} instead of epoch {best} {w}")
    # out of time: no further trial starts
    Ev.measure = lambda self, model: time.sleep(0.05) or {"ndcg": 0.5}
    t0 = time.time()
    before = len(study.trials)
    Rec.tune(X, ev, study=study, n_trials=400, timeout=1, logger=QUIET, max_epoch=1, validate_epoch=1, score_degradation_max=3)
    ran, took = len(study.trials) - before, time.time() - t0
    case.check(1 <= ran < 400, "time-limit-ignored", f"{ran} trials in {took:.1f} s")
    case.count("trials", n + ran)
    # a study of an earlier version kept the metrics with the study
    old = optuna.create_study()
    old.optimize(lambda t: t.suggest_float("p1", 0, 1), n_trials=2)
    old.set_user_attr("scores", [(0, {"ndcg@3": 0.25, "other@3": 1.5}), (1, {"ndcg@3": 0.75, "other@3": 2.5})])
    Ev.measure = lambda self, model: {"ndcg": 0.5}
    _, df = Rec.tune(X, ev, study=old, n_trials=1, logger=QUIET, max_epoch=1, validate_epoch=1, score_degradation_max=3)
    case.check(list(df["ndcg@3"]) == [0.25, 0.75, 0.5] and list(df["other@3"][:2]) == [1.5, 2.5], "earlier-metrics-lost", lambda: f"{df.to_dict()}")
    case.seen(top, every, patience, n, tuple(curve[:10]), max_epoch=top, every=every, patience=patience)


def real(case):
    """Real models and evaluators: training with the returned parameters gives the returned score."""
    import irspack as ir
    rng = case.rng
    n, m = int(rng.integers(12, 40)), int(rng.integers(8, 20))
    X = gen.covered_csr(rng, n, m, 0.35, gen.pick(rng, ["ones", "counts"]))
    A, B = ir.rowwise_train_test_split(X, test_ratio=0.4, random_state=int(rng.integers(100)))
    if not B.nnz:
        return
    name = gen.pick(rng, ["CosineKNNRecommender", "TopPopRecommender", "P3alphaRecommender", "RP3betaRecommender", "IALSRecommender", "IALSRecommender",
                          "DenseSLIMRecommender", "EDLAERecommender", "TverskyIndexKNNRecommender", "AsymmetricCosineUserKNNRecommender", "TruncatedSVDRecommender"])
    Rec = models.cls(name)
    fixed = {} if name in ("TopPopRecommender", "DenseSLIMRecommender", "EDLAERecommender", "TruncatedSVDRecommender") else dict(n_threads=1)
    if name == "IALSRecommender":
        fixed.update(n_components=int(rng.integers(1, 6)))
        if rng.random() < 0.5:
            fixed.update(reg=0.01)
    if name == "TruncatedSVDRecommender":
        fixed.update(n_components=2)
    metric = gen.pick(rng, ["ndcg", "recall", "map", "hit"])
    ev = ir.Evaluator(B, cutoff=int(rng.integers(1, 6)), target_metric=metric, n_threads=1)
    kw = dict(n_trials=int(rng.integers(2, 7)), tuning_random_seed=int(rng.integers(1000)), logger=QUIET, max_epoch=6, validate_epoch=int(gen.pick(rng, [1, 2])), score_degradation_max=2)
    bp, df = Rec.tune(A, ev, **kw, **fixed)
    w = f"{name} {metric} {fixed} {kw}"
    case.check(len(df) == kw["n_trials"] and not set(bp) & set(fixed), "tuning-result", f"{bp} {w}")
    top = float(np.nanmax(-df["value"]))
    rec = Rec(A, **bp, **fixed).learn()
    case.close(ev.get_score(rec)[metric], top, "returned-parameters-do-not-reproduce", rtol=1e-6, atol=1e-6, message=f"{bp} {w}")
    row = df[df["value"] == df["value"].min()].iloc[0]
    for k, v in ev.get_score(rec).items():
        case.close(row[f"{k}@{ev.cutoff}"], v, "history-metric", rtol=1e-6, atol=1e-6, message=f"{k} {bp} {w}")
    case.check(df["value"].equals(-df[f"{metric}@{ev.cutoff}"]) or np.allclose(df["value"].dropna(), -df[f"{metric}@{ev.cutoff}"].dropna()) or (df["state"] != "COMPLETE").any(),
               "history-value", w)
    again, _ = Rec.tune(A, ev, **kw, **fixed)
    case.check(again == bp, "seeded-tuning-differs", f"{again} {bp} {w}")
    case.count("trials", 2 * kw["n_trials"])
    case.seen(name, metric, n, m, tuple(sorted(bp.items())), recommender=name, best={k: str(v) for k, v in bp.items()})


def arguments(case):
    """Data must come from one of the two sources; data may depend on the trial."""
    rng = case.rng
    Rec, Ev, made, plan, names, quality = build(rng)
    ev = Ev(sps.csr_matrix(np.ones((2, 5))), cutoff=2, target_metric="ndcg")
    case.raises(ValueError, lambda: Rec.tune(None, ev, n_trials=1, logger=QUIET), "no-data-accepted")
    sizes, given = [], []
    rows = gen.pick(rng, ["rows", "my_params_rows", "the_user_attrs_of", "value_", "rows-params_2"])

    def data(trial):
        k = trial.suggest_int(rows, 2, 6)
        sizes.append(k)
        given.append(rng.random((k, 5)).round(3))
        return sps.csr_matrix(given[-1])
    bp, df = Rec.tune(None, ev, n_trials=5, data_suggest_function=data, logger=QUIET, tuning_random_seed=int(rng.integers(99)))
    case.check([r.n_users for r in made] == sizes and len(sizes) == 5, "suggested-data-not-used", f"{sizes}")
    case.check(all(np.array_equal(r.X_train_all.toarray(), g) for r, g in zip(made, given)), "other-data-trained", f"{sizes}")
    case.check(rows in df and list(df[rows]) == sizes, "history-parameter", f"{rows} {sizes} {list(df)}")
    case.seen(tuple(sizes))


def every_class(case):
    """Limits, logger, study and data source reach the search whatever the recommender."""
    import logging

    import irspack as ir
    rng = case.rng
    name = ["IALSRecommender", "IALSRecommender", "CosineKNNRecommender", "DenseSLIMRecommender", "TruncatedSVDRecommender", "TopPopRecommender"][case.index % 6]
    Rec = models.cls(name)
    n, m = int(rng.integers(6, 20)), int(rng.integers(6, 15))
    X = gen.covered_csr(rng, n, m, 0.4, "ones")
    G = gen.covered_csr(rng, n, m, 0.3, "ones")
    got, epochs = [], {}

    class Ev(evals.scripted(ir)):
        wait = 0.0

        def measure(self, model):
            time.sleep(self.wait)
            got.append(model)
            epochs.setdefault(id(model), []).append(len(got))
            return self.measured(model)
    ev = Ev(G, cutoff=3, target_metric="ndcg", n_threads=1)
    fixed = dict(n_components=2, n_threads=1) if name == "IALSRecommender" else dict(n_components=2) if name == "TruncatedSVDRecommender" else {}
    lines = []
    log = logging.Logger("mine")
    log.addHandler(type("H", (logging.Handler,), {"emit": lambda s, r: lines.append(r.getMessage())})())
    study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=int(rng.integers(99))), pruner=optuna.pruners.NopPruner())
    k = int(rng.integers(1, 4))
    seen_data = []

    def data(trial):
        seen_data.append(trial.number)
        return X
    by_data = rng.random() < 0.5
    lim = dict(max_epoch=int(rng.integers(2, 5)), validate_epoch=int(rng.integers(1, 3)), score_degradation_max=9)
    _, df = Rec.tune(None if by_data else X, ev, study=study, n_trials=k, data_suggest_function=data if by_data else None, logger=log, **lim, **fixed)
    case.check(len(study.trials) == k and len(df) == k, "number-of-trials", f"{len(study.trials)} {len(df)} instead of {k} {name}")
    case.check(seen_data == (list(range(k)) if by_data else []), "suggested-data-not-used", f"{seen_data} {name}")
    text = " ".join(lines)
    case.check(all(f"Trial {i}" in text for i in range(k)), "logger-not-used", f"{len(lines)} lines {name}")
    if name == "IALSRecommender":
        per = [len(v) for v in epochs.values()]
        case.check(0 <= sum(per) - k * (lim["max_epoch"] // lim["validate_epoch"]) <= k, "validated-epochs", f"{per} {lim}")
        case.check((df["train_epochs"] % lim["validate_epoch"] == 0).all() and (df["train_epochs"] <= lim["max_epoch"]).all(), "best-epoch", f"{list(df['train_epochs'])} {lim}")
    ev.wait = 0.3
    before = len(study.trials)
    Rec.tune(X, ev, study=study, n_trials=25, timeout=1, logger=log, max_epoch=1, validate_epoch=1, score_degradation_max=3, **fixed)
    ran = len(study.trials) - before
    case.check(1 <= ran < 25, "time-limit-ignored", f"{ran} trials of {name} at 0.3 s each in a limit of 1 s")
    case.count("trials", k + ran)
    case.seen(name, k, by_data, tuple(lim.values()), tuple(df["value"].round(6)), recommender=name, trials=k)


FAMILIES = [("recorded", recorded, 220, 9000), ("workers", workers, 25, 600), ("limits", limits, 24, 300), ("real", real, 40, 1500), ("arguments", arguments, 12, 200),
            ("every_class", every_class, 12, 150)]
