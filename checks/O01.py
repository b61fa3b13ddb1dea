"""Early stopping watched through an event log of epochs, validations, saves, restores and reports."""
import pickle

import numpy as np
import optuna
import scipy.sparse as sps

from vlib import evals, gen

PROPERTY = "O01"
RULE = ("one case = one training run under a scripted or real sequence of validation scores, checked event by event; non-trivial when at least one "
        "validation happened; distinct by score sequence, intervals, patience, pruning point and stop reason")
ASSUMPTIONS = ["a validation that itself exhausts the allowed degradations ends the training without being reported to the trial",
               "training for which no validation can produce a best state is an error or ends in a state of this training, never an older one"]
optuna.logging.set_verbosity(optuna.logging.ERROR)


def scripted(rng, length):
    kind = int(rng.integers(7))
    if kind == 0:
        s = np.arange(length) / (length + 1)
    elif kind == 1:
        s = -np.arange(length, dtype=float)
    elif kind == 2:
        s = np.zeros(length)
    elif kind == 3:
        s = rng.integers(0, 3, length).astype(float)
    elif kind == 4:
        s = rng.normal(size=length)
    elif kind == 5:
        s = np.round(np.sin(np.arange(length) / 2.0), 1)
    else:
        s = rng.normal(size=length)
        s[1:][rng.random(length - 1) < 0.3] = np.nan
    return [float(x) for x in s]


def expected(scores, max_epoch, every, patience, prune_at):
    """Reference run: (epochs run, validated epochs, reports, best epoch or None, pruned)."""
    best, best_epoch, bad, reports, validated = -np.inf, None, 0, [], []
    for e in range(1, max_epoch + 1):
        if e % every:
            continue
        v = len(validated)
        validated.append(e)
        s = scores[v]
        if s > best:
            best, best_epoch, bad = s, e, 0
        else:
            bad += 1
            if bad >= patience:
                return e, validated, reports, best_epoch, False
        reports.append((-s, e - 1))
        if prune_at is not None and len(reports) == prune_at:
            return e, validated, reports, best_epoch, True
    return max_epoch, validated, reports, best_epoch, False


def build():
    import irspack as ir
    from irspack.recommenders.base_earlystop import TrainerBase

    class Trainer(TrainerBase):
        def __init__(self, log, tag):
            self.log, self.state, self.tag = log, [tag, 0], tag
            log.append(("create", tag))

        def run_epoch(self):
            self.state[1] += 1                     # mutated in place, so a shallow save would follow it
            self.log.append(("epoch", self.state[1]))

        def save_state(self, ofs):
            pickle.dump(self.state, ofs)

        def load_state(self, ifs):
            self.state = pickle.load(ifs)

    class Rec(ir.BaseRecommenderWithEarlyStopping, register_class=False):
        def __init__(self, X, log, **kw):
            super().__init__(X, **kw)
            self.log, self.runs = log, 0

        def _create_trainer(self):
            self.runs += 1
            return Trainer(self.log, self.runs)

        def get_score(self, idx):
            return np.zeros((len(idx), self.n_items))

        def get_score_block(self, b, e):
            return np.zeros((e - b, self.n_items))

    class Ev(evals.scripted(ir)):
        def __init__(self, X, log, scores):
            super().__init__(X, cutoff=1, target_metric="ndcg")
            self.log, self.scores = log, list(scores)

        def measure(self, model):
            s = self.scores.pop(0)
            self.log.append(("validate", model.trainer.state[1], s))
            return {"ndcg": s}
    return Rec, Ev


class Trial:
    def __init__(self, log, prune_at):
        self.log, self.prune_at, self.n = log, prune_at, 0

    def report(self, value, step):
        self.n += 1
        self.log.append(("report", float(value), int(step)))

    def should_prune(self):
        return self.prune_at is not None and self.n == self.prune_at


def eq(a, b):
    return a == b or a != a and b != b


def script(case):
    rng = case.rng
    Rec, Ev = build()
    X = sps.csr_matrix(np.ones((2, 3)))
    max_epoch, every, patience = int(gen.pick(rng, [1, 2, 5, 12, 30])), int(gen.pick(rng, [1, 1, 2, 3, 5])), int(gen.pick(rng, [1, 2, 3, 5, 100]))
    log = []
    rec = Rec(X, log)
    if rng.random() < 0.4:                          # an earlier training whose state must not survive
        n = int(rng.integers(1, 6))
        rec.learn_with_optimizer(Ev(X, log, [100.0] * n), None, max_epoch=n, validate_epoch=1, score_degradation_max=n + 1)
        case.check(rec.trainer.state == [1, 1] and rec.learnt_config["train_epochs"] == 1, "best-state-not-restored", str(rec.trainer.state))
        del log[:]
    run = rec.runs + 1
    n_val = max_epoch // every
    scores = scripted(rng, max(2, n_val))
    with_trial = rng.random() < 0.6
    prune_at = int(rng.integers(1, n_val + 2)) if with_trial and rng.random() < 0.5 else None
    trial = Trial(log, prune_at) if with_trial else None
    w = f"max {max_epoch} every {every} patience {patience} prune {prune_at} scores {scores}"
    go = lambda: rec.learn_with_optimizer(Ev(X, log, scores), trial, max_epoch=max_epoch, validate_epoch=every, score_degradation_max=patience)
    epochs, validated, reports, best, pruned = expected(scores, max_epoch, every, patience, prune_at)
    if best is None:
        try:
            go()
            case.check(rec.trainer.state[0] == run, "state-of-earlier-training", f"{rec.trainer.state} run {run} {w}")
        except RuntimeError:
            pass
        case.count("no_validation_runs")
    elif pruned:
        try:
            go()
            case.fail("pruning-ignored", w)
        except optuna.TrialPruned:
            pass
    else:
        go()
    case.check([x[1] for x in log if x[0] == "create"] == [run], "not-trained-afresh", f"{log[:3]} {w}")
    case.check([x[1] for x in log if x[0] == "epoch"] == list(range(1, epochs + 1)), "epochs-run", lambda: f"{[x[1] for x in log if x[0] == 'epoch']} expected 1..{epochs} {w}")
    if best is not None:
        case.check([x[1] for x in log if x[0] == "validate"] == validated, "validated-epochs", lambda: f"{[x[1] for x in log if x[0] == 'validate']} expected {validated} {w}")
        got = [x[1:] for x in log if x[0] == "report"]
        want = reports if with_trial else []
        case.check(len(got) == len(want) and all(eq(a[0], b[0]) and a[1] == b[1] for a, b in zip(got, want)), "reports", lambda: f"{got} expected {want} {w}")
        # order: epoch, its validation, its report
        last = 0
        for x in log:
            if x[0] == "epoch":
                last = x[1]
            elif x[0] == "validate":
                case.check(x[1] == last, "validated-other-epoch", w)
            elif x[0] == "report":
                case.check(x[2] == last - 1, "reported-other-epoch", w)
        if not pruned:
            case.check(rec.trainer.state == [run, best], "best-state-not-restored", f"{rec.trainer.state} expected epoch {best} of run {run} {w}")
        case.check(rec.learnt_config.get("train_epochs") == best, "best-epoch-not-recorded", f"{rec.learnt_config} expected {best} {w}")
        case.seen(tuple(scores), max_epoch, every, patience, prune_at, pruned, scores=[round(s, 3) for s in scores[:12]], max_epoch=max_epoch, every=every,
                  patience=patience, stopped_after=epochs, best_epoch=best, pruned=pruned)
    case.count("events", len(log))
    case.count("pruned", pruned)
    case.count("stopped_early", not pruned and epochs < max_epoch)


def plain(case):
    """Without an evaluator exactly the configured number of epochs."""
    rng = case.rng
    Rec, Ev = build()
    X = sps.csr_matrix(np.ones((2, 3)))
    n, log = int(rng.integers(0, 40)), []
    rec = Rec(X, log, train_epochs=n)
    if rng.random() < 0.5 and n:
        rec.learn()
    else:
        rec.learn_with_optimizer(None, Trial(log, None) if rng.random() < 0.5 else None, max_epoch=n, validate_epoch=int(rng.integers(1, 7)), score_degradation_max=1)
    case.check([x[1] for x in log if x[0] == "epoch"] == list(range(1, n + 1)), "epochs-run", f"{log} expected {n}")
    case.check(not [x for x in log if x[0] in ("validate", "report")], "validated-without-evaluator", f"{log}")
    case.check(rec.trainer.state == [1, n], "model-after-epochs", f"{rec.trainer.state} {n}")
    before = len(log)
    rec.learn()
    case.check(rec.trainer.state == [2, n], "second-training", f"{rec.trainer.state} {n}")
    k = int(rng.integers(1, 6))                    # a validated training in between leaves nothing behind
    rec.learn_with_optimizer(Ev(X, log, [9.0] + [1.0] * k), None, max_epoch=k, validate_epoch=1, score_degradation_max=k + 1)
    case.check(rec.trainer.state == [3, 1], "best-state-not-restored", f"{rec.trainer.state} {k}")
    rec.learn()
    case.check(rec.trainer.state == [4, n], "training-after-validated-training", f"{rec.trainer.state} {n}")
    case.count("events", len(log))
    if n:
        case.seen(n, before)


def real(case):
    """iALS and a real evaluator: the final model is bit for bit the best validated one."""
    import irspack as ir
    rng = case.rng
    n, m = int(rng.integers(8, 40)), int(rng.integers(6, 25))
    X = gen.covered_csr(rng, n, m, 0.3, "ones")
    A, B = ir.rowwise_train_test_split(X, test_ratio=0.5, random_state=int(rng.integers(100)))
    if not B.nnz or not A.nnz:
        return
    log = []

    class Ev(evals.scripted(ir)):
        def measure(self, model):
            s = self.measured(model)
            log.append((s[self.target_metric.name], model.get_score(np.arange(n)).copy(), np.array(model.get_user_embedding()), np.array(model.get_item_embedding())))
            return s
    kw = dict(n_components=int(rng.integers(1, 8)), alpha0=float(gen.pick(rng, [0.01, 0.5])), reg=float(gen.pick(rng, [1e-4, 0.1])), nu=float(rng.integers(2)),
              n_threads=1, random_seed=int(rng.integers(50)), solver_type=gen.pick(rng, ["CG", "CHOLESKY", "IALSPP"]), init_std=float(gen.pick(rng, [0.1, 1.0])))
    ev = Ev(B, cutoff=int(rng.integers(1, 6)), target_metric=gen.pick(rng, ["ndcg", "recall", "map"]), n_threads=1)
    rec = ir.IALSRecommender(A, **kw)
    max_epoch, every, patience = int(rng.integers(3, 14)), int(gen.pick(rng, [1, 2, 3])), int(gen.pick(rng, [1, 2, 4]))
    trial = Trial([], None)
    w = f"{kw} max {max_epoch} every {every} patience {patience}"
    rec.learn_with_optimizer(ev, trial, max_epoch=max_epoch, validate_epoch=every, score_degradation_max=patience)
    scores = [x[0] for x in log]
    epochs, validated, reports, best, _ = expected(scores + [np.nan] * max_epoch, max_epoch, every, patience, None)
    case.check(len(validated) == len(scores), "validated-epochs", f"{len(scores)} validations, expected {validated} {scores} {w}")
    k = validated.index(best)
    case.check(np.array_equal(rec.get_score(np.arange(n)), log[k][1]) and np.array_equal(rec.get_user_embedding(), log[k][2])
               and np.array_equal(rec.get_item_embedding(), log[k][3]), "best-state-not-restored", f"best epoch {best} {scores} {w}")
    case.check(rec.learnt_config["train_epochs"] == best, "best-epoch-not-recorded", f"{rec.learnt_config} {best} {w}")
    if rng.random() < 0.3:                          # trained once more, now without validation
        kept = rec.get_score(np.arange(n)).copy()
        rec.learn()
        whole = ir.IALSRecommender(A, **kw, train_epochs=rec.train_epochs).learn()
        case.check(np.array_equal(rec.get_score(np.arange(n)), whole.get_score(np.arange(n))), "later-training-not-fresh", f"{rec.train_epochs} epochs {w}")
        case.check(np.array_equal(kept, log[k][1]), "best-state-not-restored", w)
    case.check([(a, b) for _, a, b in trial.log] == [(a, b) for a, b in reports], "reports", w)
    # training the recorded number of epochs gives that model
    again = ir.IALSRecommender(A, **kw, train_epochs=best).learn()
    case.check(np.array_equal(again.get_score(np.arange(n)), log[k][1]), "recorded-epochs-do-not-reproduce", f"best epoch {best} {w}")
    case.count("validations", len(scores))
    case.seen(tuple(scores), n, m, every, patience, scores=[round(s, 4) for s in scores], best_epoch=best)


FAMILIES = [("script", script, 700, 40000), ("plain", plain, 60, 2000), ("real", real, 80, 3000)]
