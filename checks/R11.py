"""Saved and reloaded models, evaluators and training states against the live object."""
import copy
import os
import pickle
import subprocess
import sys
from io import BytesIO

import numpy as np
import scipy.sparse as sps

from checks.R07 import feature
from vlib import gen, models

PROPERTY = "R11"
RULE = ("one case = one object saved and loaded through a random chain of pickle protocols and deep copies (or another process), or one random history of "
        "training, saving and restoring; non-trivial when the scores are not constant; distinct by class, settings, chain or history")
ASSUMPTIONS = ["BPR-FM and Mult-VAE need lightfm and jax, which are not installed: their wrappers are not run",
               "restoring a training state restores what determines scores; the epoch counter is not part of it"]


def chain(rng, obj, n=None):
    """Save and load several times in a row."""
    steps = []
    for _ in range(n or int(rng.integers(1, 4))):
        k = int(rng.integers(2, 8))
        if k == 6:
            obj = copy.deepcopy(obj)
        elif k == 7:
            b = BytesIO()
            pickle.Pickler(b, protocol=pickle.HIGHEST_PROTOCOL).dump([obj, obj])
            b.seek(0)
            obj = pickle.load(b)[int(rng.integers(2))]
        else:
            obj = pickle.loads(pickle.dumps(obj, protocol=min(k, pickle.HIGHEST_PROTOCOL)))
        steps.append(k)
    return obj, tuple(steps)


def dense(x):
    return np.asarray(x.toarray() if sps.issparse(x) else x, dtype=float)


def attributes(rec):
    """Public settings of a recommender in comparable form."""
    out = {}
    for k, v in vars(rec).items():
        if k.startswith("_") or k in ("trainer", "decomposer"):
            continue
        if sps.issparse(v):
            v = ("sparse", v.shape, v.dtype.str, dense(v).tobytes())
        elif isinstance(v, np.ndarray):
            v = ("array", v.shape, v.dtype.str, v.tobytes())
        elif not isinstance(v, (int, float, str, bool, bytes, type(None), dict, list, tuple)):
            v = str(v)
        out[k] = v
    return out


def answers(rec, name, Q, Fq=None):
    """Everything a user reads from a trained model."""
    n = rec.n_users
    out = [rec.get_score(np.arange(n)[::-1]), rec.get_score_remove_seen(np.arange(n))]
    for f in (lambda: rec.get_score_block(0, n), lambda: rec.get_score_remove_seen_block(n // 2, n),
              lambda: rec.get_score_cold_user(Q), lambda: rec.get_score_cold_user_remove_seen(Q)):
        try:
            out.append(f())
        except NotImplementedError:
            out.append(np.zeros(0))
    if hasattr(rec, "get_user_embedding"):
        out += [rec.get_user_embedding(), rec.get_item_embedding(), rec.get_score_from_user_embedding(rec.get_user_embedding())]
    if name == "IALSRecommender":
        out += [rec.compute_user_embedding(Q), rec.compute_item_embedding(sps.csr_matrix(rec.X_train_all[:, :2]))]
        if Fq is not None and Fq[0] is not None:
            out += [rec.compute_user_embedding_from_features(Fq[0]), rec.compute_user_embedding(Q, Fq[0])]
        if Fq is not None and Fq[1] is not None:
            out += [rec.compute_item_embedding_from_features(Fq[1]), rec.get_score_cold_user_with_item_features(Q, Fq[1])]
    return [np.array(dense(x)) for x in out]


def same(case, a, b, mech, w, exact=True):
    case.check(len(a) == len(b), mech, w)
    for k, (x, y) in enumerate(zip(a, b)):
        if exact:
            case.check(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), mech, lambda: f"answer {k} differs by {np.nanmax(np.abs(np.where(x == y, 0, x - y))) if x.shape == y.shape else (x.shape, y.shape)} {w}")
        else:
            case.close(x, y, mech, rtol=1e-4, atol=1e-5, message=f"answer {k} {w}")


def make(rng, name):
    n, m = gen.size(rng, [2, 7, 20], [150]), gen.size(rng, [3, 9, 25], [140])
    X = gen.covered_csr(rng, n, m, 0.3, gen.pick(rng, ["ones", "counts", "frac"]))
    kw = models.params(rng, name, (n, m))
    Fq = None
    if "n_threads" in kw:
        kw["n_threads"] = 1
    extra = {}
    if name == "IALSRecommender" and rng.random() < 0.4:
        d = int(rng.integers(1, 4))
        kw["solver_type"] = gen.pick(rng, ["CG", "CHOLESKY"])
        kw.update(lambda_user_feature=0.3, lambda_item_feature=2.0, feature_warmup_epochs=int(rng.integers(2)))
        extra = dict(user_features=feature(rng, n, d, "normal"), item_features=feature(rng, m, d + 1, "normal"))
        Fq = feature(rng, 2, d, "normal"), feature(rng, 3, d + 1, "normal")
        side = int(rng.integers(4))          # features for one side only, or for both
        if side < 2:
            extra[("user_features", "item_features")[side]] = None
            Fq = (None, Fq[1]) if side == 0 else (Fq[0], None)
        if rng.random() < 0.5 and side != 0:
            extra["user_features"] = sps.csr_matrix(extra["user_features"])
    Q = gen.csr(rng, 2, m, 0.4, "ones")
    return X, kw, extra, Q, Fq


def model(case, name):
    rng = case.rng
    X, kw, extra, Q, Fq = make(rng, name)
    mk = models.cls(name)
    rec = mk(X, **kw, **extra)
    w = f"{name} {kw} features={sorted(k for k in extra if extra[k] is not None)} {X.shape}"
    fresh = pickle.dumps(rec)
    rec.learn()
    base, attr = answers(rec, name, Q, Fq), attributes(rec)
    got, steps = chain(rng, rec)
    case.check(type(got) is type(rec), "class-changed", w)
    case.check(attributes(got) == attr, "attributes-changed", lambda: f"{[k for k in attr if attributes(got).get(k) != attr[k]]} {w}")
    same(case, answers(got, name, Q, Fq), base, "loaded-model-differs", f"{steps} {w}")
    # in another order of calls, and the original is as it was
    if hasattr(got, "get_item_embedding"):
        got.get_item_embedding()
    same(case, answers(chain(rng, got)[0], name, Q, Fq), base, "reloaded-model-differs", w)
    same(case, answers(rec, name, Q, Fq), base, "saving-changed-model", w)
    # a model saved before training trains to the same
    early = pickle.loads(fresh).learn()
    same(case, answers(early, name, Q, Fq), base, "untrained-copy-trains-differently", w, exact=name != "NMFRecommender")
    # loading and training again
    again = pickle.loads(pickle.dumps(rec)).learn()
    same(case, answers(again, name, Q, Fq), base, "loaded-model-retrains-differently", w, exact=name != "NMFRecommender")
    # copies do not share state
    if name == "IALSRecommender":
        same(case, answers(got, name, Q, Fq), base, "copies-share-state", w)
        case.raises((ValueError, RuntimeError), got.run_epoch, "training-without-interactions", w)
        rec.run_epoch()
        same(case, answers(got, name, Q, Fq), base, "copies-share-state", w)
    case.count("loads", 4 + len(steps))
    if np.ptp(base[0]) > 0:
        case.seen(name, tuple(sorted(map(str, kw.items()))), X.shape, X.nnz, steps, recommender=name, settings=kw, chain=list(steps), shape=list(X.shape))


def history(case):
    """Random training histories; every saved state must come back bit for bit."""
    import irspack as ir
    rng = case.rng
    X, kw, extra, Q, Fq = make(rng, "IALSRecommender")
    rec = ir.IALSRecommender(X, **kw, **extra)
    w = f"{kw} features={sorted(k for k in extra if extra[k] is not None)} {X.shape}"
    for f in (rec.run_epoch, rec.save_state, rec.load_state):
        case.raises(RuntimeError, f, "state-before-training", w)
    rec.start_learning()
    case.raises(RuntimeError, rec.load_state, "load-without-save", w)
    rec.run_epoch()
    look = lambda: answers(rec, "IALSRecommender", Q, Fq)
    saved, kept, ops = None, [], []
    for _ in range(14):
        op = gen.pick(rng, ["epoch", "epoch", "epoch", "save", "load", "keep", "back", "restart", "ask", "pickle"])
        ops.append(op)
        if op == "epoch":
            rec.run_epoch()
        elif op == "save":
            rec.save_state()
            saved = look()
        elif op == "load" and saved is not None:
            rec.load_state()
            same(case, look(), saved, "restored-state-differs", f"{ops} {w}")
            case.count("restores")
        elif op == "keep":                       # the trainer's own stream interface
            b = BytesIO()
            rec.trainer.save_state(b)
            kept.append((b.getvalue(), look()))
        elif op == "back" and kept:
            data, want = kept[int(rng.integers(len(kept)))]
            rec.trainer.load_state(BytesIO(data))
            same(case, look(), want, "restored-stream-differs", f"{ops} {w}")
            case.count("restores")
        elif op == "restart":
            rec.start_learning()
            rec.run_epoch()
        elif op == "ask":
            look()
        elif op == "pickle" and saved is not None:
            other = pickle.loads(pickle.dumps(rec))
            same(case, answers(other, "IALSRecommender", Q, Fq), look(), "loaded-model-differs", f"{ops} {w}")
            other.load_state()
            same(case, answers(other, "IALSRecommender", Q, Fq), saved, "restored-state-differs-after-pickle", f"{ops} {w}")
            case.count("restores")
    # training on from a restored state repeats what was trained from it the first time
    if kw.get("feature_warmup_epochs", 0) == 0:
        rec.save_state()
        rec.run_epoch()
        first = look()
        rec.run_epoch()
        rec.load_state()
        rec.run_epoch()
        same(case, look(), first, "training-on-from-restored-state-differs", f"{ops} {w}")
    case.seen(tuple(ops), tuple(sorted(map(str, kw.items()))), X.nnz, history=ops, settings=kw)


def evaluators(case):
    import irspack
    from irspack import Evaluator, EvaluatorWithColdUser
    rng = case.rng
    n, m = int(rng.integers(3, 25)), int(rng.integers(4, 20))
    G = gen.covered_csr(rng, n, m, 0.3, "ones")
    S = np.round(rng.normal(size=(n, m)), 1)
    kw = dict(cutoff=int(rng.integers(1, m)), n_threads=int(rng.integers(1, 4)), mb_size=int(gen.pick(rng, [1, 3, 128])),
              target_metric=gen.pick(rng, ["ndcg", "recall", "map", "hit", "precision"]), recall_with_cutoff=bool(rng.integers(2)))
    mode = int(rng.integers(4))
    some = [int(i) for i in rng.permutation(m)[: m // 2 + 1]]
    if mode == 1:
        kw["recommendable_items"] = some
    elif mode == 2:
        kw["per_user_recommendable_items"] = [[int(i) for i in rng.permutation(m)[: int(rng.integers(1, m + 1))]] for _ in range(n)]
    elif mode == 3:
        kw["masked_interactions"] = gen.csr(rng, n, m, 0.2, "ones")
    cut = sorted({kw["cutoff"], 1, m})
    if rng.random() < 0.5:
        ev = Evaluator(G, **kw)
        rec = irspack.CosineKNNRecommender(gen.covered_csr(rng, n, m, 0.3), n_threads=1).learn()
    else:
        ev = EvaluatorWithColdUser(gen.covered_csr(rng, n, m, 0.3), G, **kw)
        rec = irspack.DenseSLIMRecommender(gen.covered_csr(rng, n + 3, m, 0.3)).learn()
    ask = lambda e: (dict(e.get_scores(rec, cut)), dict(e.get_score(rec)), e.get_target_score(rec), e.target_metric.name, e.cutoff)
    before = rng.random() < 0.5
    base = ask(ev) if before else None
    got, steps = chain(rng, ev)
    if base is None:
        base = ask(ev)
    w = f"{type(ev).__name__} mode {mode} {n}x{m} {steps}"

    def flat(a):
        return [*a[0].values(), *a[1].values(), a[2]], [*a[0], *a[1], a[3], a[4]]
    for e, mech in ((got, "loaded-evaluator-differs"), (ev, "saving-changed-evaluator"), (chain(rng, got)[0], "reloaded-evaluator-differs")):
        v, names = flat(ask(e))
        bv, bn = flat(base)
        case.check(names == bn, mech, w)
        case.close(v, bv, mech, rtol=1e-9, atol=1e-12, message=w)
    core = pickle.loads(pickle.dumps(ev.core))
    case.close(dense(core.get_ground_truth()), dense(ev.core.get_ground_truth()), "ground-truth-changed", message=w)
    case.count("loads", len(steps) + 2)
    case.seen(type(ev).__name__, mode, n, m, G.nnz, steps, before, evaluator=type(ev).__name__, mode=mode, chain=list(steps))


def configs(case):
    from irspack.recommenders import _ials_core as c
    rng = case.rng
    mc = c.IALSModelConfig(int(rng.integers(1, 300)), *(float(np.float32(rng.random())) for _ in range(4)), int(rng.integers(10 ** 6)),
                           gen.pick(rng, [c.LossType.ORIGINAL, c.LossType.IALSPP]), *(float(np.float32(rng.random())) for _ in range(2)), int(rng.integers(50)))
    sc = c.IALSSolverConfig(int(rng.integers(1, 30)), gen.pick(rng, [c.SolverType.CG, c.SolverType.CHOLESKY, c.SolverType.IALSPP]), *(int(gen.pick(rng, [0, 1, int(rng.integers(100)), 2 ** 31 + 5])) for _ in range(3)))
    args = dict(K=int(rng.integers(1, 9)), alpha0=0.25, reg=0.5, nu=0.75, init_stdev=0.125, random_seed=int(rng.integers(99)),
                loss_type=gen.pick(rng, [c.LossType.ORIGINAL, c.LossType.IALSPP]), lambda_user_feature=1.5, lambda_item_feature=2.5, feature_warmup_epochs=int(rng.integers(9)))
    b = c.IALSModelConfigBuilder()
    for k in rng.permutation(list(args)):
        b = getattr(b, "set_" + str(k))(args[str(k)])
    built = b.build().__getstate__()
    case.check(tuple(built) == tuple(args.values()), "builder-loses-setting", f"{built} {args}")
    sargs = dict(n_threads=int(rng.integers(1, 9)), solver_type=gen.pick(rng, [c.SolverType.CG, c.SolverType.CHOLESKY]), max_cg_steps=int(rng.integers(30)),
                 ialspp_subspace_dimension=int(rng.integers(30)), ialspp_iteration=int(rng.integers(30)))
    b = c.IALSSolverConfigBuilder()
    for k in rng.permutation(list(sargs)):
        b = getattr(b, "set_" + str(k))(sargs[str(k)])
    case.check(tuple(b.build().__getstate__()) == tuple(sargs.values()), "builder-loses-setting", f"{sargs}")
    for o in (mc, sc):
        got, steps = chain(rng, o)
        case.check(type(got) is type(o) and got.__getstate__() == o.__getstate__(), "config-changed", f"{o.__getstate__()} {got.__getstate__()}")
    for e in (c.LossType.ORIGINAL, c.LossType.IALSPP, c.SolverType.CG, c.SolverType.CHOLESKY, c.SolverType.IALSPP):
        case.check(pickle.loads(pickle.dumps(e)) == e, "enum-changed", str(e))
    # the native trainer itself, also from the state written by earlier versions
    n, m, K = int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(1, 5))
    X = gen.covered_csr(rng, n, m, 0.5).astype(np.float32)
    cfg = c.IALSModelConfig(K, 0.2, 0.1, 0.5, 0.1, 3, c.LossType.IALSPP, 0.0, 0.0, 0)
    s1 = c.IALSSolverConfig(1, c.SolverType.CHOLESKY, 3, 64, 1)
    t = c.IALSTrainer(cfg, X)
    t.step(s1)
    state = t.__getstate__()
    for st in (state, state[:3]):
        o = c.IALSTrainer.__new__(c.IALSTrainer)
        o.__setstate__(st)
        case.check(np.array_equal(o.user, t.user) and np.array_equal(o.item, t.item), "native-state-differs", f"{len(st)} entries")
        case.check(np.array_equal(o.user_scores(0, n, s1), t.user_scores(0, n, s1)) and np.array_equal(o.transform_user(X, s1), t.transform_user(X, s1)), "native-state-differs", f"{len(st)} entries")
    for bad in (state[:2], state[:4], ()):
        o = c.IALSTrainer.__new__(c.IALSTrainer)
        case.raises((RuntimeError, ValueError, TypeError), lambda: o.__setstate__(bad), "bad-state-accepted", f"{len(bad)} entries")
    case.seen(mc.__getstate__()[0], sc.__getstate__(), n, m, K)


CHILD = """
import pickle, sys
import numpy as np
from vlib import loader
loader.install(__import__('os').environ['VERIF_EXT_DIR'])
from checks import R11
with open(sys.argv[1], 'rb') as fh:
    recs = pickle.load(fh)
out = []
for name, blob, Q, Fq in recs:
    out.append(R11.answers(pickle.loads(blob), name, Q, Fq))
with open(sys.argv[2], 'wb') as fh:
    pickle.dump(out, fh)
"""


def process(case):
    """Saved to a file and loaded by another process."""
    rng = case.rng
    todo, base = [], []
    for name in models.ALL:
        X, kw, extra, Q, Fq = make(rng, name)
        rec = models.cls(name)(X, **kw, **extra).learn()
        base.append(answers(rec, name, Q, Fq))
        todo.append((name, pickle.dumps(rec), Q, Fq))
    d = os.environ["TMPDIR"]
    a, b = os.path.join(d, "r11-in"), os.path.join(d, "r11-out")
    with open(a, "wb") as fh:
        pickle.dump(todo, fh)
    subprocess.run([sys.executable, "-c", CHILD, a, b], check=True, timeout=280, stdout=subprocess.DEVNULL)
    with open(b, "rb") as fh:
        out = pickle.load(fh)
    for (name, *_), g, w in zip(todo, out, base):
        same(case, g, w, "other-process-differs", name)
    case.count("loads", len(todo))
    case.seen(int(rng.integers(10 ** 9)))


FAMILIES = [(x, (lambda y: lambda c: model(c, y))(x), 60 if x == "IALSRecommender" else 20, 1500 if x == "IALSRecommender" else 500) for x in models.ALL] + [
    ("history", history, 80, 4000), ("evaluators", evaluators, 80, 4000), ("configs", configs, 30, 1000), ("process", process, 1, 10)]
