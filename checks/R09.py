"""The same work under different thread counts, chunk sizes, schedules and repetitions."""
import os

import numpy as np
import pandas as pd
import scipy.sparse as sps

from vlib import gen, models

PROPERTY = "R09"
RULE = ("one case = one operation run once with one thread on one processor and then under 3-6 other thread counts, chunk or block sizes and processor "
        "affinities; non-trivial when the result is not constant; distinct by operation, sizes and the set of schedules tried")
ASSUMPTIONS = ["results may differ by rounding where threads add up partial sums; SLIM is compared where its optimum is sharp",
               "ties in a ranking are avoided where the order among them is not specified"]
CPUS = sorted(os.sched_getaffinity(0))


def threads(rng, rows):
    return int(gen.pick(rng, [2, 3, 4, 5, 8, 17, rows, rows + 1, rows + 40]))


class schedule:
    """Run on a random set of processors, for other interleavings of the workers."""

    def __init__(self, rng):
        k = int(gen.pick(rng, [1, 2, len(CPUS), len(CPUS)]))
        self.cpus = [int(c) for c in rng.permutation(CPUS)[:k]]

    def __enter__(self):
        os.sched_setaffinity(0, self.cpus)
        return len(self.cpus)

    def __exit__(self, *a):
        os.sched_setaffinity(0, CPUS)


def dense(x):
    return np.asarray(x.toarray() if sps.issparse(x) else x, dtype=float)


def model(case, name):
    rng = case.rng
    n, m = int(gen.pick(rng, [1, 2, 15, 16, 17, 33, 64, 65, 100, int(rng.integers(1, 180))])), int(gen.pick(rng, [2, 5, 16, 17, 40, 130]))
    X = gen.covered_csr(rng, n, m, gen.pick(rng, [0.08, 0.3]), gen.pick(rng, ["ones", "counts", "frac"]))
    kw = models.params(rng, name, (n, m))
    tol = dict(rtol=1e-9, atol=1e-12)
    if name == "IALSRecommender":
        kw.update(solver_type=gen.pick(rng, ["CHOLESKY", "CG", "IALSPP"]), reg=float(gen.pick(rng, [0.05, 0.5])), train_epochs=2, n_components=4)
        tol = dict(rtol=5e-3, atol=5e-3)
    if name == "SLIMRecommender":
        if n < 33 or m > 40:
            n, m = 65, 40
        X = gen.covered_csr(rng, n, m, gen.pick(rng, [0.08, 0.3]), gen.pick(rng, ["ones", "frac"]))
        kw.update(alpha=1.0, l1_ratio=0.1, tol=1e-7, n_iter=400, top_k=None)
        tol = dict(rtol=0, atol=3e-3)
    mk = models.cls(name)

    def result(t):
        rec = mk(X, **{**kw, "n_threads": t}).learn()
        S = dense(rec.get_score(np.arange(n)))
        B = dense(rec.get_score_block(0, n))
        W = dense(rec.W) if name in models.SIMILARITY else dense(rec.U) if name in models.USER_KNN else S
        return S, B, W
    base = result(1)
    tried = []
    for _ in range(3):
        t = threads(rng, max(n, m))
        with schedule(rng) as cpus:
            got = result(t)
        tried.append((t, cpus))
        for k, (g, b) in enumerate(zip(got, base)):
            case.close(g, b, "threads-change-" + ("scores", "block-scores", "weights")[k], **tol, message=f"{t} threads, {cpus} cpus {name} {kw} {n}x{m}")
    case.count("schedules", len(tried))
    if np.ptp(base[0]) > 0:
        case.seen(name, n, m, tuple(tried), tuple(sorted(map(str, kw.items()))), recommender=name, shape=[n, m], threads_and_cpus=tried)


def computers(case):
    from irspack.recommenders import _knn
    rng = case.rng
    n, m, q = int(gen.pick(rng, [1, 7, 64, 129])), int(gen.pick(rng, [3, 20, 64])), int(gen.pick(rng, [1, 5, 63, 64, 65, 130, int(rng.integers(1, 300))]))
    X = gen.csr(rng, n, m, 0.3, gen.pick(rng, ["counts", "frac"]))
    Q = gen.csr(rng, q, m, 0.3, gen.pick(rng, ["counts", "frac"]))
    k = int(gen.pick(rng, [1, 3, 1000]))
    which = gen.pick(rng, ["cos", "asym", "jac", "tve", "p3", "rp3"])
    s = 0.5

    def run(t, c):
        if which == "cos":
            o = _knn.CosineSimilarityComputer(X, s, True, t, c)
        elif which == "asym":
            o = _knn.AsymmetricSimilarityComputer(X, s, 0.3, t, c)
        elif which == "jac":
            o = _knn.JaccardSimilarityComputer(X, s, t, c)
        elif which == "tve":
            o = _knn.TverskyIndexComputer(X, s, 0.3, 1.2, t, c)
        elif which == "p3":
            return _knn.P3alphaComputer(X, 0.8, t, c).compute_W(X.copy(), k)
        else:
            return _knn.RP3betaComputer(X, 0.8, 0.4, t, c).compute_W(X.copy(), k)
        return o.compute_similarity(Q, k)
    base = dense(run(1, 100000))
    tried = []
    for _ in range(6):
        t, c = threads(rng, max(n, q)), int(gen.pick(rng, [1, 2, 3, 7, 16, 63, 64, 65, 128, 1000]))
        with schedule(rng) as cpus:
            got = dense(run(t, c))
        tried.append((t, c, cpus))
        case.close(got, base, "chunks-change-similarity", rtol=1e-9, atol=1e-12, message=f"{which} threads={t} chunk={c} {X.shape} {Q.shape} k={k}")
    case.count("schedules", len(tried))
    if base.any():
        case.seen(which, n, m, q, k, tuple(tried), similarity=which, threads_chunk_cpus=tried)


def evaluation(case):
    from irspack import Evaluator
    rng = case.rng
    n, m = int(gen.pick(rng, [1, 9, 40, 127, 128, 129, 300, int(rng.integers(1, 400))])), int(gen.pick(rng, [4, 15, 50]))
    G = gen.csr(rng, n, m, 0.2, "ones")
    if not G.nnz:
        return
    S = np.round(rng.normal(size=(n, m)), 2) if rng.random() < 0.5 else rng.normal(size=(n, m))
    kw = dict(cutoff=min(m, int(gen.pick(rng, [1, 3, 10]))))
    import irspack

    class Fixed(irspack.BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, idx):
            return S[idx].copy()

        def get_score_block(self, b, e):
            return S[b:e].copy()
    rec = Fixed(sps.csr_matrix((n, m)))
    cut = [kw["cutoff"], m]
    base = Evaluator(G, n_threads=1, mb_size=100000, **kw).get_scores(rec, cut)
    tried = []
    for _ in range(4):
        t, b = threads(rng, n), int(gen.pick(rng, [1, 2, 7, 64, 128, 129, n, n + 1]))
        with schedule(rng) as cpus:
            got = Evaluator(G, n_threads=t, mb_size=b, **kw).get_scores(rec, cut)
        tried.append((t, b, cpus))
        case.check(list(got) == list(base), "metric-names")
        case.close(list(got.values()), list(base.values()), "threads-change-metrics", rtol=1e-9, atol=1e-12, message=f"threads={t} block={b} {n}x{m}")
    case.count("schedules", len(tried))
    case.seen(n, m, tuple(tried), G.nnz, threads_block_cpus=tried, shape=[n, m])


def ranking(case):
    from irspack.utils import _util_cpp as u
    from irspack.utils.id_mapping import ItemIDMapper
    rng = case.rng
    n, m = int(gen.pick(rng, [1, 5, 33, 200, int(rng.integers(1, 400))])), int(gen.pick(rng, [1, 6, 30]))
    S = np.array([rng.permutation(m) for _ in range(n)], dtype=float)
    S[rng.random(S.shape) < 0.1] = -np.inf
    mode = int(rng.integers(3))
    allowed = [] if mode == 0 else [[int(i) for i in rng.permutation(m)[: m // 2 + 1]]] if mode == 1 else [[int(i) for i in rng.permutation(m)[: int(rng.integers(m + 1))]] for _ in range(n)]
    k = int(gen.pick(rng, [0, 1, 4, m, m + 5]))
    run = lambda t: u.retrieve_recommend_from_score_f64(S, allowed, k, t)
    base = run(1)
    tried = []
    for _ in range(4):
        t = threads(rng, n)
        with schedule(rng) as cpus:
            got = run(t)
        tried.append((t, cpus))
        case.check([[tuple(x) for x in r] for r in got] == [[tuple(x) for x in r] for r in base], "threads-change-ranking", f"{t} threads {n}x{m} k={k} mode {mode}")
    ids = [f"i{j}" for j in range(m)]
    mapper = ItemIDMapper(ids)
    a = mapper.score_to_recommended_items_batch(S, k, n_threads=1)
    b = mapper.score_to_recommended_items_batch(S, k, n_threads=threads(rng, n))
    case.check(a == b, "threads-change-recommendation", f"{n}x{m} k={k}")
    case.count("schedules", len(tried))
    case.seen(n, m, k, mode, tuple(tried), threads_and_cpus=tried, shape=[n, m])


def product(case):
    from irspack.utils import _util_cpp as u
    rng = case.rng
    n, k, m = int(gen.pick(rng, [1, 15, 16, 17, 70, int(rng.integers(1, 400))])), int(gen.pick(rng, [1, 9, 40])), int(gen.pick(rng, [1, 12]))
    A, B = gen.csr(rng, n, k, 0.3, "signed"), gen.csr(rng, k, m, 0.4, "signed").tocsc()
    want = A.toarray() @ B.toarray()
    tried = []
    for _ in range(5):
        t = threads(rng, n)
        with schedule(rng) as cpus:
            got = u.sparse_mm_threaded(A, B, t)
        tried.append((t, cpus))
        case.close(got, want, "threads-change-product", rtol=1e-9, atol=1e-12, message=f"{t} threads {n}x{k}x{m}")
    if want.any():
        case.seen(n, k, m, tuple(tried), threads_and_cpus=tried, shape=[n, k, m])


def repetition(case):
    """Seeded operations repeat, whatever ran in between and whatever the global seed."""
    import irspack
    from irspack import rowwise_train_test_split
    from irspack.split import holdout_specific_interactions, split_dataframe_partial_user_holdout
    rng = case.rng
    X = gen.csr(rng, 20, 15, 0.4, "frac")
    df = gen.log_frame(rng, 25, 12, 200, dup=False)
    seed = int(rng.integers(1000))

    def ops():
        a, b = rowwise_train_test_split(X, test_ratio=0.4, random_state=seed)
        c, d = rowwise_train_test_split(X, n_test=2, random_state=seed)
        out = [a.toarray(), b.toarray(), c.toarray(), d.toarray()]
        ds, items = split_dataframe_partial_user_holdout(df, "user", "item", val_user_ratio=0.3, test_user_ratio=0.3, random_state=seed)
        for k in ("train", "val", "test"):
            out += [ds[k].X_train.toarray(), repr(ds[k].user_ids), ds[k].X_test.toarray() if ds[k].X_test is not None else 0]
        out.append(repr(list(items)))
        h = df["rid"].values % 5 == 0
        items, ds = holdout_specific_interactions(df, "user", "item", h, validatable_user_ratio_val=0.3, validatable_user_ratio_test=0.3, random_state=seed)
        for k in ("train", "val", "test"):
            out += [ds[k].X_train.toarray(), repr(ds[k].user_ids), ds[k].X_test.toarray() if ds[k].X_test is not None else 0]
        for name in ("IALSRecommender", "TruncatedSVDRecommender", "SLIMRecommender", "NMFRecommender"):
            kw = dict(n_components=3) if name != "SLIMRecommender" else {}
            if name == "IALSRecommender":
                kw.update(n_threads=1, train_epochs=2, alpha0=0.1, random_seed=seed)
            if name == "SLIMRecommender":
                kw.update(n_threads=1)
            if name == "TruncatedSVDRecommender":
                kw.update(random_seed=seed)
            out.append(dense(models.cls(name)(X, **kw).learn().get_score(np.arange(20))))
        return out
    first = ops()
    for r in range(2):
        np.random.seed(int(rng.integers(10 ** 6)))
        np.random.random(7)
        second = ops()
        for k, (x, y) in enumerate(zip(first, second)):
            same = np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y
            case.check(same or isinstance(x, np.ndarray) and np.allclose(x, y, rtol=1e-6, atol=1e-9), "repetition-differs", f"output {k} seed {seed}")
    case.count("repetitions", 2)
    case.seen(seed, X.nnz)


def retrain(case):
    """Training again, on the same object or a new one, with other models trained in between, gives the same model."""
    import warnings
    rng = case.rng
    name = models.ALL[case.index % len(models.ALL)]
    mk = models.cls(name)
    n, m = int(rng.integers(60, 150)), int(rng.integers(50, 120))
    X = gen.covered_csr(rng, n, m, gen.pick(rng, [0.08, 0.3]), gen.pick(rng, ["ones", "counts", "frac"]))
    kw = models.params(rng, name, (n, m))
    if "n_threads" in kw:
        kw["n_threads"] = 1
    if name == "NMFRecommender":
        kw["init"] = gen.pick(rng, [None, "random", "nndsvda", "nndsvdar"])
    C = gen.csr(rng, 3, m, 0.2, "ones")
    what = f"{name} {kw} {n}x{m}"

    def out(rec):
        r = [dense(rec.get_score(np.arange(n)))]
        if name not in models.USER_KNN:
            r.append(dense(rec.get_score_cold_user(C)))
        return r

    def other():
        """Something else of the same class, of another size and setting, and noise in the global generator."""
        Y = gen.covered_csr(rng, int(rng.integers(20, 60)), int(gen.pick(rng, [m, 30])), 0.3, "counts")
        o = mk(Y, **models.params(rng, name, Y.shape)).learn()
        o.get_score(np.arange(2))
        np.random.seed(int(rng.integers(10 ** 6)))
        return o

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec = mk(X, **kw).learn()
        base = out(rec)
        keep = other()
        kept = dense(keep.get_score(np.arange(5)))
        for how in ("scored-again", "learnt-again", "trained-anew"):
            if how == "learnt-again":
                rec.learn()
            elif how == "trained-anew":
                rec = mk(X.copy(), **kw).learn()
            for g, b in zip(out(rec), base):
                case.close(g, b, "repetition-differs", rtol=1e-7, atol=1e-9, message=f"{how} {what}")
        case.close(dense(keep.get_score(np.arange(5))), kept, "other-model-changed", rtol=1e-9, atol=1e-12, message=what)
    case.count("repetitions", 3)
    if np.ptp(base[0]) > 0:
        case.seen("retrain", name, n, m, tuple(sorted(map(str, kw.items()))), recommender=name, shape=[n, m])


def thread_setting(case):
    """Explicit argument, else environment, else processors; garbage is rejected."""
    from unittest import mock

    import irspack
    from irspack import Evaluator
    from irspack._threading import get_n_threads
    rng = case.rng
    X = gen.covered_csr(rng, 6, 5, 0.4)
    G = gen.covered_csr(rng, 6, 5, 0.3)
    var = "IRSPACK_NUM_THREADS_DEFAULT"
    names = [x for x in models.ALL if x not in ("TopPopRecommender", "NMFRecommender", "TruncatedSVDRecommender", "DenseSLIMRecommender", "EDLAERecommender")]
    old = os.environ.pop(var, None)
    try:
        for env in (None, str(int(rng.integers(1, 60))), f" {int(rng.integers(1, 9))} "):
            if env is not None:
                os.environ[var] = env
            want = int(env) if env is not None else (os.cpu_count() or 1)
            case.check(get_n_threads(None) == want, "default-thread-count", f"{env!r}: {get_n_threads(None)}")
            for e in (1, 3, 41):
                case.check(get_n_threads(e) == e, "explicit-thread-count", f"{env!r} {e}: {get_n_threads(e)}")
            for n in names:
                case.check(models.cls(n)(X).n_threads == want, "model-default-threads", f"{n} {env!r}")
                case.check(models.cls(n)(X, n_threads=3).n_threads == 3, "model-explicit-threads", f"{n} {env!r}")
            case.check(Evaluator(G).n_threads == want and Evaluator(G, n_threads=2).n_threads == 2, "evaluator-threads", f"{env!r}")
        with mock.patch.object(os, "cpu_count", return_value=None):
            os.environ.pop(var, None)
            case.check(get_n_threads(None) == 1, "unknown-processor-count")
        for bad in ("many", "2.5", "1e2", "0x4", "4 threads", "None"):
            os.environ[var] = bad
            case.raises(ValueError, lambda: get_n_threads(None), "bad-environment-accepted", bad)
            case.raises(ValueError, lambda: irspack.CosineKNNRecommender(X), "bad-environment-accepted", bad)
            case.check(get_n_threads(2) == 2, "explicit-needs-no-environment", bad)
    finally:
        os.environ.pop(var, None)
        if old is not None:
            os.environ[var] = old
    case.seen(int(rng.integers(10 ** 9)))


THREADED = [x for x in models.ALL if x not in ("TopPopRecommender", "NMFRecommender", "TruncatedSVDRecommender", "DenseSLIMRecommender", "EDLAERecommender")]
FAMILIES = [(x, (lambda y: lambda c: model(c, y))(x), 22, 900) for x in THREADED] + [
    ("computers", computers, 120, 5000), ("evaluation", evaluation, 60, 2500), ("ranking", ranking, 80, 3000), ("product", product, 40, 1500),
    ("repetition", repetition, 8, 250), ("retrain", retrain, 75, 3000), ("thread_setting", thread_setting, 2, 6)]
