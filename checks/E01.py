"""Metric definitions: evaluator output against a textbook reference computed from the ranking."""
import numpy as np
import scipy.sparse as sps

from vlib import gen, oracle

PROPERTY = "E01"
RULE = ("one case = one score matrix and ground truth evaluated by the real Evaluator at several cutoffs; non-trivial when "
        "some user has ground truth; distinct by sizes, density, dtype, recall variant and cutoffs")
ASSUMPTIONS = ["scores are not NaN; exact comparison uses scores without ties, ties are bounded by the best and worst order",
               "for a user with fewer recommendable items than the cutoff the list length takes the place of the cutoff"]
UNIT = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "catalog_coverage"]


def truth(rng, n, m):
    G = gen.csr(rng, n, m, gen.pick(rng, [0.02, 0.1, 0.4, 0.9, 1.0]), gen.pick(rng, ["ones", "counts", "frac", "odd"]))
    fmt = gen.pick(rng, ["csr", "csc", "int", "unsorted", "f32"])
    if fmt == "csc":
        return G.tocsc(), G
    if fmt == "int":
        H = G.copy()
        H.data = np.ceil(H.data).astype(np.int64)
        return H, G
    if fmt == "unsorted":
        return gen.unsorted(rng, G), G
    if fmt == "f32":
        return G.astype(np.float32), G
    return G, G


def distinct_scores(rng, n, m, dtype):
    s = np.empty((n, m))
    for u in range(n):
        s[u] = rng.permutation(m * 3)[:m]
    scale = gen.pick(rng, [1.0, 0.125, -1.0, 2.0 ** -60, 2.0 ** 40])
    s = gen.fine(rng, ((s - m) * scale).astype(dtype), 0.25 if scale == 1.0 else 0)
    if rng.random() < 0.5:
        s[rng.random((n, m)) < rng.random() * 0.8] = -np.inf
    if rng.random() < 0.2:
        s[int(rng.integers(n))] = -np.inf
    if rng.random() < 0.1:
        s[np.arange(n), rng.integers(0, m, n)] = np.inf
    if rng.random() < 0.15:                        # the lowest score there is, still a score
        s[np.arange(n), rng.integers(0, m, n)] = np.finfo(dtype).min
    return s


def definition(case):
    from irspack import Evaluator
    rng = case.rng
    n, m = gen.size(rng, [1, 2, 9, 40], [129, 300, 1100]), gen.size(rng, [1, 2, 6, 25, 80], [257, 700])
    arg, G = truth(rng, n, m)
    dtype = gen.pick(rng, [np.float64, np.float32])
    s = distinct_scores(rng, n, m, dtype)
    rwc = bool(rng.integers(2))
    cut = gen.cutoffs(rng, m, 3, True) if rng.random() < 0.5 else gen.cutoffs(rng, m, 1)
    kw = dict(recall_with_cutoff=rwc) if rwc or rng.random() < 0.5 else {}
    metric = gen.pick(rng, ["ndcg", "recall", "hit", "map", "precision"])
    before = gen.snapshot(arg), s.tobytes()
    ev = Evaluator(arg, cutoff=cut[0], target_metric=metric, n_threads=int(gen.pick(rng, [1, 2, 3, 4, 16, 40])), **kw)
    got = ev.get_scores_from_score_matrix(s, cut)
    gts = oracle.gt_sets(G)
    for c in cut:
        want = oracle.score_metrics(s, gts, c, recall_with_cutoff=rwc)
        what = f"cutoff={c} n={n} m={m} rwc={rwc} dtype={s.dtype}"
        oracle.compare(case, got, want, "definition", what, suffix=f"@{c}")
        for k in UNIT:
            case.check(-1e-12 <= got[f"{k}@{c}"] <= 1 + 1e-12, f"range-{k}", f"{got[f'{k}@{c}']} {what}")
    one = ev.get_score_from_score_matrix(s)
    want = oracle.score_metrics(s, gts, cut[0], recall_with_cutoff=rwc)
    oracle.compare(case, one, want, "definition")
    case.check(one["valid_user"] == want["valid_user"], "valid-user", f"{one['valid_user']} {want['valid_user']}")

    class Model:
        n_users, n_items = n, m
        X_train_all = sps.csr_matrix((n, m))

        def get_score_block(self, b, e):
            return s[b:e].copy()
    t = ev.get_target_score(Model())
    case.check(abs(t - want[metric]) < 1e-9, "target-score", f"{metric}: {t} {want[metric]}")
    case.check((gen.snapshot(arg), s.tobytes()) == before, "input-modified")
    if G.nnz:
        case.seen(n, m, G.nnz, s.dtype.str, rwc, cut, users=n, items=m, cutoffs=cut, ndcg=want["ndcg"], recall=want["recall"])


def ties(case):
    """One user, tied scores: the reported values must be reachable by some order of the ties."""
    from irspack import Evaluator
    rng = case.rng
    m = int(gen.pick(rng, [2, 6, 25]))
    G = gen.csr(rng, 1, m, 0.4, "ones", holes=False)
    if not G.nnz:
        G = sps.csr_matrix(np.eye(1, m))
    s = rng.integers(0, 4, (1, m)).astype(float)
    if rng.random() < 0.3:
        s[0, rng.random(m) < 0.3] = -np.inf
    c = int(rng.integers(1, m + 1))
    got = Evaluator(G, cutoff=c, n_threads=1).get_score_from_score_matrix(s)
    gt = oracle.gt_sets(G)[0]
    row = s[0]
    lo, hi = {}, {}
    for d, better in ((lo, 1), (hi, -1)):
        order = sorted([i for i in range(m) if row[i] != -np.inf],
                       key=lambda i: (-row[i], better * (1 if i in gt else 0)))
        d.update(oracle.list_metrics([order[:c]], [gt], m))
    for k in ("hit", "precision", "recall", "ndcg", "map"):
        case.check(lo[k] - 1e-9 <= got[k] <= hi[k] + 1e-9, f"ties-{k}", f"{got[k]} not in [{lo[k]}, {hi[k]}]")
    case.seen(m, c, s.tobytes(), items=m, cutoff=c)


def rejected(case):
    from irspack import Evaluator
    rng = case.rng
    n, m = 4, 6
    G = gen.csr(rng, n, m, 0.5, "ones")
    s = rng.normal(size=(n, m))
    for c in (0, -1, m + 1, 10 ** 6):
        case.raises((ValueError, TypeError), lambda: Evaluator(G, cutoff=c, n_threads=1).get_score_from_score_matrix(s),
                    "bad-cutoff", f"cutoff {c}")
        case.raises((ValueError, TypeError), lambda: Evaluator(G, cutoff=1, n_threads=1).get_scores_from_score_matrix(s, [2, c]),
                    "bad-cutoff", f"cutoff {c}")
    case.raises((KeyError, ValueError), lambda: Evaluator(G, target_metric="accuracy"), "bad-target-metric")
    case.seen(G.nnz)


def aggregate(case):
    """Known extremes of the diversity metrics."""
    from irspack import Evaluator
    m = int(case.rng.integers(2, 30))
    G = sps.csr_matrix(np.eye(m))
    ev = Evaluator(G, cutoff=1, n_threads=2)
    perfect = ev.get_score_from_score_matrix(np.eye(m))
    for k in ("hit", "recall", "ndcg", "map", "precision", "catalog_coverage"):
        case.check(abs(perfect[k] - 1) < 1e-12, f"perfect-{k}", str(perfect[k]))
    case.check(abs(perfect["gini_index"]) < 1e-12 and abs(perfect["entropy"] - np.log(m)) < 1e-9
               and perfect["appeared_item"] == m, "perfect-diversity", str(perfect))
    s = np.zeros((m, m))
    s[:, int(case.rng.integers(m))] = 1
    worst = ev.get_score_from_score_matrix(s)
    case.check(abs(worst["gini_index"] - (1 - 1 / m)) < 1e-9 and abs(worst["entropy"]) < 1e-12
               and worst["appeared_item"] == 1 and abs(worst["hit"] - 1 / m) < 1e-9, "one-item-diversity", str(worst))
    case.seen(m)


def wide(case):
    """Tens of thousands of items or users; vectorised reference."""
    from irspack import Evaluator
    rng = case.rng
    n, m = ((2, 70000), (40000, 3), (66000, 2), (120, 66000 + int(rng.integers(4000))), (int(rng.integers(1, 30)), int(rng.integers(300, 5000))))[case.index % 5]
    k = int(rng.integers(1, 5)) if m < 10 else 300 if n > 100 else int(gen.pick(rng, [1, 50, 300, 66000])) if case.index else 66000
    if case.index % 5 == 4:
        k = m - int(rng.integers(0, m // 4))
    k = min(k, m)
    s = np.argsort(rng.random((n, m)), axis=1).astype(gen.pick(rng, [np.float64, np.float32]))
    if rng.random() < 0.5:
        s[rng.random((n, m)) < 0.1] = -np.inf
    D = rng.random((n, m)) < (0.001 if n * m > 1000000 else gen.pick(rng, [0.01, 0.5]))
    D[0, -1] = True
    got = Evaluator(sps.csr_matrix(D.astype(float)), cutoff=k, n_threads=int(rng.integers(1, 9))).get_score_from_score_matrix(s)
    want = oracle.score_metrics(s, [set(np.nonzero(r)[0].tolist()) for r in D], k)
    oracle.compare(case, got, want, "wide", f"cutoff={k} n={n} m={m}")
    case.check(got["valid_user"] == want["valid_user"], "valid-user", f"{got['valid_user']} {want['valid_user']}")
    case.seen(n, m, k, int(D.sum()), users=n, items=m, cutoff=k)


FAMILIES = [("definition", definition, 500, 15000), ("ties", ties, 150, 4000), ("wide", wide, 15, 120),
            ("rejected", rejected, 2, 5), ("aggregate", aggregate, 10, 60)]
