"""Evaluation restricted to recommendable items, judged by ranking only the permitted items."""
import numpy as np
import scipy.sparse as sps

from vlib import gen, oracle

PROPERTY = "E03"
RULE = ("one case = one evaluator with a global, per-user (list or sparse) restriction over random scores, ground truth and masks; non-trivial "
        "when the restriction removes at least one item and some permitted ground truth is left; distinct by kind, shape and list sizes")
ASSUMPTIONS = ["scores are not NaN"]


def scores_for(rng, n, m):
    dt = gen.pick(rng, [np.float64, np.float32])
    s = rng.integers(0, 4, (n, m)).astype(dt) if rng.random() < 0.3 else \
        np.stack([rng.permutation(m) for _ in range(n)]).astype(dt) - m // 2
    s = gen.fine(rng, s)
    if rng.random() < 0.4:
        s[rng.random((n, m)) < 0.25] = -np.inf
    return s


def subset(rng, m, size=None):
    k = int(rng.integers(0, m + 1)) if size is None else size
    out = [int(i) for i in rng.choice(m, k, replace=False)]
    return out


def restricted(case):
    from irspack import Evaluator, EvaluatorWithColdUser
    from irspack.recommenders.base import BaseRecommender
    rng = case.rng
    n, m = gen.size(rng, [1, 2, 7, 40], [129, 300]), gen.size(rng, [1, 3, 8, 30], [100, 300])
    S = scores_for(rng, n, m)
    G = gen.csr(rng, n, m, gen.pick(rng, [0.1, 0.3, 0.8]), gen.pick(rng, ["ones", "odd"]))
    gts = oracle.gt_sets(G)
    kind = gen.pick(rng, ["global", "per_list", "per_csr", "per_csc", "per_explicit_zero"])
    kw = {}
    if kind == "global":
        allowed = subset(rng, m)
        kw["recommendable_items"] = list(allowed)
    else:
        allowed = [subset(rng, m, gen.pick(rng, [None, None, 0, 1, m])) for _ in range(n)]
        if kind == "per_list":
            kw["per_user_recommendable_items"] = [list(a) for a in allowed]
        else:
            M = sps.lil_matrix((n, m))
            for u, a in enumerate(allowed):
                for i in a:
                    M[u, i] = gen.values(rng, 1, gen.pick(rng, ["counts", "odd"]))[0]
            M = M.tocsr()
            if kind == "per_explicit_zero":
                # a stored zero is not "nonzero" and permits nothing
                extra = sps.csr_matrix(([1.0] * n, (np.arange(n), rng.integers(m, size=n))), shape=(n, m))
                both = (M + extra).tocoo()
                keep = np.array([int(c) in set(allowed[r]) for r, c in zip(both.row, both.col)], dtype=float)
                M = sps.csr_matrix((keep, (both.row, both.col)), shape=(n, m))
            elif kind == "per_csc":
                M = M.tocsc()
            elif rng.random() < 0.5:
                M = gen.unsorted(rng, M)
            kw["per_user_recommendable_items"] = M
    arg = next(iter(kw.values()))
    before = gen.snapshot(arg)
    masked = gen.csr(rng, n, m, 0.3, gen.pick(rng, ["ones", "odd"])) if rng.random() < 0.5 else None
    full = np.array(S)
    if masked is not None:
        full[masked.nonzero()] = -np.inf
    cut = gen.cutoffs(rng, m, 2)
    rwc = bool(rng.integers(2))
    ev = Evaluator(G, cutoff=cut[0], masked_interactions=masked, recall_with_cutoff=rwc, n_threads=int(gen.pick(rng, [1, 3, 8])),
                   mb_size=int(gen.pick(rng, [1, 3, 128])), **kw)
    want = {c: oracle.score_metrics(full, gts, c, allowed=allowed if allowed else [], recall_with_cutoff=rwc) for c in cut}
    if not allowed:
        want = {c: dict(w, catalog_coverage=float("nan")) for c, w in want.items()}
    what = f"kind={kind} n={n} m={m} masked={masked is not None}"
    got = ev.get_scores_from_score_matrix(S, cut)
    for c in cut:
        oracle.compare(case, got, want[c], "restricted", what, suffix=f"@{c}")
        for k in ("hit", "precision", "recall", "ndcg", "map"):
            case.check(-1e-12 <= got[f"{k}@{c}"] <= 1 + 1e-12, "metric-out-of-range", f"{k}={got[f'{k}@{c}']}")
    case.check(gen.snapshot(arg) == before, "restriction-modified", what)
    # the list the caller passed may be changed afterwards without changing the evaluator
    if isinstance(arg, list):
        arg.clear()
        again = ev.get_scores_from_score_matrix(S, cut)
        case.check(all(again[k] == got[k] or abs(again[k] - got[k]) < 1e-9 or again[k] != again[k] for k in got), "aliasing", what)
    # through a model
    X = masked if masked is not None else gen.csr(rng, n, m, 0.2, "ones")

    class M2(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, idx):
            return S[idx]

        def get_score_cold_user(self, x):
            return np.array(S)
    mdl = M2(X)
    fullm = np.array(S)
    fullm[X.nonzero()] = -np.inf
    kw2 = {"recommendable_items": list(allowed)} if kind == "global" else {"per_user_recommendable_items": [list(a) for a in allowed]}
    w2 = oracle.score_metrics(fullm, gts, cut[0], allowed=allowed if allowed else [], recall_with_cutoff=rwc)
    if not allowed:
        w2["catalog_coverage"] = float("nan")
    oracle.compare(case, Evaluator(G, cutoff=cut[0], recall_with_cutoff=rwc, n_threads=2, mb_size=2, **kw2).get_score(mdl), w2, "model", what)
    oracle.compare(case, EvaluatorWithColdUser(X, G, cutoff=cut[0], recall_with_cutoff=rwc, n_threads=2, **kw2).get_score(mdl),
                   w2, "cold-model", what)
    sizes = len(allowed) if kind == "global" else tuple(sorted({len(a) for a in allowed}))
    left = want[cut[0]]["valid_user"]
    case.count("users_left_in", left)
    case.count("users_left_out", n - left)
    if left and (len(allowed) < m if kind == "global" else any(len(a) < m for a in allowed)):
        case.seen(kind, n, m, sizes, masked is None, rwc, kind=kind, users=n, items=m, users_left_in=left)


def blocks(case):
    """Per-user lists must follow the users through block boundaries."""
    from irspack import Evaluator
    rng = case.rng
    n, m = int(rng.integers(2, 30)), 12
    S = scores_for(rng, n, m)
    G = gen.csr(rng, n, m, 0.4, "ones")
    allowed = [subset(rng, m) for _ in range(n)]
    ev = Evaluator(G, cutoff=4, per_user_recommendable_items=allowed, n_threads=int(rng.integers(1, 6)))
    want = oracle.score_metrics(S, oracle.gt_sets(G), 4, allowed=allowed)
    for _ in range(3):
        edges = [0] + sorted(rng.integers(0, n + 1, 4).tolist()) + [n]
        got = ev.get_score_from_score_chunks([S[b:e] for b, e in zip(edges, edges[1:])])
        oracle.compare(case, got, want, "blocks", f"edges={edges}")
    if want["valid_user"]:
        case.seen(n, tuple(len(a) for a in allowed), users=n)


def wide(case):
    """Item indices that do not fit in sixteen bits."""
    from irspack import Evaluator
    rng = case.rng
    n, m = 3, 66200
    S = np.argsort(rng.random((n, m)), axis=1).astype(gen.pick(rng, [np.float64, np.float32]))
    D = rng.random((n, m)) < 0.05
    D[:, -1] = True
    per = bool(case.index % 2)
    allowed = [sorted(set(rng.integers(0, m, int(rng.integers(2, 3000))).tolist()) | {m - 1}) for _ in range(n)]
    allowed = allowed if per else allowed[0]
    kw = {"per_user_recommendable_items" if per else "recommendable_items": allowed}
    k = int(gen.pick(rng, [1, 20, 66000]))
    got = Evaluator(sps.csr_matrix(D.astype(float)), cutoff=k, n_threads=2, **kw).get_score_from_score_matrix(S)
    want = oracle.score_metrics(S, [set(np.nonzero(r)[0].tolist()) for r in D], k, allowed=allowed)
    oracle.compare(case, got, want, "wide", f"cutoff={k} per_user={per}")
    case.seen(per, k, items=m, cutoff=k)


def permit_all(case):
    from irspack import Evaluator
    rng = case.rng
    n, m = int(gen.pick(rng, [1, 5, 20])), int(gen.pick(rng, [2, 15]))
    S = scores_for(rng, n, m)
    G = gen.csr(rng, n, m, 0.4, "ones")
    cut = int(rng.integers(1, m + 1))
    base = Evaluator(G, cutoff=cut, n_threads=1).get_score_from_score_matrix(S)
    for kw in (dict(recommendable_items=[int(i) for i in rng.permutation(m)]),
               dict(per_user_recommendable_items=[[int(i) for i in rng.permutation(m)] for _ in range(n)]),
               dict(per_user_recommendable_items=sps.csr_matrix(np.ones((n, m)))),
               dict(per_user_recommendable_items=sps.csc_matrix(np.full((n, m), 2)))):
        got = Evaluator(G, cutoff=cut, n_threads=2, **kw).get_score_from_score_matrix(S)
        for k in base:
            case.check(abs(got[k] - base[k]) < 1e-9, "permit-all-changes", f"{k}: {got[k]} vs {base[k]} {list(kw)}")
    if G.nnz:
        case.seen(n, m, cut, users=n, items=m)


def rejected(case):
    from irspack import Evaluator
    rng = case.rng
    n, m = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    G = gen.csr(rng, n, m, 0.6, "ones", holes=False)
    V = (ValueError, TypeError, IndexError, OverflowError)
    full = list(range(m))
    for bad in ([m], [0, m], [m + 100], [2 ** 40], [-1], [0, -1], [0, 0], full + [m - 1], [1, 0, 1], [-m]):
        case.raises(V, lambda: Evaluator(G, recommendable_items=list(bad)), "global-list", f"{bad} of {m} items")
        u = int(rng.integers(n))
        per = [list(full) for _ in range(n)]
        per[u] = list(bad)
        case.raises(V, lambda: Evaluator(G, per_user_recommendable_items=per), "per-user-list", f"user {u}: {bad}")
    for bad in ([list(full)] * (n - 1), [list(full)] * (n + 1), [list(full)], [], sps.csr_matrix(np.ones((n - 1, m))),
                sps.csr_matrix(np.ones((n + 1, m))), sps.csr_matrix(np.ones((n, m + 1)))):
        case.raises(V, lambda: Evaluator(G, per_user_recommendable_items=bad), "per-user-count",
                    str(bad.shape if sps.issparse(bad) else len(bad)))
    case.seen(n, m, users=n, items=m)


FAMILIES = [("restricted", restricted, 400, 15000), ("blocks", blocks, 60, 2000), ("wide", wide, 4, 40), ("permit_all", permit_all, 40, 1000),
            ("rejected", rejected, 8, 60)]
