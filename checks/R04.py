"""Random-walk weights against the dense transition probabilities."""
import numpy as np
import scipy.sparse as sps

from vlib import gen, simoracle as so

PROPERTY = "R04"
RULE = ("one case = one P3alpha/RP3beta model (or bare computer) on a random non-negative matrix, stored zeros included, with random alpha, beta, "
        "top_k, normalisation and threads; non-trivial when some walk exists; distinct by all of these")
ASSUMPTIONS = ["interaction values and their powers do not overflow"]


def transition(D, alpha, beta=None):
    """item -> user -> item, entry (i, j) = sum_u P(u|i) P(j|u) [/ popularity_j^beta]"""
    with np.errstate(all="ignore"):
        Z = np.where(D != 0, np.power(D, alpha, where=D != 0, out=np.zeros_like(D)), 0.0)
        pu = Z / np.where(Z.sum(0) == 0, 1, Z.sum(0))[None, :]          # given item, the user
        pj = Z / np.where(Z.sum(1) == 0, 1, Z.sum(1))[:, None]          # given user, the item
        W = pu.T @ pj
        if beta is not None:
            pop = D.sum(0)
            W = W / np.where(pop == 0, 1, pop)[None, :] ** beta
    return W


def data(rng):
    n, m = gen.size(rng, [1, 3, 9, 30, 80], [150, 500]), gen.size(rng, [1, 2, 6, 20, 150], [300, 1100])
    X = gen.csr(rng, n, m, gen.pick(rng, [0.1, 0.3, 0.7]), gen.pick(rng, ["ones", "counts", "frac", "small"]))
    if rng.random() < 0.3 and X.nnz:
        X.data[rng.random(X.nnz) < 0.3] = 0.0                            # ratings of zero are stored
        if rng.random() < 0.5:
            u = int(rng.integers(n))
            X.data[X.indptr[u]:X.indptr[u + 1]] = 0.0
    if rng.random() < 0.15:
        X.data *= float(10.0 ** rng.integers(-12, 7))                    # the unit of the weights is the user's
    return X, n, m


def models(case):
    import irspack as ir
    rng = case.rng
    X, n, m = data(rng)
    rp = bool(rng.integers(2))
    alpha = gen.real(rng, [1.0, 1.0, 0.0, 0.3, 2.5], 0.01, 4)
    beta = gen.real(rng, [0.0, 0.3, 0.6, 1.0, 2.0], 1e-4, 3) if rp else None
    top_k = gen.pick(rng, [None, None, 0, 1, 2, 5, 30, 1000])
    norm = bool(rng.integers(2))
    kw = dict(alpha=alpha, top_k=top_k, normalize_weight=norm, n_threads=int(gen.pick(rng, [1, 2, 8, 40])))
    if rp:
        kw["beta"] = beta
    A = X.tocsc() if rng.random() < 0.3 else X
    snap = gen.snapshot(A)
    rec = (ir.RP3betaRecommender if rp else ir.P3alphaRecommender)(A, **kw).learn()
    case.check(gen.snapshot(A) == snap, "input-modified")
    got = rec.W.toarray()
    full = transition(X.toarray(), alpha, beta)
    what = f"rp={rp} {kw} {n}x{m} nnz={X.nnz}"
    case.check(np.isfinite(got).all(), "not-finite", what)
    case.check((got >= 0).all(), "negative", what)
    k = m if top_k is None else top_k
    if not norm:
        so.check_topk_rows(case, got.T, full.T, k, "walk", False, what=what)
        if not rp:
            case.check((got.sum(1) <= 1 + 1e-9).all(), "more-than-a-probability", what)
            if k >= m:
                some = np.asarray((X.toarray() != 0).any(0))
                case.close(got.sum(1)[some], np.ones(int(some.sum())), "rows-sum-to-one", message=what)
    else:
        raw = (ir.RP3betaRecommender if rp else ir.P3alphaRecommender)(A, **dict(kw, normalize_weight=False)).learn().W.toarray()
        so.check_topk_rows(case, raw.T, full.T, k, "walk", False, what=what)
        s = raw.sum(1)
        case.close(got, raw / np.where(s == 0, 1, s)[:, None], "normalised", message=what)
        case.close(got.sum(1)[s > 0], np.ones(int((s > 0).sum())), "rows-sum-to-one", message=what)
        case.check(((got != 0).sum(0) <= k).all(), "too-many", what)
    D = X.toarray()
    case.close(rec.get_score(np.arange(n)), D @ got, "score", rtol=1e-7, message=what)
    if full.any():
        case.seen(rp, alpha, beta, top_k, norm, n, m, model=type(rec).__name__, users=n, items=m, alpha=alpha, beta=beta, top_k=top_k)


def computers(case):
    from irspack.recommenders import _knn as K
    rng = case.rng
    X, n, m = data(rng)
    Xt = sps.csr_matrix(X.T)
    alpha, beta = gen.real(rng, [0.0, 0.5, 1.0, 2.0], 0.01, 4), gen.real(rng, [0.0, 0.6, 1.5], 1e-4, 3)
    k = int(gen.pick(rng, [0, 1, 3, 50]))
    full = transition(X.toarray(), alpha)
    fullr = transition(X.toarray(), alpha, beta)
    for nt, ch in ((1, 128), (int(gen.pick(rng, [2, 5, 33])), int(gen.pick(rng, [1, 3, 64])))):
        W = K.P3alphaComputer(Xt, alpha=alpha, n_threads=nt, max_chunk_size=ch).compute_W(Xt, k)
        so.check_topk_rows(case, W.toarray().T, full.T, k, "walk", False, what=f"alpha={alpha} k={k} threads={nt} chunk={ch}")
        W = K.RP3betaComputer(Xt, alpha=alpha, beta=beta, n_threads=nt, max_chunk_size=ch).compute_W(Xt, k)
        so.check_topk_rows(case, W.toarray().T, fullr.T, k, "walk-rp3", False, what=f"alpha={alpha} beta={beta} k={k} threads={nt} chunk={ch}")
    if full.any() and k:
        case.seen(n, m, alpha, beta, k, nt, ch, users=n, items=m, top_k=k, chunk=ch)


def wide(case):
    """More items, or more users, than fit in sixteen bits."""
    import irspack as ir
    rng = case.rng
    big = 66000 + int(rng.integers(500))
    X = so.few(rng, 30000, big, 3) if case.index % 2 else so.few(rng, big, 30000, 2)
    beta = float(gen.pick(rng, [0.0, 0.6]))
    rec = ir.RP3betaRecommender(X, alpha=1.0, beta=beta, n_threads=int(gen.pick(rng, [1, 8]))).learn()
    inv = lambda v: sps.diags(1 / np.where(v == 0, 1, v))
    pop, act = np.asarray(X.sum(0)).ravel(), np.asarray(X.sum(1)).ravel()
    want = inv(pop) @ X.T @ inv(act) @ X @ sps.diags(np.where(pop == 0, 1, pop) ** -beta)
    so.same_sparse(case, sps.csr_matrix(rec.W), sps.csr_matrix(want), "wide", f"{X.shape} beta={beta}")
    case.seen(X.shape, beta, users=X.shape[0], items=X.shape[1])


def rejected(case):
    import irspack as ir
    X = gen.covered_csr(case.rng, 6, 5, 0.4, "counts")
    V = (ValueError, TypeError)
    nan = float("nan")
    for kw in (dict(alpha=-0.1), dict(alpha=nan), dict(n_threads=0), dict(n_threads=-2), dict(top_k=-1)):
        for c in (ir.P3alphaRecommender, ir.RP3betaRecommender):
            case.raises(V, lambda: c(X, **kw).learn(), "illegal-parameter", f"{c.__name__} {kw}")
    for b in (-0.1, nan, -5):
        case.raises(V, lambda: ir.RP3betaRecommender(X, beta=b).learn(), "illegal-beta", str(b))
    case.seen(X.nnz)


FAMILIES = [("models", models, 300, 10000), ("computers", computers, 120, 4000), ("wide", wide, 2, 20), ("rejected", rejected, 2, 10)]
