"""Neighbour weights against the dense similarity definitions."""
import numpy as np
import scipy.sparse as sps

from vlib import gen, simoracle as so

PROPERTY = "R03"
RULE = ("one case = one similarity (item or user KNN model, or the bare computer with another target) on a random matrix with random shrinkage, "
        "weighting, top_k, threads and chunk size; non-trivial when some similarity is non-zero; distinct by all of these")
ASSUMPTIONS = ["interactions are non-negative and stored without explicit zeros; the code's 1e-6 in the denominator is part of the definition"]
SCHEMES = ["NONE", "TF_IDF", "BM_25"]


def data(rng):
    n, m = gen.size(rng, [1, 3, 9, 30, 60], [150, 500]), gen.size(rng, [1, 2, 6, 20, 150], [300, 600])
    X = gen.csr(rng, n, m, gen.pick(rng, [0.1, 0.3, 0.7]), gen.pick(rng, ["ones", "counts", "frac", "small"]))
    return X, n, m


def as_input(rng, X):
    w = rng.integers(4)
    return X.tocsc() if w == 1 else (X.astype(np.float32).astype(np.float64) if w == 2 else X)


def params(rng, name):
    kw = dict(shrinkage=gen.real(rng, [0.0, 0.0, 0.5, 30.0], 1e-3, 1e3), top_k=int(gen.pick(rng, [0, 1, 1, 2, 2, 3, 3, 5, 5, 20, 20, 100, 100, 1000, 1000])),
              n_threads=int(gen.pick(rng, [1, 2, 3, 8, 70])))
    if name in ("cosine", "asymmetric"):
        kw.update(feature_weighting=gen.pick(rng, SCHEMES))
        if kw["feature_weighting"] == "BM_25" and rng.random() < 0.6:
            kw.update(bm25_k1=gen.real(rng, [0.0, 0.3, 2.0], 0.01, 100), bm25_b=gen.real(rng, [0.0, 0.4, 1.0], 0.01, 1))
    if name == "cosine":
        kw["normalize"] = bool(rng.integers(2))
    if name == "asymmetric":
        kw["alpha"] = gen.real(rng, [0.0, 0.2, 0.5, 0.9, 1.0], 0.01, 1)
    if name == "tversky":
        kw["alpha"], kw["beta"] = gen.real(rng, [0.0, 0.3, 1.0, 2.0], 0.01, 20), gen.real(rng, [0.0, 0.7, 1.5], 0.01, 20)
    return kw


def definition(name, T, F, kw):
    if name == "cosine":
        return so.cosine(T, F, kw["shrinkage"], kw["normalize"])
    if name == "asymmetric":
        return so.asymmetric(T, F, kw["shrinkage"], kw["alpha"])
    if name == "jaccard":
        return so.jaccard(T, F, kw["shrinkage"])
    return so.tversky(T, F, kw["shrinkage"], kw["alpha"], kw["beta"])


def item_models(case):
    import irspack as ir
    rng = case.rng
    name = gen.pick(rng, ["cosine", "asymmetric", "jaccard", "tversky"])
    cls = dict(cosine=ir.CosineKNNRecommender, asymmetric=ir.AsymmetricCosineKNNRecommender, jaccard=ir.JaccardKNNRecommender,
               tversky=ir.TverskyIndexKNNRecommender)[name]
    X, n, m = data(rng)
    kw = params(rng, name)
    A = as_input(rng, X)
    snap = gen.snapshot(A)
    rec = cls(A, **kw).learn()
    D = X.toarray()
    Wt = so.weight(D, kw.get("feature_weighting", "NONE"), kw.get("bm25_k1", 1.2), kw.get("bm25_b", 0.75))
    full = definition(name, D.T, Wt.T, kw)
    got = rec.W.toarray()
    what = f"{name} {kw} {n}x{m}"
    so.check_topk_rows(case, got, full, kw["top_k"], "item-" + name, True, what=what)
    case.close(rec.get_score(np.arange(n)), D @ got, "item-score", rtol=1e-7, atol=1e-9, message=what)
    case.check(gen.snapshot(A) == snap, "input-modified", what)
    if (full - np.diag(np.diag(full))).any():
        case.seen(name, sorted(kw.items()), n, m, model=cls.__name__, users=n, items=m, **{k: v for k, v in kw.items() if k != "n_threads"})


def user_models(case):
    import irspack as ir
    rng = case.rng
    name = gen.pick(rng, ["cosine", "asymmetric"])
    cls = dict(cosine=ir.CosineUserKNNRecommender, asymmetric=ir.AsymmetricCosineUserKNNRecommender)[name]
    X, n, m = data(rng)
    kw = params(rng, name)
    rec = cls(as_input(rng, X), **kw).learn()
    D = X.toarray()
    Wt = so.weight(D, kw["feature_weighting"], kw.get("bm25_k1", 1.2), kw.get("bm25_b", 0.75))
    full = definition(name, D, Wt, kw)
    got = rec.U.toarray() if hasattr(rec, "U") else rec.U_.toarray()
    what = f"user {name} {kw} {n}x{m}"
    so.check_topk_rows(case, got, full, kw["top_k"], "user-" + name, True, what=what)
    case.close(rec.get_score(np.arange(n)), got @ D, "user-score", rtol=1e-7, atol=1e-9, message=what)
    if (full - np.diag(np.diag(full))).any():
        case.seen(name, sorted(kw.items()), n, m, model=cls.__name__, users=n, items=m)


def computers(case):
    """The native computer with a separate target matrix and chunk sizes."""
    from irspack.recommenders import _knn as K
    rng = case.rng
    name = gen.pick(rng, ["cosine", "asymmetric", "jaccard", "tversky"])
    F = gen.csr(rng, int(gen.pick(rng, [1, 4, 25, 90])), int(gen.pick(rng, [1, 5, 30])), kind=gen.pick(rng, ["counts", "signed", "frac"]))
    T = gen.csr(rng, int(gen.pick(rng, [1, 3, 17, 140])), F.shape[1], kind=gen.pick(rng, ["counts", "signed", "frac"]))
    kw = params(rng, name)
    k, nt, ch = kw["top_k"], kw["n_threads"], int(gen.pick(rng, [1, 2, 7, 128, 1000]))
    s = kw["shrinkage"]
    comp = dict(cosine=lambda: K.CosineSimilarityComputer(F, s, kw["normalize"], nt, ch),
                asymmetric=lambda: K.AsymmetricSimilarityComputer(F, s, kw["alpha"], nt, ch),
                jaccard=lambda: K.JaccardSimilarityComputer(F, s, nt, ch),
                tversky=lambda: K.TverskyIndexComputer(F, s, kw["alpha"], kw["beta"], n_threads=nt, max_chunk_size=ch))[name]()
    full = definition(name, T.toarray(), F.toarray(), kw)
    snap = gen.snapshot(T), gen.snapshot(F)
    got = comp.compute_similarity(T, k)
    what = f"{name} {kw} chunk={ch} target={T.shape} base={F.shape}"
    case.check(got.shape == full.shape, "shape", what)
    so.check_topk_rows(case, got.toarray(), full, k, "computer-" + name, False, what=what)
    got2 = comp.compute_similarity(T, k)
    case.check(np.array_equal(got.toarray(), got2.toarray()), "second-call-differs", what)
    case.check((gen.snapshot(T), gen.snapshot(F)) == snap, "input-modified", what)
    case.raises(ValueError, lambda: comp.compute_similarity(sps.csr_matrix((3, F.shape[1] + 1)), k), "feature-count")
    if full.any():
        case.seen(name, nt, ch, k, T.shape, F.shape, similarity=name, chunk=ch, threads=nt, target=list(T.shape))


def wide(case):
    """More items or users than fit in sixteen bits; every neighbour is kept."""
    import irspack as ir
    rng = case.rng
    which = ("cosine", "jaccard", "user", "asymmetric")[case.index % 4]
    big = 66000 + int(rng.integers(500))
    X = so.few(rng, big, 30000, 2) if which == "user" else so.few(rng, 30000, big, 3)
    s = float(gen.pick(rng, [0.0, 1.5]))
    cls = dict(cosine=ir.CosineKNNRecommender, jaccard=ir.JaccardKNNRecommender, user=ir.CosineUserKNNRecommender,
               asymmetric=ir.AsymmetricCosineKNNRecommender)[which]
    kw = dict(shrinkage=s, top_k=1000, n_threads=int(gen.pick(rng, [1, 8])))
    if which in ("cosine", "user"):
        kw["normalize"] = True
    rec = cls(X, feature_weighting="NONE", **kw).learn() if which != "jaccard" else cls(X, **kw).learn()
    got = rec.U if which == "user" else rec.W
    F = X if which == "user" else sps.csr_matrix(X.T)
    if which == "jaccard":
        F = (F != 0).astype(float)
    S = sps.csr_matrix(F @ F.T)
    S.setdiag(0)
    S.eliminate_zeros()
    c = S.tocoo()
    q = np.asarray(F.multiply(F).sum(1)).ravel()
    den = q[c.row] + q[c.col] - c.data if which == "jaccard" else np.sqrt(q[c.row]) * np.sqrt(q[c.col])
    want = sps.csr_matrix((c.data / (den + s + so.EPS), (c.row, c.col)), shape=S.shape)
    so.same_sparse(case, sps.csr_matrix(got), want, "wide-" + which, f"{X.shape} {kw}")
    case.seen(which, X.shape, s, model=cls.__name__, users=X.shape[0], items=X.shape[1])


def rejected(case):
    import irspack as ir
    rng = case.rng
    X = gen.covered_csr(rng, 6, 5, 0.4, "counts")
    V = (ValueError, TypeError)
    nan = float("nan")
    IT = [ir.CosineKNNRecommender, ir.AsymmetricCosineKNNRecommender, ir.JaccardKNNRecommender, ir.TverskyIndexKNNRecommender,
          ir.CosineUserKNNRecommender, ir.AsymmetricCosineUserKNNRecommender]
    for c in IT:
        for kw in (dict(shrinkage=-0.1), dict(shrinkage=-1e9), dict(shrinkage=nan), dict(n_threads=0), dict(n_threads=-1), dict(top_k=-1)):
            case.raises(V, lambda: c(X, **kw).learn(), "illegal-parameter", f"{c.__name__} {kw}")
    for c in (ir.AsymmetricCosineKNNRecommender, ir.AsymmetricCosineUserKNNRecommender):
        for a in (-0.01, 1.01, nan):
            case.raises(V, lambda: c(X, alpha=a).learn(), "illegal-alpha", f"{c.__name__} alpha={a}")
    for kw in (dict(alpha=-0.1), dict(beta=-0.1), dict(alpha=nan), dict(beta=nan)):
        case.raises(V, lambda: ir.TverskyIndexKNNRecommender(X, **kw).learn(), "illegal-tversky", str(kw))
    for c in (ir.CosineKNNRecommender, ir.CosineUserKNNRecommender, ir.AsymmetricCosineKNNRecommender):
        case.raises(V, lambda: c(X, feature_weighting="NO_SUCH"), "illegal-weighting")
    case.seen(X.nnz)


FAMILIES = [("item_models", item_models, 260, 9000), ("user_models", user_models, 160, 5000), ("computers", computers, 220, 8000),
            ("wide", wide, 4, 24), ("rejected", rejected, 2, 10)]
