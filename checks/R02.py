"""All score entry points of every recommender against one score matrix."""
import numpy as np
import scipy.sparse as sps

from vlib import gen, models

PROPERTY = "R02"
RULE = ("one case = one trained recommender with random settings, asked for scores by index, block, cold profile and seen-removing variants in a "
        "random order; non-trivial when the scores are not constant; distinct by recommender, settings and matrix")
ASSUMPTIONS = ["interactions are negative only for models that are defined for them; a stored zero is not an interaction",
               "TopPop and NMF define no block scores, user-KNN no cold users, NMF's cold users are not its training users",
               "BPR-FM and Mult-VAE need packages that are not installed here and are not driven"]
NO_BLOCK = ("TopPopRecommender", "NMFRecommender")
NO_COLD = tuple(models.USER_KNN)
SIGNED = ("TopPopRecommender", "CosineKNNRecommender", "CosineUserKNNRecommender", "DenseSLIMRecommender", "EDLAERecommender",
          "SLIMRecommender", "TruncatedSVDRecommender")
EARLY = (RuntimeError, AttributeError)


def tol(name):
    return dict(rtol=1e-4, atol=1e-4) if name in ("IALSRecommender", "NMFRecommender", "TruncatedSVDRecommender") else dict(rtol=1e-6, atol=1e-7)


def interaction(rng, X):
    """The same interactions in a form a user may hand over."""
    w = int(rng.integers(8))
    if w == 0:
        return X.tocsc(), "csc"
    if w == 1:
        return X.astype(np.float32), "csr32"
    if w == 2:
        return gen.unsorted(rng, X), "unsorted"
    if w == 3:
        return sps.csr_matrix((X > 1).astype(np.int64) + (X > 0).astype(np.int64)), "int"
    if w == 4:
        return (X > 0).astype(bool).tocsr(), "bool"
    if w == 5:
        return X.toarray(), "dense"
    return X, "csr"


def observable(rec):
    """What a caller can see of the model besides its scores."""
    out = [gen.snapshot(rec.X_train_all), rec.n_users, rec.n_items, repr(rec.learnt_config)]
    for a in ("W", "U", "score"):
        if hasattr(rec, a):
            v = getattr(rec, a)
            out.append(gen.snapshot(v.toarray() if sps.issparse(v) else np.array(v)))
    if hasattr(rec, "get_user_embedding"):
        out += [gen.snapshot(np.array(rec.get_user_embedding())), gen.snapshot(np.array(rec.get_item_embedding()))]
    return out


def overwrite(got, value):
    """The caller owns what was returned: writing to it must not reach the model."""
    if isinstance(got, np.ndarray) and got.flags.writeable:
        got[:] = value


def full_scores(rec, n):
    return np.asarray(rec.get_score(np.arange(n)))


def entry_points(case, name):
    rng = case.rng
    n, m = gen.size(rng, [2, 5, 12, 33], [140, 300]), gen.size(rng, [3, 7, 24], [140, 200])
    # NMF, SVD and the dense models need not handle an all-empty matrix
    X0 = gen.covered_csr(rng, n, m, gen.pick(rng, [0.1, 0.4]), gen.pick(rng, ["ones", "counts", "frac", "small", "tiny"]))
    if rng.random() < 0.5 and n > 2:
        D = X0.toarray()
        D[int(rng.integers(n))] = 0
        if rng.random() < 0.5:
            D[:, int(rng.integers(m))] = 0
        X0 = sps.csr_matrix(D)
    if X0.nnz == 0:
        return
    signed = name in SIGNED and rng.random() < 0.25          # likes and dislikes
    if signed:
        X0 = X0.copy()
        X0.data *= rng.choice([-1.0, 1.0], X0.nnz)
        A, form = gen.pick(rng, [(X0, "signed"), (X0.tocsc(), "signed csc"), (X0.astype(np.float32), "signed 32")])
    else:
        A, form = interaction(rng, X0)
    if form in ("csr", "csc", "csr32", "int", "signed") and rng.random() < 0.2:       # cells that are stored but hold nothing
        A = A.copy()
        A.data[rng.random(A.nnz) < 0.2] = 0
        form += " with stored zeros"
    if not sps.csr_matrix(A).count_nonzero():
        return
    ref = sps.csr_matrix(A).astype(np.float64).toarray()
    snap = gen.snapshot(A)
    kw = models.params(rng, name, (n, m))
    if signed and "feature_weighting" in kw:
        kw["feature_weighting"] = "NONE"
    rec = models.cls(name)(A, **kw)
    what = f"{name} {kw} {form} {n}x{m}"
    case.raises(EARLY, lambda: rec.get_score(np.arange(n)), "score-before-training", what)
    if name not in NO_BLOCK:
        case.raises(EARLY, lambda: rec.get_score_block(0, n), "block-before-training", what)
        case.raises(EARLY, lambda: rec.get_score_remove_seen_block(0, n), "block-before-training", what)
    case.raises(EARLY, lambda: rec.get_score_remove_seen(np.arange(n)), "score-before-training", what)
    if name not in NO_COLD:
        case.raises(EARLY, lambda: rec.get_score_cold_user(sps.csr_matrix((1, m))), "cold-before-training", what)
    case.check(rec.learn() is rec, "learn-returns-model", what)
    case.check(gen.snapshot(A) == snap or form == "unsorted" and np.array_equal(sps.csr_matrix(A).toarray(), ref), "training-changed-input", what)
    S = full_scores(rec, n)
    case.check(S.shape == (n, m), "score-shape", f"{S.shape} {what}")
    case.check(np.isfinite(S).all(), "score-not-finite", what)
    if name in models.SIMILARITY:
        W = rec.W.toarray() if sps.issparse(rec.W) else np.asarray(rec.W)
        case.close(S, ref @ W, "score-is-profile-times-weight", rtol=1e-5, atol=1e-6, message=what)
        case.check(W.shape == (m, m), "weight-shape", what)
    elif name in models.USER_KNN:
        U = rec.U.toarray() if sps.issparse(rec.U) else np.asarray(rec.U)
        case.close(S, U @ ref, "score-is-weight-times-profile", rtol=1e-6, atol=1e-7, message=what)
    elif name == "TopPopRecommender":
        case.close(S, np.tile(ref.sum(0), (n, 1)), "score-is-popularity", message=what)
    seen = ref != 0
    masked = np.where(seen, -np.inf, S)
    state = observable(rec)
    t = tol(name)
    ops = 0

    def by_index():
        k = int(rng.integers(1, 2 * n)) if m > 30 or rng.random() < 0.9 else int(gen.pick(rng, [129, 513, 1025, 2100]))
        idx = rng.integers(0, n, k)
        how = int(rng.integers(3))
        if how == 1:
            idx = idx.astype(np.int32)
        elif how == 2:
            idx = np.sort(idx)[::-1]
        before = idx.copy()
        keep_seen = bool(rng.integers(2))
        got = rec.get_score(idx) if keep_seen else rec.get_score_remove_seen(idx)
        case.check(np.array_equal(idx, before), "index-array-modified", what)
        case.close(got, S[idx] if keep_seen else masked[idx], "index-scores" if keep_seen else "index-masked", **t, message=what)
        overwrite(got, 7.25)

    def by_block():
        if name in NO_BLOCK:
            return by_index()
        b = int(rng.integers(0, n))
        e = int(rng.integers(b + 1, n + 1))
        keep_seen = bool(rng.integers(2))
        got = rec.get_score_block(b, e) if keep_seen else rec.get_score_remove_seen_block(b, e)
        case.close(got, S[b:e] if keep_seen else masked[b:e], "block-scores" if keep_seen else "block-masked", **t, message=f"[{b}:{e}] {what}")
        overwrite(got, -3.5)

    def by_profile():
        if name in NO_COLD:
            return by_block()
        idx = rng.integers(0, n, int(rng.integers(1, n + 3)) if m > 30 or rng.random() < 0.9 else int(gen.pick(rng, [65, 129, 513, 1025, 2100])))
        P = sps.csr_matrix(ref)[idx]
        if rng.random() < 0.3:
            P = P.tocsc()
        if rng.random() < 0.3 and P.nnz:
            P.data[rng.integers(P.nnz)] = 0
        psnap = gen.snapshot(P)
        keep_seen = bool(rng.integers(2))
        got = rec.get_score_cold_user(P) if keep_seen else rec.get_score_cold_user_remove_seen(P)
        case.check(gen.snapshot(P) == psnap, "profile-modified", what)
        case.check(got.shape == (len(idx), m), "cold-shape", f"{got.shape} {what}")
        if name not in ("IALSRecommender", "NMFRecommender"):        # those fit new users afresh
            if np.array_equal(P.toarray(), ref[idx]):
                case.close(got, S[idx] if keep_seen else masked[idx], "cold-scores" if keep_seen else "cold-masked", **t, message=what)
            else:
                case.close(got if keep_seen else np.where(P.toarray() != 0, 0, got), np.where((P.toarray() != 0) & (not keep_seen), 0, rec.get_score_cold_user(P)),
                           "cold-masked", **t, message=what)
        else:
            other = rec.get_score_cold_user(P)
            case.close(got, other if keep_seen else np.where(P.toarray() != 0, -np.inf, other), "cold-masked", **t, message=what)
        inf = ~np.isfinite(got)
        case.check(np.array_equal(inf, np.zeros_like(inf) if keep_seen else P.toarray() != 0), "cold-mask-positions", what)
        overwrite(got, 1e9)

    def embedding():
        if name in ("IALSRecommender", "TruncatedSVDRecommender"):
            U, V = np.array(rec.get_user_embedding()), np.array(rec.get_item_embedding())
            idx = rng.integers(0, n, 3)
            case.check(U.shape == (n, rec.n_components) and V.shape == (m, rec.n_components), "embedding-shape", what)
            case.close(rec.get_score_from_user_embedding(U[idx]), S[idx], "user-embedding-scores", **t, message=what)
            case.close(rec.get_score_from_item_embedding(idx, V), S[idx], "item-embedding-scores", **t, message=what)
            jdx = rng.integers(0, m, 2)
            case.close(rec.get_score_from_item_embedding(idx, V[jdx]), S[idx][:, jdx], "item-embedding-scores", **t, message=what)

    for _ in range(12):
        gen.pick(rng, [by_index, by_block, by_profile, embedding])()
        ops += 1
    case.check(np.array_equal(full_scores(rec, n), S), "repeated-scores-differ", what)
    case.check(observable(rec) == state, "scoring-changed-model", what)
    case.check(np.array_equal(sps.csr_matrix(A).astype(np.float64).toarray(), ref), "scoring-changed-input", what)
    case.count("score_calls", ops)
    case.count(name)
    if np.ptp(S) > 0:
        case.seen(name, tuple(sorted(map(str, kw.items()))), n, m, form, recommender=name, shape=[n, m], form=form, calls=ops)


def fam(name):
    return lambda case: entry_points(case, name)


FAMILIES = [(n, fam(n), q, t) for n, q, t in
            [(x, 30, 900) for x in models.SIMILARITY + models.USER_KNN] + [("TopPopRecommender", 20, 400), ("NMFRecommender", 10, 200),
             ("TruncatedSVDRecommender", 30, 900), ("IALSRecommender", 60, 2500)]]
