"""Popularity, SVD, NMF and the LightFM wrapper against the model they name."""
import io
import pickle
import warnings

import numpy as np
import scipy.sparse as sps

from vlib import fakelightfm, gen

LIGHTFM = fakelightfm.install()

PROPERTY = "R12"
RULE = ("one case = one baseline model trained on a random matrix with random settings and compared, for training users, blocks and new users, with "
        "an independent computation of the model it names; non-trivial when the matrix has at least two different rows; distinct by model, "
        "settings and matrix")
ASSUMPTIONS = ["scikit-learn's own solvers are correct; their randomised SVD is given a margin of a few per cent of the optimal residual",
               "NMF is compared by its regularised objective, not by its factors",
               "lightfm is not installed: the wrapper is driven against a stand-in that records every call"]


def matrix(rng, n, m):
    X = gen.covered_csr(rng, n, m, gen.pick(rng, [0.15, 0.4, 0.8]), gen.pick(rng, ["ones", "counts", "frac", "small"]))
    if rng.random() < 0.4 and n > 2:
        D = X.toarray()
        D[int(rng.integers(n))] = 0
        if rng.random() < 0.5:
            D[:, int(rng.integers(m))] = 0
        X = sps.csr_matrix(D)
    return X


def form(rng, X):
    w = int(rng.integers(4))
    return [X, X.tocsc(), gen.unsorted(rng, X), X.tocoo().tocsr()][w]


def some(rng, least=0):
    """How many users are asked about at once."""
    return int(rng.integers(least, 6)) if rng.random() < 0.7 else int(gen.pick(rng, [33, 65, 129, 257, 513, 1025, 2100]))


def masked(case, rec, P, plain, what, **t):
    """The seen-removing variants on the same users."""
    seen = P.toarray() != 0
    got = np.array(rec.get_score_cold_user_remove_seen(P))
    case.check(got.shape == P.shape and np.array_equal(np.isneginf(got), seen), "new-user-mask", what)
    case.close(np.where(seen, 0, got), np.where(seen, 0, plain), "new-user-unseen", **t, message=what)


def popularity(case):
    import irspack as ir
    rng = case.rng
    n, m = int(gen.pick(rng, [1, 2, 7, 40, 300])), int(gen.pick(rng, [1, 3, 20, 150]))
    X = gen.csr(rng, n, m, gen.pick(rng, [0.0, 0.1, 0.5]), gen.pick(rng, ["ones", "counts", "frac", "signed"]))
    kind = gen.pick(rng, ["csr", "csc", "float32", "int", "uint8", "bool", "dup"])
    A = X
    if kind == "csc":
        A = X.tocsc()
    elif kind == "float32":
        A = X.astype(np.float32)
    elif kind == "int":
        A = X.astype(np.int32)
    elif kind == "uint8":                                # the sum of a column does not fit into the type
        A = sps.csr_matrix((np.minimum(np.abs(X.data) * 40 + 1, 255).astype(np.uint8), X.indices, X.indptr), shape=X.shape)
    elif kind == "bool":
        A = X.astype(bool)
    D = A.toarray().astype(np.float64)
    if kind == "dup":
        c = X.tocoo()
        A = sps.coo_matrix((np.r_[c.data, c.data], (np.r_[c.row, c.row], np.r_[c.col, c.col])), shape=X.shape)
        D = 2 * D
    snap = gen.snapshot(A) if kind != "dup" else None
    rec = ir.TopPopRecommender(A).learn()
    if snap:
        case.check(gen.snapshot(A) == snap, "input-modified", kind)
    want = D.sum(0)
    what = f"{kind} {n}x{m}"
    users = rng.integers(n, size=some(rng))
    case.close(rec.get_score(users), np.tile(want, (len(users), 1)), "popularity", rtol=1e-6, message=what)
    r = some(rng)
    cold = gen.csr(rng, r, m, 0.4, "ones") if r else sps.csr_matrix((0, m))
    case.close(rec.get_score_cold_user(cold), np.tile(want, (r, 1)), "popularity-new-user", rtol=1e-6, message=what)
    masked(case, rec, cold, np.tile(want, (r, 1)), what, rtol=1e-6)
    got = rec.get_score_remove_seen(users)
    case.check(got.shape == (len(users), m), "shape", what)
    seen = D[users] != 0
    case.check(np.isneginf(got[seen]).all(), "seen-not-masked", what)
    case.close(np.where(seen, 0, got), np.where(seen, 0, np.tile(want, (len(users), 1))), "popularity-unseen", rtol=1e-6, message=what)
    if n > 1 and want.any():
        case.seen("pop", kind, n, m, X.nnz, model="TopPop", users=n, items=m, form=kind)


def svd(case):
    import irspack as ir
    rng = case.rng
    n, m = gen.size(rng, [2, 5, 20, 60], [200]), gen.size(rng, [2, 3, 8, 30], [150])
    X = matrix(rng, n, m)
    if X.nnz == 0:
        return
    k = int(gen.pick(rng, [1, 2, 4, m - 1, m, m + 5]))
    A = form(rng, X)
    snap = gen.snapshot(A)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        rec = ir.TruncatedSVDRecommender(A, n_components=k, random_seed=int(rng.integers(9)))
    what = f"k={k} {n}x{m}"
    case.check((k >= m) == any("n_components" in str(x.message) for x in w), "truncation-announced", what)
    rec.learn()
    case.check(gen.snapshot(A) == snap, "input-modified", what)
    kk = min(k, m - 1)
    D = X.toarray()
    V = np.asarray(rec.get_item_embedding())
    Z = np.asarray(rec.get_user_embedding())
    r = min(kk, n)
    case.check(V.shape == (m, r) and Z.shape == (n, r), "number-of-components", f"{V.shape} {Z.shape} {what}")
    scale = np.abs(D).max()
    case.close(D @ V, Z, "user-embedding-is-the-projection", rtol=1e-6, atol=1e-7 * scale * m, message=what)
    S = np.asarray(rec.get_score(np.arange(n)))
    case.close(S, D @ V @ V.T, "score", rtol=1e-6, atol=1e-7 * scale * m, message=what)
    # V spans a best rank-k space, up to the accuracy of the randomised solver
    sv = np.linalg.svd(D, compute_uv=False)
    best = float((sv[r:] ** 2).sum())
    case.check(((D - S) ** 2).sum() <= best * 1.1 + 1e-9 * (sv ** 2).sum(), "not-the-best-rank-k",
               f"{((D - S) ** 2).sum()} optimum {best} {what}")
    G = V.T @ V
    live = sv[:r] > 1e-6 * sv[0]
    if live.all():
        case.close(G, np.eye(r), "directions-orthonormal", atol=1e-5, message=what)
    C = gen.csr(rng, some(rng, 1), m, 0.4, gen.pick(rng, ["counts", "ones", "frac", "signed"]))
    case.close(rec.get_score_cold_user(C), C.toarray() @ V @ V.T, "new-user", rtol=1e-6, atol=1e-6 * 8 * m, message=what)
    masked(case, rec, C, C.toarray() @ V @ V.T, what, rtol=1e-6, atol=1e-6 * 8 * m)
    u = rng.integers(n, size=some(rng, 1))
    case.close(rec.get_score(u), S[u], "score-of-some", rtol=1e-6, atol=1e-8 * (1 + np.abs(S).max()), message=what)
    E = rng.normal(size=(4, r))
    case.close(rec.get_score_from_user_embedding(E), E @ V.T, "from-user-embedding", rtol=1e-6, atol=1e-8, message=what)
    case.close(rec.get_score_from_item_embedding(u, E), Z[u] @ E.T, "from-item-embedding", rtol=1e-6, atol=1e-8 * (1 + np.abs(Z).max()), message=what)
    b = int(rng.integers(n))
    case.close(rec.get_score_block(b, n), S[b:], "block", rtol=1e-6, atol=1e-8 * (1 + np.abs(S).max()), message=what)
    case.seen("svd", k, n, m, X.nnz, model="SVD", users=n, items=m, components=k)


def nmf_objective(X, W, H, alpha, l1_ratio):
    n, m = X.shape
    return (0.5 * ((X - W @ H) ** 2).sum() + alpha * l1_ratio * (m * np.abs(W).sum() + n * np.abs(H).sum())
            + 0.5 * alpha * (1 - l1_ratio) * (m * (W ** 2).sum() + n * (H ** 2).sum()))


def nmf(case):
    import irspack as ir
    from sklearn.decomposition import NMF
    rng = case.rng
    n, m = int(gen.pick(rng, [4, 12, 40])), int(gen.pick(rng, [3, 9, 25]))
    X = matrix(rng, n, m)
    k = int(rng.integers(1, min(n, m) + 1))
    if rng.random() < 0.3:                                     # a rank below the number of factors
        Z = X.toarray()
        Z[:, rng.random(m) < 0.4] = 0
        if Z.any():
            X, k = sps.csr_matrix(Z), min(n, m)
    alpha = float(gen.pick(rng, [0.0, 1e-4, 3e-3, 2e-2]))
    l1 = float(gen.pick(rng, [0.0, 0.3, 1.0]))
    init = gen.pick(rng, [None, None, "random", "nndsvda"])
    A = form(rng, X)
    snap = gen.snapshot(A)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec = ir.NMFRecommender(A, n_components=k, alpha=alpha, l1_ratio=l1, init=init).learn()
        ref = [NMF(n_components=k, alpha_W=alpha, l1_ratio=l1, init=init, random_state=s) for s in (42, 0, 1)]
        fits = [(r.fit_transform(X), r.components_) for r in ref]
        ok = [f for f in fits if np.isfinite(f[0].sum() + f[1].sum())]
        if len(ok) < len(fits):         # scikit-learn's own initialisation divides by zero
            ref = [NMF(n_components=k, alpha_W=alpha, l1_ratio=l1, init="random", random_state=s) for s in (42, 0, 1)]
            fits = ok + [(r.fit_transform(X), r.components_) for r in ref]
            case.count("initialisation_breaks_down")
    case.check(gen.snapshot(A) == snap, "input-modified")
    what = f"k={k} alpha={alpha} l1={l1} init={init} {n}x{m}"
    D = X.toarray()
    W, H = np.asarray(rec.W), np.asarray(rec.H)
    case.check(W.shape == (n, k) and H.shape == (k, m), "factor-shape", what)
    case.check(np.isfinite(W).all() and np.isfinite(H).all(), "factor-not-finite", what)
    case.check((W >= 0).all() and (H >= 0).all(), "negative-factor", what)
    S = np.asarray(rec.get_score(np.arange(n)))
    case.close(S, W @ H, "score", rtol=1e-8, atol=1e-10, message=what)
    u = rng.integers(n, size=some(rng, 1))
    case.close(rec.get_score(u), S[u], "score-of-some", rtol=1e-8, atol=1e-10, message=what)
    o = nmf_objective(D, W, H, alpha, l1)
    refs = [nmf_objective(D, w, h, alpha, l1) for w, h in fits]
    case.check(o <= max(refs) * 1.02 + 1e-9, "objective-not-minimised", f"{o} reference {refs} {what}")
    if not H.any():                                                # regularised away: scikit-learn refuses new users
        return
    C = gen.csr(rng, int(rng.integers(1, 5)), m, 0.4, "counts")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cold = np.asarray(rec.get_score_cold_user(C))
    case.check(cold.shape == C.shape and (cold >= 0).all(), "new-user-shape", what)
    # the new user's factor minimises the same convex objective with H fixed
    for i in range(C.shape[0]):
        c = C[i].toarray().ravel()
        norms = np.linalg.norm(H, axis=1)
        norms[norms == 0] = 1
        w = np.linalg.lstsq((H / norms[:, None]).T, cold[i], rcond=None)[0] / norms
        if np.abs(H.T @ w - cold[i]).max() > 1e-6 * (1 + np.abs(cold[i]).max()):
            case.fail("new-user-not-in-the-span", what)
        if np.linalg.matrix_rank(H, tol=1e-6 * np.abs(H).max()) == k:
            w = np.maximum(w, 0)
            f = lambda v: 0.5 * ((c - v @ H) ** 2).sum() + m * alpha * (l1 * v.sum() + 0.5 * (1 - l1) * (v ** 2).sum())
            best = w.copy()
            Q = H @ H.T
            for _ in range(400):                                   # exact coordinate descent
                for j in range(k):
                    g = c @ H[j] - m * alpha * l1 - Q[j] @ best + Q[j, j] * best[j]
                    best[j] = max(0.0, g / (Q[j, j] + m * alpha * (1 - l1)))
            case.check(f(w) <= f(best) + 0.02 * max(f(np.zeros(k)), 1e-9), "new-user-not-optimal", f"{f(w)} optimum {f(best)} {what}")
    case.seen("nmf", k, alpha, l1, init, n, m, X.nnz, model="NMF", users=n, items=m, components=k, alpha=alpha, l1_ratio=l1)


def lightfm(case):
    from irspack.evaluation import Evaluator
    from irspack.recommenders.bpr import BPRFMRecommender
    rng = case.rng
    n, m = gen.size(rng, [2, 9, 30], [140, 600]), int(gen.pick(rng, [2, 7, 20]))
    X = gen.covered_csr(rng, n, m, 0.3, gen.pick(rng, ["ones", "counts"]))
    kw = dict(n_components=int(rng.integers(1, 7)), item_alpha=float(rng.random() * 1e-2), user_alpha=float(rng.random() * 1e-2),
              loss=gen.pick(rng, ["bpr", "warp"]), n_threads=int(rng.integers(1, 5)))
    epochs = int(rng.integers(1, 6))
    A = form(rng, X)
    LIGHTFM.log.clear()
    rec = BPRFMRecommender(A, train_epochs=epochs, **kw)
    case.raises(RuntimeError, lambda: rec.get_score(np.arange(1)), "score-before-fit")
    early = rng.random() < 0.5
    if early:
        ev = Evaluator(gen.covered_csr(rng, n, m, 0.2, "ones"), cutoff=min(3, m), n_threads=1)
        scores, got = {}, []
        orig = ev.get_target_score

        def spy(model):
            got.append(orig(model))
            scores[len(got)] = (got[-1], pickle.dumps(model.fm))
            return got[-1]
        ev.get_target_score = spy
        every = min(epochs, int(rng.integers(1, 3)))
        rec.learn_with_optimizer(ev, None, max_epoch=epochs, validate_epoch=every, score_degradation_max=int(rng.integers(1, 4)))
        best = max(range(len(got)), key=lambda i: got[i])
        want = pickle.loads(scores[best + 1][1])
        case.check(rec.learnt_config.get("train_epochs") == (best + 1) * every, "learnt-epochs", f"{rec.learnt_config} {got} every {every}")
    else:
        rec.learn()
        want = LIGHTFM(no_components=kw["n_components"])
        LIGHTFM.log.pop()
        keep = list(LIGHTFM.log)
        want.fit_partial(X.tocoo(), epochs=epochs)
        LIGHTFM.log[:] = keep
        fits = [d for e, d in LIGHTFM.log if e == "fit"]
        case.check(sum(d["epochs"] for d in fits) == epochs, "epochs", f"{len(fits)} of {epochs}")
    new = [d for e, d in LIGHTFM.log if e == "new"]
    case.check(len(new) >= 1 and all(d == dict(no_components=kw["n_components"], loss=kw["loss"], item_alpha=kw["item_alpha"], user_alpha=kw["user_alpha"])
                                     for d in new), "settings", f"{new} {kw}")
    for d in (d for e, d in LIGHTFM.log if e == "fit"):
        case.check(d["shape"] == (n, m) and d["num_threads"] == kw["n_threads"] and abs(d["total"] - X.sum()) < 1e-6, "fit-call", f"{d} {kw}")
    full = want.user_embeddings @ want.item_embeddings.T + want.item_biases
    t = dict(rtol=1e-4, atol=1e-3)
    u = rng.integers(n, size=some(rng, 1))
    case.close(rec.get_score(u), full[u], "score", **t)
    b, e = sorted(int(x) for x in rng.integers(0, n + 1, size=2))
    case.close(rec.get_score_block(b, e), full[b:e], "block", **t)
    case.close(rec.get_user_embedding(), want.user_embeddings, "user-embedding", **t)
    case.close(rec.get_item_embedding(), want.item_embeddings, "item-embedding", **t)
    E = rng.normal(size=(3, kw["n_components"]))
    case.close(rec.get_score_from_user_embedding(E), E @ want.item_embeddings.T + want.item_biases, "from-user-embedding", **t)
    case.close(rec.get_score_from_item_embedding(u, E), want.user_embeddings[u] @ E.T, "from-item-embedding", **t)
    state = io.BytesIO()
    rec.trainer.save_state(state)
    snap = rec.get_score(u).copy()
    rec.trainer.run_epoch()
    state.seek(0)
    rec.trainer.load_state(state)
    case.close(rec.get_score(u), snap, "state-restored", rtol=0, atol=0)
    case.raises(ValueError, lambda: BPRFMRecommender(X, loss="logistic"), "unknown-loss")
    case.seen("bpr", n, m, X.nnz, tuple(sorted(kw.items())), epochs, early, model="BPRFM", users=n, items=m, epochs=epochs, early=early)


FAMILIES = [("popularity", popularity, 300, 6000), ("svd", svd, 200, 4000), ("nmf", nmf, 90, 1500), ("lightfm", lightfm, 150, 3000)]
