"""SLIM, dense SLIM and EDLAE against their regression problems."""
import numpy as np
import scipy.sparse as sps

from vlib import gen

PROPERTY = "R05"
RULE = ("one case = one linear item model on a random matrix with random regularisation, sign constraint, top_k and threads, judged by the optimality "
        "conditions in double precision and an independent solver; non-trivial when some weight is non-zero; distinct by model, settings and shape")
ASSUMPTIONS = ["single precision: tolerances scale with the conditioning of the problem", "a top_k keeps the largest signed coefficients"]


def objective(X, W, l1, l2):
    """Per column."""
    return 0.5 * ((X - X @ W) ** 2).sum(0) + 0.5 * l2 * (W ** 2).sum(0) + l1 * np.abs(W).sum(0)


def soft(v, l1, positive):
    if positive:
        return np.maximum(v - l1, 0)
    return np.sign(v) * np.maximum(np.abs(v) - l1, 0)


def optimal_update(X, W, l1, l2, positive):
    """The exact minimiser of each coordinate with the others fixed."""
    G = X.T @ X
    d = np.diag(G)
    rho = G - G @ W + d[:, None] * W
    den = (d + l2)[:, None]
    with np.errstate(all="ignore"):
        T = np.where(den > 0, soft(rho, l1, positive) / den, 0.0)
    np.fill_diagonal(T, 0)
    return T


def reference(X, l1, l2, positive, sweeps=4000):
    G = X.T @ X
    m = len(G)
    d = np.diag(G).copy()
    W = np.zeros((m, m))
    for _ in range(sweeps):
        change = 0.0
        for i in range(m):
            if d[i] + l2 <= 0:
                continue
            rho = G[i] - G[i] @ W + d[i] * W[i]
            new = soft(rho, l1, positive) / (d[i] + l2)
            new[i] = 0
            change = max(change, np.abs(new - W[i]).max())
            W[i] = new
        if change < 1e-10:
            break
    return W


def data(rng, big=False):
    n = gen.size(rng, [1, 4, 15, 40], [150, 300])
    m = int(gen.pick(rng, [2, 3, 4, 5, 7, 8, 9, 17, 31, 40] if not big else [60, 90]))
    return gen.csr(rng, n, m, gen.pick(rng, [0.1, 0.3, 0.6]), gen.pick(rng, ["ones", "counts", "small", "frac"])), n, m


def slim(case):
    import irspack as ir
    rng = case.rng
    X, n, m = data(rng, rng.random() < (0.1 if case.thorough else 0.03))
    alpha = gen.real(rng, [0.003, 0.03, 0.2, 1.0], 1e-3, 2)
    l1r = gen.real(rng, [0.0, 0.01, 0.2, 0.9, 1.0], 1e-3, 1)
    positive = bool(rng.integers(2))
    th = int(gen.pick(rng, [1, 1, 2, 3, 8, 50]))
    A = X if rng.random() < 0.5 else X.tocsc()
    snap = gen.snapshot(A)
    kw = dict(alpha=alpha, l1_ratio=l1r, positive_only=positive, n_threads=th, tol=1e-7, n_iter=3000)
    what = f"{kw} {n}x{m}"
    D = X.toarray()
    l1, l2 = n * alpha * l1r, n * alpha * (1 - l1r)
    rec = ir.SLIMRecommender(A, **kw).learn()
    W = rec.W.toarray().astype(float)
    case.check(gen.snapshot(A) == snap, "input-modified", what)
    case.check(W.shape == (m, m) and np.isfinite(W).all(), "weight-shape-or-value", what)
    case.check((np.diag(W) == 0).all(), "diagonal-not-zero", what)
    if positive:
        case.check((W >= 0).all(), "negative-weight", what)
    scale = 1 + np.abs(W).max()
    case.close(W, optimal_update(D, W, l1, l2, positive), "coordinate-not-optimal", rtol=0, atol=1e-3 * scale, message=what)
    ref = reference(D, l1, l2, positive, 1500)
    o, r = objective(D, W, l1, l2), objective(D, ref, l1, l2)
    case.check((o <= r + 1e-3 * (np.abs(r) + (D ** 2).sum(0)) + 1e-7).all(), "objective-above-optimum", lambda: f"{np.max(o - r)} {what}")
    if l2 > 0.5 * np.linalg.norm(D, 2) ** 2 / 100:       # well conditioned: the optimum is unique and sharp
        case.close(W, ref, "weights-differ-from-optimum", rtol=0, atol=3e-3 * scale, message=what)
        case.count("compared_with_reference")
    if W.any():
        case.seen(alpha, l1r, positive, th, n, m, X.nnz, alpha=alpha, l1_ratio=l1r, positive=positive, threads=th, shape=[n, m], nonzeros=int((W != 0).sum()))


def top_k(case):
    import irspack as ir
    rng = case.rng
    X, n, m = data(rng)
    positive = bool(rng.integers(2))
    kw = dict(alpha=float(gen.pick(rng, [0.003, 0.03, 0.2])), l1_ratio=float(gen.pick(rng, [0.0, 0.05, 0.3])), positive_only=positive, tol=1e-7, n_iter=2000,
              n_threads=int(gen.pick(rng, [1, 3])))
    many = case.index % 15 == 7                     # columns of many coefficients
    if many:
        n, m = int(rng.integers(60, 150)), int(rng.integers(90, 200))
        X = gen.covered_csr(rng, n, m, 0.3, "frac")
        kw.update(alpha=float(gen.pick(rng, [0.1, 0.3])), l1_ratio=float(gen.pick(rng, [0.0, 0.001])))
    if n * kw["alpha"] * (1 - kw["l1_ratio"]) <= 0.5 * np.linalg.norm(X.toarray(), 2) ** 2 / 100:
        kw["n_threads"] = 1          # the order of the sweeps then decides where a flat objective is left
    k = int(gen.pick(rng, [0, 1, 2, 3, 5, m - 1, m, m + 5])) if not many else int(rng.integers(10, m // 2))
    what = f"{kw} top_k={k} {n}x{m}"
    full = ir.SLIMRecommender(X, **kw).learn().W.toarray().astype(float)
    got = ir.SLIMRecommender(X, top_k=k, **kw).learn().W.toarray().astype(float)
    eps = 2e-3 * (1 + np.abs(full).max()) if not many else 1e-4 * np.abs(full).max()
    for j in range(m):
        f, g = full[:, j], got[:, j]
        kept = np.nonzero(g)[0]
        case.close(g[kept], f[kept], "kept-value-changed", rtol=0, atol=eps, message=f"column {j} {what}")
        sure = int((np.abs(f) > eps).sum())
        case.check(len(kept) <= k, "too-many-coefficients", f"column {j}: {len(kept)} {what}")
        case.check(len(kept) >= min(k, sure), "too-few-coefficients", f"column {j}: {len(kept)} of {sure} {what}")
        rest = np.setdiff1d(np.nonzero(np.abs(f) > eps)[0], kept)
        if len(kept) and len(rest):
            case.check(g[kept].min() >= f[rest].max() - 2 * eps, "kept-not-largest", f"column {j} {what}")
    if full.any():
        case.seen(k, positive, n, m, X.nnz, kw["alpha"], top_k=k, positive=positive, shape=[n, m])


def few_iterations(case):
    """Any number of sweeps never makes the objective worse than no weights."""
    import irspack as ir
    rng = case.rng
    X, n, m = data(rng)
    D = X.toarray()
    alpha, l1r = float(gen.pick(rng, [0.0, 0.003, 0.1])), float(gen.pick(rng, [0.0, 0.1, 0.7, 1.0]))
    positive = bool(rng.integers(2))
    prev = None
    for it in (1, 2, 5, 40):
        kw = dict(alpha=alpha, l1_ratio=l1r, positive_only=positive, n_iter=it, tol=0.0, n_threads=int(gen.pick(rng, [1, 2, 4])))
        W = ir.SLIMRecommender(X, **kw).learn().W.toarray().astype(float)
        what = f"{kw} {n}x{m}"
        case.check(np.isfinite(W).all() and (np.diag(W) == 0).all(), "weight-value", what)
        o = objective(D, W, n * alpha * l1r, n * alpha * (1 - l1r))
        zero = objective(D, np.zeros_like(W), 0, 0)
        case.check((o <= zero * (1 + 1e-4) + 1e-4).all(), "objective-above-zero-weights", what)
        if positive:
            case.check((W >= 0).all(), "negative-weight", what)
    for bad in (dict(n_threads=0), dict(n_iter=0), dict(alpha=-0.1), dict(alpha=float("nan")), dict(l1_ratio=1.5), dict(l1_ratio=-0.5)):
        case.raises((ValueError, TypeError), lambda: ir.SLIMRecommender(X, **{**kw, "alpha": 0.1, **bad}).learn(), "bad-argument-accepted", str(bad))
    if W.any():
        case.seen(alpha, l1r, positive, n, m, X.nnz)


def dense(case):
    import irspack as ir
    rng = case.rng
    X, n, m = data(rng)
    D = X.toarray()
    A = X if rng.random() < 0.5 else X.tocsc()
    snap = gen.snapshot(A)
    reg = gen.real(rng, [0.5, 1.0, 7.5, 300.0], 1e-3, 1e4)
    G = D.T @ D
    if rng.random() < 0.5:
        name, kw = "DenseSLIM", dict(reg=reg)
        rec = ir.DenseSLIMRecommender(A, **kw)
        Q = G + reg * np.eye(m)
    else:
        p = 1 - gen.real(rng, [1.0, 0.9, 0.5, 0.1, 0.01], 0.002, 1)
        name, kw = "EDLAE", dict(reg=reg, dropout_p=p)
        rec = ir.EDLAERecommender(A, **kw)
        Q = G + np.diag(p / (1 - p) * np.diag(G) + reg)
    what = f"{name} {kw} {n}x{m}"
    W = rec.learn().W
    W = np.asarray(W.toarray() if sps.issparse(W) else W, dtype=float)
    P = np.linalg.inv(Q)
    want = -P / np.diag(P)[None, :]
    np.fill_diagonal(want, 0)
    cond = np.linalg.cond(Q)
    case.check(gen.snapshot(A) == snap, "input-modified", what)
    case.check((np.diag(W) == 0).all(), "diagonal-not-zero", what)
    case.close(W, want, "not-closed-form", rtol=1e-3, atol=1e-4 + 1e-6 * cond, message=what)
    # optimality: the gradient of the ridge objective vanishes off the diagonal
    grad = Q @ W - G
    np.fill_diagonal(grad, 0)
    case.check(np.abs(grad).max() <= (1e-4 + 1e-6 * cond) * (1 + np.abs(Q).max()), "gradient-not-zero", lambda: f"{np.abs(grad).max()} {what}")
    if W.any():
        case.seen(name, tuple(kw.items()), n, m, X.nnz, model=name, parameters=kw, shape=[n, m], condition=float(cond))


def scaled(case):
    """Ratings in another unit, with the penalties in that unit squared, are the same regression."""
    import irspack as ir
    rng = case.rng
    X, n, m = data(rng)
    c = float(2.0 ** int(rng.integers(-9, 14)))          # a power of two scales without rounding
    name = gen.pick(rng, ["SLIM", "SLIM", "DenseSLIM", "EDLAE"])
    if name == "SLIM":
        base = dict(l1_ratio=float(gen.pick(rng, [0.0, 0.05, 0.5])), positive_only=bool(rng.integers(2)), n_threads=1, n_iter=int(gen.pick(rng, [3, 100])), tol=float(gen.pick(rng, [0.0, 1e-4, 1e-2])),
                    top_k=gen.pick(rng, [None, None, 2, 5]))
        strength = dict(alpha=gen.real(rng, [0.003, 0.1, 1.0], 1e-3, 2))
    else:
        base = dict(dropout_p=float(gen.pick(rng, [0.0, 0.3]))) if name == "EDLAE" else {}
        strength = dict(reg=gen.real(rng, [0.5, 7.5], 0.1, 1e3))
    cls = getattr(ir, name + "Recommender")
    arr = lambda W: np.asarray(W.toarray() if sps.issparse(W) else W, dtype=float)
    a = arr(cls(X, **base, **strength).learn().W)
    b = arr(cls(X * c, **base, **{k: v * c * c for k, v in strength.items()}).learn().W)
    D = X.toarray()
    cond = 0 if name == "SLIM" else np.linalg.cond(D.T @ D + strength["reg"] * np.eye(m))
    case.close(b, a, "depends-on-unit-of-ratings", rtol=1e-4, atol=(1e-5 + 1e-6 * cond) * (1 + np.abs(a).max()), message=f"{name} x{c} {base} {strength} {n}x{m}")
    if a.any():
        case.seen(name, c, n, m, X.nnz, model=name, unit=c)


FAMILIES = [("slim", slim, 120, 4000), ("scaled", scaled, 60, 3000), ("top_k", top_k, 90, 3000), ("few_iterations", few_iterations, 40, 1500), ("dense", dense, 150, 6000)]
