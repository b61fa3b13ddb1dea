"""Dense references of the similarity and random-walk definitions."""
import numpy as np


def weight(D, scheme, k1=1.2, b=0.75):
    n = D.shape[0]
    df = (D != 0).sum(0)
    with np.errstate(all="ignore"):
        if scheme == "TF_IDF":
            return np.where(D != 0, D * np.log(n / (df + 1.0))[None, :], 0.0)
        if scheme == "BM_25":
            dl = D.sum(1)
            reg = k1 * (1 - b + b * dl / dl.mean())
            return np.where(D != 0, np.log(n / (df + 1.0) + 1)[None, :] * D * (k1 + 1) / (D + reg[:, None]), 0.0)
    return D


EPS = 1e-6        # the code's guard against a zero denominator


def cosine(T, F, shrinkage, normalize):
    S = T @ F.T
    if not normalize:
        return S
    return S / (np.linalg.norm(T, axis=1)[:, None] * np.linalg.norm(F, axis=1)[None] + shrinkage + EPS)


def asymmetric(T, F, shrinkage, alpha):
    S = T @ F.T
    a, b = (T ** 2).sum(1) ** alpha, (F ** 2).sum(1) ** (1 - alpha)
    return S / (a[:, None] * b[None] + shrinkage + EPS)


def jaccard(T, F, shrinkage):
    T, F = (T != 0).astype(float), (F != 0).astype(float)
    S = T @ F.T
    return S / (T.sum(1)[:, None] + F.sum(1)[None] - S + shrinkage + EPS)


def tversky(T, F, shrinkage, alpha, beta):
    T, F = (T != 0).astype(float), (F != 0).astype(float)
    S = T @ F.T
    return S / (S + alpha * (T.sum(1)[:, None] - S) + beta * (F.sum(1)[None] - S) + shrinkage + EPS)


def few(rng, rows, cols, per=3, kind=None):
    """A large matrix with a handful of entries per row."""
    import scipy.sparse as sps
    r = np.repeat(np.arange(rows), per)
    c = rng.integers(0, cols, rows * per)
    key = np.unique(r * np.int64(cols) + c)
    v = rng.integers(1, 9, len(key)) / 4.0
    return sps.csr_matrix((v, (key // cols, key % cols)), shape=(rows, cols))


def same_sparse(case, got, want, mech, what, rtol=1e-7):
    """Same cells and same values."""
    d = abs(got - want)
    worst = d.max() if d.nnz else 0.0
    case.check(got.shape == want.shape and worst <= rtol * max(1.0, abs(want).max()), mech, lambda: f"differs by {worst} {what}")
    case.count("cells_compared", int(want.nnz))


def check_topk_rows(case, got, full, k, mech, diag_removed, rtol=1e-6, what="", atol=1e-9):
    """got: dense result; full: dense similarities. Every kept value is the definition's, at most
    k are kept per row, and no left-out value is larger than a kept one."""
    n = full.shape[0]
    tol = atol + rtol * max(1.0, float(np.abs(full).max()) if full.size else 1.0)
    case.check(np.isfinite(got).all(), mech + "-finite", what)
    for i in range(n):
        g, f = got[i], full[i].copy()
        if diag_removed:
            case.check(g[i] == 0, mech + "-own-neighbour", lambda: f"row {i} keeps itself with {g[i]} {what}")
            f[i] = 0
        kept = np.nonzero(g)[0]
        case.check(len(kept) <= k, mech + "-too-many", lambda: f"row {i} keeps {len(kept)} > {k} {what}")
        bad = np.abs(g[kept] - f[kept]) > tol
        case.check(not bad.any(), mech + "-value",
                   lambda: f"row {i} col {kept[bad][0]}: {g[kept[bad][0]]!r} expected {f[kept[bad][0]]!r} {what}")
        rest = np.ones(len(f), bool)
        rest[kept] = False
        if diag_removed:
            rest[i] = False
        possible = np.nonzero(rest & (np.abs(f) > tol))[0]
        room = k - (1 if diag_removed else 0)
        if len(possible):
            # neighbours of similarity zero are more similar than negative ones and may take their places
            zeros = 0 if f[possible].max() > 0 else int((rest & (np.abs(f) <= tol)).sum())
            case.check(len(kept) + zeros >= room, mech + "-left-out",
                       lambda: f"row {i} keeps {len(kept)} of top {k} though {possible[0]} has {f[possible[0]]!r} {what}")
            if len(kept):
                worst = g[kept].min()
                case.check(f[possible].max() <= worst + tol, mech + "-larger-left-out",
                           lambda: f"row {i}: left out {f[possible].max()!r} > kept {worst!r} {what}")
    case.count("rows_checked", n)
