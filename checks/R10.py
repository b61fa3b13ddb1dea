"""Matrix utilities against dense formulas."""
import warnings

import numpy as np
import scipy.sparse as sps

from vlib import gen

PROPERTY = "R10"
RULE = ("one case = one utility on one random matrix (empty rows/columns, single row, unsorted, float32/int, csr/csc); non-trivial when the "
        "matrix has stored entries; distinct by utility, shape, density and parameters")
ASSUMPTIONS = ["entries of a sparse argument are finite and its coordinates are distinct"]


def mat(rng, square=False, kind=None):
    n = gen.size(rng, [1, 2, 5, 17, 40, 130], [300, 700])
    m = n if square else int(gen.pick(rng, [1, 3, 8, 30, 90]))
    X = gen.csr(rng, n, m, kind=kind)
    w = rng.integers(5)
    if w == 0:
        X = gen.unsorted(rng, X)
    elif w == 1:
        X = X.astype(np.float32).astype(np.float64)
    elif w == 2:
        X = X.tocsc()
    return X, n, m, int(w)


def content(X):
    """Values and pattern; the order of entries within a row is no content (the binding may sort it)."""
    return X.format, X.shape, X.dtype.str, X.nnz, X.toarray().tobytes()


def pattern(X):
    X = sps.csr_matrix(X)
    X.sort_indices()
    return X.indptr.tolist(), X.indices.tolist()


def bm25(case):
    from irspack.utils import okapi_BM_25_weight as f
    rng = case.rng
    X, n, m, w = mat(rng)
    k1, b = gen.real(rng, [0.0, 0.5, 1.2, 10.0], 1e-3, 1e3), gen.real(rng, [0.0, 0.3, 0.75, 1.0], 1e-3, 1)
    default = rng.random() < 0.2
    if default:
        k1, b = 1.2, 0.75
    snap = content(X)
    R = f(X) if default else (f(X, k1, b) if rng.random() < 0.5 else f(X, k1=k1, b=b))
    case.check(content(X) == snap, "argument-modified", "bm25")
    case.check(pattern(R) == pattern(X) and R.shape == X.shape, "pattern", "bm25")
    D = X.toarray()
    df = (D != 0).sum(0)
    idf = np.log(n / (df + 1.0) + 1.0)
    dl = D.sum(1)
    with np.errstate(all="ignore"):
        reg = k1 * (1 - b + b * dl / dl.mean())
        want = np.where(D != 0, idf[None, :] * D * (k1 + 1) / (D + reg[:, None]), 0)
    case.close(R.toarray(), want, "bm25", message=f"k1={k1} b={b}")
    if X.nnz:
        case.seen(n, m, w, k1, b, X.nnz, rows=n, cols=m, k1=k1, b=b)


def tfidf(case):
    from irspack.utils import tf_idf_weight as f
    rng = case.rng
    X, n, m, w = mat(rng)
    mode = int(rng.integers(3))
    snap = content(X)
    R = [lambda: f(X), lambda: f(X, True), lambda: f(X, smooth=False)][mode]()
    case.check(content(X) == snap, "argument-modified", "tfidf")
    case.check(pattern(R) == pattern(X) and R.shape == X.shape, "pattern", "tfidf")
    D = X.toarray()
    df = (D != 0).sum(0)
    with np.errstate(all="ignore"):
        want = np.where(D != 0, D * np.log(n / (df + (0.0 if mode == 2 else 1.0)))[None, :], 0)
    case.close(R.toarray(), want, "tfidf", message=f"mode={mode}")
    if X.nnz:
        case.seen(n, m, w, mode, X.nnz, rows=n, cols=m, smooth=mode != 2)


def diagonal(case):
    from irspack.utils import remove_diagonal as f
    rng = case.rng
    X, n, m, w = mat(rng, square=True, kind=gen.pick(rng, ["signed", "counts", "frac"]))
    snap = content(X)
    R = f(X)
    case.check(content(X) == snap, "argument-modified", "diagonal")
    D = X.toarray()
    np.fill_diagonal(D, 0)
    case.check(R.shape == (n, n) and np.array_equal(R.toarray(), D), "remove-diagonal", f"n={n}")
    case.check(not R.diagonal().any(), "diagonal-left")
    if n > 1:
        case.raises(ValueError, lambda: f(sps.csr_matrix(X[:-1])), "not-square", f"{n - 1}x{n}")
        case.raises(ValueError, lambda: f(sps.csr_matrix(X[:, :-1])), "not-square", f"{n}x{n - 1}")
    if X.nnz:
        case.seen(n, w, X.nnz, n=n)


def product(case):
    from irspack.utils import sparse_mm_threaded as f
    rng = case.rng
    X, n, m, w = mat(rng, kind=gen.pick(rng, ["signed", "counts"]))
    if rng.random() < 0.5:                 # any number of rows: workers take them in chunks
        n = int(rng.integers(1, 400))
        X, w = gen.csr(rng, n, m, kind="signed"), 9
    k = int(gen.pick(rng, [1, 4, 20, 100]))
    Y = gen.csr(rng, m, k, kind="signed").tocsc()
    snap = content(X), content(Y)
    want = X.toarray() @ Y.toarray()
    for t in (1, int(gen.pick(rng, [2, 3, 8, 40]))):
        got = f(X, Y, t)
        case.close(got, want, "product", rtol=1e-10, atol=1e-9, message=f"{n}x{m}x{k} threads={t}")
    case.check((content(X), content(Y)) == snap, "argument-modified", "product")
    case.raises((ValueError, TypeError), lambda: f(X, Y, 0), "zero-threads")
    if X.nnz and Y.nnz:
        case.seen(n, m, k, w, rows=n, inner=m, cols=k)


def normalise(case):
    from irspack.utils import l1_normalize_row as f
    rng = case.rng
    X, n, m, w = mat(rng)
    X = X.tocsc()
    if rng.random() < 0.3:
        X = X.astype(gen.pick(rng, [np.float32, np.int64]))
        X.eliminate_zeros()
    if rng.random() < 0.3:
        X = gen.unsorted(rng, X.T.tocsr()).T
    if rng.random() < 0.3:                  # entries of either sign, no row that nearly cancels
        X = X.copy()
        X.data = np.where(rng.random(X.nnz) < 0.3, -X.data, X.data).astype(X.dtype)
        bad = np.abs(np.asarray(X.sum(1)).ravel()) < 0.05 * np.asarray(abs(X).sum(1)).ravel()
        X.data[bad[X.indices]] = np.abs(X.data[bad[X.indices]])
    snap = content(X)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        R = f(X)
    case.check(content(X) == snap, "argument-modified", "l1_normalize_row")
    D = X.toarray().astype(float)
    s = D.sum(1)
    want = np.where(s[:, None] != 0, D / np.where(s == 0, 1, s)[:, None], D)
    case.close(R.toarray(), want, "normalise", message=f"{n}x{m} {X.dtype}")
    rows = np.asarray(R.sum(1)).ravel()
    case.close(rows[s != 0], np.ones(int((s != 0).sum())), "row-sum")
    if X.nnz:
        case.seen(n, m, X.dtype.str, X.nnz, rows=n, cols=m, empty_rows=int((s == 0).sum()))


FAMILIES = [("bm25", bm25, 150, 5000), ("tfidf", tfidf, 120, 4000), ("diagonal", diagonal, 100, 3000),
            ("product", product, 150, 5000), ("normalise", normalise, 120, 4000)]
