"""Row-wise split: the two parts are recorded and compared, entry by entry, with the input."""
import math

import numpy as np
import scipy.sparse as sps

from vlib import gen

PROPERTY = "D01"
RULE = ("one case = one matrix split by the real rowwise_train_test_split; non-trivial when the "
        "matrix has at least one stored entry; distinct by shape, nnz, value kind, dtype, format and split argument")
ASSUMPTIONS = ["matrices are canonical (no duplicate coordinates, no explicit zeros)"]


def entries(X):
    X = sps.coo_matrix(X)
    return sorted(zip(X.row.tolist(), X.col.tolist(), X.data.tolist()))


def judge(case, X, tr, te, expect_n, what):
    case.check(tr.shape == X.shape and te.shape == X.shape, "shape", what)
    case.check(tr.dtype == X.dtype and te.dtype == X.dtype, "dtype", f"{tr.dtype} {te.dtype} {X.dtype} {what}")
    for M, nm in ((tr, "train"), (te, "test")):
        c = sps.coo_matrix(M)
        k = c.row.astype(np.int64) * max(1, X.shape[1]) + c.col
        case.check(len(np.unique(k)) == len(k), "duplicate-entry", nm)
        A = sps.csr_matrix(M)
        A.has_canonical_format          # structure must be valid
    a, b = entries(tr), entries(te)
    pa, pb = {e[:2] for e in a}, {e[:2] for e in b}
    case.check(not (pa & pb), "entry-in-both", lambda: f"{sorted(pa & pb)[:3]} {what}")
    want = entries(X)
    got = sorted(a + b)
    case.check(got == want, "not-a-partition",
               lambda: f"{what}: missing {sorted(set(want) - set(got))[:3]} extra {sorted(set(got) - set(want))[:3]}")
    nz = np.diff(sps.csr_matrix(X).indptr)
    nt = np.zeros(X.shape[0], dtype=int)
    for r, _, _ in b:
        nt[r] += 1
    for r in range(X.shape[0]):
        case.check(nt[r] == expect_n(int(nz[r])), "test-size",
                   f"row {r}: {nz[r]} entries, test has {nt[r]}, expected {expect_n(int(nz[r]))} {what}")
    case.count("rows_checked", X.shape[0])
    case.count("entries_checked", len(want))


def make(case):
    rng = case.rng
    n = gen.size(rng, [1, 1, 2, 5, 17, 40], [200, 600])
    m = gen.size(rng, [1, 2, 7, 30, 64], [300, 1000])
    kind = gen.pick(rng, ["ones", "counts", "frac", "small", "signed", "frac"])
    dtype = np.float64
    if kind in ("ones", "counts"):
        dtype = gen.pick(rng, [np.float64, np.float32, np.int32, np.int64, np.uint8] + [bool] * (kind == "ones"))
    elif rng.random() < 0.3:
        dtype = np.float32
    X = gen.csr(rng, n, m, kind=kind)
    X.data = X.data.astype(dtype)
    fmt = gen.pick(rng, ["csr", "csr", "csr", "csc", "unsorted"])
    if fmt == "csc":
        X = X.tocsc()
    elif fmt == "unsorted":
        X = gen.unsorted(rng, X)
    return X, kind, np.dtype(dtype).name, fmt


def ratio(case):
    from irspack.utils import rowwise_train_test_split
    rng = case.rng
    X, kind, dt, fmt = make(case)
    r = float(gen.pick(rng, [0.0, 1.0, 0.5, 0.25, 0.1, 1 / 3, 0.7, 0.999, 1e-9, float(rng.random())]))
    if rng.random() < 0.4:
        # a ratio whose product with the length of some row is a whole number up to rounding
        if rng.random() < 0.5 and fmt == "csr":
            D = rng.permuted(np.arange(100)[None, :] < rng.choice([20, 50, 100], (X.shape[0], 1)), axis=1)
            X = sps.csr_matrix(D.astype(X.dtype))
        lengths = sorted(set(np.diff(sps.csr_matrix(X).indptr).tolist()) - {0})
        if lengths:
            N = int(gen.pick(rng, lengths))
            r = float(gen.pick(rng, [rng.integers(N + 1) / N, round(float(rng.integers(N + 1)) / N, 2), rng.integers(101) / 100]))
            r = min(1.0, max(0.0, float(gen.pick(rng, [r, r, np.nextafter(r, 2), np.nextafter(r, -1), r + 1e-12, r - 1e-12]))))
    ceil = bool(rng.integers(2))
    seed = int(rng.integers(1 << 31 - 1))
    before = gen.snapshot(X)
    kw = {} if (not ceil and rng.random() < 0.5) else {"ceil_n_heldout": ceil}
    tr, te = rowwise_train_test_split(X, test_ratio=r, random_state=seed, **kw)
    case.check(gen.snapshot(X) == before, "input-modified")
    f = math.ceil if ceil else math.floor
    judge(case, X, tr, te, lambda N: f(N * r), f"ratio={r} ceil={ceil} dtype={dt} fmt={fmt} kind={kind}")
    tr2, te2 = rowwise_train_test_split(X, r, None, ceil, seed)
    case.check(entries(tr) == entries(tr2) and entries(te) == entries(te2), "not-reproducible")
    a = rowwise_train_test_split(X, r, ceil_n_heldout=ceil, random_state=np.random.RandomState(seed))
    b = rowwise_train_test_split(X, r, ceil_n_heldout=ceil, random_state=np.random.RandomState(seed))
    case.check(entries(a[1]) == entries(b[1]), "not-reproducible-randomstate")
    if X.nnz:
        case.seen(X.shape, X.nnz, kind, dt, fmt, r, ceil, shape=X.shape, nnz=X.nnz, ratio=r, dtype=dt)


def fixed(case):
    from irspack.utils import rowwise_train_test_split
    rng = case.rng
    X, kind, dt, fmt = make(case)
    k = int(gen.pick(rng, [0, 1, 2, 3, 10, 1000]))
    seed = int(rng.integers(1 << 30))
    before = gen.snapshot(X)
    tr, te = rowwise_train_test_split(X, n_test=k, random_state=seed,
                                      test_ratio=float(rng.random()), ceil_n_heldout=bool(rng.integers(2)))
    case.check(gen.snapshot(X) == before, "input-modified")
    judge(case, X, tr, te, lambda N: min(k, N), f"n_test={k} dtype={dt} fmt={fmt} kind={kind}")
    tr2, te2 = rowwise_train_test_split(X, n_test=k, random_state=seed)
    case.check(entries(te) == entries(te2), "not-reproducible")
    if X.nnz:
        case.seen(X.shape, X.nnz, kind, dt, fmt, k, shape=X.shape, nnz=X.nnz, n_test=k)


def wide(case):
    """Rows and row counts that do not fit in sixteen bits."""
    from irspack.utils import rowwise_train_test_split
    rng = case.rng
    if case.index % 2:
        n, m = 3, 70000
        X = sps.csr_matrix((np.ones(m + 5), (np.r_[np.zeros(m, int), np.full(5, 2)], np.r_[np.arange(m), np.arange(m - 5, m)])), shape=(n, m))
    else:
        n, m = 66000, 4
        X = sps.csr_matrix((rng.random((n, m)) < 0.6).astype(float))
    X.data = rng.integers(1, 1000, X.nnz) / 8.0
    kw, want = gen.pick(rng, [(dict(test_ratio=0.5), lambda N: N // 2), (dict(n_test=66000), lambda N: min(N, 66000)), (dict(n_test=1), lambda N: min(N, 1))])
    seed = int(rng.integers(1 << 30))
    tr, te = rowwise_train_test_split(X, random_state=seed, **kw)
    judge(case, X, tr, te, want, f"wide {kw}")
    case.seen(n, m, str(kw), shape=X.shape, nnz=X.nnz)


def randomness(case):
    """Frequencies over seeds and rows; bounds at more than 7 standard deviations."""
    from irspack.utils import rowwise_train_test_split
    rng = case.rng
    N, rows = 8, 30
    X = sps.csr_matrix(np.tile(np.arange(1, N + 1) / 4.0, (rows, 1)))
    T = 60
    byfix = bool(case.index % 2)
    hits = np.zeros((rows, N))
    subsets = set()
    base = int(rng.integers(1 << 20))
    perseed = set()
    for s in range(T):
        _, te = rowwise_train_test_split(X, 0.5, 4 if byfix else None, random_state=base + s)
        M = te.toarray() > 0
        hits += M
        perseed.add(M.tobytes())
        for row in M:
            subsets.add(row.tobytes())
    case.check(len(perseed) > T * 0.9, "seed-ignored", f"{len(perseed)} distinct splits over {T} seeds")
    tot = rows * T
    p = hits.sum(axis=0) / tot
    case.check(np.all(np.abs(p - 0.5) < 7.5 * 0.5 / math.sqrt(tot)), "biased-position", f"{p}")
    case.check(len(subsets) >= 60, "few-subsets", f"{len(subsets)} of 70 subsets over {tot} rows")
    rowdev = np.abs(hits / T - 0.5).max()
    case.check(rowdev < 7.5 * 0.5 / math.sqrt(T), "row-biased", f"{rowdev}")
    rs = np.random.RandomState(base)
    a = rowwise_train_test_split(X, 0.5, random_state=rs)[1].toarray()
    b = rowwise_train_test_split(X, 0.5, random_state=rs)[1].toarray()
    case.check((a != b).any(), "random-state-not-advanced")
    c = rowwise_train_test_split(X, 0.5)[1].toarray()
    d = rowwise_train_test_split(X, 0.5)[1].toarray()
    case.check((c != d).any(), "unseeded-repeats")
    case.count("seeds_sampled", T)
    case.seen(base, byfix, subsets_seen=len(subsets), position_frequencies=[round(float(x), 3) for x in p])


def rejected(case):
    from irspack.utils import rowwise_train_test_split
    X = gen.csr(case.rng, 6, 5, 0.5, "frac")
    for r in (-0.1, 1.1, -1e-6, 1 + 1e-6, 5.0, float("nan"), float("inf")):
        for ceil in (False, True):
            case.raises(ValueError, lambda: rowwise_train_test_split(X, r, ceil_n_heldout=ceil, random_state=1),
                        "bad-ratio-accepted", f"ratio {r}")
    case.raises((ValueError, TypeError), lambda: rowwise_train_test_split(X, n_test=-1, random_state=1),
                "negative-n-accepted")
    case.seen(X.nnz)


FAMILIES = [("ratio", ratio, 400, 12000), ("fixed", fixed, 250, 8000),
            ("wide", wide, 4, 40), ("randomness", randomness, 6, 100), ("rejected", rejected, 3, 10)]
