"""Workload generators shared by the checks (all driven by a numpy Generator)."""
import datetime

import numpy as np
import pandas as pd
import scipy.sparse as sps


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def real(rng, usual, low, high, p=0.4):
    """A usual value, or one spread evenly over the orders of magnitude between low and high."""
    if rng.random() >= p:
        return float(pick(rng, usual))
    return float(np.exp(rng.uniform(np.log(low), np.log(high))))


def edge(rng, n, p=0.25):
    """n, or now and then a size at or next to a multiple of a usual block size."""
    if rng.random() >= p:
        return n
    return int(pick(rng, [8, 16, 16, 16, 32, 64]) * int(rng.integers(1, 4)) + int(rng.integers(-1, 2)))


def size(rng, common, rare, p=0.04):
    """A size from the common ones, now and then one of the rare (large) ones."""
    return int(pick(rng, rare if rng.random() < p else common))


def cutoffs(rng, top, k, ends=False):
    """Up to k cutoffs in [1, top], in any order, now and then with one listed twice."""
    c = list({int(v) for v in rng.integers(1, top + 1, k)} | ({1, top} if ends else set()))
    rng.shuffle(c)
    if rng.random() < 0.15:
        c.append(c[int(rng.integers(len(c)))])
    return [int(v) for v in c]


def fine(rng, s, p=0.3):
    """Now and then the same order in doubles which single precision cannot tell apart."""
    if s.dtype == np.float64 and np.abs(s).max(initial=0) < 2.0 ** 20 and rng.random() < p:
        s = 1.0 + s * 2.0 ** -45
    return s


def values(rng, n, kind):
    if kind == "ones":
        return np.ones(n)
    if kind == "counts":
        return rng.integers(1, 9, n).astype(float)
    if kind == "frac":
        return rng.integers(1, 60, n) / 8.0 + rng.random(n)
    if kind == "small":
        return rng.random(n) * 0.5 + 0.01
    if kind == "tiny":                      # some of them far below one
        return np.where(rng.random(n) < 0.5, rng.random(n) * 1e-4 + 1e-6, 1.0)
    if kind == "odd":                       # all of them non-zero, whatever they become in a narrower type
        return rng.choice([1.0, 0.25, 1e-3, 1e-30, 256.0, 65536.0, 2.0 ** 32], n)
    if kind == "signed":
        v = rng.normal(size=n)
        return np.where(v == 0, 1.0, v)
    raise ValueError(kind)


def csr(rng, n, m, density=None, kind=None, holes=True, dtype=np.float64):
    """A canonical csr matrix with, if asked, some empty rows and columns."""
    if density is None:
        density = pick(rng, [0.05, 0.2, 0.5, 0.9])
    if kind is None:
        kind = pick(rng, ["ones", "counts", "frac", "small"])
    mask = rng.random((n, m)) < density
    if holes and n > 2 and rng.random() < 0.5:
        mask[rng.integers(n, size=max(1, n // 6))] = False
    if holes and m > 2 and rng.random() < 0.5:
        mask[:, rng.integers(m, size=max(1, m // 6))] = False
    r, c = np.nonzero(mask)
    X = sps.csr_matrix((values(rng, len(r), kind).astype(dtype), (r, c)), shape=(n, m))
    X.sort_indices()
    return X


def covered_csr(rng, n, m, density=0.3, kind="ones"):
    """As csr, but no row and no column is empty."""
    mask = rng.random((n, m)) < density
    mask[np.arange(n), rng.integers(m, size=n)] = True
    mask[rng.integers(n, size=m), np.arange(m)] = True
    r, c = np.nonzero(mask)
    return sps.csr_matrix((values(rng, len(r), kind), (r, c)), shape=(n, m))


def unsorted(rng, X):
    """The same matrix with the entries of each row in random order."""
    X = X.copy()
    for i in range(X.shape[0]):
        s, e = X.indptr[i], X.indptr[i + 1]
        p = rng.permutation(e - s)
        X.indices[s:e] = X.indices[s:e][p]
        X.data[s:e] = X.data[s:e][p]
    X.has_sorted_indices = False
    X.has_canonical_format = False
    return X


def snapshot(x):
    """Content of an array, matrix, frame or list for a later change test."""
    if sps.issparse(x):
        return (x.format, x.shape, x.dtype.str) + tuple(
            np.array(getattr(x, a)).tobytes() for a in ("data", "indices", "indptr"))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return (x.shape, "O", repr(x.tolist()))
        return (x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, pd.DataFrame):
        return (tuple(map(repr, x.columns)), tuple(str(d) for d in x.dtypes), repr(list(x.index)),
                repr([x[c].tolist() for c in x.columns]))
    return repr(x)


def same_matrix(x):
    """Value content of a sparse matrix independent of storage order."""
    return x.toarray()


ID_KINDS = ["int", "bigint", "str", "float", "obj_mixed", "date", "negint", "hugeint"]
LOOKALIKE = "twin"                   # 1 and "1" are different ids


def ids(rng, n, kind):
    """n distinct ids of one kind, in random order (a list)."""
    if kind == "int":
        out = list(range(n))
    elif kind == "bigint":
        out = [int(x) for x in 2 ** 40 + np.arange(n) * 977]
    elif kind == "hugeint":                 # consecutive, and beyond the exact integers of a double
        out = [2 ** 60 + i for i in range(n)]
    elif kind == "negint":
        out = [int(x) for x in np.arange(n) - n // 2]
    elif kind == "str":
        out = [f"id {i:03d}é" if i % 2 else f"{i}" for i in range(n)]
    elif kind == "float":
        out = [i * 0.5 for i in range(n)]
    elif kind == "obj_mixed":
        out = [i if i % 2 else f"s{i}" for i in range(n)]
    elif kind == "twin":
        out = [i // 2 if i % 2 else str(i // 2) for i in range(n)]
    elif kind == "date":
        out = [pd.Timestamp(datetime.datetime(2020, 1, 1)) + pd.Timedelta(hours=i) for i in range(n)]
    else:
        raise ValueError(kind)
    p = rng.permutation(n)
    return [out[i] for i in p]


def times(rng, n, kind):
    if kind == "ties":
        return rng.integers(0, max(2, n // 6), n)
    if kind == "int":
        return rng.permutation(n) + 1_500_000_000
    if kind == "ns":                        # consecutive, and beyond the exact integers of a double
        return rng.permutation(n) + 1_600_000_000_000_000_000
    if kind == "neg":
        return rng.integers(-50, 50, n)
    if kind == "float":
        return rng.random(n)
    if kind == "datetime":
        return pd.to_datetime("2021-03-04") + pd.to_timedelta(rng.integers(0, 10 ** 6, n), unit="s")
    if kind == "str":
        return np.array([f"2021-01-{d:02d}" for d in rng.integers(1, 29, n)], dtype=object)
    raise ValueError(kind)


TIME_KINDS = ["ties", "int", "neg", "float", "datetime", "str", "ns"]


def column(rng, x, kind):
    """The ids as a column; any kind may arrive as plain Python objects."""
    s = pd.Series(x, dtype=object)
    return s if kind in ("obj_mixed", "twin") or rng.random() < 0.15 else s.infer_objects()


def log_frame(rng, n_users, n_items, n_rows, ukind="int", ikind="int", tkind="int",
              rkind="frac", dup=True, ucol="user", icol="item"):
    """An interaction log: id, rating, time columns, extra column, hostile index."""
    U, I = ids(rng, n_users, ukind), ids(rng, n_items, ikind)
    w = rng.random(n_users) ** 2 + 0.02
    u = rng.choice(n_users, n_rows, p=w / w.sum())
    i = rng.integers(0, n_items, n_rows)
    if not dup:
        _, keep = np.unique(u * n_items + i, return_index=True)
        keep = rng.permutation(keep)
        u, i = u[keep], i[keep]
    n = len(u)
    uu, ii = np.empty(n, dtype=object), np.empty(n, dtype=object)
    uu[:] = [U[k] for k in u]
    ii[:] = [I[k] for k in i]
    df = pd.DataFrame({
        ucol: column(rng, uu, ukind), icol: column(rng, ii, ikind),
        "rating": values(rng, n, rkind), "time": times(rng, n, tkind), "rid": np.arange(n)})
    how = int(rng.integers(4))
    if how == 1:
        df.index = rng.permutation(n) * 3 + 7
    elif how == 2:
        df.index = rng.integers(0, max(1, n // 3), n)     # not unique
    elif how == 3:
        df.index = [f"r{k}" for k in range(n)]
    return df
