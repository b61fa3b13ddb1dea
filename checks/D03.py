"""Frame <-> matrix correspondence, audited against a dictionary built from the log rows."""
import numpy as np
import pandas as pd
import scipy.sparse as sps

from vlib import gen

PROPERTY = "D03"
RULE = ("one case = one log converted by the real df_to_sparse, or one train/test pair exported, compared cell by cell; "
        "non-trivial when at least one cell is stored; distinct by sizes, id kinds and argument form")
ASSUMPTIONS = ["ids are hashable and not missing"]


def cells(X, uids, iids):
    c = sps.coo_matrix(X)
    out = {}
    uids, iids = list(uids), list(iids)
    for r, j, v in zip(c.row.tolist(), c.col.tolist(), c.data.tolist()):
        k = (uids[r], iids[j])
        out[k] = out.get(k, 0.0) + v
    return out


def same_cells(case, got, want, mech, what=""):
    for k in set(got) | set(want):
        g, w = got.get(k, 0.0), want.get(k, 0.0)
        case.check(abs(g - w) <= 1e-9 * max(1, abs(w)), mech, f"{k}: matrix has {g}, log says {w} {what}")
    case.count("cells_compared", len(want))


def convert(case):
    from irspack.utils import df_to_sparse
    rng = case.rng
    nu = int(gen.pick(rng, [1, 3, 12, 40, 300]))
    ni = int(gen.pick(rng, [1, 4, 25, 150]))
    uk, ik = gen.pick(rng, gen.ID_KINDS), gen.pick(rng, gen.ID_KINDS)
    ucol, icol = gen.pick(rng, [("user", "item"), ("user id", "item id"), ("u", "i")])
    df = gen.log_frame(rng, nu, ni, int(gen.pick(rng, [1, 10, 200, 900])), uk, ik, "int",
                       gen.pick(rng, ["frac", "counts", "signed"]), dup=True, ucol=ucol, icol=icol)
    if rng.random() < 0.2:
        df["rating"] = df["rating"].astype(int) + 1
    spare = {ucol: set(), icol: set()}
    for col, kind in ((ucol, uk), (icol, ik)):
        if rng.random() < 0.12:
            df[col] = df[col].astype("category")
            if rng.random() < 0.5:          # categories which do not occur, as after filtering a frame
                have = set(df[col].tolist())
                spare[col] = {x for x in gen.ids(rng, len(have) + 6, kind) if x not in have}
                df[col] = df[col].cat.add_categories([x for x in gen.ids(rng, len(have) + 6, kind) if x in spare[col]])
                if rng.random() < 0.5:
                    cats = list(df[col].cat.categories)
                    df[col] = df[col].cat.reorder_categories([cats[k] for k in rng.permutation(len(cats))])
    rcol = "rating" if rng.random() < 0.6 else None
    kw = {"rating_column": rcol} if rcol or rng.random() < 0.5 else {}
    allu, alli = list(dict.fromkeys(df[ucol].tolist())), list(dict.fromkeys(df[icol].tolist()))
    given = {}
    for name, present, kind, n in (("user_ids", allu, uk, nu), ("item_ids", alli, ik, ni)):
        if rng.random() < 0.5:
            continue
        pool = gen.ids(rng, n + 5, kind)          # some of them never occur in the log
        extra = [x for x in pool if x not in set(present)][:3]
        keep = [x for x in present if rng.random() < 0.7]
        lst = keep + extra
        lst = [lst[k] for k in rng.permutation(len(lst))]
        if not lst:
            lst = [present[0]]
        given[name] = lst
    conv = int(rng.integers(3))
    args = {}
    for k, v in given.items():
        if conv == 1:
            a = np.empty(len(v), dtype=object)
            a[:] = v
            args[k] = a
        elif conv == 2:
            args[k] = pd.Index(v)
        else:
            args[k] = list(v)
    before = gen.snapshot(df)
    X, uids, iids = df_to_sparse(df, ucol, icol, **args, **kw)
    case.check(gen.snapshot(df) == before, "frame-modified")
    case.check(sps.issparse(X) and X.format == "csr", "format")
    case.check(X.shape == (len(uids), len(iids)), "shape-vs-ids", f"{X.shape} {len(uids)} {len(iids)}")
    if "user_ids" in given:
        case.check(list(uids) == given["user_ids"], "user-list-not-followed")
    else:
        present = {u for u, i in zip(df[ucol].tolist(), df[icol].tolist())
                   if "item_ids" not in given or i in set(given["item_ids"])}
        case.check(len(set(uids)) == len(uids) and present <= set(uids) <= set(allu) | spare[ucol], "user-ids")
    if "item_ids" in given:
        case.check(list(iids) == given["item_ids"], "item-list-not-followed")
    else:
        iset = set(iids)
        present = {i for u, i in zip(df[ucol].tolist(), df[icol].tolist())
                   if "user_ids" not in given or u in set(given["user_ids"])}
        case.check(len(iset) == len(iids) and present <= iset <= set(alli) | spare[icol], "item-ids")
    want = {}
    us, its = set(given.get("user_ids", allu)), set(given.get("item_ids", alli))
    ratings = df["rating"].tolist() if rcol else [1.0] * len(df)
    for u, i, r in zip(df[ucol].tolist(), df[icol].tolist(), ratings):
        if u in us and i in its:
            want[(u, i)] = want.get((u, i), 0.0) + r
    same_cells(case, cells(X, uids, iids), want, "cell-value", f"given={sorted(given)}")
    if want:
        case.seen(X.shape, len(want), uk, ik, sorted(given), rcol, conv, shape=X.shape, cells=len(want),
                  user_ids=uk, item_ids=ik, lists_given=sorted(given))


def missing(case):
    """A row without a user or an item belongs to no cell: it is refused or left out, never given to someone else."""
    from irspack.utils import df_to_sparse
    rng = case.rng
    k = int(rng.integers(3, 30))
    kind = gen.pick(rng, ["str", "float", "obj_mixed", "date"])
    df = pd.DataFrame({"u": pd.Series([gen.ids(rng, 6, kind)[int(x)] for x in rng.integers(0, 6, k)]),
                       "i": pd.Series([gen.ids(rng, 9, kind)[int(x)] for x in rng.integers(0, 9, k)]), "r": rng.integers(1, 6, k).astype(float)})
    col = gen.pick(rng, ["u", "i"])
    holes = np.unique(rng.integers(0, k, 2))
    df.loc[holes, col] = pd.NaT if kind == "date" else np.nan if kind == "float" else None
    full = df.dropna()
    if not len(full):
        return
    args = {}
    if rng.random() < 0.5:
        args = dict(user_ids=list(dict.fromkeys(full["u"])), item_ids=list(dict.fromkeys(full["i"])))
    try:
        X, uids, iids = df_to_sparse(df, "u", "i", rating_column="r", **args)
    except ValueError:
        case.count("refused")
    else:
        want = {}
        for u, i, r in zip(full["u"].tolist(), full["i"].tolist(), full["r"].tolist()):
            want[(u, i)] = want.get((u, i), 0.0) + r
        same_cells(case, cells(X, uids, iids), want, "missing-id-row-counted", f"{col} missing, {kind}")
    case.seen(kind, col, bool(args), k, kind=kind, missing=col)


def unrated(case):
    """A missing or infinite rating is refused or stays what it is, never an invented number."""
    from irspack.utils import df_to_sparse
    rng = case.rng
    k = int(rng.integers(3, 40))
    odd = gen.pick(rng, [np.nan, np.nan, np.inf, -np.inf])
    df = pd.DataFrame({"u": rng.integers(0, 6, k), "i": rng.integers(0, 9, k), "r": rng.integers(1, 6, k).astype(float)})
    df.loc[np.unique(rng.integers(0, k, 2)), "r"] = odd
    args = dict(user_ids=list(range(6)), item_ids=list(range(9))) if rng.random() < 0.5 else {}
    try:
        X, uids, iids = df_to_sparse(df, "u", "i", rating_column="r", **args)
    except ValueError:
        case.count("refused")
    else:
        want, got = {}, cells(X, uids, iids)
        for u, i, r in zip(df["u"].tolist(), df["i"].tolist(), df["r"].tolist()):
            want[(u, i)] = want.get((u, i), 0.0) + r
        usual = [c for c in want if np.isfinite(want[c])]
        same_cells(case, {c: v for c, v in got.items() if c not in want or c in usual}, {c: want[c] for c in usual}, "cell-value", f"beside ratings of {odd}")
        for c in set(want) - set(usual):
            case.check(np.array_equal(got.get(c, 0.0), want[c], equal_nan=True), "odd-rating", f"{c}: matrix has {got.get(c)}, log says {want[c]}")
    case.seen(str(odd), bool(args), k, rating=str(odd))


def many(case):
    """Enough ids to need 16- and 32-bit category codes."""
    from irspack.utils import df_to_sparse
    rng = case.rng
    n = [130, 33000, 256, 70000][case.index % 4]
    u, i = rng.permutation(n), rng.permutation(n)
    df = pd.DataFrame({"u": u, "i": i, "r": rng.random(n)})
    X, uids, iids = df_to_sparse(df, "u", "i", rating_column="r")
    got = np.asarray(X[uids.get_indexer(u), iids.get_indexer(i)]).ravel()
    case.check(X.shape == (n, n) and X.nnz == n, "many-shape", f"{X.shape} {X.nnz}")
    case.close(got, df["r"].values, "many-values", 0, 0)
    case.seen(n, ids=n)


def pair_parts(case, nu, ni):
    rng = case.rng
    both = gen.csr(rng, nu, ni, kind=gen.pick(rng, ["frac", "counts", "ones", "signed"]))
    part = rng.random(both.nnz) < 0.5
    c = both.tocoo()
    A = sps.csr_matrix((c.data[part], (c.row[part], c.col[part])), shape=both.shape)
    B = sps.csr_matrix((c.data[~part], (c.row[~part], c.col[~part])), shape=both.shape)
    if rng.random() < 0.3:       # overlapping cells are legal: a repeated interaction
        B = sps.csr_matrix(B + gen.csr(rng, nu, ni, 0.1, "counts"))
    if rng.random() < 0.3 and A.nnz:
        A.data[rng.integers(A.nnz)] = 0.0          # explicitly stored zero
    if rng.random() < 0.3 and B.nnz:
        B.data[rng.integers(B.nnz)] = 0.0
    if rng.random() < 0.3:
        A = gen.unsorted(rng, A)
    return A, B


def stored_zeros(M):
    c = M.tocoo()
    return [(int(r), int(k)) for r, k, v in zip(c.row, c.col, c.data) if v == 0]


def frame_cells(df):
    out = {}
    for u, i, r in zip(df["user_id"].tolist(), df["item_id"].tolist(), df["rating"].tolist()):
        if (u, i) in out:
            return None
        out[(u, i)] = r
    return out


def pairs(case):
    from irspack.split import UserTrainTestInteractionPair as P
    rng = case.rng
    nu, ni = int(gen.pick(rng, [1, 5, 30])), int(gen.pick(rng, [1, 6, 40]))
    A, B = pair_parts(case, nu, ni)
    uid, iid = gen.ids(rng, nu, gen.pick(rng, gen.ID_KINDS)), gen.ids(rng, ni, gen.pick(rng, gen.ID_KINDS))
    ua = np.array(uid, dtype=object) if rng.random() < 0.5 else list(uid)
    ia = np.array(iid, dtype=object) if rng.random() < 0.5 else list(iid)
    test = B if rng.random() < 0.8 else None
    At = A.tocsc() if rng.random() < 0.3 else A.copy()
    wantA, wantB = A.toarray(), (B.toarray() if test is not None else np.zeros(A.shape))
    zero_A, zero_B = stored_zeros(A), stored_zeros(test) if test is not None else []
    p = P(ua, At, None if test is None else test.copy(), ia)
    case.check((p.n_users, p.n_items) == (nu, ni) and list(p.user_ids) == uid, "pair-sizes")
    case.check(np.array_equal(p.X_train.toarray(), wantA) and np.array_equal(p.X_test.toarray(), wantB), "pair-matrices")
    case.close(p.X_all.toarray(), wantA + wantB, "X_all", 1e-12, 1e-12)
    for _ in range(2):
        for df, W in ((p.df_train(), wantA), (p.df_test(), wantB)):
            got = frame_cells(df)
            case.check(got is not None, "pair-row-twice")
            want = {(uid[r], iid[c]): W[r, c] for r, c in zip(*np.nonzero(W))}
            for r, c in (zero_A if W is wantA else zero_B):         # a stored zero is an interaction too
                want[(uid[r], iid[c])] = 0.0
            case.check(got == want, "export", lambda: f"{list(set(got.items()) ^ set(want.items()))[:4]}")
            case.count("exported_rows", len(want))
    case.check(np.array_equal(p.X_train.toarray(), wantA), "export-changed-matrix")
    # round trip through df_to_sparse
    from irspack.utils import df_to_sparse
    X, _, _ = df_to_sparse(p.df_train(), "user_id", "item_id", uid, iid, "rating")
    case.close(X.toarray(), wantA, "roundtrip", 1e-12, 0)
    # concat
    nu2 = int(rng.integers(1, 8))
    A2, B2 = pair_parts(case, nu2, ni)
    for M in (A2, B2):
        if rng.random() < 0.25:             # the two pairs need not hold the same type of numbers
            M.data = np.rint(M.data).astype(gen.pick(rng, [np.int64, np.int32, np.float32]))
    uid2 = [("other", k) for k in range(nu2)]
    q = P(uid2, A2, B2, ia if rng.random() < 0.5 else None)
    r = p.concat(q)
    case.check(list(r.user_ids) == uid + uid2 and r.n_users == nu + nu2 and r.n_items == ni, "concat-users")
    case.close(r.X_train.toarray(), np.vstack([wantA, A2.toarray()]), "concat-train", 0, 0)
    case.close(r.X_test.toarray(), np.vstack([wantB, B2.toarray()]), "concat-test", 0, 0)
    case.close(r.X_all.toarray(), np.vstack([wantA + wantB, A2.toarray() + B2.toarray()]), "concat-all", 1e-12, 1e-12)
    case.check(list(p.user_ids) == uid and list(q.user_ids) == uid2, "concat-changed-operand")
    if A.nnz + B.nnz:
        case.seen(nu, ni, A.nnz, B.nnz, test is None, shape=(nu, ni), train=A.nnz, test=B.nnz)


def rejected(case):
    from irspack.split import UserTrainTestInteractionPair as P
    rng = case.rng
    A, B = pair_parts(case, 5, 4)
    case.raises(ValueError, lambda: P(list(range(4)), A, B), "user-size-accepted")
    case.raises(ValueError, lambda: P(list(range(6)), A, B), "user-size-accepted")
    case.raises(ValueError, lambda: P(list(range(5)), A, B[:4]), "row-mismatch-accepted")
    case.raises(ValueError, lambda: P(list(range(5)), A, B[:, :3]), "column-mismatch-accepted")
    case.raises(ValueError, lambda: P(list(range(5)), A, B, list(range(3))), "item-size-accepted")
    case.raises(ValueError, lambda: P(list(range(5)), A, None, list(range(5))), "item-size-accepted")
    case.raises(ValueError, lambda: P(list(range(5)), A, B).concat(P(list(range(5)), A[:, :3], B[:, :3])),
                "concat-mismatch-accepted")
    case.raises(RuntimeError, lambda: P(list(range(5)), A, B).df_train(), "export-without-ids")
    case.seen(A.nnz, B.nnz)


FAMILIES = [("convert", convert, 300, 8000), ("many", many, 4, 8), ("pairs", pairs, 200, 5000), ("missing", missing, 60, 1500), ("unrated", unrated, 40, 1000),
            ("rejected", rejected, 4, 20)]
