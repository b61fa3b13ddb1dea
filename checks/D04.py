"""Time-based and specified holdouts, audited row by row by an offline leak checker."""
import math

import numpy as np
import pandas as pd
import scipy.sparse as sps

from vlib import gen

PROPERTY = "D04"
RULE = ("one case = one log split by the real split_last_n_interaction_df or holdout_specific_interactions and "
        "audited row by row; non-trivial when at least one row was held out or specified; distinct by sizes, id and time kinds and arguments")
ASSUMPTIONS = ["user ids and times are not missing; the time values are totally ordered"]


def last_n(case):
    from irspack.split import split_last_n_interaction_df
    rng = case.rng
    nu = gen.size(rng, [1, 2, 9, 40], [300])
    uk, tk = gen.pick(rng, gen.ID_KINDS[:4] + ["date", "negint"]), gen.pick(rng, gen.TIME_KINDS)
    ucol, tcol = gen.pick(rng, [("user", "time"), ("user id", "time stamp"), ("u", "class")])
    df = gen.log_frame(rng, nu, 20, gen.size(rng, [1, 5, 60, 300], [3000]), uk, "int", tk, ucol=ucol)
    df = df.rename(columns={"time": tcol})
    if rng.random() < 0.1:
        df = df.sort_values(tcol, ascending=bool(rng.integers(2)))
    a = {}
    if rng.random() < 0.5:
        a["n_heldout"] = int(gen.pick(rng, [0, 1, 2, 7, 1000]))
        if rng.random() < 0.5:
            a["heldout_ratio"] = float(rng.random())
    elif rng.random() < 0.9:
        a["heldout_ratio"] = float(gen.pick(rng, [0.0, 1.0, 0.5, 0.1, 1 / 3, float(rng.random())]))
    if rng.random() < 0.5:
        a["ceil_n_heldout"] = bool(rng.integers(2))
    before = gen.snapshot(df)
    tr, te = split_last_n_interaction_df(df, ucol, tcol, **a)
    case.check(gen.snapshot(df) == before, "frame-modified")
    orig = {r: (repr(i), tuple(map(repr, v))) for r, i, v in
            zip(df["rid"].tolist(), df.index, df.itertuples(index=False, name=None))}
    got = []
    for part in (tr, te):
        case.check(list(part.columns) == list(df.columns) and (part.dtypes == df.dtypes).all(), "columns")
        for r, i, v in zip(part["rid"].tolist(), part.index, part.itertuples(index=False, name=None)):
            case.check(orig.get(r) == (repr(i), tuple(map(repr, v))), "row-changed", f"rid {r}")
            got.append(r)
    case.check(sorted(got) == sorted(orig), "rows-not-partitioned", f"{len(got)} rows of {len(orig)}")
    N = df[ucol].value_counts().to_dict()
    h = te[ucol].value_counts().to_dict()
    ratio = a.get("heldout_ratio", 0.1)
    f = math.ceil if a.get("ceil_n_heldout") else math.floor
    kept, held = {}, {}
    for u, t in zip(tr[ucol].tolist(), tr[tcol].tolist()):
        kept[u] = max(kept.get(u, t), t)
    for u, t in zip(te[ucol].tolist(), te[tcol].tolist()):
        held[u] = min(held.get(u, t), t)
    for u, n in N.items():
        w = min(a["n_heldout"], n) if "n_heldout" in a else f(n * ratio)
        case.check(h.get(u, 0) == w, "heldout-count", f"user {u}: {h.get(u, 0)} of {n}, expected {w} {a}")
        if u in kept and u in held:
            case.check(kept[u] <= held[u], "leak-later-kept", f"user {u}: kept {kept[u]} later than held {held[u]}")
            case.count("users_with_both_parts")
    case.count("rows_audited", len(orig))
    if len(te):
        case.seen(nu, len(df), uk, tk, sorted(a.items()), rows=len(df), held=len(te), time=tk, args=a)


def specified(case):
    from irspack.split import holdout_specific_interactions
    rng = case.rng
    nu = gen.size(rng, [2, 6, 20, 50], [300])
    ni = int(gen.pick(rng, [2, 8, 30]))
    kinds = [k for k in gen.ID_KINDS if k != "obj_mixed"]
    uk, ik = gen.pick(rng, kinds), gen.pick(rng, kinds)
    ucol, icol = gen.pick(rng, [("user", "item"), ("user id", "class"), ("u", "i")])
    df = gen.log_frame(rng, nu, ni, int(nu * gen.pick(rng, [2, 5, 12])), uk, ik, "int",
                       dup=bool(rng.integers(2)), ucol=ucol, icol=icol)
    n = len(df)
    how = int(rng.integers(3))
    if how == 0:        # random rows
        mask = rng.random(n) < gen.pick(rng, [0.02, 0.2, 0.6, 1.0])
    elif how == 1:      # some items
        its = set(df[icol].tolist())
        chosen = {i for i in its if rng.random() < 0.3}
        mask = np.array([i in chosen for i in df[icol].tolist()])
    else:               # after a time point
        mask = (df["time"] > df["time"].quantile(0.7)).values
    if not mask.any():
        mask[int(rng.integers(n))] = True
    rv, rt = gen.pick(rng, [(0.2, 0.2), (0.0, 0.0), (0.0, 0.5), (0.5, 0.0), (0.5, 0.5), (1.0, 0.0), (0.0, 1.0),
                            (0.3, 0.0), (0.1, 0.2), (0.7, 0.3), (1 / 3, 1 / 3)]) if rng.random() < 0.8 else (None, None)
    if rv is None:
        rv = float(rng.random())
        rt = float(rng.random() * (1 - rv))
    seed = int(rng.integers(1 << 30))
    ind = np.where(mask)[0] if rng.random() < 0.5 else mask
    kw = {} if (rv, rt) == (0.2, 0.2) and rng.random() < 0.5 else dict(
        validatable_user_ratio_val=rv, validatable_user_ratio_test=rt)
    before = gen.snapshot(df), np.array(ind).tobytes()
    items, ds = holdout_specific_interactions(df, ucol, icol, ind, random_state=seed, **kw)
    case.check((gen.snapshot(df), np.array(ind).tobytes()) == before, "input-modified")
    items = list(items)
    users = set(df[ucol].tolist())
    V = {u for u, m in zip(df[ucol].tolist(), mask.tolist()) if m}
    case.check(set(ds) == {"train", "val", "test"}, "keys")
    case.check(set(items) == set(df[icol].tolist()) and len(items) == len(set(items)), "items")
    allu = [u for k in ds for u in ds[k].user_ids]
    case.check(len(allu) == len(users) and set(allu) == users, "users-not-partitioned",
               f"{len(allu)} listed, {len(users)} users")
    g = {k: set(ds[k].user_ids) for k in ds}
    case.check(users - V <= g["train"], "unspecified-user-not-in-train", str(list((users - V) - g["train"])[:3]))
    # cell audit
    want = {k: ({}, {}) for k in ds}
    home = {u: k for k in g for u in g[k]}
    for u, i, m in zip(df[ucol].tolist(), df[icol].tolist(), mask.tolist()):
        k = home[u]
        d = want[k][1 if (m and k != "train") else 0]
        d[(u, i)] = d.get((u, i), 0) + 1
    for k in ds:
        p = ds[k]
        case.check(p.X_train.shape == p.X_test.shape == (len(p.user_ids), len(items)), "shape", k)
        for X, W, nm in ((p.X_train, want[k][0], "history"), (p.X_test, want[k][1], "ground truth")):
            c = sps.coo_matrix(X)
            got = {}
            for r, j, v in zip(c.row.tolist(), c.col.tolist(), c.data.tolist()):
                key = (p.user_ids[r], items[j])
                got[key] = got.get(key, 0) + v
            got = {a: b for a, b in got.items() if b}
            case.check(got == W, "leak-or-loss", lambda: f"{k} {nm}: {list(set(got.items()) ^ set(W.items()))[:4]}")
            case.count("cells_audited", len(W))
    # ratios
    nV = len(V)
    n_tr, n_va, n_te = len(g["train"] & V), len(g["val"]), len(g["test"])
    what = f"{n_tr}/{n_va}/{n_te} of {nV} for ratios val={rv} test={rt}"
    case.check(abs(n_tr - (1 - rv - rt) * nV) <= 1 + 1e-6, "ratio-train", what)
    case.check(abs(n_va - rv * nV) <= 1 + 1e-6, "ratio-val", what)
    case.check(abs(n_te - rt * nV) <= 2 + 1e-6, "ratio-test", what)
    if rv == 0:
        case.check(n_va == 0, "zero-ratio-val", what)
    if rt == 0:
        case.check(n_te == 0, "zero-ratio-test", what)
    items2, ds2 = holdout_specific_interactions(df, ucol, icol, ind, random_state=seed, **kw)
    case.check(list(items2) == items and all(list(ds[k].user_ids) == list(ds2[k].user_ids) and
               (ds[k].X_all != ds2[k].X_all).nnz == 0 for k in ds), "not-reproducible")
    case.seen(nu, n, uk, ik, how, round(rv, 3), round(rt, 3), rows=n, validatable=nV, split=(n_tr, n_va, n_te), ratios=(rv, rt))


def specified_choice(case):
    """Validation and test users are a random choice among the validatable ones."""
    from irspack.split import holdout_specific_interactions
    n = 12
    df = pd.DataFrame({"u": np.repeat(np.arange(n), 3), "i": np.tile(np.arange(3), n)})
    ind = np.arange(0, 3 * n, 3)
    base = int(case.rng.integers(1 << 20))
    T = 100
    cv, ct = np.zeros(n), np.zeros(n)
    for s in range(T):
        _, ds = holdout_specific_interactions(df, "u", "i", ind, 1 / 3, 1 / 3, random_state=base + s)
        cv[np.asarray(ds["val"].user_ids, dtype=int)] += 1
        ct[np.asarray(ds["test"].user_ids, dtype=int)] += 1
    for c in (cv, ct):
        p = c.sum() / (n * T)
        case.check(np.abs(c - p * T).max() < 6.5 * math.sqrt(T * p * (1 - p)), "biased-user-choice", str(c))
    case.seen(base, val_counts=cv.tolist())


def rejected(case):
    from irspack.split import holdout_specific_interactions
    df = gen.log_frame(case.rng, 5, 5, 30)
    for rv, rt in ((0.6, 0.6), (1.0, 0.5), (0.0, 1.2), (1.01, 0.0)):
        case.raises(ValueError, lambda: holdout_specific_interactions(df, "user", "item", np.arange(5), rv, rt),
                    "ratios-accepted", f"{rv} {rt}")
    case.seen(len(df))


FAMILIES = [("last_n", last_n, 300, 8000), ("specified", specified, 220, 6000),
            ("specified_choice", specified_choice, 2, 20), ("rejected", rejected, 2, 5)]
