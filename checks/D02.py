"""User holdout: an offline checker replays the log against the three returned groups."""
import math

import numpy as np
import pandas as pd
import scipy.sparse as sps

from vlib import gen, rerun

PROPERTY = "D02"
RULE = ("one case = one log split by the real split_dataframe_partial_user_holdout and audited pair by pair; "
        "non-trivial when some interaction was held out or a group was asked for; distinct by sizes, id kinds, arguments and seed")
ASSUMPTIONS = ["for a (user, item) pair that occurs repeatedly the first row of the log is the one kept"]


def first_rows(df, ucol, icol, rcol, tcol):
    out = {}
    cols = [df[ucol].tolist(), df[icol].tolist(),
            df[rcol].tolist() if rcol else [1.0] * len(df), df[tcol].tolist()]
    for u, i, r, t in zip(*cols):
        out.setdefault((u, i), (float(r), t))
    return out


def audit(case, df, dataset, items, a, n_val, n_test, ucol, icol):
    rcol, tcol = a.get("rating_column"), a.get("time_column")
    pairs = first_rows(df, ucol, icol, rcol, "time")
    users = list(dict.fromkeys(df[ucol].tolist()))
    case.check(set(dataset) == {"train", "val", "test"}, "keys", str(set(dataset)))
    items = list(items)
    case.check(len(items) == len(set(items)) and set(items) == {p[1] for p in pairs}, "item-list",
               f"{len(items)} items listed")
    sizes = {k: v.n_users for k, v in dataset.items()}
    want = {"val": n_val, "test": n_test, "train": len(users) - n_val - n_test}
    case.check(sizes == want, "group-sizes", f"{sizes} expected {want} args {a}")
    all_ids = [u for k in ("train", "val", "test") for u in dataset[k].user_ids]
    case.check(len(all_ids) == len(users) and set(all_ids) == set(users), "users-not-partitioned",
               f"{len(all_ids)} ids, {len(set(all_ids))} distinct, {len(users)} users")
    seen = {}
    for k in ("train", "val", "test"):
        g = dataset[k]
        case.check(g.X_train.shape == g.X_test.shape == (g.n_users, len(items)), "group-shape", k)
        case.check(len(g.user_ids) == g.n_users, "ids-length", k)
        case.check(abs(g.X_all - (g.X_train + g.X_test)).sum() == 0, "X_all", k)
        parts = []
        for X in (g.X_train, g.X_test):
            c = sps.coo_matrix(X)
            parts.append(c)
            for r, j, v in zip(c.row.tolist(), c.col.tolist(), c.data.tolist()):
                key = (g.user_ids[r], items[j])
                if v == 0 and key not in pairs:
                    continue
                case.check(key not in seen, "pair-twice", f"{key} in {k}")
                case.check(key in pairs, "invented-pair", f"{key} in {k}")
                case.check(v == pairs[key][0], "rating-changed",
                           lambda: f"{key} in {k}: {v} instead of {pairs[key][0]}")
                seen[key] = k
        if k == "train":
            case.check(g.X_test.nnz == 0, "train-has-heldout")
            continue
        ratio = a.get(f"heldout_ratio_{k}", 0.5)
        nh = a.get(f"n_heldout_{k}")
        f = math.ceil if a.get("ceil_n_heldout") else math.floor
        ntr = np.bincount(parts[0].row, minlength=g.n_users)
        nte = np.bincount(parts[1].row, minlength=g.n_users)
        for r in range(g.n_users):
            N = int(ntr[r] + nte[r])
            w = min(nh, N) if nh is not None else f(N * ratio)
            case.check(nte[r] == w, "heldout-count", f"{k} user {g.user_ids[r]}: {nte[r]} of {N}, expected {w}, args {a}")
        case.count("heldout_pairs", int(nte.sum()))
        if tcol:
            kept, held = {}, {}
            for c, d, pickf in ((parts[0], kept, max), (parts[1], held, min)):
                for r, j in zip(c.row.tolist(), c.col.tolist()):
                    t = pairs[(g.user_ids[r], items[j])][1]
                    d[r] = t if r not in d else pickf(d[r], t)
            for r in held:
                if r in kept:
                    case.check(kept[r] <= held[r], "heldout-not-latest", f"{k}: kept {kept[r]} held {held[r]}")
                    case.count("time_order_checked")
    case.check(set(seen) == set(pairs), "pair-lost", lambda: f"{sorted(map(str, set(pairs) - set(seen)))[:3]}")
    case.count("pairs_audited", len(seen))


def rec(dataset, items):
    return ({k: ([repr(u) for u in v.user_ids], v.X_train.toarray().tolist(), v.X_test.toarray().tolist())
             for k, v in dataset.items()}, [repr(i) for i in items])


def split(case, with_time):
    from irspack.split import split_dataframe_partial_user_holdout
    rng = case.rng
    nu = gen.size(rng, [3, 8, 12, 25, 60], [150, 400])
    ni = int(gen.pick(rng, [3, 7, 20, 50, 200]))
    kinds = list(gen.ID_KINDS)
    uk, ik = gen.pick(rng, kinds), gen.pick(rng, kinds)
    ucol, icol = gen.pick(rng, [("user", "item"), ("user id", "item-id"), ("class", "def"), ("u", "i")])
    df = gen.log_frame(rng, nu, ni, int(nu * gen.pick(rng, [2, 6, 15])), uk, ik,
                       gen.pick(rng, gen.TIME_KINDS), gen.pick(rng, ["frac", "counts", "small", "ones", "signed"]),
                       dup=bool(rng.integers(2)), ucol=ucol, icol=icol)
    if rng.random() < 0.15:
        df[icol] = df[icol].astype("category")
    users = df[ucol].nunique()
    a = {}
    if with_time:
        a["time_column"] = "time"
    if rng.random() < 0.7:
        a["rating_column"] = "rating"
    # number of users: count, ratio or default; any combination
    n_val = n_test = None
    left = users
    if rng.random() < 0.5:
        a["n_val_user"] = n_val = int(rng.integers(0, left + 1)) if rng.random() < 0.8 else int(rng.integers(0, 2))
    else:
        r = float(gen.pick(rng, [0.0, 0.0, 0.1, 0.3, 0.5, 1.0, float(rng.random()) * 0.6]))
        if r != 0.1 or rng.random() < 0.5:
            a["val_user_ratio"] = r
        n_val = int(users * r)
    left -= n_val
    if rng.random() < 0.5:
        a["n_test_user"] = n_test = int(rng.integers(0, left + 1)) if rng.random() < 0.8 else min(left, 1)
    else:
        r = float(gen.pick(rng, [0.0, 0.1, 0.3, 0.4, 1.0, float(rng.random()) * 0.4]))
        if int(users * r) > left:
            r = 0.0
        if r != 0.1 or rng.random() < 0.5:
            a["test_user_ratio"] = r
        n_test = int(users * r)
    for k in ("val", "test"):
        w = rng.integers(4)
        if w == 0:
            a[f"n_heldout_{k}"] = int(gen.pick(rng, [0, 1, 2, 5, 100]))
        elif w < 3:
            a[f"heldout_ratio_{k}"] = float(gen.pick(rng, [0.0, 1.0, 0.25, 0.5, float(rng.random())]))
        if w == 0 and rng.random() < 0.5:
            a[f"heldout_ratio_{k}"] = float(rng.random())
    if rng.random() < 0.5:
        a["ceil_n_heldout"] = bool(rng.integers(2))
    seed = int(rng.integers(1 << 30))
    before = gen.snapshot(df)
    if n_val + n_test > users:           # only through the default ratios
        case.raises(ValueError, lambda: split_dataframe_partial_user_holdout(df, ucol, icol, random_state=seed, **a),
                    "impossible-accepted", str(a))
        return
    ds, items = split_dataframe_partial_user_holdout(df, ucol, icol, random_state=seed, **a)
    case.check(gen.snapshot(df) == before, "frame-modified")
    audit(case, df, ds, items, a, n_val, n_test, ucol, icol)
    ds2, items2 = split_dataframe_partial_user_holdout(df, ucol, icol, random_state=seed, **a)
    case.check(rec(ds, items) == rec(ds2, items2), "not-reproducible", str(a))
    if n_val + n_test:
        case.seen(users, ni, uk, ik, sorted(map(str, a.items())), users=users, items=ni, n_val=n_val,
                  n_test=n_test, args={k: str(v) for k, v in a.items()})


def randomly(case):
    split(case, False)


def by_time(case):
    split(case, True)


def wide(case):
    """More users, or more items, than fit in sixteen bits."""
    from irspack.split import split_dataframe_partial_user_holdout
    rng = case.rng
    nu, ni, k = ((66000, 3, 2), (20, 66000, 3500))[case.index % 2]
    u = np.repeat(np.arange(nu), k)
    i = np.concatenate([rng.choice(ni, k, replace=False) for _ in range(nu)]) if nu < 100 else ((rng.integers(0, ni, nu)[:, None] + np.arange(k)) % ni).ravel()
    p = rng.permutation(len(u))
    df = pd.DataFrame({"u": u[p] + 7, "i": i[p] + 3, "rating": rng.integers(1, 50, len(u)) / 4.0, "time": rng.integers(0, 10 ** 9, len(u))})
    n_val, n_test = int(rng.integers(1, nu // 2)), int(rng.integers(1, nu // 2))
    a = dict(rating_column="rating", n_val_user=n_val, n_test_user=n_test)
    if rng.random() < 0.5:
        a["time_column"] = "time"
    ds, items = split_dataframe_partial_user_holdout(df, "u", "i", random_state=int(rng.integers(1 << 30)), **a)
    audit(case, df, ds, items, a, n_val, n_test, "u", "i")
    case.seen(nu, ni, n_val, n_test, users=nu, items=ni, rows=len(df))


def user_choice(case):
    """Which users end up in which group must be random over seeds."""
    from irspack.split import split_dataframe_partial_user_holdout
    rng = case.rng
    n = 12
    df = pd.DataFrame({"u": np.repeat(np.arange(n), 4), "i": np.tile(np.arange(4), n), "t": np.arange(4 * n)})
    T = 120
    cnt = {"val": np.zeros(n), "test": np.zeros(n)}
    distinct = set()
    base = int(rng.integers(1 << 20))
    for s in range(T):
        ds, _ = split_dataframe_partial_user_holdout(df, "u", "i", n_val_user=4, n_test_user=4, random_state=base + s,
                                                     time_column="t" if case.index % 2 else None)
        for k in cnt:
            cnt[k][[int(x) for x in ds[k].user_ids]] += 1
        distinct.add(tuple(sorted(map(int, ds["val"].user_ids))) + tuple(sorted(map(int, ds["test"].user_ids))))
    sd = math.sqrt(T * (1 / 3) * (2 / 3))
    for k in cnt:
        case.check(np.abs(cnt[k] - T / 3).max() < 6.5 * sd, "biased-user-choice", f"{k}: {cnt[k]}")
    case.check(len(distinct) > T * 0.9, "user-choice-repeats", str(len(distinct)))
    case.seen(base, val_counts=cnt["val"].tolist())


def rejected(case):
    from irspack.split import split_dataframe_partial_user_holdout as f
    df = gen.log_frame(case.rng, 10, 8, 60)
    n = df["user"].nunique()
    for a in ({"n_val_user": n + 1}, {"n_val_user": n, "n_test_user": 1}, {"n_val_user": 1, "n_test_user": n},
              {"n_test_user": n + 1}, {"n_test_user": n + 1, "n_val_user": 0},
              {"val_user_ratio": 0.8, "test_user_ratio": 0.8}, {"n_val_user": n, "test_user_ratio": 0.9},
              {"n_test_user": n, "val_user_ratio": 0.9}):
        case.raises(ValueError, lambda: f(df, "user", "item", random_state=1, **a), "impossible-accepted", str(a))
    for a in ({"val_user_ratio": 1.5}, {"test_user_ratio": -0.1}, {"val_user_ratio": -0.5}, {"test_user_ratio": 1.01}):
        case.raises((ValueError, AssertionError), lambda: f(df, "user", "item", random_state=1, **a),
                    "bad-ratio-accepted", str(a))
    # boundary: all users can be requested
    ds, _ = f(df, "user", "item", n_val_user=n - 1, n_test_user=1, random_state=3)
    case.check((ds["train"].n_users, ds["val"].n_users, ds["test"].n_users) == (0, n - 1, 1), "all-users")
    case.seen(n)


def records(seed):
    """Splits of random logs with string and other ids, as seen by one interpreter."""
    from irspack.split import split_dataframe_partial_user_holdout
    rng = np.random.default_rng(seed)
    out = []
    for n in range(12):
        uk, ik = ("str", "str") if n % 3 == 0 else (gen.pick(rng, list(gen.ID_KINDS)), gen.pick(rng, list(gen.ID_KINDS)))
        df = gen.log_frame(rng, 20, 15, 200, uk, ik, "int", "frac")
        a = {"time_column": "time"} if rng.integers(2) else {}
        ds, items = split_dataframe_partial_user_holdout(
            df, "user", "item", rating_column="rating", val_user_ratio=0.4, test_user_ratio=0.3,
            random_state=int(rng.integers(1 << 30)), **a)
        cells = {}
        for k, g in ds.items():
            cells[k] = [sorted([str(g.user_ids[r]), str(items[j]), float(v)] for r, j, v in
                               zip(*(lambda c: (c.row, c.col, c.data))(X.tocoo()))) for X in (g.X_train, g.X_test)]
        out.append([uk, ik, sorted(a), cells])
    return out


def processes(case):
    """The same random state must give the same split in every run of a program."""
    seed = int(case.rng.integers(1 << 30))
    runs = [rerun.records("D02", "records", seed, h) for h in (0, 1, 4242)]
    for n, first in enumerate(runs[0]):
        for other in runs[1:]:
            case.check(other[n] == first, "not-reproducible-across-runs",
                       lambda: f"log {n} ids {first[:2]} {first[2]}: held out "
                               f"{[len(first[3][k][1]) for k in ('val', 'test')]}, differing pairs "
                               f"{[[p for p in first[3][k][1] if p not in other[n][3][k][1]][:3] for k in ('val', 'test')]}")
            case.count("splits_repeated_in_another_process")
    case.seen(seed, kinds=[r[:3] for r in runs[0]])


FAMILIES = [("randomly", randomly, 160, 4000), ("by_time", by_time, 160, 4000),
            ("wide", wide, 2, 20), ("user_choice", user_choice, 2, 20), ("rejected", rejected, 2, 10),
            ("processes", processes, 2, 30)]
