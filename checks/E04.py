"""Recommendation frames against ground-truth frames, judged by per-user lists in plain Python."""
import numpy as np
import pandas as pd

from vlib import gen, oracle

PROPERTY = "E04"
RULE = ("one case = a recommendation frame and a ground-truth frame (random ids, columns, interleaving, index) or raw lists; non-trivial when a "
        "common user exists and something is hit or missed; distinct by id kinds, frame sizes, column names and interleaving")
ASSUMPTIONS = ["a user's recommended items are distinct (duplicates must be rejected); the item universe of the Gini index is the set of items "
               "of the common users in both frames"]
COLS = [("user", "item"), ("user id", "item-id"), ("index", "count"), ("class", "def"), ("item", "user"), (0, 1), ("_u", "__i"),
        ("a.b", "é"), ("user_index", "item_index"), ("rank", "values")]
KEYS = oracle.RANK_METRICS


def oracle_frames(rec, gt, uc, ic):
    """Both frames reduced to per-user lists by a plain walk over the rows."""
    R, T = {}, {}
    for u, i in zip(rec[uc].tolist(), rec[ic].tolist()):
        R.setdefault(u, []).append(i)
    for u, i in zip(gt[uc].tolist(), gt[ic].tolist()):
        T.setdefault(u, []).append(i)
    users = [u for u in R if u in T]
    items = {i for u in users for i in R[u]} | {i for u in users for i in T[u]}
    index = {i: k for k, i in enumerate(sorted(items, key=repr))}
    return ([[index[i] for i in R[u]] for u in users], [[index[i] for i in T[u]] for u in users], len(index), users)


def column(vals, kind, rng):
    o = np.empty(len(vals), dtype=object)
    o[:] = vals
    s = pd.Series(o, dtype=object)
    if kind != "obj_mixed" and rng.random() < 0.7:
        s = s.infer_objects()
    return s.to_numpy() if kind == "obj_mixed" else s.array


def make(rng, n_users, n_items, ukind, ikind, uc, ic):
    U, I = gen.ids(rng, n_users, ukind), gen.ids(rng, n_items, ikind)
    rows, gts = [], []
    for u in U:
        w = rng.random()
        if w < 0.85:
            rows.append([(u, I[k]) for k in rng.permutation(n_items)[:int(rng.integers(0, min(n_items, 12) + 1))]])
        if w > 0.1:
            g = [(u, I[k]) for k in rng.permutation(n_items)[:int(rng.integers(0, n_items + 1))]]
            gts += g
            if g and rng.random() < 0.2:
                gts.append(g[0])                         # a repeated ground-truth row
    return rows, gts


def interleave(rng, rows):
    """Random merge that keeps the order within each user."""
    order = np.concatenate([np.full(len(r), k) for k, r in enumerate(rows)]) if rows else np.array([], int)
    order = rng.permutation(order)
    pos = [0] * len(rows)
    out = []
    for k in order.astype(int):
        out.append(rows[k][pos[k]])
        pos[k] += 1
    return out


def frame(rng, pairs, ukind, ikind, uc, ic):
    d = {uc: column([p[0] for p in pairs], ukind, rng), ic: column([p[1] for p in pairs], ikind, rng)}
    df = pd.DataFrame(d)
    df["zz"] = rng.integers(0, 9, len(pairs))
    if rng.random() < 0.5:
        df = df[[ic, "zz", uc]]
    w = rng.integers(3)
    if w == 1 and len(df):
        df.index = rng.permutation(len(df)) + 5
    elif w == 2 and len(df):
        df.index = rng.integers(0, 3, len(df))
    return df


def frames(case):
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df as f
    rng = case.rng
    ukind, ikind = gen.pick(rng, gen.ID_KINDS), gen.pick(rng, gen.ID_KINDS)
    uc, ic = gen.pick(rng, COLS)
    nu, ni = gen.size(rng, [1, 2, 8, 30], [150, 400]), gen.size(rng, [1, 4, 15, 40], [150, 500, 900])
    rows, gts = make(rng, nu, ni, ukind, ikind, uc, ic)
    rec = frame(rng, [p for r in rows for p in r], ukind, ikind, uc, ic)
    gt = frame(rng, gts, ukind, ikind, uc, ic)
    snap = gen.snapshot(rec), gen.snapshot(gt)
    got = f(rec, gt, uc, ic, n_threads=int(gen.pick(rng, [1, 2, 8])))
    case.check((gen.snapshot(rec), gen.snapshot(gt)) == snap, "frame-modified")
    R, T, k, users = oracle_frames(rec, gt, uc, ic)
    want = oracle.list_metrics(R, T, k)
    what = f"ids={ukind}/{ikind} cols={uc!r}/{ic!r} users={nu} items={ni}"
    oracle.compare(case, got, want, "frames", what, keys=KEYS)
    case.check(got["total_user"] == len(users) and got["valid_user"] == len(users), "user-count",
               f"{got.get('total_user')} {got.get('valid_user')} of {len(users)} common users {what}")
    for _ in range(2):
        rec2 = frame(rng, interleave(rng, rows), ukind, ikind, uc, ic)
        gt2 = frame(rng, [gts[j] for j in rng.permutation(len(gts))], ukind, ikind, uc, ic)
        got2 = f(rec2, gt2, uc, ic, n_threads=int(rng.integers(1, 9)))
        oracle.compare(case, got2, want, "interleaved", what, keys=KEYS)
        case.count("interleavings")
    if users and ni > 1:
        case.seen(ukind, ikind, uc, nu, ni, len(rec), id_kinds=[ukind, ikind], columns=[str(uc), str(ic)], rows=len(rec), common=len(users))


def defaults(case):
    """The default thread count and a second call give the same."""
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df as f
    rng = case.rng
    rows, gts = make(rng, 12, 10, "str", "int", "u", "i")
    rec, gt = frame(rng, interleave(rng, rows), "str", "int", "u", "i"), frame(rng, gts, "str", "int", "u", "i")
    a, b = f(rec, gt, "u", "i"), f(rec, gt, user_column="u", item_column="i", n_threads=3)
    case.check(all(abs(a[k] - b[k]) < 1e-9 for k in a) and set(a) == set(b), "default-threads")
    R, T, k, users = oracle_frames(rec, gt, "u", "i")
    oracle.compare(case, a, oracle.list_metrics(R, T, k), "defaults", keys=KEYS)
    case.raises((ValueError, TypeError, OverflowError), lambda: f(rec, gt, "u", "i", n_threads=0), "zero-threads")
    case.raises(KeyError, lambda: f(rec, gt, "nope", "i"), "missing-column")
    case.raises(KeyError, lambda: f(rec, gt.rename(columns={"i": "j"}), "u", "i"), "missing-column")
    dup = pd.concat([rec, rec[rec["u"].isin(gt["u"])].head(1)])
    if len(dup) > len(rec):
        case.raises(ValueError, lambda: f(dup, gt, "u", "i"), "duplicate-recommendation")
    case.seen(len(rec), len(gt), rows=len(rec))


def lists(case):
    from irspack.evaluation._core_evaluator import evaluate_list_vs_list as f
    rng = case.rng
    n, m = gen.size(rng, [0, 1, 5, 60], [300, 2000]), gen.size(rng, [1, 4, 25], [200])
    R = [[int(i) for i in rng.permutation(m)[:int(rng.integers(0, m + 1))]] for _ in range(n)]
    T = [[int(i) for i in rng.integers(0, m, int(rng.integers(1, m + 1)))] for _ in range(n)]
    nt = int(gen.pick(rng, [1, 2, 8, 64]))
    got = f(R, T, m, nt).as_dict()
    want = oracle.list_metrics(R, T, m)
    oracle.compare(case, got, want, "lists", f"n={n} m={m} threads={nt}", keys=KEYS)
    case.check(got["total_user"] == n and got["valid_user"] == want["valid_user"], "user-count")
    if want["valid_user"]:
        case.seen(n, m, nt, users=n, items=m, threads=nt)


def lists_rejected(case):
    from irspack.evaluation._core_evaluator import evaluate_list_vs_list as f
    rng = case.rng
    m = int(rng.integers(1, 6))
    V = (ValueError, TypeError, OverflowError, IndexError)
    ok = [[0]]
    for R, T, k, t in (([[m]], ok, m, 1), (ok, [[m]], m, 1), ([[-1]], ok, m, 1), (ok, [[-1]], m, 1), (ok, ok + ok, m, 1), (ok + ok, ok, m, 1),
                       (ok, [], m, 1), ([], ok, m, 1), (ok, ok, 0, 1), (ok, ok, m, 0), (ok, ok, m, -1), (ok, ok, -1, 1), ([[0, 0]], ok, m, 1),
                       ([[2 ** 62]], ok, m, 1), (ok, [[2 ** 62]], m, 1), ([[0] * (m + 1)], ok, m, 1)):
        case.raises(V, lambda: f(R, T, k, t), "list-rejection", f"rec={R} gt={T} n_items={k} threads={t}")
    long = int(gen.pick(rng, [20, 70, 300, 5000]))
    twice = [int(i) for i in rng.permutation(long)]
    twice[int(rng.integers(long // 2, long))] = twice[int(rng.integers(0, long // 2))]
    case.raises(V, lambda: f([[0], twice], ok + ok, long, 2), "list-rejection", f"{long} recommendations, one repeated")
    case.seen(m, long, rejections=17)


FAMILIES = [("frames", frames, 350, 12000), ("defaults", defaults, 20, 300), ("lists", lists, 150, 5000), ("lists_rejected", lists_rejected, 10, 60)]
