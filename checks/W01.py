"""The documented chain log -> split -> train -> evaluate -> recommend, followed by ids from the log alone."""
import logging
from collections import Counter, defaultdict

import numpy as np
import optuna
import pandas as pd
import scipy.sparse as sps

from vlib import gen, models, oracle

PROPERTY = "W01"
RULE = ("one case = one interaction log taken through split, matrix, training, evaluation and recommendation by the real code, with lists and metrics "
        "recomputed by ids from the rows of the log; non-trivial when some user has held-out items; distinct by log, split, model and cutoff")
ASSUMPTIONS = ["of items whose scores agree to rounding any order is right, so metrics are bounded by the best and the worst order of such ties",
               "for a user with fewer recommendable items than the cutoff the list length takes the place of the cutoff"]
optuna.logging.set_verbosity(optuna.logging.ERROR)
QUIET = logging.getLogger("verif-w01")
QUIET.addHandler(logging.NullHandler())
QUIET.propagate = False
PER_USER = ("hit", "recall", "ndcg", "map", "precision")
# the last two are plain counts of log rows
MODELS = ["TopPop", "CoOccurrence", "CoOccurrence", "CosineKNNRecommender", "JaccardKNNRecommender", "P3alphaRecommender", "RP3betaRecommender", "DenseSLIMRecommender",
          "EDLAERecommender", "IALSRecommender", "IALSRecommender", "CosineUserKNNRecommender", "TruncatedSVDRecommender"]


def build(rng, name, X):
    import irspack as ir
    from irspack.recommenders.base import BaseSimilarityRecommender
    if name == "TopPop":
        return ir.TopPopRecommender(X).learn()
    if name == "CoOccurrence":
        class Co(BaseSimilarityRecommender, register_class=False):
            def _learn(self):
                self._W = sps.csr_matrix(self.X_train_all.T @ self.X_train_all)
        return Co(X).learn()
    return models.cls(name)(X, **models.params(rng, name, X.shape)).learn()


def counted(name, weights):
    """What the plain models must score, from {user: {item: weight}} of the training rows."""
    if name == "TopPop":
        pop = Counter()
        for row in weights.values():
            for i, w in row.items():
                pop[i] += w
        return lambda profile: pop
    if name == "CoOccurrence":
        co = defaultdict(Counter)
        for row in weights.values():
            for i, a in row.items():
                for j, b in row.items():
                    co[i][j] += a * b

        def score(profile):
            out = Counter()
            for i, w in profile.items():
                for j, c in co[i].items():
                    out[j] += w * c
            return out
        return score
    return None


def ties(scores, tol):
    """Items by falling score, those that agree to rounding together."""
    order = sorted(scores, key=lambda i: -scores[i])
    groups = []
    for i in order:
        if groups and scores[groups[-1][-1]] - scores[i] <= tol:
            groups[-1].append(i)
        else:
            groups.append([i])
    return groups


def judge(case, metrics, users, cutoff, universe, tol, what, suffix=""):
    """users: list of ({permitted item: score}, set of held-out items)."""
    lo, hi, valid = Counter(), Counter(), 0
    fixed = True
    lists = []
    for scores, gt in users:
        if not gt:
            continue
        valid += 1
        g = ties(scores, tol)
        pos = 0
        for x in g:
            if len(x) > 1 and pos < cutoff:
                fixed = False
            pos += len(x)
        for out, better in ((lo, 1), (hi, -1)):
            order = [i for x in g for i in sorted(x, key=lambda i: better * (i in gt))][:cutoff]
            m = oracle.list_metrics([[universe[i] for i in order]], [{universe[i] for i in gt}], len(universe))
            for k in PER_USER:
                out[k] += m[k]
            if better == 1:
                lists.append([universe[i] for i in order])
    for k in PER_USER:
        a, b, got = lo[k] / max(valid, 1), hi[k] / max(valid, 1), metrics[k + suffix]
        case.check(a - 1e-9 <= got <= b + 1e-9, f"metric-{k}", lambda: f"{k}{suffix} = {got}, by the log in [{a}, {b}] {what}")
    case.count("metrics_judged", len(PER_USER))
    case.count("users_judged", valid)
    if fixed and valid:
        want = oracle.list_metrics(lists, [{0}] * len(lists), len(universe))
        case.check(metrics["appeared_item" + suffix] == want["appeared_item"], "metric-appeared-items", what)
        case.check(abs(metrics["gini_index" + suffix] - want["gini_index"]) < 1e-9, "metric-gini", what)
        case.count("tie_free")
    return valid


def check_list(case, rec, scores, cutoff, tol, what):
    """rec: [(item id, score)] for one user with these permitted items."""
    ids = [i for i, _ in rec]
    case.check(len(ids) == len(set(ids)) == min(cutoff, len(scores)), "list-length", f"{len(ids)} of {len(scores)} permitted, cutoff {cutoff} {what}")
    for i, s in rec:
        case.check(i in scores, "recommended-not-permitted", f"{i!r} {what}")
        case.check(abs(scores[i] - s) <= tol, "score-of-other-item", f"{i!r}: {s} instead of {scores[i]} {what}")
    if ids:
        worst = min(scores[i] for i in ids)
        out = [v for i, v in scores.items() if i not in set(ids)]
        case.check(not out or max(out) <= worst + 2 * tol, "better-item-left-out", what)
        case.check(all(a >= b - 2 * tol for a, b in zip([scores[i] for i in ids], [scores[i] for i in ids][1:])), "list-order", what)
    case.count("lists_checked")


def frame_agrees(case, recs, held, what):
    """recs: {user: [item ids]}, held: {user: set of item ids}; through the data frame evaluation."""
    import irspack as ir
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
    a = [(u, i) for u, l in recs.items() for i in l]
    b = [(u, i) for u, s in held.items() for i in s]
    if not a or not b or not {u for u, _ in a} & {u for u, _ in b}:
        return
    f = lambda rows: pd.DataFrame({"u": pd.Series([r[0] for r in rows], dtype=object), "i": pd.Series([r[1] for r in rows], dtype=object)})
    got = evaluate_recommendation_df(f(a), f(b), "u", "i")
    both = [u for u in recs if recs[u] and held.get(u)]
    index = {i: k for k, i in enumerate(dict.fromkeys([i for u in both for i in list(recs[u]) + list(held[u])]))}
    want = oracle.list_metrics([[index[i] for i in recs[u]] for u in both], [{index[i] for i in held[u]} for u in both], len(index))
    for k in PER_USER:
        case.check(abs(got[k] - want[k]) < 1e-9, f"frame-{k}", lambda: f"{got[k]} {want[k]} {what}")


def log(rng, minimum=6):
    nu, ni = int(rng.integers(minimum, 35)), int(rng.integers(5, 25))
    uk, ik = gen.pick(rng, gen.ID_KINDS), gen.pick(rng, gen.ID_KINDS)
    uc, ic = gen.pick(rng, [("user", "item"), ("userId", "movieId"), ("u", "i")])
    df = gen.log_frame(rng, nu, ni, int(nu * gen.pick(rng, [3, 6, 10])), uk, ik, gen.pick(rng, gen.TIME_KINDS), gen.pick(rng, ["counts", "ones", "counts"]),
                       dup=bool(rng.integers(2)), ucol=uc, icol=ic)
    return df, uc, ic


def weights_of(df, uc, ic, rated):
    out = {}
    for u, i, r in zip(df[uc].tolist(), df[ic].tolist(), df["rating"].tolist() if rated else [1.0] * len(df)):
        row = out.setdefault(u, {})
        row[i] = row.get(i, 0.0) + float(r)
    return out


def tolerance(name, scores):
    s = np.asarray(scores, dtype=float)
    s = s[np.isfinite(s)]
    top = float(np.abs(s).max()) if s.size else 0.0
    return 0.0 if name in ("TopPop", "CoOccurrence") else (2e-4 if name == "IALSRecommender" else 1e-9) * (top + 1e-30)


def known(case):
    """Latest events held out; known users; lists by user id."""
    import irspack as ir
    from irspack.split import split_last_n_interaction_df
    from irspack.utils import IDMapper
    rng = case.rng
    df, uc, ic = log(rng)
    how = dict(n_heldout=int(rng.integers(1, 4))) if rng.random() < 0.6 else dict(heldout_ratio=float(gen.pick(rng, [0.2, 0.5])), ceil_n_heldout=bool(rng.integers(2)))
    first, last = split_last_n_interaction_df(df, uc, "time", **how)
    if not len(first):
        return
    rated = bool(rng.integers(2))
    X, users, items = ir.df_to_sparse(first, uc, ic, rating_column="rating" if rated else None)
    V, _, _ = ir.df_to_sparse(last, uc, ic, user_ids=users, item_ids=items) if len(last) else (sps.csr_matrix(X.shape), None, None)
    users, items = list(pd.Series(users).tolist()), list(pd.Series(items).tolist())
    weights = weights_of(first, uc, ic, rated)
    held = defaultdict(set)
    for u, i in zip(last[uc].tolist(), last[ic].tolist()):
        if u in weights and i in set(items):
            held[u].add(i)
    name = gen.pick(rng, MODELS)
    m = len(items)
    if name == "TruncatedSVDRecommender" and min(X.shape) < 3:
        name = "CoOccurrence"
    model = build(rng, name, X)
    cutoff = int(rng.integers(1, m + 1))
    what = f"{name} {X.shape} held out {how} cutoff {cutoff} rated={rated}"
    S = model.get_score(np.arange(len(users)))
    tol = tolerance(name, S)
    plain = counted(name, weights)
    per_user, recs = [], {}
    for r, u in enumerate(users):
        if plain:
            want = plain(weights[u])
            for c, i in enumerate(items):
                case.check(S[r, c] == want[i], "score-differs-from-log", lambda: f"{u!r} {i!r}: {S[r, c]} instead of {want[i]} {what}")
            scores = {i: float(want[i]) for i in items if i not in weights[u]}
        else:
            scores = {i: float(S[r, c]) for c, i in enumerate(items) if i not in weights[u]}
        per_user.append((scores, held[u]))
    ev = ir.Evaluator(V, cutoff=cutoff, n_threads=int(rng.integers(1, 4)), mb_size=int(gen.pick(rng, [1, 3, 128])))
    index = {i: k for k, i in enumerate(items)}
    got = ev.get_score(model)
    valid = judge(case, got, per_user, cutoff, index, tol, what)
    case.check(got["valid_user"] == valid, "users-judged", f"{got['valid_user']} {valid} {what}")
    mapper = IDMapper(users, items)
    pickd = [users[k] for k in rng.permutation(len(users))[:12]]
    for u, rec in zip(pickd, mapper.recommend_for_known_user_batch(model, pickd, cutoff=cutoff)):
        check_list(case, rec, per_user[users.index(u)][0], cutoff, tol, what)
        recs[u] = [i for i, _ in rec]
    frame_agrees(case, recs, held, what)
    if valid:
        case.seen(name, X.shape, X.nnz, V.nnz, cutoff, str(how), model=name, users=len(users), items=m, heldout=str(how), cutoff=cutoff, judged=valid)


def groups(case):
    """Train, validation and test users; rows stacked with an offset, or new users by their history."""
    import irspack as ir
    from irspack.split import holdout_specific_interactions, split_dataframe_partial_user_holdout
    from irspack.utils import IDMapper, ItemIDMapper
    rng = case.rng
    df, uc, ic = log(rng, 9)
    mixed = df[ic].map(type).nunique() > 1 or df[uc].map(type).nunique() > 1
    specified = rng.random() < 0.3 and not mixed
    if specified:
        df = df.drop_duplicates([uc, ic])
        flag = rng.random(len(df)) < 0.4
        items, ds = holdout_specific_interactions(df, uc, ic, np.where(flag)[0], 0.4, 0.3, random_state=int(rng.integers(99)))
        rows = list(zip(df[uc].tolist(), df[ic].tolist(), flag.tolist(), [1.0] * len(df)))
    else:
        kw = dict(val_user_ratio=0.3, test_user_ratio=0.3, heldout_ratio_val=0.5, heldout_ratio_test=float(gen.pick(rng, [0.3, 0.6])))
        if rng.random() < 0.5:
            kw["time_column"] = "time"
        if rng.random() < 0.5:
            kw["rating_column"] = "rating"
        ds, items = split_dataframe_partial_user_holdout(df, uc, ic, random_state=int(rng.integers(99)), **kw)
    items = list(pd.Series(items).tolist())
    m = len(items)
    index = {i: k for k, i in enumerate(items)}
    # which rows of the log are held out is read off the exported frames, which must be rows of the log
    logged = set(zip(df[uc].tolist(), df[ic].tolist()))
    hist, held, order = {}, {}, {}
    for g in ("train", "val", "test"):
        order[g] = list(pd.Series(ds[g].user_ids).tolist())
        for side, out in (("train", hist), ("test", held)):
            if ds[g].item_ids is None:                   # as for train users: only the matrix can be read
                c = sps.coo_matrix(getattr(ds[g], "X_" + side))
                part = [(order[g][a], items[b], v) for a, b, v in zip(c.row, c.col, c.data)]
            else:
                d = getattr(ds[g], "df_" + side)()
                part = list(zip(d["user_id"].tolist(), d["item_id"].tolist(), d["rating"].tolist()))
            for u, i, r in part:
                case.check((u, i) in logged, "row-not-in-log", f"{u!r} {i!r}")
                out.setdefault(u, {})[i] = float(r)
    if specified:
        for u, i, f, _ in rows:
            g = next(g for g in order if u in set(order[g]))
            where = held if f and g != "train" else hist
            case.check(i in where.get(u, {}), "row-misplaced", f"{u!r} {i!r} flagged={f} in {g}")
    for u in set(hist) & set(held):
        case.check(not set(hist[u]) & set(held[u]), "held-out-in-history", f"{u!r}")
    name = gen.pick(rng, MODELS)
    stacked = name == "CosineUserKNNRecommender" or rng.random() < 0.5
    which = gen.pick(rng, ["val", "test"])
    if stacked:
        groups_in = ["train", "val", "test"]
        X = sps.vstack([ds[g].X_train for g in groups_in], format="csr")
        weights = {u: hist.get(u, {}) for g in groups_in for u in order[g]}
        offset = ds["train"].n_users + (ds["val"].n_users if which == "test" else 0)
    else:
        groups_in = ["train"] + (["val"] if which == "test" else [])
        X = sps.vstack([ds[g].X_all for g in groups_in], format="csr")
        weights = {u: {**hist.get(u, {}), **held.get(u, {})} for g in groups_in for u in order[g]}
    if not X.nnz or not ds[which].n_users or name == "TruncatedSVDRecommender" and min(X.shape) < 3:
        return
    target = order[which]
    model = build(rng, name, X)
    cutoff = int(rng.integers(1, m + 1))
    what = f"{name} {X.shape} {'stacked' if stacked else 'new'} {which} specified={specified} cutoff {cutoff}"
    history = ds[which].X_train
    if stacked:
        S = model.get_score(np.arange(offset, offset + len(target)))
        ev = ir.Evaluator(ds[which].X_test, offset=offset, cutoff=cutoff, n_threads=2, mb_size=int(gen.pick(rng, [1, 4, 128])))
    else:
        S = model.get_score_cold_user(history)
        ev = ir.EvaluatorWithColdUser(input_interaction=history, ground_truth=ds[which].X_test, cutoff=cutoff, n_threads=2, mb_size=int(gen.pick(rng, [1, 4, 128])))
    tol = tolerance(name, S)
    plain = counted(name, weights)
    per_user = []
    for r, u in enumerate(target):
        mine = hist.get(u, {})
        if plain:
            want = plain(mine)
            for c, i in enumerate(items):
                case.check(S[r, c] == want[i], "score-differs-from-log", lambda: f"{u!r} {i!r}: {S[r, c]} instead of {want[i]} {what}")
        per_user.append(({i: float(S[r, c]) for c, i in enumerate(items) if i not in mine}, set(held.get(u, {}))))
    got = ev.get_score(model)
    valid = judge(case, got, per_user, cutoff, index, tol, what)
    case.check(got["valid_user"] == valid, "users-judged", f"{got['valid_user']} {valid} {what}")
    recs = {}
    if stacked:
        mapper = IDMapper([u for g in groups_in for u in order[g]], items)
        lists = mapper.recommend_for_known_user_batch(model, target, cutoff=cutoff)
    else:
        mapper = ItemIDMapper(items)
        lists = mapper.recommend_for_new_user_batch(model, [hist.get(u, {}) for u in target], cutoff=cutoff)
    for u, rec, (scores, _) in zip(target, lists, per_user):
        check_list(case, rec, scores, cutoff, 2 * tol, what)
        recs[u] = [i for i, _ in rec]
    frame_agrees(case, recs, {u: set(held.get(u, {})) for u in target}, what)
    if valid:
        case.seen(name, X.shape, X.nnz, which, stacked, specified, cutoff, model=name, users=len(target), items=m, group=which, stacked=stacked, judged=valid)


def candidates(case):
    """Each user ranks its held-out item among drawn negatives, as in the one-versus-hundred protocol."""
    import irspack as ir
    from irspack.utils import IDMapper
    rng = case.rng
    df, uc, ic = log(rng)
    df = df.drop_duplicates([uc, ic])
    X, users, items = ir.df_to_sparse(df, uc, ic)
    users, items = list(pd.Series(users).tolist()), list(pd.Series(items).tolist())
    n, m = X.shape
    take = {}
    rows = weights_of(df, uc, ic, False)
    for u in users:
        if len(rows[u]) > 1:
            take[u] = gen.pick(rng, sorted(rows[u], key=str))
    keep = [not (u in take and take[u] == i) for u, i in zip(df[uc].tolist(), df[ic].tolist())]
    train = df[keep]
    X, _, _ = ir.df_to_sparse(train, uc, ic, user_ids=users, item_ids=items)
    weights = weights_of(train, uc, ic, False)
    neg = {}
    for u in users:
        free = [i for i in items if i not in rows[u]]
        neg[u] = [free[k] for k in rng.permutation(len(free))[:int(rng.integers(0, 9))]]
    allowed = {u: neg[u] + ([take[u]] if u in take else []) for u in users}
    pos = {i: k for k, i in enumerate(items)}
    given = [[pos[i] for i in allowed[u]] for u in users]
    if rng.random() < 0.5:
        rc = [(r, c) for r, l in enumerate(given) for c in l]
        given = sps.csr_matrix((np.ones(len(rc)), ([a for a, _ in rc], [b for _, b in rc])), shape=(n, m))
    elif n == 1:
        return
    G = sps.lil_matrix((n, m))
    for r, u in enumerate(users):
        if u in take:
            G[r, pos[take[u]]] = 1
    name = gen.pick(rng, MODELS)
    if name == "TruncatedSVDRecommender" and min(X.shape) < 3 or not X.nnz:
        return
    model = build(rng, name, X)
    S = model.get_score(np.arange(n))
    tol = tolerance(name, S)
    cutoff = int(rng.integers(1, m + 1))
    key = "per_user_recommendable_items"
    ev = ir.Evaluator(sps.csr_matrix(G), cutoff=cutoff, n_threads=2, **{key: given})
    what = f"{name} {X.shape} cutoff {cutoff} candidates {type(given).__name__}"
    per_user = [({i: float(S[r, pos[i]]) for i in allowed[u] if i not in weights.get(u, {})}, {take[u]} if u in take else set()) for r, u in enumerate(users)]
    got = ev.get_score(model)
    valid = judge(case, got, per_user, cutoff, pos, tol, what)
    mapper = IDMapper(users, items)
    lists = mapper.recommend_for_known_user_batch(model, users, cutoff=cutoff, per_user_allowed_item_ids=[allowed[u] for u in users])
    for u, rec, (scores, _) in zip(users, lists, per_user):
        check_list(case, rec, scores, cutoff, tol, what)
    if valid:
        case.seen(name, X.shape, X.nnz, cutoff, sum(map(len, allowed.values())), model=name, users=n, items=m, judged=valid)


def features(case):
    """New items known only by their features, aligned by item id from a metadata table."""
    import irspack as ir
    rng = case.rng
    n, m, new, f = int(rng.integers(8, 30)), int(rng.integers(6, 20)), int(rng.integers(1, 8)), int(rng.integers(1, 5))
    ids = gen.ids(rng, m + new, gen.pick(rng, ["int", "str", "bigint"]))
    meta = {i: np.round(rng.normal(size=f), 3) for i in ids}
    old = ids[:m]
    X = gen.covered_csr(rng, n, m, 0.35, "ones")
    F = np.stack([meta[i] for i in old])
    fresh = ids[m:]
    C = np.stack([meta[i] for i in fresh])
    if rng.random() < 0.4:
        F, C = sps.csr_matrix(F), sps.csr_matrix(C)
    rec = ir.IALSRecommender(X, item_features=F, n_components=int(rng.integers(1, 6)), alpha0=float(gen.pick(rng, [0.1, 0.5])), reg=0.05, train_epochs=int(rng.integers(2, 6)),
                             lambda_item_feature=0.1, n_threads=1, solver_type=gen.pick(rng, ["CG", "CHOLESKY"])).learn()
    k = int(rng.integers(1, 12))
    H = gen.csr(rng, k, m, 0.3, "ones")
    T = gen.csr(rng, k, m + new, 0.25, "ones")
    cutoff = int(rng.integers(1, m + new + 1))
    S = rec.get_score_cold_user_with_item_features(H, C)
    tol = tolerance("IALSRecommender", S)
    what = f"feature-aware {X.shape} + {new} new items cutoff {cutoff}"
    # the columns are those of the ids: one new item alone scores as among the others
    j = int(rng.integers(new))
    alone = rec.get_score_cold_user_with_item_features(H, C[j:j + 1])
    case.check(np.abs(alone[:, m] - S[:, m + j]).max(initial=0) <= tol and np.abs(alone[:, :m] - S[:, :m]).max(initial=0) <= tol, "new-item-column", f"{j} {what}")
    index = {i: c for c, i in enumerate(ids)}
    seen = oracle.gt_sets(H)
    gts = oracle.gt_sets(T)
    baseline = rng.random() < 0.3
    if baseline:                                      # a model that cannot score them: they are never recommended
        model = ir.TopPopRecommender(X).learn()
        pop = np.asarray(X.sum(0)).ravel()
        per_user = [({ids[c]: float(pop[c]) for c in range(m) if c not in seen[r]}, {ids[c] for c in gts[r]}) for r in range(k)]
        tol = 0.0
    else:
        model = rec
        per_user = [({ids[c]: float(S[r, c]) for c in range(m + new) if c not in seen[r]}, {ids[c] for c in gts[r]}) for r in range(k)]
    ev = ir.EvaluatorWithColdUser(H, T, cold_item_features=C, cutoff=cutoff, n_threads=2, mb_size=int(gen.pick(rng, [1, 3, 128])))
    got = ev.get_score(model)
    valid = judge(case, got, per_user, cutoff, index, tol, what)
    if valid:
        case.seen(n, m, new, f, cutoff, baseline, H.nnz, T.nnz, model=type(model).__name__, users=k, items=m, new_items=new, judged=valid)


def tuned(case):
    """Tune on validation, retrain with what came back, judge on test users that no step before has seen."""
    import irspack as ir
    from irspack.split import split_dataframe_partial_user_holdout
    rng = case.rng
    df, uc, ic = log(rng, 15)
    ds, items = split_dataframe_partial_user_holdout(df, uc, ic, val_user_ratio=0.3, test_user_ratio=0.3, random_state=int(rng.integers(99)))
    if not ds["val"].X_test.nnz or not ds["test"].X_test.nnz or not ds["train"].X_all.nnz:
        return
    name = gen.pick(rng, ["TopPopRecommender", "CosineKNNRecommender", "P3alphaRecommender", "DenseSLIMRecommender", "IALSRecommender"])
    Rec = models.cls(name)
    m = len(items)
    cutoff = int(rng.integers(1, m + 1))
    val = ir.EvaluatorWithColdUser(input_interaction=ds["val"].X_train, ground_truth=ds["val"].X_test, cutoff=cutoff, n_threads=1)
    fixed = dict(n_threads=1) if name not in ("TopPopRecommender", "DenseSLIMRecommender") else {}
    snaps = [gen.snapshot(getattr(ds[g], a)) for g in ds for a in ("X_train", "X_test")]
    bp, hist = Rec.tune(ds["train"].X_all, val, n_trials=int(rng.integers(1, 4)), logger=QUIET, tuning_random_seed=int(rng.integers(99)), max_epoch=4, validate_epoch=2, **fixed)
    what = f"{name} {bp} cutoff {cutoff}"
    again = val.get_score(Rec(ds["train"].X_all, **bp, **fixed).learn())["ndcg"]
    case.check(abs(again - float(np.nanmax(-hist["value"]))) < 1e-6, "tuned-score-not-reproduced", f"{again} {-hist['value'].min()} {what}")
    both = ds["train"].concat(ds["val"])
    X = sps.vstack([ds["train"].X_all, ds["val"].X_all], format="csr")
    case.check(abs(both.X_all - X).nnz == 0, "concatenation", what)
    model = Rec(X, **bp, **fixed).learn()
    test = ir.EvaluatorWithColdUser(input_interaction=ds["test"].X_train, ground_truth=ds["test"].X_test, cutoff=cutoff, n_threads=1)
    S = model.get_score_cold_user(ds["test"].X_train)
    index = {c: c for c in range(m)}
    seen, gts = oracle.gt_sets(ds["test"].X_train), oracle.gt_sets(ds["test"].X_test)
    per_user = [({c: float(S[r, c]) for c in range(m) if c not in seen[r]}, gts[r]) for r in range(len(gts))]
    cuts = sorted({1, cutoff})
    got = test.get_scores(model, cuts)
    for c in cuts:
        valid = judge(case, got, per_user, c, index, tolerance(name, S), what, f"@{c}")
    case.check([gen.snapshot(getattr(ds[g], a)) for g in ds for a in ("X_train", "X_test")] == snaps, "split-modified", what)
    if valid:
        case.seen(name, X.shape, X.nnz, cutoff, str(sorted(bp.items())), model=name, best={k: str(v) for k, v in bp.items()}, judged=valid)


FAMILIES = [("known", known, 260, 9000), ("groups", groups, 260, 9000), ("candidates", candidates, 120, 4000), ("features", features, 90, 3000), ("tuned", tuned, 25, 700)]
