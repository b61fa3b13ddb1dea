"""Recommendation lists: every returned list is judged against the scores it came from."""
import numpy as np
import scipy.sparse as sps

from vlib import gen

PROPERTY = "R01"
RULE = ("one case = one batch of score rows or profiles turned into lists by the real ItemIDMapper/IDMapper (single, batch, several "
        "thread counts); non-trivial when some list is non-empty; distinct by sizes, dtype, layout, restriction kind and cutoff")
ASSUMPTIONS = ["scores are not NaN; allowed and forbidden lists contain no repeated id; profile ratings are not zero"]

KINDS = gen.ID_KINDS + [gen.LOOKALIKE]


def scores(rng, n, m, kind, dtype):
    if kind == "normal":
        s = rng.normal(size=(n, m))
    elif kind == "ties":
        s = rng.integers(0, 3, (n, m)).astype(float)
    elif kind == "close":            # distinct doubles that collapse in single precision
        s = 1.0 + rng.permutation(n * m).reshape(n, m) * 1e-12
    elif kind == "huge":
        s = rng.normal(size=(n, m)) * (1e300 if dtype == np.float64 else 1e37)
    elif kind == "negative":
        s = -np.abs(rng.normal(size=(n, m))) * 1e3
    elif kind == "tiny":
        s = rng.normal(size=(n, m)) * (1e-300 if dtype == np.float64 else 1e-37)
    else:
        s = np.zeros((n, m))
    s = s.astype(dtype)
    if rng.random() < 0.6:
        s[rng.random((n, m)) < (0.95 if rng.random() < 0.2 else rng.random() * 0.6)] = -np.inf
    if rng.random() < 0.15:
        s[rng.random((n, m)) < 0.1] = np.inf
    if rng.random() < 0.15:           # the lowest finite score is a score
        s[rng.random((n, m)) < 0.3] = np.finfo(dtype).min
    if rng.random() < 0.15 and n:
        s[int(rng.integers(n))] = -np.inf
    return s


def layout(rng, s):
    k = gen.pick(rng, ["C", "C", "F", "rows", "cols", "rev"])
    if k == "F":
        return np.asfortranarray(s), k
    if k == "rows":
        big = np.full((2 * s.shape[0] + 1, s.shape[1]), 7, s.dtype)
        big[1::2] = s
        return big[1::2], k
    if k == "cols":
        big = np.full((s.shape[0], 2 * s.shape[1] + 1), 7, s.dtype)
        big[:, 1::2] = s
        return big[:, 1::2], k
    if k == "rev":
        return np.ascontiguousarray(s[::-1, ::-1])[::-1, ::-1], k
    return s.copy(), k


def judge(case, got, row, idx_of, cand, cutoff, what):
    """got: list of (id, score) for the score row; cand: permitted indices."""
    cand = [j for j in cand if row[j] != -np.inf]
    ok = set(cand)
    ids = [g[0] for g in got]
    case.check(len(set(map(repr, ids))) == len(ids), "repeated-item", what)
    for i, s in got:
        case.check(i in idx_of, "unknown-item", f"{i} {what}")
        j = idx_of[i]
        case.check(j in ok, "not-permitted", f"item {i} {what}")
        case.check(s == float(row[j]), "score-changed", lambda: f"item {i}: {s!r} instead of {float(row[j])!r} {what}")
    case.check(len(got) == min(cutoff, len(cand)), "list-length", f"{len(got)} of {len(cand)} candidates, cutoff {cutoff} {what}")
    v = [g[1] for g in got]
    case.check(all(a >= b for a, b in zip(v, v[1:])), "order", f"{v} {what}")
    if v:
        used = {idx_of[i] for i in ids}
        rest = [float(row[j]) for j in cand if j not in used]
        case.check(not rest or max(rest) <= v[-1], "better-left-out", lambda: f"{max(rest)} > {v[-1]} {what}")
    case.count("lists_judged")
    case.count("items_judged", len(got))


def restriction(case, n, item_ids):
    """Random allowed (global or per user) and forbidden lists, with unknown ids."""
    rng = case.rng
    unknown = ["nobody", -12345, ("x",)]

    def some(p):
        out = [i for i in item_ids if rng.random() < p]
        if rng.random() < 0.5:
            out.append(unknown[int(rng.integers(3))])
        return [out[k] for k in rng.permutation(len(out))]
    allowed = per_user = forbidden = None
    if rng.random() < 0.4:
        allowed = some(rng.random())
    if rng.random() < 0.4:
        per_user = [some(rng.random()) for _ in range(n)]
    if rng.random() < 0.5:
        most = rng.random() < 0.3     # nearly everything is forbidden
        forbidden = [some(0.9 + rng.random() * 0.1 if most else rng.random() * 0.6) for _ in range(n)]
    return allowed, per_user, forbidden


def permitted(u, idx_of, allowed, per_user, forbidden):
    base = per_user[u] if per_user is not None else allowed
    c = set(idx_of.values()) if base is None else {idx_of[i] for i in base if i in idx_of}
    if forbidden is not None:
        c -= {idx_of[i] for i in forbidden[u] if i in idx_of}
    return sorted(c)


def from_scores(case):
    from irspack import ItemIDMapper
    rng = case.rng
    n = gen.size(rng, [1, 1, 2, 3, 17, 60], [130])
    m = min(gen.size(rng, [1, 2, 5, 30, 100], [300, 1000]), 100000 // n)
    kind = gen.pick(rng, ["normal", "ties", "close", "huge", "negative", "tiny", "zero"])
    dtype = gen.pick(rng, [np.float64, np.float32])
    if kind == "close":
        dtype = np.float64
    s, lay = layout(rng, scores(rng, n, m, kind, dtype))
    ik = gen.pick(rng, KINDS)
    item_ids = gen.ids(rng, m, ik)
    mapper = ItemIDMapper(item_ids)
    idx_of = {i: k for k, i in enumerate(item_ids)}
    allowed, per_user, forbidden = restriction(case, n, item_ids)
    cutoff = int(gen.pick(rng, [0, 1, 2, 5, m, m + 3, 1000]))
    what = f"{kind} {np.dtype(dtype).name} {lay} cutoff={cutoff}"
    ref = np.array(s)
    before = repr((allowed, per_user, forbidden, item_ids))
    first = None
    for nt in (1, int(gen.pick(rng, [2, 4, 32])), None):
        kw = dict(n_threads=nt) if nt is not None else {}
        got = mapper.score_to_recommended_items_batch(
            s, cutoff, allowed_item_ids=allowed, per_user_allowed_item_ids=per_user,
            forbidden_item_ids=forbidden, **kw)
        case.check(len(got) == n, "batch-size", f"{len(got)} lists for {n} rows")
        for u in range(n):
            judge(case, got[u], ref[u], idx_of, permitted(u, idx_of, allowed, per_user, forbidden), cutoff, what + f" threads={nt}")
        vals = [[x[1] for x in g] for g in got]
        case.check(first is None or vals == first, "thread-dependent", what)
        first = vals
    case.check(np.array_equal(s, ref), "scores-modified", what)
    for u in range(n):
        al = per_user[u] if per_user is not None else allowed
        one = mapper.score_to_recommended_items(s[u], cutoff, allowed_item_ids=al,
                                                forbidden_item_ids=None if forbidden is None else forbidden[u])
        judge(case, one, ref[u], idx_of, permitted(u, idx_of, allowed, per_user, forbidden), cutoff, what + " single")
        case.check([x[1] for x in one] == first[u], "single-differs-from-batch", what)
    case.check(np.array_equal(s, ref), "scores-modified", what)
    case.check(repr((allowed, per_user, forbidden, item_ids)) == before, "lists-modified")
    if any(first):
        case.seen(n, m, kind, lay, np.dtype(dtype).name, allowed is None, per_user is None, forbidden is None, cutoff,
                  users=n, items=m, scores=kind, layout=lay, cutoff=cutoff)


def repeated(case):
    """Calls one after another on one mapper, the caller changing its own lists and arrays in place in between."""
    from irspack import ItemIDMapper
    rng = case.rng
    n, m = int(rng.integers(1, 9)), int(rng.integers(3, 40))
    item_ids = gen.ids(rng, m, gen.pick(rng, KINDS))
    mapper = ItemIDMapper(item_ids)
    idx_of = {i: k for k, i in enumerate(item_ids)}
    s = scores(rng, n, m, gen.pick(rng, ["normal", "ties"]), gen.pick(rng, [np.float64, np.float32]))
    k = int(rng.integers(1, m + 1))
    lists = [[item_ids[int(j)] for j in rng.permutation(m)[:k]] for _ in range(n)]
    ban = [[item_ids[int(j)] for j in rng.permutation(m)[:max(1, k // 2)]] for _ in range(n)]
    glob = list(lists[0])
    rec, name = make_model(case, gen.csr(rng, n, m, 0.3, "frac"))
    profiles = [[item_ids[int(j)] for j in rng.permutation(m)[:3]] if rng.random() < 0.5 else
                {item_ids[int(j)]: float(rng.integers(1, 4)) for j in rng.permutation(m)[:3]} for _ in range(n)]
    shown = 0
    for step in range(6):
        cutoff = int(gen.pick(rng, [1, 3, m]))
        how = int(rng.integers(4))
        kw = dict(per_user_allowed_item_ids=lists) if how == 0 else dict(allowed_item_ids=glob) if how == 1 else {}
        if how != 2 or rng.random() < 0.5:
            kw["forbidden_item_ids"] = ban
        per, al, fb = kw.get("per_user_allowed_item_ids"), kw.get("allowed_item_ids"), kw.get("forbidden_item_ids")
        ref = np.array(s)
        got = mapper.score_to_recommended_items_batch(s, cutoff, n_threads=1, **kw)
        for u in range(n):
            cand = permitted(u, idx_of, al, per, fb)
            judge(case, got[u], ref[u], idx_of, cand, cutoff, f"step {step}")
            one = mapper.score_to_recommended_items(s[u], cutoff, allowed_item_ids=per[u] if per else al, forbidden_item_ids=fb[u] if fb else None)
            judge(case, one, ref[u], idx_of, cand, cutoff, f"single, step {step}")
            shown += len(one)
        P = np.zeros((n, m))
        for u, p in enumerate(profiles):
            for i in p:
                P[u, idx_of[i]] = p[i] if isinstance(p, dict) else 1.0
        case.close(mapper.list_of_user_profile_to_matrix(profiles).toarray(), P, "profile-matrix", 0, 0)
        for u, lst in enumerate(mapper.recommend_for_new_user_batch(rec, profiles, cutoff=m, n_threads=1, **kw)):
            want = {item_ids[j] for j in permitted(u, idx_of, al, per, fb) if P[u, j] == 0}
            case.check({i for i, _ in lst} == want, "not-permitted", f"profiles, step {step}")
        # the caller reuses its containers
        for row in lists + ban + [glob]:
            new = [item_ids[int(j)] for j in rng.permutation(m)[:len(row)]]
            row[:] = new
        for u, p in enumerate(profiles):
            new = [item_ids[int(j)] for j in rng.permutation(m)[:3]]
            if isinstance(p, dict):
                p.clear()
                p.update({i: float(rng.integers(1, 4)) for i in new})
            else:
                p[:] = new
        s[:] = rng.normal(size=(n, m))
    if shown:
        case.seen(n, m, k, name, users=n, items=m, model=name, steps=6)


def wide(case):
    """Item indices that do not fit in sixteen bits, as scores and as profiles."""
    from irspack import ItemIDMapper
    from irspack.recommenders.base import BaseRecommender
    rng = case.rng
    n, m = 3, 66300
    dtype = gen.pick(rng, [np.float64, np.float32])
    S = np.argsort(rng.random((n, m)), axis=1).astype(dtype)
    ids = (np.arange(m) + 5).tolist()
    mapper = ItemIDMapper(ids)
    pos = {x: k for k, x in enumerate(ids)}
    per = [[ids[int(j)] for j in np.unique(rng.integers(0, m, 5000))] if k else list(ids) for k in range(n)]
    forb = [[ids[int(j)] for j in np.unique(rng.integers(0, m, 3000))] for _ in range(n)]
    kw = {}
    if rng.random() < 0.6:
        kw["per_user_allowed_item_ids"] = per
    if rng.random() < 0.6:
        kw["forbidden_item_ids"] = forb
    k = [66000, 200, 5][case.index % 3]

    def ok(r):
        keep = np.ones(m, bool)
        if "per_user_allowed_item_ids" in kw:
            keep[:] = False
            keep[[pos[x] for x in per[r]]] = True
        if "forbidden_item_ids" in kw:
            keep[[pos[x] for x in forb[r]]] = False
        return keep

    def same(lst, row, keep, what):
        c = np.nonzero(keep)[0]
        best = c[np.argsort(-row[c].astype(float), kind="stable")][:k]
        case.check([x for x, _ in lst] == [ids[j] for j in best] and [s for _, s in lst] == row[best].tolist(), "wide-list", what)
        case.count("lists_judged")
    got = mapper.score_to_recommended_items_batch(S, k, n_threads=2, **kw)
    for r in range(n):
        same(got[r], S[r], ok(r), f"batch cutoff={k} {sorted(kw)}")
        same(mapper.score_to_recommended_items(S[r], k, allowed_item_ids=per[r] if "per_user_allowed_item_ids" in kw else None,
                                               forbidden_item_ids=forb[r] if "forbidden_item_ids" in kw else None), S[r], ok(r), f"single cutoff={k}")
    profiles = [[ids[int(j)] for j in np.unique(rng.integers(0, m, 2000))] for _ in range(n)]
    profiles[0] = {x: float(v) for x, v in zip(profiles[0], rng.random(len(profiles[0])) + 0.5)}
    M = mapper.list_of_user_profile_to_matrix(profiles)
    case.check(M.shape == (n, m), "profile-matrix-shape")
    for r, p in enumerate(profiles):
        row = np.zeros(m)
        row[[pos[x] for x in p]] = list(p.values()) if isinstance(p, dict) else 1.0
        case.close(M[r].toarray()[0], row, "profile-matrix", 0, 0)

    class Fixed(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, idx):
            return S[idx]

        def get_score_cold_user(self, Y):
            return S[: Y.shape[0]].copy()
    for r, lst in enumerate(mapper.recommend_for_new_user_batch(Fixed(sps.csr_matrix((n, m))), profiles, cutoff=k, **kw)):
        keep = ok(r)
        keep[[pos[x] for x in profiles[r]]] = False
        same(lst, S[r], keep, f"profiles cutoff={k} {sorted(kw)}")
    case.seen(np.dtype(dtype).name, k, sorted(kw), items=m, cutoff=k)


def make_model(case, X):
    import irspack as ir
    from irspack.recommenders.base import BaseRecommender
    rng = case.rng
    k = int(rng.integers(4))
    if k == 0:
        return ir.CosineKNNRecommender(X, n_threads=1, normalize=bool(rng.integers(2))).learn(), "knn"
    if k == 1:
        return ir.TopPopRecommender(X).learn(), "toppop"
    S = rng.normal(size=X.shape) if k == 2 else rng.integers(0, 3, X.shape).astype(np.float32)
    W = rng.normal(size=(X.shape[1], X.shape[1]))

    class Fixed(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, user_indices):
            return S[user_indices]

        def get_score_block(self, b, e):
            return S[b:e].copy()

        def get_score_cold_user(self, Y):
            return sps.csr_matrix(Y).dot(W)
    return Fixed(X), "fixed"


def known(case):
    from irspack import IDMapper
    rng = case.rng
    n, m = gen.size(rng, [2, 7, 25], [140, 300]), gen.size(rng, [3, 12, 40], [300])
    X = gen.csr(rng, n, m, gen.pick(rng, [0.1, 0.4, 0.8]), "frac")
    rec, name = make_model(case, X)
    uids, iids = gen.ids(rng, n, gen.pick(rng, KINDS)), gen.ids(rng, m, gen.pick(rng, KINDS))
    if rng.random() < 0.3:
        uids = [("u", k) for k in range(n)]
    mapper = IDMapper(uids, iids)
    idx_of = {i: k for k, i in enumerate(iids)}
    users = [uids[int(k)] for k in rng.integers(0, n, int(rng.integers(1, n + 2)))]     # repeats, any order
    allowed, per_user, forbidden = restriction(case, len(users), iids)
    cutoff = int(gen.pick(rng, [0, 1, 3, m, 1000, 20]))
    limit = {} if cutoff == 20 else dict(cutoff=cutoff)          # twenty is the default
    full = np.asarray(rec.get_score(np.arange(n)))
    seen = X.toarray() != 0
    what = f"{name} cutoff={cutoff}"
    kw = dict(allowed_item_ids=allowed, per_user_allowed_item_ids=per_user, forbidden_item_ids=forbidden)
    if rng.random() < 0.3:
        kw = {k: v for k, v in kw.items() if v is not None}
    got = mapper.recommend_for_known_user_batch(rec, users, **limit, n_threads=int(rng.integers(1, 5)), **kw)
    case.check(len(got) == len(users), "batch-size")
    for k, u in enumerate(users):
        r = uids.index(u)
        cand = [j for j in permitted(k, idx_of, allowed, per_user, forbidden) if not seen[r, j]]
        judge(case, got[k], full[r], idx_of, cand, cutoff, what)
        one = mapper.recommend_for_known_user_id(rec, u, **limit,
                                                 allowed_item_ids=per_user[k] if per_user is not None else allowed,
                                                 forbidden_item_ids=forbidden[k] if forbidden is not None else None)
        judge(case, one, full[r], idx_of, cand, cutoff, what + " single")
    case.check((rec.X_train_all != X).nnz == 0, "training-matrix-modified")
    case.check(np.array_equal(np.asarray(rec.get_score(np.arange(n))), full), "model-modified")
    case.raises((RuntimeError, KeyError, ValueError), lambda: mapper.recommend_for_known_user_id(rec, "no such user"), "unknown-user")
    case.raises((RuntimeError, KeyError, ValueError),
                lambda: mapper.recommend_for_known_user_batch(rec, [users[0], "no such user"]), "unknown-user")
    if any(got):
        case.seen(n, m, name, len(users), allowed is None, per_user is None, forbidden is None, cutoff,
                  model=name, users=len(users), lists=[len(g) for g in got][:6])


def new_users(case):
    from irspack import IDMapper, ItemIDMapper
    rng = case.rng
    n, m = gen.size(rng, [3, 15], [140]), gen.size(rng, [3, 12, 40], [300])
    X = gen.csr(rng, n, m, 0.4, "counts")
    rec, name = make_model(case, X)
    iids = gen.ids(rng, m, gen.pick(rng, KINDS))
    mapper = ItemIDMapper(iids) if rng.random() < 0.5 else IDMapper(list(range(n)), iids)
    idx_of = {i: k for k, i in enumerate(iids)}
    N = int(rng.integers(1, 9))
    profiles, P = [], np.zeros((N, m))
    for r in range(N):
        chosen = [i for i in iids if rng.random() < rng.random() * 0.7]
        chosen = [chosen[k] for k in rng.permutation(len(chosen))]
        if rng.random() < 0.5:
            prof = list(chosen)
            for i in chosen:
                P[r, idx_of[i]] = 1.0
            if rng.random() < 0.4:
                prof.insert(int(rng.integers(len(prof) + 1)), "unknown item")
        else:
            prof = {}
            for i in chosen:
                prof[i] = float(rng.random() * 3 + 0.1)
                P[r, idx_of[i]] = prof[i]
                if rng.random() < 0.1:
                    prof["unknown item"] = 5.0
        profiles.append(prof)
    M = mapper.list_of_user_profile_to_matrix(profiles)
    case.check(M.shape == (N, m), "profile-matrix-shape")
    case.close(M.toarray(), P, "profile-matrix", 0, 0)
    want = np.asarray(rec.get_score_cold_user(sps.csr_matrix(P)))
    allowed, per_user, forbidden = restriction(case, N, iids)
    cutoff = int(gen.pick(rng, [0, 1, 3, m, 1000, 20]))
    limit = {} if cutoff == 20 else dict(cutoff=cutoff)          # twenty is the default
    before = repr((profiles, allowed, per_user, forbidden))
    got = mapper.recommend_for_new_user_batch(rec, profiles, **limit, allowed_item_ids=allowed,
                                              per_user_allowed_item_ids=per_user, forbidden_item_ids=forbidden,
                                              n_threads=int(rng.integers(1, 5)))
    case.check(len(got) == N, "batch-size")
    # scores may differ in the last bits between one product and another
    for r in range(N):
        cand = [j for j in permitted(r, idx_of, allowed, per_user, forbidden) if P[r, j] == 0]
        one = mapper.recommend_for_new_user(rec, profiles[r], **limit,
                                            allowed_item_ids=per_user[r] if per_user is not None else allowed,
                                            forbidden_item_ids=forbidden[r] if forbidden is not None else None)
        s1 = np.asarray(rec.get_score_cold_user(sps.csr_matrix(P[r:r + 1])))[0]
        for lst, row in ((got[r], want[r]), (one, s1)):
            row = row.copy()
            for i, s in lst:
                case.check(i in idx_of, "unknown-item", str(i))
                j = idx_of[i]
                case.check(abs(s - row[j]) <= 1e-9 * max(1, abs(row[j])), "score-changed", f"{s} {row[j]}")
                row[j] = s
            cset = [j for j in cand]
            keep = {idx_of[i] for i, _ in lst}
            case.check(keep <= set(cset) and len(keep) == len(lst), "not-permitted", name)
            case.check(len(lst) == min(cutoff, len(cset)), "list-length", name)
            v = [s for _, s in lst]
            case.check(all(a >= b for a, b in zip(v, v[1:])), "order")
            if v and len(cset) > len(v):
                rest = max(row[j] for j in cset if j not in keep)
                case.check(rest <= v[-1] + 1e-9 * max(1, abs(rest)), "better-left-out", f"{rest} > {v[-1]}")
            case.count("lists_judged")
    case.check(repr((profiles, allowed, per_user, forbidden)) == before, "lists-modified")
    if any(got):
        case.seen(n, m, name, N, cutoff, allowed is None, per_user is None, model=name, profiles=N, cutoff=cutoff)


def rejected(case):
    import irspack as ir
    rng = case.rng
    X = gen.csr(rng, 4, 5, 0.5, "ones")
    rec = ir.TopPopRecommender(X).learn()
    case.raises(ValueError, lambda: ir.ItemIDMapper([1, 2, 2]), "duplicate-items")
    case.raises(ValueError, lambda: ir.ItemIDMapper(["a", "b", "a"]), "duplicate-items")
    case.raises(ValueError, lambda: ir.IDMapper([1, 1], [1, 2]), "duplicate-users")
    case.raises(ValueError, lambda: ir.IDMapper([1, 2], [1, 1]), "duplicate-items")
    bad = ir.IDMapper(list(range(4)), list(range(4)))
    badu = ir.IDMapper(list(range(3)), list(range(5)))
    good = ir.IDMapper(list(range(4)), list(range(5)))
    case.raises(ValueError, lambda: bad.recommend_for_known_user_id(rec, 0), "item-count")
    case.raises(ValueError, lambda: bad.recommend_for_new_user(rec, [0]), "item-count")
    case.raises(ValueError, lambda: bad.recommend_for_new_user_batch(rec, [[0]]), "item-count")
    case.raises(ValueError, lambda: bad.recommend_for_known_user_batch(rec, [0]), "item-count")
    case.raises(ValueError, lambda: badu.recommend_for_known_user_id(rec, 0), "user-count")
    case.raises(ValueError, lambda: badu.recommend_for_known_user_batch(rec, [0]), "user-count")
    s = rng.normal(size=(3, 5))
    E = (ValueError, AssertionError, TypeError)
    case.raises(E, lambda: good.score_to_recommended_items(s[0, :4], 3), "score-size")
    case.raises(E, lambda: good.score_to_recommended_items_batch(s[:, :4], 3), "score-size")
    case.raises(E, lambda: good.score_to_recommended_items_batch(s, 3, forbidden_item_ids=[[0]]), "forbidden-size")
    case.raises(E, lambda: good.score_to_recommended_items_batch(s, 3, per_user_allowed_item_ids=[[0], [1]]), "allowed-size")
    case.raises(E, lambda: good.score_to_recommended_items_batch(s, 3, per_user_allowed_item_ids=[[0]]), "allowed-size")
    case.seen(X.nnz, rejections=16)


FAMILIES = [("from_scores", from_scores, 400, 12000), ("known", known, 150, 4000), ("wide", wide, 3, 40), ("repeated", repeated, 60, 1500),
           
            ("new_users", new_users, 150, 4000), ("rejected", rejected, 2, 5)]
