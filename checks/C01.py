"""Histories of queries, refused ones and concurrent ones included, against a fresh object asked only that query."""
import pickle
import sys
import threading
import warnings

import numpy as np
import scipy.sparse as sps

from vlib import gen, models

PROPERTY = "C01"
RULE = ("one case = one object (recommender, evaluator, id mapper, similarity computer) put through a random history of queries, with errors and from several threads, "
        "each answer compared with that of a fresh object; non-trivial when at least two different queries were answered; distinct by object and history")
ASSUMPTIONS = ["the object is not retrained and the caller's matrices are not changed during the history"]


class Stop(Exception):
    pass


def dense(x):
    if sps.issparse(x):
        return x.toarray()
    if isinstance(x, dict):
        return {k: dense(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [dense(v) for v in x]
    return np.array(x) if isinstance(x, np.ndarray) else x


def ask(query, obj):
    """('value', v) or ('refused', kind)."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            raw = query(obj)
    except Exception as e:
        return ("refused", type(e).__name__), None
    return ("value", dense(raw)), raw


def same(a, b, tol):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind != "f":
            return bool((a == b).all())
        inf = ~np.isfinite(a)
        if not np.array_equal(a[inf], b[inf], equal_nan=True):
            return False
        top = np.abs(a[~inf]).max(initial=0)
        return bool(np.isfinite(b[~inf]).all() and (np.abs(a[~inf] - b[~inf]) <= tol * top).all())
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) <= tol * max(abs(a), abs(b))
    return a == b


def scribble(raw):
    """The caller does as he likes with an array he was given."""
    if isinstance(raw, np.ndarray) and raw.flags.writeable and raw.dtype.kind == "f":
        raw[...] = -12345.0


def history(case, make, queries, tol, what, own=(), original=None):
    """queries: {name: fn(obj)}; own: names whose answers are arrays that belong to the caller."""
    rng = case.rng
    want = {k: ask(q, make())[0] for k, q in queries.items()}
    names = sorted(queries)
    obj = make() if original is None else original
    steps = [names[i] for i in rng.integers(0, len(names), int(rng.integers(10, 25 + len(names))))]
    done = []
    for k in steps:
        got, raw = ask(queries[k], obj)
        case.check(got[0] == want[k][0], "refused-differently", lambda: f"{k}: {got} instead of {want[k]} after {done[-6:]} {what}")
        if got[0] == "value":
            case.check(same(got[1], want[k][1], tol), "answer-depends-on-history", lambda: f"{k} after {done[-8:]} {what}: {str(got[1])[:200]} instead of {str(want[k][1])[:200]}")
            if k in own and rng.random() < 0.4:
                scribble(raw)
                done.append("(answer overwritten)")
        done.append(k)
        case.count("refused" if got[0] == "refused" else "answered")
    # several threads at once
    if rng.random() < 0.4:
        bad, old = [], sys.getswitchinterval()
        orders = [[names[i] for i in rng.integers(0, len(names), 8)] for _ in range(int(rng.integers(2, 5)))]
        gate = threading.Barrier(len(orders))

        def work(order):
            gate.wait()
            for k in order:
                got, _ = ask(queries[k], obj)
                if got[0] != want[k][0] or got[0] == "value" and not same(got[1], want[k][1], tol):
                    bad.append((k, got))
        warnings.simplefilter("ignore")
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(o,)) for o in orders]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        case.check(not bad, "answer-depends-on-other-threads", lambda: f"{bad[0][0]}: {str(bad[0][1])[:200]} instead of {str(want[bad[0][0]])[:200]} {what}")
        case.count("concurrent_answers", sum(map(len, orders)))
    if len(set(steps)) > 1:
        case.seen(what, tuple(steps), object=what[:120], history=steps[:10])


def recommenders(case, name):
    rng = case.rng
    n, m = int(rng.integers(6, 30)), int(rng.integers(5, 20))
    X = gen.covered_csr(rng, n, m, 0.3, gen.pick(rng, ["ones", "counts"]))
    kw = models.params(rng, name.split("+")[0], (n, m))
    if "n_threads" in kw:
        kw["n_threads"] = int(gen.pick(rng, [1, 3]))
    F = Fq = None
    if name == "IALSRecommender+features":
        F, Fq = np.round(rng.normal(size=(m, 3)), 3), np.round(rng.normal(size=(4, 3)), 3)
        kw.update(item_features=F, lambda_item_feature=0.5, solver_type=gen.pick(rng, ["CG", "CHOLESKY"]))
    c = models.cls(name.split("+")[0])
    original = c(X, **kw).learn()
    saved = pickle.dumps(original)                      # one training, restored for every fresh object
    make = lambda: pickle.loads(saved)
    P, Q = gen.csr(rng, 4, m, 0.3, "ones"), gen.csr(rng, 7, m, 0.5, "counts")
    P2 = P[:, rng.permutation(m)].tocsr()               # as many users, entries and the same total as P, on other items
    P2.sort_indices()
    i1, i2 = rng.integers(0, n, 5), rng.permutation(n)
    i3 = rng.permutation(i1) if rng.random() < 0.5 else (i1 + 1) % n
    b, e = sorted(int(v) for v in rng.integers(0, n + 1, 2))
    wide = gen.csr(rng, 2, m + 1, 0.4, "ones")
    q = {"score-some": lambda r: r.get_score(i1), "score-like": lambda r: r.get_score(i3), "unseen-like": lambda r: r.get_score_remove_seen(i3), "score-all": lambda r: r.get_score(i2), "unseen-some": lambda r: r.get_score_remove_seen(i1),
         "unseen-all": lambda r: r.get_score_remove_seen(i2), "bad-user": lambda r: r.get_score(np.array([n + 3])), "bad-unseen": lambda r: r.get_score_remove_seen(np.array([0, n + 3]))}
    if e > b:
        q["block"] = lambda r: r.get_score_block(b, e)
        q["unseen-block"] = lambda r: r.get_score_remove_seen_block(b, e)
        b2 = b - 1 if b else 0
        e2 = b2 + e - b if b else min(n, e + 1)
        q["block-like"] = lambda r: r.get_score_block(b2, e2)
        q["unseen-block-like"] = lambda r: r.get_score_remove_seen_block(b2, e2)
    if name not in models.USER_KNN:
        q.update({"new-like": lambda r: r.get_score_cold_user(P2), "new-unseen-like": lambda r: r.get_score_cold_user_remove_seen(P2), "new": lambda r: r.get_score_cold_user(P), "new-other": lambda r: r.get_score_cold_user(Q), "new-unseen": lambda r: r.get_score_cold_user_remove_seen(P),
                  "new-unseen-other": lambda r: r.get_score_cold_user_remove_seen(Q), "bad-new": lambda r: r.get_score_cold_user(wide), "bad-new-unseen": lambda r: r.get_score_cold_user_remove_seen(wide)})
    own = [k for k in q]
    if name.startswith("IALS"):
        q.update({"fold-like": lambda r: r.compute_user_embedding(P2), "fold-item-like": lambda r: r.compute_item_embedding(gen.csr(np.random.default_rng(1), n, 3, 0.4, "ones")[:, [2, 0, 1]]),
                  "fold": lambda r: r.compute_user_embedding(P), "fold-other": lambda r: r.compute_user_embedding(Q), "bad-fold": lambda r: r.compute_user_embedding(wide),
                  "fold-item": lambda r: r.compute_item_embedding(gen.csr(np.random.default_rng(1), n, 3, 0.4, "ones")), "users": lambda r: np.array(r.get_user_embedding()),
                  "items": lambda r: np.array(r.get_item_embedding()), "bad-fold-item": lambda r: r.compute_item_embedding(sps.csr_matrix((n + 1, 2)))})
        if F is not None:
            Fl = Fq[::-1].copy()                        # same shape, other items
            q.update({"feature-items-like": lambda r: r.compute_item_embedding_from_features(Fl), "feature-scores-like": lambda r: r.get_score_cold_user_with_item_features(P, Fl),
                      "feature-known": lambda r: r.get_score_from_item_features(i1, Fq), "feature-known-like": lambda r: r.get_score_from_item_features(i3, Fl),
                      "feature-history": lambda r: r.compute_item_embedding(gen.csr(np.random.default_rng(2), n, 4, 0.4, "ones"), item_features=Fq),
                      "feature-history-like": lambda r: r.compute_item_embedding(gen.csr(np.random.default_rng(2), n, 4, 0.4, "ones"), item_features=Fl)})
            q.update({"feature-items": lambda r: r.compute_item_embedding_from_features(Fq), "feature-scores": lambda r: r.get_score_cold_user_with_item_features(P, Fq),
                      "feature-one": lambda r: r.get_score_cold_user_with_item_features(Q, Fq[2:3]), "bad-features": lambda r: r.get_score_cold_user_with_item_features(P, Fq[:, :2])})
    history(case, make, q, 2e-4 if name.startswith("IALS") else 1e-9, f"{name} {X.shape} {sorted((k, v) for k, v in kw.items() if not isinstance(v, np.ndarray))}", own, original if rng.random() < 0.7 else None)


def evaluators(case):
    import irspack as ir
    from irspack.recommenders.base import BaseRecommender
    rng = case.rng
    n, m = int(rng.integers(5, 40)), int(rng.integers(4, 16))
    new = int(gen.pick(rng, [0, 0, 3]))
    X1, X2 = gen.covered_csr(rng, n, m, 0.3, "ones"), gen.covered_csr(rng, n, m, 0.5, "counts")
    cold = rng.random() < 0.5 or new > 0
    G = gen.csr(rng, n, m + new, 0.3, "ones")
    cut = int(rng.integers(1, m + 1))
    kw = dict(cutoff=cut, n_threads=int(rng.integers(1, 4)), mb_size=int(gen.pick(rng, [1, 3, 7, 128])), target_metric=gen.pick(rng, ["ndcg", "recall"]))
    r = rng.random()
    if r < 0.25:
        kw["recommendable_items"] = [int(v) for v in rng.permutation(m)[:max(cut, m // 2)]]
    elif r < 0.4 and not new:
        kw["masked_interactions"] = gen.csr(rng, n, m, 0.2, "ones")
    H = gen.csr(rng, n, m, 0.3, "ones")
    F, C = np.round(rng.normal(size=(m, 2)), 3), np.round(rng.normal(size=(new, 2)), 3)
    if cold:
        make = lambda: ir.EvaluatorWithColdUser(H, G, **({"cold_item_features": C} if new else {}), **kw)
    else:
        make = lambda: ir.Evaluator(G, **kw)

    class Broken(BaseRecommender, register_class=False):
        """Fails in the middle of being evaluated."""
        def _learn(self):
            pass

        def get_score(self, idx):
            if idx[0] > 0 or n <= kw["mb_size"]:
                raise Stop()
            return np.ones((len(idx), m))

        def get_score_cold_user(self, X):
            self.k = getattr(self, "k", 0) + 1
            if self.k > 1 or n <= kw["mb_size"]:
                self.k = 0
                raise Stop()
            return np.ones((X.shape[0], m))
    A = ir.IALSRecommender(X1, n_components=3, train_epochs=2, n_threads=1, **({"item_features": F, "solver_type": "CG", "lambda_item_feature": 0.5} if new else {})).learn()
    B = ir.CosineKNNRecommender(X2, n_threads=1).learn()
    T = ir.TopPopRecommender(X2).learn()
    other = ir.TopPopRecommender(gen.covered_csr(rng, n, m + 2, 0.3)).learn()
    few = ir.TopPopRecommender(gen.covered_csr(rng, max(1, n - 2), m, 0.3)).learn()
    S = rng.permuted(np.tile(np.arange(m + new, dtype=float), (n, 1)), axis=1)
    S2 = rng.permuted(S, axis=1)
    X3 = X1[rng.permutation(n)].tocsr()
    cuts = gen.cutoffs(rng, m, 3)

    def chunks(rows, fail=None):
        for a in range(0, rows, 3):
            if fail is not None and a >= fail:
                raise Stop()
            yield S[a:min(a + 3, rows)]
    q = {"A": lambda e: e.get_score(A), "B": lambda e: e.get_score(B), "T": lambda e: e.get_scores(T, cuts), "A-many": lambda e: e.get_scores(A, cuts), "target": lambda e: e.get_target_score(B),
         "matrix": lambda e: e.get_scores_from_score_matrix(S, cuts), "matrix-one": lambda e: e.get_score_from_score_matrix(S), "bad-shape": lambda e: e.get_score_from_score_matrix(S[:, 1:]),
         "bad-cutoff": lambda e: e.get_scores(B, [1, m + new + 5]), "bad-model": lambda e: e.get_score(other), "few-users": lambda e: e.get_score(few), "broken": lambda e: e.get_score(Broken(X1))}
    # models nobody else holds: they are gone before the next one is made
    q.update({"passing-" + str(k): (lambda x: lambda e: e.get_score(ir.TopPopRecommender(x).learn()))(x) for k, x in enumerate([X1, X2, X3])})
    q["matrix-like"] = lambda e: e.get_scores_from_score_matrix(S2, cuts)
    q["passing-matrix"] = lambda e: e.get_score_from_score_matrix(S2 + 1.0)
    e = make()
    if hasattr(e, "get_scores_from_score_chunks"):
        q.update({"chunks": lambda e: e.get_scores_from_score_chunks(chunks(n), cuts), "short": lambda e: e.get_scores_from_score_chunks(chunks(n - 1), cuts),
                  "broken-chunks": lambda e: e.get_scores_from_score_chunks(chunks(n, 3), cuts)})
    if hasattr(getattr(e, "core", None), "get_metrics_f64"):
        def as_dict(v):
            return dict(v.as_dict())
        q.update({"core-no-threads": lambda e: as_dict(e.core.get_metrics_f64(S, 1, 0, 0)), "core-threads": lambda e: as_dict(e.core.get_metrics_f64(S, cut, 0, 5)),
                  "core-part": lambda e: as_dict(e.core.get_metrics_f64(S[:2], cut, n - 2, 2)), "core-beyond": lambda e: as_dict(e.core.get_metrics_f64(S[:3], cut, n - 1, 2)),
                  "core-single": lambda e: as_dict(e.core.get_metrics_f32(S.astype(np.float32), cut, 0, 2))})
    history(case, make, q, 1e-9, f"{type(e).__name__} {n}x{m}+{new} {sorted(k for k in kw)}")


def mappers(case):
    import irspack as ir
    from irspack.utils import IDMapper
    rng = case.rng
    n, m = int(rng.integers(4, 20)), int(rng.integers(4, 15))
    U, I = gen.ids(rng, n, gen.pick(rng, gen.ID_KINDS)), gen.ids(rng, m, gen.pick(rng, gen.ID_KINDS))
    X = gen.covered_csr(rng, n, m, 0.3, "ones")
    kwr = dict(n_threads=1) if rng.random() < 0.5 else dict(n_components=3, train_epochs=2, n_threads=1)
    rec = (ir.CosineKNNRecommender if len(kwr) == 1 else ir.IALSRecommender)(X, **kwr).learn()
    other = ir.TopPopRecommender(gen.covered_csr(rng, n, m + 1, 0.3)).learn()
    like = [type(rec)(gen.covered_csr(rng, a, b, 0.3), **kwr).learn() for a, b in ((n, m), (n + 1, m), (max(1, n - 1), m), (n, m + 1))]
    make = lambda: IDMapper(list(U), list(I))
    us = [U[k] for k in rng.permutation(n)[:3]]
    prof, prof2 = [I[k] for k in rng.permutation(m)[:3]], {I[0]: 2.0, I[-1]: 1.0}
    some = [I[k] for k in rng.permutation(m)[:max(1, m // 2)]]
    S = rng.permuted(np.tile(np.arange(m, dtype=float), (3, 1)), axis=1)
    c = int(rng.integers(1, m + 1))
    nobody = object()
    q = {"known": lambda p: p.recommend_for_known_user_id(rec, us[0], cutoff=c), "known-some": lambda p: p.recommend_for_known_user_id(rec, us[1], cutoff=c, allowed_item_ids=some),
         "known-without": lambda p: p.recommend_for_known_user_id(rec, us[0], cutoff=c, forbidden_item_ids=some), "batch": lambda p: p.recommend_for_known_user_batch(rec, us, cutoff=c, n_threads=2),
         "batch-some": lambda p: p.recommend_for_known_user_batch(rec, us, cutoff=c, allowed_item_ids=some),
         "batch-each": lambda p: p.recommend_for_known_user_batch(rec, us, cutoff=c, per_user_allowed_item_ids=[some, prof, I]),
         "batch-without": lambda p: p.recommend_for_known_user_batch(rec, us, cutoff=c, forbidden_item_ids=[some, [], prof]),
         "new": lambda p: p.recommend_for_new_user(rec, prof, cutoff=c), "new-rated": lambda p: p.recommend_for_new_user(rec, prof2, cutoff=c, forbidden_item_ids=some),
         "new-batch": lambda p: p.recommend_for_new_user_batch(rec, [prof, prof2, []], cutoff=c), "matrix": lambda p: p.list_of_user_profile_to_matrix([prof, prof2]),
         "scores": lambda p: p.score_to_recommended_items(S[0], cutoff=c, allowed_item_ids=some), "scores-batch": lambda p: p.score_to_recommended_items_batch(S, cutoff=c),
         "nobody": lambda p: p.recommend_for_known_user_id(rec, nobody, cutoff=c), "nobody-batch": lambda p: p.recommend_for_known_user_batch(rec, [us[0], nobody], cutoff=c),
         "bad-model": lambda p: p.recommend_for_new_user(other, prof, cutoff=c), "bad-scores": lambda p: p.score_to_recommended_items(S[0][1:], cutoff=c),
         "bad-lists": lambda p: p.recommend_for_known_user_batch(rec, us, cutoff=c, per_user_allowed_item_ids=[some])}
    prof3, some2, us2 = [I[k] for k in rng.permutation(m)[:3]], [I[k] for k in rng.permutation(m)[:max(1, m // 2)]], [U[k] for k in rng.permutation(n)[:3]]
    S2 = rng.permuted(S, axis=1)
    rated = [{i: float(v) for i, v in zip(prof, vs)} for vs in ((1, 5, 2), (5, 1, 2), (1, 1, 1))]      # the same items, other ratings
    c2 = int(rng.integers(1, m + 1))
    q.update({f"new-rated-{k}": (lambda d: lambda p: p.recommend_for_new_user(rec, d, cutoff=c))(d) for k, d in enumerate(rated)})
    q.update({f"new-batch-rated-{k}": (lambda d, o: lambda p: p.recommend_for_new_user_batch(rec, [d, o], cutoff=c))(rated[k], rated[1 - k]) for k in (0, 1)})
    q.update({f"matrix-rated-{k}": (lambda d: lambda p: p.list_of_user_profile_to_matrix([d]))(d) for k, d in enumerate(rated)})
    q.update({"known-2": lambda p: p.recommend_for_known_user_id(rec, us[0], cutoff=c2), "new-2": lambda p: p.recommend_for_new_user(rec, prof, cutoff=c2), "batch-2": lambda p: p.recommend_for_known_user_batch(rec, us, cutoff=c2),
              "scores-2": lambda p: p.score_to_recommended_items(S2[0], cutoff=c, allowed_item_ids=some), "scores-some-2": lambda p: p.score_to_recommended_items(S[0], cutoff=c2, allowed_item_ids=some2)})
    q.update({"like": lambda p: p.recommend_for_known_user_id(like[0], us[0], cutoff=c), "more-users": lambda p: p.recommend_for_known_user_id(like[1], us[0], cutoff=c),
              "fewer-users": lambda p: p.recommend_for_known_user_id(like[2], us[0], cutoff=c), "more-items": lambda p: p.recommend_for_known_user_id(like[3], us[0], cutoff=c),
              "batch-more-users": lambda p: p.recommend_for_known_user_batch(like[1], us, cutoff=c), "batch-more-items": lambda p: p.recommend_for_known_user_batch(like[3], us, cutoff=c),
              "new-more-items": lambda p: p.recommend_for_new_user(like[3], prof, cutoff=c), "new-batch-more-items": lambda p: p.recommend_for_new_user_batch(like[3], [prof], cutoff=c),
              "new-like": lambda p: p.recommend_for_new_user(like[0], prof, cutoff=c), "new-other": lambda p: p.recommend_for_new_user(rec, prof3, cutoff=c),
              "batch-like": lambda p: p.recommend_for_known_user_batch(rec, us2, cutoff=c), "batch-other-without": lambda p: p.recommend_for_known_user_batch(rec, us2, cutoff=c, forbidden_item_ids=[some2, prof, []]),
              "batch-some-like": lambda p: p.recommend_for_known_user_batch(rec, us, cutoff=c, allowed_item_ids=some2), "new-batch-like": lambda p: p.recommend_for_new_user_batch(rec, [prof3, prof2, []], cutoff=c),
              "scores-without": lambda p: p.score_to_recommended_items_batch(S, cutoff=c, forbidden_item_ids=[some, [], prof]),
              "scores-without-like": lambda p: p.score_to_recommended_items_batch(S2, cutoff=c, forbidden_item_ids=[prof3, some2, []]), "matrix-like": lambda p: p.list_of_user_profile_to_matrix([prof3, prof2])})
    history(case, make, q, 1e-4, f"IDMapper {n} users {m} items {type(rec).__name__}")


def computers(case):
    from irspack.recommenders import _knn as K
    rng = case.rng
    a, f = int(rng.integers(3, 60)), int(rng.integers(2, 20))
    B = gen.csr(rng, a, f, 0.4, "counts")
    B2 = B[rng.permutation(a)].tocsr()
    T1, T2 = gen.csr(rng, 5, f, 0.4, "counts"), gen.csr(rng, int(rng.integers(1, 140)), f, 0.2, "frac")
    s, nt, ch = float(gen.pick(rng, [0.0, 2.0])), int(rng.integers(1, 5)), int(gen.pick(rng, [1, 7, 128]))
    kind = int(rng.integers(6))
    make = [lambda: K.CosineSimilarityComputer(B, s, True, nt, ch), lambda: K.AsymmetricSimilarityComputer(B, s, 0.4, nt, ch), lambda: K.JaccardSimilarityComputer(B, s, nt, ch),
            lambda: K.TverskyIndexComputer(B, s, 0.3, 0.8, n_threads=nt, max_chunk_size=ch), lambda: K.P3alphaComputer(B, 0.8, nt, ch), lambda: K.RP3betaComputer(B, 0.8, 0.5, nt, ch)][kind]
    if kind < 4:
        q = {"one": lambda c: c.compute_similarity(T1, 3), "two": lambda c: c.compute_similarity(T2, 100), "self": lambda c: c.compute_similarity(B, 2), "like": lambda c: c.compute_similarity(B2, 2), "one-like": lambda c: c.compute_similarity(T1[::-1].tocsr(), 3),
             "bad": lambda c: c.compute_similarity(sps.csr_matrix((2, f + 1)), 2)}
    else:
        q = {"walk": lambda c: c.compute_W(B, 4), "walk-like": lambda c: c.compute_W(B2, 4), "walk-all": lambda c: c.compute_W(B, 1000), "bad": lambda c: c.compute_W(sps.csr_matrix((a, f + 1)), 4),
             "bad-rows": lambda c: c.compute_W(sps.csr_matrix((a + 2, f)), 4)}
    history(case, make, q, 1e-12, f"{type(make()).__name__} {B.shape} shrinkage {s} threads {nt} chunk {ch}")


def fam(name):
    return ("rec_" + name.replace("+", "_").replace("Recommender", ""), lambda case: recommenders(case, name))


FAMILIES = [fam(n) + ((30, 1200) if n.startswith("IALS") else (12, 500)) for n in models.ALL + ["IALSRecommender+features"]] + [
    ("evaluators", evaluators, 120, 4000), ("mappers", mappers, 90, 3000), ("computers", computers, 90, 3000)]
