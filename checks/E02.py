"""Blocking invariance and purity of evaluation, judged against the full masked score matrix."""
import warnings

import numpy as np
import scipy.sparse as sps

from vlib import gen, oracle

PROPERTY = "E02"
RULE = ("one case = one evaluator fed by a model, a score matrix and/or a stream of blocks under random mini-batch size, offset, mask, "
        "thread count, dtype and memory layout; non-trivial when some user has ground truth; distinct by all of these")
ASSUMPTIONS = ["scores are not NaN"]
LAYOUTS = ["C", "F", "rowstride", "colstride", "reversed", "T"]


def as_layout(a, kind):
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "rowstride":
        b = np.full((a.shape[0], a.shape[1] + 3), 9e9, a.dtype)
        b[:, :a.shape[1]] = a
        return b[:, :a.shape[1]]
    if kind == "colstride":
        b = np.full((a.shape[0], 2 * a.shape[1]), 9e9, a.dtype)
        b[:, ::2] = a
        return b[:, ::2]
    if kind == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if kind == "T":
        return np.ascontiguousarray(a.T).T
    return np.ascontiguousarray(a)


def make_scores(rng, n, m, dtype):
    if rng.random() < 0.3:
        s = rng.integers(0, 4, (n, m)).astype(dtype)          # ties
    else:
        s = np.stack([rng.permutation(m) for _ in range(n)]).astype(dtype) - m // 2
    s = gen.fine(rng, s)
    if rng.random() < 0.3:
        s[rng.random((n, m)) < 0.2] = -np.inf
    return s


def mask_with(s, M):
    s = np.array(s)
    s[sps.csr_matrix(M).nonzero()] = -np.inf
    return s


def model(case):
    from irspack import Evaluator
    from irspack.recommenders.base import BaseRecommender
    rng = case.rng
    n_all, m = gen.size(rng, [1, 5, 20, 60], [129, 260, 1200]), gen.size(rng, [2, 7, 30], [300])
    offset = int(gen.pick(rng, [0, 0, int(rng.integers(0, n_all))]))
    n = int(rng.integers(1, n_all - offset + 1))
    dtype = gen.pick(rng, [np.float64, np.float32])
    S = make_scores(rng, n_all, m, dtype)
    X = gen.csr(rng, n_all, m, gen.pick(rng, [0.0, 0.1, 0.4]), gen.pick(rng, ["ones", "odd"]))
    if rng.random() < 0.2:
        X.data *= rng.choice([-1.0, 1.0], X.nnz)
    G = gen.csr(rng, n, m, gen.pick(rng, [0.05, 0.3, 0.7]), gen.pick(rng, ["ones", "odd"]))
    if rng.random() < 0.3:
        G = gen.unsorted(rng, G)
    masked = None
    if rng.random() < 0.5:
        masked = gen.csr(rng, n, m, 0.3, gen.pick(rng, ["counts", "odd"]))
        if rng.random() < 0.5:
            masked = masked.tocsc()
    if masked is not None and rng.random() < 0.3:            # dislikes are interactions as well
        masked.data *= rng.choice([-1.0, 1.0], masked.nnz)
    lay = gen.pick(rng, LAYOUTS)
    store = as_layout(S, lay)
    blockwise = bool(rng.integers(2))
    served = []

    class M(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, idx):
            served.append(len(idx))
            return store[idx[0]:idx[-1] + 1]         # a view of the model's own data

        if blockwise:
            def get_score_block(self, b, e):
                served.append(e - b)
                return store[b:e]
    mdl = M(X)
    mb = int(gen.pick(rng, [1, 2, 3, n, n + 5, 7, 128]))
    cut = gen.cutoffs(rng, m, 3)
    rwc = bool(rng.integers(2))
    kw = dict(offset=offset, cutoff=cut[0], masked_interactions=masked, recall_with_cutoff=rwc)
    before = S.tobytes(), gen.snapshot(X), gen.snapshot(G), None if masked is None else gen.snapshot(masked)
    ev = Evaluator(G, n_threads=int(gen.pick(rng, [1, 2, 8])), mb_size=mb, **kw)
    got = ev.get_scores(mdl, cut)
    case.check(np.array(store).tobytes() == before[0], "model-scores-modified", f"layout {lay}")
    case.check((gen.snapshot(X), gen.snapshot(G), None if masked is None else gen.snapshot(masked)) == before[1:],
               "input-modified")
    case.check((mdl.X_train_all != X).nnz == 0, "training-matrix-modified")
    full = mask_with(S[offset:offset + n], X[offset:offset + n] if masked is None else masked)
    gts = oracle.gt_sets(G)
    what = f"layout={lay} dtype={S.dtype} mb={mb} offset={offset} masked={masked is not None}"
    for c in cut:
        oracle.compare(case, got, oracle.score_metrics(full, gts, c, recall_with_cutoff=rwc), "model", what, suffix=f"@{c}")
    single = ev.get_score(mdl)
    for k in oracle.RANK_METRICS + ["catalog_coverage"]:
        case.check(abs(single[k] - got[f"{k}@{cut[0]}"]) < 1e-9, "cutoffs-together-vs-alone", k)
    again = ev.get_scores(mdl, cut)
    case.check(all(abs(again[k] - got[k]) < 1e-9 for k in got), "second-evaluation-differs", what)
    case.check(max(served) <= mb, "block-larger-than-asked", f"{max(served)} {what}")
    case.count("users_served", sum(served))
    case.count("blocks_served", len(served))
    # the matrix route must agree with the model route
    ev2 = Evaluator(G, cutoff=cut[0], mb_size=int(rng.integers(1, n + 4)), n_threads=1, recall_with_cutoff=rwc)
    mat = ev2.get_scores_from_score_matrix(full, cut)
    case.check(all(abs(mat[k] - got[k]) < 1e-9 for k in got), "matrix-vs-model", what)
    if G.nnz:
        case.seen(n_all, n, m, offset, lay, S.dtype.str, mb, masked is None, blockwise, users=n, items=m, offset=offset,
                  layout=lay, mb_size=mb, blocks=len(served))


def matrix(case):
    from irspack import Evaluator
    rng = case.rng
    n, m = gen.size(rng, [1, 4, 33], [129, 257, 1100]), gen.size(rng, [2, 9, 40], [300])
    dtype = gen.pick(rng, [np.float64, np.float32])
    S = make_scores(rng, n, m, dtype)
    G = gen.csr(rng, n, m, 0.3, "ones")
    masked = gen.csr(rng, n, m, 0.3, gen.pick(rng, ["ones", "odd"])) if rng.random() < 0.6 else None
    if masked is not None and rng.random() < 0.3:
        masked.data *= rng.choice([-1.0, 1.0], masked.nnz)
    lay = gen.pick(rng, LAYOUTS)
    A = as_layout(S, lay)
    cut = gen.cutoffs(rng, m, 2)
    full = S if masked is None else mask_with(S, masked)
    gts = oracle.gt_sets(G)
    want = [oracle.score_metrics(full, gts, c) for c in cut]
    for _ in range(3):
        mb = int(gen.pick(rng, [1, 2, n, n + 1, 128]))
        ev = Evaluator(G, cutoff=cut[0], masked_interactions=masked, mb_size=mb, n_threads=int(rng.integers(1, 9)),
                       offset=int(gen.pick(rng, [0, 0, 3])))
        got = ev.get_scores_from_score_matrix(A, cut)
        for c, w in zip(cut, want):
            oracle.compare(case, got, w, "matrix", f"mb={mb} layout={lay}", suffix=f"@{c}")
        oracle.compare(case, ev.get_score_from_score_matrix(A), want[0], "matrix", f"mb={mb} layout={lay}")
        # a stream of blocks of arbitrary size, some empty, mixed dtype and layout
        cuts = sorted(rng.integers(0, n + 1, int(rng.integers(0, 5))).tolist())
        edges = [0] + cuts + [n]
        blocks = []
        for b, e in zip(edges, edges[1:]):
            blk = S[b:e].astype(gen.pick(rng, [np.float32, np.float64]))
            if not np.array_equal(blk, S[b:e]):
                blk = S[b:e]                     # only the same values are comparable
            blocks.append(as_layout(blk, gen.pick(rng, LAYOUTS)))
        copies = [np.array(b) for b in blocks]
        src = iter(blocks) if rng.random() < 0.5 else blocks
        got = ev.get_scores_from_score_chunks(src, cut)
        for c, w in zip(cut, want):
            oracle.compare(case, got, w, "chunks", f"edges={edges}", suffix=f"@{c}")
        oracle.compare(case, ev.get_score_from_score_chunks(blocks), want[0], "chunks", f"edges={edges}")
        case.check(all(np.array_equal(x, y) for x, y in zip(blocks, copies)), "chunk-modified")
        case.count("streams", 2)
    case.check(np.array_equal(A, S), "matrix-modified")
    if G.nnz:
        case.seen(n, m, lay, S.dtype.str, masked is None, cut, users=n, items=m, layout=lay, cutoffs=cut)


def cold(case):
    from irspack import EvaluatorWithColdUser
    from irspack.recommenders.base import BaseRecommender
    rng = case.rng
    n, m = gen.size(rng, [1, 6, 30], [129, 260, 1100]), gen.size(rng, [2, 8, 25], [300])
    nc = int(gen.pick(rng, [0, 0, 1, 4]))
    supports = bool(rng.integers(2))
    dtype = gen.pick(rng, [np.float64, np.float32])
    lay = gen.pick(rng, LAYOUTS)
    inp = gen.csr(rng, n, m, gen.pick(rng, [0.1, 0.4]), "counts")
    G = gen.csr(rng, n, m + nc, 0.3, "ones")
    W = rng.integers(-50, 50, (m, m + nc)).astype(dtype) + np.arange(m + nc).astype(dtype) / 64
    F = rng.normal(size=(nc, 3))
    chunks = []

    class M(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, idx):
            raise AssertionError("known-user scores requested for cold users")

        def get_score_cold_user(self, X):
            chunks.append(X.shape[0])
            return as_layout(np.asarray(X.dot(W[:, :m])).astype(dtype), lay)

        if supports:
            def get_score_cold_user_with_item_features(self, X, f):
                assert np.array_equal(np.asarray(f), F)
                chunks.append(X.shape[0])
                return as_layout(np.asarray(X.dot(W)).astype(dtype), lay)
    mdl = M(gen.csr(rng, 5, m, 0.5, "ones"))
    masked, mm = None, None
    w = rng.integers(3)
    if w == 1:
        masked = gen.csr(rng, n, m + nc, 0.3, gen.pick(rng, ["ones", "odd"]))
        mm = masked
    elif w == 2:
        masked = gen.csr(rng, n, m, 0.3, gen.pick(rng, ["ones", "odd"]))
        mm = sps.hstack([masked, sps.csr_matrix((n, nc))]).tocsr()
    mb = int(gen.pick(rng, [1, 2, n, n + 3, 1024]))
    cut = gen.cutoffs(rng, m + nc, 2)
    rwc = bool(rng.integers(2))
    inp_arg = inp.tocsc() if rng.random() < 0.3 else inp
    kw = dict(cold_item_features=F) if nc else {}
    metric = gen.pick(rng, ["ndcg", "recall", "hit", "map", "precision"])
    ev = EvaluatorWithColdUser(inp_arg, G, cutoff=cut[0], masked_interactions=masked, mb_size=mb, recall_with_cutoff=rwc,
                               n_threads=int(rng.integers(1, 5)), target_metric=metric, **kw)
    before = gen.snapshot(inp_arg), gen.snapshot(G)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = ev.get_scores(mdl, cut)
        one = ev.get_score(mdl)
        target = ev.get_target_score(mdl)
    raw = np.asarray(inp.dot(W)).astype(dtype)
    if nc and not supports:
        raw[:, m:] = -np.inf
    default_mask = sps.hstack([inp, sps.csr_matrix((n, nc))]).tocsr()
    full = mask_with(raw, default_mask if mm is None else mm)
    gts = oracle.gt_sets(G)
    what = f"layout={lay} dtype={np.dtype(dtype).name} mb={mb} cold_items={nc} supports={supports} mask={int(w)}"
    for c in cut:
        oracle.compare(case, got, oracle.score_metrics(full, gts, c, recall_with_cutoff=rwc), "cold", what, suffix=f"@{c}")
    oracle.compare(case, one, oracle.score_metrics(full, gts, cut[0], recall_with_cutoff=rwc), "cold", what)
    case.check(abs(target - one[metric]) < 1e-9, "target-score", f"{metric}: {target} {one[metric]} {what}")
    case.check(max(chunks) <= mb and sum(chunks) == 3 * n, "users-served", f"{chunks} {what}")
    mat = ev.get_scores_from_score_matrix(np.ascontiguousarray(raw), cut)
    case.check(all(abs(mat[k] - got[k]) < 1e-9 for k in got), "matrix-vs-cold-model", what)
    case.check((gen.snapshot(inp_arg), gen.snapshot(G)) == before, "input-modified")
    case.count("blocks_served", len(chunks))
    if G.nnz:
        case.seen(n, m, nc, supports, lay, mb, int(w), np.dtype(dtype).name, users=n, items=m, cold_items=nc, layout=lay, mb_size=mb)


def cached_cold(case):
    """A model that hands out its own array must find it unchanged."""
    from irspack import EvaluatorWithColdUser
    from irspack.recommenders.base import BaseRecommender
    rng = case.rng
    n, m = 8, 6
    inp = gen.csr(rng, n, m, 0.4, "ones", holes=False)
    G = gen.csr(rng, n, m, 0.4, "ones", holes=False)
    S = make_scores(rng, n, m, gen.pick(rng, [np.float64, np.float32]))
    ref = S.copy()

    class M(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, idx):
            return S[idx]

        def get_score_cold_user(self, X):
            return S
    mdl = M(inp)
    ev = EvaluatorWithColdUser(inp, G, cutoff=3, n_threads=1)
    a = ev.get_score(mdl)
    case.check(S.tobytes() == ref.tobytes(), "model-scores-modified", "cold")
    b = ev.get_score(mdl)
    case.check(a == b, "second-evaluation-differs")
    oracle.compare(case, a, oracle.score_metrics(mask_with(ref, inp), oracle.gt_sets(G), 3), "cold-cached")
    case.seen(case.index, inp.nnz)


def several(case):
    """One evaluator serves several models in turn: nothing of one model may leak into the next."""
    from irspack import Evaluator, EvaluatorWithColdUser
    from irspack.recommenders.base import BaseRecommender
    rng = case.rng
    n, m = int(gen.pick(rng, [3, 12, 40])), int(gen.pick(rng, [4, 15]))
    G = gen.csr(rng, n, m, 0.4, "ones")
    gts = oracle.gt_sets(G)
    inp = gen.csr(rng, n, m, 0.3, "ones")
    cut = gen.cutoffs(rng, m, 2)
    own = bool(rng.integers(2))
    mask = gen.csr(rng, n, m, 0.3, "ones") if own else None
    off = int(gen.pick(rng, [0, 2]))
    mb = int(gen.pick(rng, [1, 4, 128]))
    ev = Evaluator(G, offset=off, cutoff=cut[0], masked_interactions=mask, mb_size=mb, n_threads=2)
    cold = EvaluatorWithColdUser(inp, G, cutoff=cut[0], masked_interactions=mask, mb_size=mb, n_threads=2)

    class M(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, idx):
            return self.S[idx]

        def get_score_cold_user(self, X):
            r = self.row
            self.row = (r + X.shape[0]) % n
            return self.S[off + r: off + r + X.shape[0]]
    models = []
    for _ in range(3):
        mdl = M(gen.csr(rng, n + off + int(rng.integers(3)), m, gen.pick(rng, [0.1, 0.5]), "ones"))
        mdl.S = make_scores(rng, mdl.n_users, m, gen.pick(rng, [np.float64, np.float32]))
        mdl.row = 0
        models.append(mdl)
    models.append(models[0])
    for k, mdl in enumerate(models):
        if rng.random() < 0.5:                    # the model changes between two evaluations
            mdl.S = make_scores(rng, mdl.n_users, m, np.float64)
        block = mdl.S[off:off + n]
        full = mask_with(block, mdl.X_train_all[off:off + n] if mask is None else mask)
        fullc = mask_with(block, inp if mask is None else mask)
        for e, f, nm in ((ev, full, "known"), (cold, fullc, "cold")):
            got = e.get_scores(mdl, cut)
            one = e.get_score(mdl)
            for c in cut:
                oracle.compare(case, got, oracle.score_metrics(f, gts, c), f"several-{nm}", f"model {k}", suffix=f"@{c}")
            oracle.compare(case, one, oracle.score_metrics(f, gts, cut[0]), f"several-{nm}", f"model {k}")
            mat = e.get_scores_from_score_matrix(np.ascontiguousarray(block), cut)      # no training data here: its own mask or none
            f2 = block if (mask is None and nm == "known") else f
            for c in cut:
                oracle.compare(case, mat, oracle.score_metrics(f2, gts, c), f"several-{nm}-matrix", f"model {k}", suffix=f"@{c}")
    if G.nnz:
        case.seen(n, m, off, mb, own, users=n, items=m, models=len(models))


def wide(case):
    """More users than fit in sixteen bits, more items than fit in sixteen bits."""
    from irspack import Evaluator
    from irspack.recommenders.base import BaseRecommender
    rng = case.rng
    n, m = ((2, 66100), (66100, 2))[case.index % 2]
    S = np.argsort(rng.random((n, m)), axis=1).astype(gen.pick(rng, [np.float64, np.float32]))
    D = rng.random((n, m)) < 0.3
    D[-1, -1] = True
    X = sps.random(n, m, 0.2, format="csr", random_state=int(rng.integers(1 << 30)))

    class M(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, idx):
            return S[idx]

        def get_score_block(self, b, e):
            return S[b:e]
    k = int(gen.pick(rng, [1, m if m < 5 else 200]))
    mb = int(gen.pick(rng, [1000, 70000]))
    got = Evaluator(sps.csr_matrix(D.astype(float)), cutoff=k, n_threads=int(rng.integers(1, 9)), mb_size=mb).get_score(M(X))
    want = oracle.score_metrics(mask_with(S, X), [set(np.nonzero(r)[0].tolist()) for r in D], k)
    oracle.compare(case, got, want, "wide", f"cutoff={k} n={n} m={m} mb={mb}")
    case.seen(n, m, k, mb, users=n, items=m, cutoff=k)


def real_models(case):
    import irspack as ir
    rng = case.rng
    n, m = 40, 15
    X = gen.covered_csr(rng, n, m, 0.3, "ones")
    G = gen.csr(rng, n, m, 0.3, "ones")
    recs = [ir.TopPopRecommender(X), ir.CosineKNNRecommender(X, n_threads=1), ir.CosineUserKNNRecommender(X, n_threads=1),
            ir.TruncatedSVDRecommender(X, n_components=3), ir.IALSRecommender(X, n_components=3, train_epochs=2, n_threads=1),
            ir.DenseSLIMRecommender(X), ir.P3alphaRecommender(X, n_threads=1), ir.NMFRecommender(X, n_components=2)]
    rec = recs[case.index % len(recs)].learn()
    S = np.asarray(rec.get_score(np.arange(n)), dtype=np.float64)
    full = mask_with(S, X)
    # rounding may differ between a block and the whole; only well separated scores are comparable exactly
    for u in range(n):
        v = np.sort(full[u][np.isfinite(full[u])])
        if len(v) > 1 and np.min(np.diff(v)) < 1e-6 * max(1, np.abs(v).max()):
            G[u] = 0
    G.eliminate_zeros()
    gts = oracle.gt_sets(G)
    for mb in (1, 7, n, 200):
        got = ir.Evaluator(G, cutoff=5, mb_size=mb, n_threads=2).get_score(rec)
        want = oracle.score_metrics(full, gts, 5)
        oracle.compare(case, got, want, "real-model", f"{type(rec).__name__} mb={mb}")
    case.seen(type(rec).__name__, G.nnz, model=type(rec).__name__, users_compared=sum(1 for g in gts if g))


def rejected(case):
    from irspack import Evaluator, EvaluatorWithColdUser, TopPopRecommender
    rng = case.rng
    n, m = 6, 5
    G = gen.csr(rng, n, m, 0.5, "ones")
    ev = Evaluator(G, cutoff=2, n_threads=1, mb_size=int(rng.integers(1, 8)))
    s = rng.normal(size=(n, m))
    V = (ValueError, TypeError)
    for bad in (s[:-1], s[:, :-1], np.vstack([s, s[:1]]), np.hstack([s, s[:, :1]]), s[0], s[None], s.T):
        case.raises(V, lambda: ev.get_score_from_score_matrix(bad), "matrix-shape", str(bad.shape))
    for bad in (s.astype(int), s.astype(np.float16), s.astype(complex), s > 0):
        case.raises(V, lambda: ev.get_score_from_score_matrix(bad), "matrix-dtype", str(bad.dtype))
        case.raises(V, lambda: ev.get_score_from_score_chunks([bad]), "chunk-dtype", str(bad.dtype))
    for bad in ([], [s[:3]], [s[:3], s[3:5]], [s, s[:1]], [s[:3], s[3:], s[:1]], [s[:, :-1]], [s[:3], s[3:, :4]], [s[0]],
                [s.tolist()], [s[:0]], [np.hstack([s, s])]):
        case.raises(V, lambda: ev.get_score_from_score_chunks(bad), "chunk-stream", str([np.shape(b) for b in bad]))
        case.raises(V, lambda: ev.get_scores_from_score_chunks(iter(bad), [1, 2]), "chunk-stream")
    X = gen.csr(rng, n, m, 0.4, "ones")
    rec = TopPopRecommender(X).learn()
    case.raises(ValueError, lambda: Evaluator(G, offset=1, cutoff=2, n_threads=1).get_score(rec), "offset-exceeds")
    case.raises(ValueError, lambda: Evaluator(G[:, :4], cutoff=2, n_threads=1).get_score(rec), "n-items")
    case.raises(ValueError, lambda: Evaluator(G, masked_interactions=X[:4]), "mask-rows")
    case.raises(ValueError, lambda: Evaluator(G, masked_interactions=X[:, :4]), "mask-columns")
    case.raises(ValueError, lambda: EvaluatorWithColdUser(X[:4], G), "cold-rows")
    case.raises(ValueError, lambda: EvaluatorWithColdUser(X[:, :4], G, cutoff=2, n_threads=1).get_score(rec), "cold-items")
    case.raises(ValueError, lambda: EvaluatorWithColdUser(X, G, cold_item_features=np.ones((2, 3))), "cold-columns")
    ok = Evaluator(G, cutoff=2, n_threads=1).get_score(rec)         # and the evaluator still works afterwards
    oracle.compare(case, ok, oracle.score_metrics(mask_with(np.tile(rec.score, (n, 1)), X), oracle.gt_sets(G), 2), "after-rejections")
    case.seen(G.nnz, rejections=40)


FAMILIES = [("model", model, 260, 8000), ("matrix", matrix, 120, 4000), ("cold", cold, 200, 6000),
            ("several", several, 80, 2000), ("wide", wide, 4, 60), ("cached_cold", cached_cold, 6, 50), ("real_models", real_models, 16, 400), ("rejected", rejected, 3, 10)]
