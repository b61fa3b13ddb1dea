"""Hostile arguments for every native entry point, under AddressSanitizer and UBSan."""
import pickle

import numpy as np
import scipy.sparse as sps

from vlib import gen

PROPERTY = "M01"
EXT = "asan"
LEVEL = "exploration"
RULE = ("one case = one to twenty calls of native entry points with extreme arguments (shapes, values, thread counts, cutoffs, ids, states) under AddressSanitizer, "
        "UndefinedBehaviorSanitizer and the bounds assertions of Eigen and libstdc++; non-trivial when a call was accepted or refused with an exception; distinct by entry point, shapes and argument classes")
ASSUMPTIONS = ["sparse matrices are structurally valid (indices within the shape, indptr monotone)", "dimensions stay below 2**31 and allocations below the memory limit",
               "the binding layer is the nanobind subset of /verif/shim"]
SIZES = [0, 1, 1, 2, 3, 8, 17, 40]
BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 63 - 1]


def dirty(rng, v, p=None):
    """Replace some values by extreme ones."""
    v = np.array(v, dtype=np.float64)
    p = gen.pick(rng, [0, 0, 0.05, 0.4, 1.0]) if p is None else p
    m = rng.random(v.shape) < p
    pool = gen.pick(rng, [[np.nan], [np.inf], [-np.inf], [np.nan, np.inf, -np.inf, 1.0], [1e300, -1e300], [1e-310], [0.0], [-1.0, 2.0], [np.nan, 1.0, 2.0]])
    v[m] = np.array(pool)[rng.integers(0, len(pool), int(m.sum()))]
    return v


def mat(rng, n=None, m=None, p=None, dtype=np.float64):
    n = int(gen.pick(rng, SIZES)) if n is None else n
    m = int(gen.pick(rng, SIZES)) if m is None else m
    X = gen.csr(rng, n, m, gen.pick(rng, [0.0, 0.1, 0.5, 1.0]), gen.pick(rng, ["ones", "counts", "frac", "signed"]))
    X.data = dirty(rng, X.data, p)
    X = X.astype(dtype)
    k = int(rng.integers(6))
    if k == 0 and X.nnz:
        X = gen.unsorted(rng, X)
    elif k == 1:
        X = sps.csc_matrix(X) if rng.random() < 0.5 else X
    elif k == 2 and X.nnz:          # every coordinate twice
        c = X.tocoo()
        r = np.concatenate([c.row, c.row])
        o = np.argsort(r, kind="stable")
        X = sps.csr_matrix((np.concatenate([c.data, c.data])[o], np.concatenate([c.col, c.col])[o].astype(np.int32),
                            np.concatenate([[0], np.cumsum(np.bincount(r, minlength=n))]).astype(np.int32)), shape=(n, m))
    elif k == 3:
        X = X.astype(gen.pick(rng, [np.float32, np.float64]))
    return X


def threads(rng):
    return int(gen.pick(rng, [0, 1, 1, 2, 3, 7, 33]))


def count(rng):
    return int(gen.pick(rng, [0, 1, 1, 2, 5, 16, 40, 41, 100] + BIG))


def call(case, name, fn, *a, **k):
    """An exception is a refusal; everything else the sanitizers judge."""
    try:
        r = fn(*a, **k)
        case.count("accepted_" + name)
        return r
    except (ValueError, RuntimeError, TypeError, MemoryError, IndexError, OverflowError, ArithmeticError, AttributeError):
        case.count("refused_" + name)
        return None


def shape(x):
    return getattr(x, "shape", None)


def util(case):
    from irspack.utils import _util_cpp as u
    rng = case.rng
    f = gen.pick(rng, ["remove_diagonal", "sparse_mm_threaded", "split_ratio", "split_n", "okapi", "tfidf", "slim+", "slim-", "retrieve64", "retrieve32"])
    X = mat(rng)
    r = None
    if f == "remove_diagonal":
        r = call(case, f, u.remove_diagonal, X)
        case.check((r is not None) == (X.shape[0] == X.shape[1]), "non-square-accepted", str(X.shape))
    elif f == "sparse_mm_threaded":
        Y = mat(rng, n=X.shape[1] if rng.random() < 0.7 else None)
        t = threads(rng)
        r = call(case, f, u.sparse_mm_threaded, X, Y.tocsc(), t)
        case.check((r is not None) == (t > 0 and X.shape[1] == Y.shape[0]), "incompatible-product", f"{X.shape} {Y.shape} {t}")
        if r is not None:
            case.check(r.shape == (X.shape[0], Y.shape[1]), "shape", f)
    elif f == "split_ratio":
        q = float(gen.pick(rng, [0.0, 0.5, 1.0, 1.0000001, -1e-9, np.nan, np.inf, 5e-324]))
        r = call(case, f, u.rowwise_train_test_split_by_ratio, X, int(gen.pick(rng, [0, -1, 2 ** 62, -2 ** 63])), q, bool(rng.integers(2)))
        case.check((r is not None) == (0 <= q <= 1), "bad-ratio-accepted", str(q))
    elif f == "split_n":
        r = call(case, f, u.rowwise_train_test_split_by_fixed_n, X, int(rng.integers(-5, 5)), count(rng))
        case.check(r is not None, "split-refused")
    elif f == "okapi":
        r = call(case, f, u.okapi_BM_25_weight, X, *[float(z) for z in dirty(rng, [1.2, 0.75])])
    elif f == "tfidf":
        r = call(case, f, u.tf_idf_weight, X, bool(rng.integers(2)))
    elif f.startswith("slim"):
        X = mat(rng, dtype=np.float32)
        t, it = threads(rng), int(gen.pick(rng, [0, 1, 3, 30]))
        l2, l1, tol = (float(z) for z in dirty(rng, [0.5, 0.1, 1e-4], gen.pick(rng, [0, 0.2])))
        top = int(gen.pick(rng, [-2 ** 62, -1, 0, 1, 3, 17, 39, 40, 41] + BIG))
        r = call(case, f, u.slim_weight_positive_only if f == "slim+" else u.slim_weight_allow_negative, X.astype(np.float32), t, it, l2, l1, tol, top)
        case.check(r is None or (t > 0 and it > 0 and l2 >= 0 and l1 >= 0), "bad-slim-accepted", f"{t} {it} {l2} {l1}")
        if r is not None:
            case.check(r.shape == (X.shape[1],) * 2, "shape", f)
    else:
        n, m = X.shape
        S = dirty(rng, rng.normal(size=(n, m)))
        S = S.astype(np.float64 if f.endswith("64") else np.float32)
        if rng.random() < 0.3:
            S = np.asfortranarray(S)
        A = gen.pick(rng, [[], [[]], "one", "each", "wrong"])
        ids = lambda: [int(x) for x in gen.pick(rng, [rng.integers(-3, m + 3, int(rng.integers(0, 2 * m + 2))), rng.integers(0, max(m, 1), 3), np.array([m, -1, 2 ** 62, -2 ** 63, 2 ** 31])])]
        if isinstance(A, str):
            A = [ids() for _ in range({"one": 1, "each": n, "wrong": n + 2}[A])]
        t, c = threads(rng), count(rng)
        r = call(case, f, getattr(u, "retrieve_recommend_from_score_f" + f[-2:]), S, A, c, t)
        case.check((r is not None) == (t > 0 and len(A) in (0, 1, n)), "bad-allowed-accepted", f"{len(A)} {n} {t}")
        if r is not None:
            case.check(len(r) == n and all(len(x) <= c and all(0 <= i < m for i, _ in x) for x in r), "recommended-out-of-range", f"{n}x{m} {c}")
    case.seen(f, X.shape, r is None, X.nnz, function=f, shape=list(X.shape), refused=r is None)


def knn(case):
    from irspack.recommenders import _knn as k
    rng = case.rng
    name = gen.pick(rng, ["CosineSimilarityComputer", "JaccardSimilarityComputer", "TverskyIndexComputer", "AsymmetricSimilarityComputer", "P3alphaComputer", "RP3betaComputer"])
    X = mat(rng)
    fl = lambda *v: [float(z) for z in dirty(rng, v, gen.pick(rng, [0, 0, 0.3]))]
    t, chunk = threads(rng), int(gen.pick(rng, [0, 1, 2, 3, 16, 128, 128] + BIG + [2 ** 64 - 1, 2 ** 64 - 3]))
    a = {"CosineSimilarityComputer": lambda: fl(1.0) + [bool(rng.integers(2))], "JaccardSimilarityComputer": lambda: fl(0.5), "TverskyIndexComputer": lambda: fl(0.0, 0.5, 0.5),
         "AsymmetricSimilarityComputer": lambda: fl(0.1, 0.5), "P3alphaComputer": lambda: fl(1.0), "RP3betaComputer": lambda: fl(1.0, 0.6)}[name]()
    c = call(case, name, getattr(k, name), X, *a, t, chunk)
    case.check(c is None or (t > 0 and chunk > 0), "bad-knn-accepted", f"{name} threads {t} chunk {chunk}")
    done = 0
    if c is not None:
        for _ in range(3):
            T = X if rng.random() < 0.4 else mat(rng, m=X.shape[1] if rng.random() < 0.8 else None)
            top = count(rng)
            fn = getattr(c, "compute_W", None) or c.compute_similarity
            r = call(case, name + ".compute", fn, T, top)
            if r is not None:
                done += 1
                case.check(T.shape[1] == X.shape[1], "incompatible-target", f"{name} {T.shape} {X.shape}")
                c2 = sps.coo_matrix(r)
                ends = {(T.shape[0], X.shape[0]), (X.shape[0], T.shape[0])} if name.startswith(("P3", "RP3")) else {(T.shape[0], X.shape[0])}
                case.check(r.shape in ends and (c2.nnz == 0 or (c2.row.min() >= 0 and c2.col.min() >= 0 and c2.row.max() < r.shape[0] and c2.col.max() < r.shape[1])),
                           "indices-out-of-range", f"{name} {r.shape} {T.shape} {X.shape}")
                if not name.startswith(("P3", "RP3")):
                    case.check((np.diff(r.indptr) <= top).all(), "top-k", name)
    case.seen(name, X.shape, t, min(chunk, 200), done, computer=name, shape=list(X.shape), threads=t, chunk=min(chunk, 10 ** 9), computed=done)


def evaluator(case):
    from irspack.evaluation import _core_evaluator as e
    rng = case.rng
    X = mat(rng)
    n, m = X.shape
    ids = lambda: [int(x) for x in rng.permutation(m)[:int(rng.integers(0, m + 1))]] + ([m + int(rng.integers(3))] if rng.random() < 0.05 else []) + ([0, 0] if rng.random() < 0.05 else [])
    R = gen.pick(rng, [[], [[]], [ids()], [ids() for _ in range(n)], [ids() for _ in range(n + 1)]])
    bad = any(x >= m for r in R for x in r) or any(len(set(r)) < len(r) for r in R) or len(R) not in (0, 1, n)
    core = call(case, "EvaluatorCore", e.EvaluatorCore, X, R)
    case.check((core is None) == bad, "recommendable-verdict", f"{n}x{m} {R}")
    ok = 0
    for _ in range(4):
        w = gen.pick(rng, ["metrics", "metrics", "metrics", "cache", "pickle", "lists", "merge", "gt"])
        if core is None and w != "lists" and w != "merge":
            continue
        if w == "metrics":
            rows = int(gen.pick(rng, [n, n, 0, 1, n + 1, max(0, n - 1)]))
            cols = m if rng.random() < 0.85 else m + int(gen.pick(rng, [-1, 1])) * (m > 0)
            S = dirty(rng, rng.normal(size=(rows, cols)))
            dt = gen.pick(rng, ["f64", "f32"])
            S = np.ascontiguousarray(S, np.float64 if dt == "f64" else np.float32)
            if rng.random() < 0.2 and rows > 1:
                S = S[::-1] if rng.random() < 0.5 else np.asfortranarray(S)
            c, o, t = count(rng), int(gen.pick(rng, [0, 0, 0, 1, n - 1 if n else 0, n] + BIG)), threads(rng)
            r = call(case, "get_metrics", getattr(core, "get_metrics_" + dt), S, c, o, t, bool(rng.integers(2)))
            good = t > 0 and o < n and o + rows <= n and cols == m and 0 < c <= m
            case.check(r is None or good, "bad-evaluation-accepted", f"offset {o} rows {rows}x{cols} of {n}x{m} cutoff {c} threads {t}")
            if r is not None:
                ok += 1
                d = r.as_dict()
                case.check(d["total_user"] == rows and d["valid_user"] <= rows, "users-counted", f"{d} {rows}")
        elif w == "cache":
            call(case, "cache", core.cache_X_as_set, threads(rng))
        elif w == "pickle":
            core = pickle.loads(pickle.dumps(core))
            ok += 1
        elif w == "gt":
            g = core.get_ground_truth()
            case.check(g.shape == (n, m), "shape")
        elif w == "merge":
            a, b = (int(gen.pick(rng, SIZES)) for _ in range(2))
            x = e.Metrics(a)
            call(case, "merge", x.merge, e.Metrics(b)), x.as_dict()
            ok += 1
        else:
            k = int(gen.pick(rng, [0, 1, 5]))
            ni = int(gen.pick(rng, [0, 1, 4, 20]))
            rows = lambda hi: [[int(x) for x in rng.integers(0, hi + 2 if rng.random() < 0.1 else max(hi, 1), int(rng.integers(0, 6)))] for _ in range(k)]
            rec = [list(dict.fromkeys(x)) if rng.random() < 0.9 else x for x in rows(ni)]
            gt = rows(ni) + ([[]] if rng.random() < 0.1 else [])
            t = threads(rng)
            r = call(case, "lists", e.evaluate_list_vs_list, rec, gt, ni, t)
            good = t > 0 and len(rec) == len(gt) and all(x < ni for l in rec + gt for x in l) and all(len(set(l)) == len(l) for l in rec)
            case.check((r is not None) == good, "list-verdict", f"{rec} {gt} {ni} {t}")
            if r is not None:
                r.as_dict()
                ok += 1
    case.seen(n, m, len(R), bad, ok, shape=[n, m], recommendable=len(R), calls=ok)


def dense(rng, n, k):
    return np.ascontiguousarray(dirty(rng, rng.normal(size=(n, k)), gen.pick(rng, [0, 0, 0, 0.3])), np.float32)


def feature(rng, n, d):
    F = dense(rng, n, d)
    return sps.csr_matrix(F) if rng.random() < 0.5 else F


def ials(case):
    from irspack.recommenders import _ials_core as c
    rng = case.rng
    X = mat(rng, dtype=np.float32)
    X = sps.csr_matrix(X).astype(np.float32)
    if rng.random() < 0.7:
        X.data = np.abs(X.data)
    n, m = X.shape
    K = int(gen.pick(rng, [0, 1, 2, 5, 16, 17]))
    Kf = (int(gen.pick(rng, [0, 1, 3, 9])), int(gen.pick(rng, [0, 1, 3, 9])))
    fl = lambda *v: [float(z) for z in dirty(rng, v, gen.pick(rng, [0, 0, 0.2]))]

    def config():
        a0, reg, nu, sd, lu, li = fl(0.1, 0.1, 0.5, 0.1, 1.0, 1.0)
        return c.IALSModelConfig(K, a0, reg, nu, sd, int(rng.integers(-3, 99)), gen.pick(rng, [c.LossType.ORIGINAL, c.LossType.IALSPP]), lu, li, int(gen.pick(rng, [0, 0, 1, 2 ** 63])))

    def solver(t=None):
        return c.IALSSolverConfig(threads(rng) if t is None else t, gen.pick(rng, [c.SolverType.CG, c.SolverType.CHOLESKY, c.SolverType.IALSPP]),
                                  int(gen.pick(rng, [0, 1, 3, 40])), int(gen.pick(rng, [0, 1, 2, 5, 64, 2 ** 64 - 1])), int(gen.pick(rng, [0, 1, 2])))
    aware = rng.random() < 0.5
    if aware:
        fu, fi = feature(rng, n + (rng.random() < 0.05), Kf[0]), feature(rng, m + (rng.random() < 0.05), Kf[1])
        t = call(case, "IALSTrainer(features)", c.IALSTrainer, config(), X, fu, fi)
        case.check(t is None or (fu.shape[0] == n and fi.shape[0] == m), "feature-rows-accepted", f"{fu.shape} {fi.shape} {X.shape}")
    else:
        t = call(case, "IALSTrainer", c.IALSTrainer, config(), X)
    done = []
    if t is None:
        case.seen(n, m, K, aware, 0, refused=True)
        return
    for _ in range(int(rng.integers(1, 14))):
        op = gen.pick(rng, ["step", "step", "step", "loss", "scores", "scores", "tu", "ti", "tuf", "tif", "fu", "fi", "pickle", "set", "set_ok"])
        s = solver()
        if op == "step":
            ok = call(case, op, t.step, s)
        elif op == "loss":
            ok = call(case, op, t.compute_loss, s)
        elif op == "scores":
            a, b = (int(gen.pick(rng, [0, 0, 1, n, n, n + 1, 2 ** 63 - 1, 2 ** 64 - 1])) for _ in range(2))
            ok = call(case, op, t.user_scores, a, b, s)
            if ok is not None:
                case.check(a <= b <= n and ok.shape == (b - a, m), "score-range", f"{a}:{b} of {n}")
        elif op in ("tu", "ti"):
            Y = sps.csr_matrix(mat(rng, m=m if op == "tu" and rng.random() < 0.8 else None, n=n if op == "ti" and rng.random() < 0.8 else None)).astype(np.float32)
            ok = call(case, op, t.transform_user if op == "tu" else t.transform_item, Y, s)
            if ok is not None:
                case.check(Y.shape[1] == m if op == "tu" else Y.shape[0] == n, "fold-in-shape-accepted", f"{op} {Y.shape} {n}x{m}")
                case.check(ok.shape[0] == (Y.shape[0] if op == "tu" else Y.shape[1]), "shape", op)
        elif op in ("tuf", "tif"):
            Y = sps.csr_matrix(mat(rng, m=m if op == "tuf" and rng.random() < 0.8 else None, n=n if op == "tif" and rng.random() < 0.8 else None)).astype(np.float32)
            rows = Y.shape[0] if op == "tuf" else Y.shape[1]
            F = feature(rng, rows + (rng.random() < 0.1), Kf[op == "tif"] + (rng.random() < 0.1))
            ok = call(case, op, t.transform_user_with_feature if op == "tuf" else t.transform_item_with_feature, Y, F, s)
            if ok is not None:
                case.check(F.shape[0] == rows, "feature-rows-accepted", f"{op} {F.shape} {Y.shape}")
        elif op in ("fu", "fi"):
            F = feature(rng, int(gen.pick(rng, SIZES)), Kf[op == "fi"] + (rng.random() < 0.2))
            ok = call(case, op, t.transform_user_feature if op == "fu" else t.transform_item_feature, F)
            if ok is not None:
                case.check(ok.shape[0] == F.shape[0], "shape", op)
        elif op == "pickle":
            st = t.__getstate__()
            if rng.random() < 0.3:
                st = list(st)
                st[int(rng.integers(1, len(st)))] = dense(rng, int(gen.pick(rng, SIZES)), int(gen.pick(rng, [0, 1, K, K + 1])))
                st = tuple(st if rng.random() < 0.7 else st[:int(rng.integers(0, 6))])

            def restore():
                q = c.IALSTrainer.__new__(c.IALSTrainer)
                q.__setstate__(st)
                return q
            q = call(case, op, restore)
            ok = q
            if q is not None:
                t = q
                n, m, K = t.user.shape[0], t.item.shape[0], t.user.shape[1]
                Kf = (t.user_feature_weight.shape[0], t.item_feature_weight.shape[0])
        else:
            a = gen.pick(rng, ["user", "item", "user_feature_weight", "item_feature_weight"])
            shp = {"user": (n, K), "item": (m, K), "user_feature_weight": (Kf[0], K), "item_feature_weight": (Kf[1], K)}[a]
            if op == "set":
                shp = (int(gen.pick(rng, [shp[0], 0, 1, shp[0] + 1])), int(gen.pick(rng, [shp[1], 0, 1, shp[1] + 1])))
            ok = call(case, op, setattr, t, a, dense(rng, *shp))
            ok = True
        done.append((op, ok is not None))
    for a in ("user", "item", "user_feature_weight", "item_feature_weight"):
        np.array(getattr(t, a)).sum()
    case.count("trainer_operations", len(done))
    case.seen(n, m, K, aware, tuple(done), shape=[n, m], K=K, features=aware, operations=[o for o, _ in done][:14])


def public(case):
    """The recommenders and evaluators as a user calls them, on odd data."""
    import irspack as ir
    from vlib import models
    rng = case.rng
    name = gen.pick(rng, [x for x in models.ALL if x not in ("NMFRecommender", "TruncatedSVDRecommender")])
    X = sps.csr_matrix(mat(rng, p=gen.pick(rng, [0, 0, 0, 0.1])))
    n, m = X.shape
    try:
        rec = models.cls(name)(X, **models.params(rng, name, X.shape)).learn()
        case.count("learnt")
    except Exception:
        rec = None
        case.count("learning_refused")
    calls = 0
    if rec is not None:
        P = sps.csr_matrix(mat(rng, m=m))
        for fn in (lambda: rec.get_score_block(0, n), lambda: rec.get_score(np.arange(n)), lambda: rec.get_score_remove_seen(np.array([0, n - 1])), lambda: rec.get_score_cold_user(P),
                   lambda: rec.get_score_cold_user_remove_seen(P), lambda: rec.get_score_block(n, n + 5), lambda: rec.get_score(np.array([n])),
                   lambda: ir.Evaluator(X, cutoff=max(1, m // 2), n_threads=3, mb_size=int(gen.pick(rng, [1, 7, 128]))).get_scores(rec, [1, max(1, m)]),
                   lambda: ir.utils.ItemIDMapper(list(range(m))).score_to_recommended_items_batch(rec.get_score(np.arange(n)), 4, n_threads=2)):
            try:
                fn()
                calls += 1
            except Exception:
                case.count("call_refused")
    case.count("public_calls", calls)
    case.seen(name, n, m, rec is None, calls, recommender=name, shape=[n, m], calls=calls)


def abandoned(case):
    """One worker gives up early while the others still have many rows to go."""
    from irspack.recommenders import _ials_core as c
    from irspack.utils import _util_cpp as u
    rng = case.rng
    n, m, K = int(gen.pick(rng, [400, 1500])), int(gen.pick(rng, [6, 60])), int(gen.pick(rng, [4, 24]))
    X = gen.csr(rng, n, m, 0.3, "ones").astype(np.float32)
    side = gen.pick(rng, ["user", "item"])
    if side == "item":
        X = X.T.tocsr()
    v = X.data.copy()
    v[X.indptr[0]:X.indptr[1 + int(gen.pick(rng, [0, 3]))]] = gen.pick(rng, [np.nan, -1e6, np.inf])
    X.data = v
    Y = X
    if side == "item":
        X = X.T.tocsr()
    kind = gen.pick(rng, ["CG", "CHOLESKY", "IALSPP"])
    sub = int(gen.pick(rng, [1, 4]))
    t = int(gen.pick(rng, [2, 4, 8]))
    cfg = c.IALSModelConfig(K, 0.1, 0.1, 0.5, 0.1, 3, gen.pick(rng, [c.LossType.ORIGINAL, c.LossType.IALSPP]), 1.0, 1.0, 0)
    s = c.IALSSolverConfig(t, getattr(c.SolverType, kind), int(gen.pick(rng, [0, 3])), sub, 1)
    aware = kind != "IALSPP" and rng.random() < 0.5
    if aware:
        tr = c.IALSTrainer(cfg, X, dense(rng, X.shape[0], 3) * 0 + 1, dense(rng, X.shape[1], 2) * 0 + 1)
    else:
        tr = c.IALSTrainer(cfg, X)
    got = []
    if side == "item":
        got.append(call(case, "transform_item", tr.transform_item, X, s))
    else:
        got.append(call(case, "transform_user", tr.transform_user, X, s))
    got.append(call(case, "step", lambda: (tr.step(s), True)[1]))
    got.append(call(case, "loss", tr.compute_loss, s))
    got.append(call(case, "scores", tr.user_scores, 0, X.shape[0], s))
    refused = sum(g is None for g in got)
    case.count("abandoned_calls", refused)
    case.seen(n, m, K, side, kind, sub, t, aware, refused, solver=kind, side=side, threads=t, refused=refused)


def unordered(case):
    """Not-a-number scores: whatever is kept, sorting must not leave its buffers."""
    from irspack.recommenders import _knn as k
    from irspack.utils import _util_cpp as u
    from irspack.evaluation import _core_evaluator as e
    rng = case.rng
    n, m = int(gen.pick(rng, [20, 80, 300])), int(gen.pick(rng, [20, 80, 300]))
    what = gen.pick(rng, ["knn", "slim", "retrieve", "evaluate"])
    p = gen.pick(rng, [0.01, 0.1, 0.5, 1.0])
    X = gen.csr(rng, n, m, 0.5, "counts")
    top = int(gen.pick(rng, [1, 5, 17, m // 2, m - 1]))
    if what == "knn":
        rows = rng.random(n) < p
        X.data[np.repeat(rows, np.diff(X.indptr))] = gen.pick(rng, [np.nan, np.inf, 1e200])
        name = gen.pick(rng, ["CosineSimilarityComputer", "P3alphaComputer", "AsymmetricSimilarityComputer", "TverskyIndexComputer"])
        a = {"CosineSimilarityComputer": [0.0, True], "P3alphaComputer": [1.0], "AsymmetricSimilarityComputer": [0.0, 0.5], "TverskyIndexComputer": [0.0, 0.5, 0.5]}[name]
        c = call(case, name, getattr(k, name), X, *a, 2, 64)
        r = c and call(case, name + ".compute", getattr(c, "compute_W", None) or c.compute_similarity, X, top)
    elif what == "slim":
        cols = rng.random(X.nnz) < p * gen.pick(rng, [1, 0.01])
        X.data[cols] = gen.pick(rng, [np.nan, np.inf, 1e30])
        f = gen.pick(rng, ["slim_weight_positive_only", "slim_weight_allow_negative"])
        r = call(case, f, getattr(u, f), X.astype(np.float32), 2, 3, 0.1, 0.01, 1e-4, top)
    else:
        S = rng.normal(size=(n, m))
        S[rng.random((n, m)) < p] = np.nan
        if what == "retrieve":
            r = call(case, what, u.retrieve_recommend_from_score_f64, S, [], top, 2)
        else:
            r = call(case, what, e.EvaluatorCore(X, []).get_metrics_f64, S, top, 0, 2, False)
    case.seen(what, n, m, p, top, what=what, shape=[n, m], nan_share=p, top_k=top, refused=r is None)


def large(case):
    """Thousands of rows, items or dimensions: past every fixed-size buffer."""
    from irspack.evaluation import _core_evaluator as e
    from irspack.recommenders import _ials_core as c, _knn as k
    from irspack.utils import _util_cpp as u
    rng = case.rng
    what = ["evaluate", "retrieve", "lists", "ials", "features", "knn", "slim", "split", "product", "weight"][case.index % 10]
    few, many, t = int(rng.integers(1, 6)), int(rng.integers(1030, 5000)), int(gen.pick(rng, [1, 3]))
    n, m = (few, many) if what in ("evaluate", "retrieve", "lists") or rng.random() < 0.5 else (many, few)
    X = gen.csr(rng, n, m, float(gen.pick(rng, [0.05, 0.5, 1.0])), "counts")
    top = int(gen.pick(rng, [m, max(1, m - 1), max(1, m // 2)]))
    if what == "evaluate":
        R = gen.pick(rng, [[], [list(range(m))], [[int(i) for i in rng.permutation(m)[:m // 2 + 1]] for _ in range(n)]])
        core = e.EvaluatorCore(X, R)
        S = rng.normal(size=(n, m))
        d = (core.get_metrics_f64(S, top, 0, t, bool(rng.integers(2))) if rng.random() < 0.5 else core.get_metrics_f32(S.astype(np.float32), top, 0, t, False)).as_dict()
        case.check(d["total_user"] == n and all(np.isfinite(v) for v in d.values()), "metric-not-finite", str(d))
    elif what == "retrieve":
        r = u.retrieve_recommend_from_score_f64(rng.normal(size=(n, m)), gen.pick(rng, [[], [[int(i) for i in rng.permutation(m)]]]), top, t)
        case.check([len(x) for x in r] == [top] * n, "shape", f"{top} of {m}")
    elif what == "lists":
        rec = [[int(i) for i in rng.permutation(m)[:top]] for _ in range(n)]
        d = e.evaluate_list_vs_list(rec, [list(range(int(rng.integers(1, m)))) for _ in range(n)], m, t).as_dict()
        case.check(all(np.isfinite(v) for v in d.values()), "metric-not-finite", str(d))
    elif what in ("ials", "features"):
        K = int(gen.pick(rng, [2, 70, 140]))
        n, m = (int(z) for z in ((3, 600), (600, 3), (150, 150))[int(rng.integers(3))])
        X = gen.csr(rng, n, m, 0.4, "counts").astype(np.float32)
        kind = gen.pick(rng, ["CG", "CHOLESKY"] if what == "features" else ["CG", "CHOLESKY", "IALSPP"])
        s = c.IALSSolverConfig(t, getattr(c.SolverType, kind), int(gen.pick(rng, [0, 3])), int(gen.pick(rng, [1, 7, 64, 200])), 1)
        cfg = c.IALSModelConfig(K, 0.1, 0.1, 1.0, 0.1, 1, c.LossType.IALSPP, 1.0, 1.0, 0)
        F = [np.ascontiguousarray(rng.normal(size=(z, d)), np.float32) for z, d in ((n, int(rng.integers(1, 90))), (m, int(rng.integers(1, 90))))]
        tr = c.IALSTrainer(cfg, X, *F) if what == "features" else c.IALSTrainer(cfg, X)
        tr.step(s)
        case.check(np.isfinite(tr.compute_loss(s)) and tr.user_scores(0, n, s).shape == (n, m) and tr.transform_user(X, s).shape == (n, K) and tr.transform_item(X, s).shape == (m, K), "shape", f"{n}x{m} K={K}")
    elif what == "knn":
        name = gen.pick(rng, ["CosineSimilarityComputer", "P3alphaComputer", "JaccardSimilarityComputer", "TverskyIndexComputer"])
        a = {"CosineSimilarityComputer": [0.0, True], "P3alphaComputer": [1.0], "JaccardSimilarityComputer": [0.0], "TverskyIndexComputer": [0.0, 0.5, 0.5]}[name]
        X = gen.csr(rng, *((700, 4) if rng.random() < 0.5 else (4, 3000)), 0.5, "counts")
        o = getattr(k, name)(X, *a, t, int(gen.pick(rng, [64, 128, 1000])))
        r = (getattr(o, "compute_W", None) or o.compute_similarity)(X, int(gen.pick(rng, [1, 100, X.shape[0] - 1])))
        case.check(r.shape == (X.shape[0],) * 2, "shape", name)
    elif what == "slim":
        X = gen.csr(rng, *((5, 300) if rng.random() < 0.5 else (3000, 6)), 0.5, "counts")
        r = getattr(u, gen.pick(rng, ["slim_weight_positive_only", "slim_weight_allow_negative"]))(X.astype(np.float32), t, 2, 0.1, 0.01, 1e-4, int(gen.pick(rng, [-1, 3, X.shape[1] // 2])))
        case.check(r.shape == (X.shape[1],) * 2, "shape", what)
    elif what == "split":
        a, b = u.rowwise_train_test_split_by_ratio(X, 3, 0.5, True)
        case.check(a.nnz + b.nnz == X.nnz, "shape", what)
    elif what == "product":
        case.check(u.sparse_mm_threaded(X, X.T.tocsc() if n < m else sps.csc_matrix(np.ones((m, 7))), t).shape[0] == n, "shape", what)
    else:
        case.check(u.okapi_BM_25_weight(X, 1.2, 0.75).nnz == X.nnz and u.tf_idf_weight(X, True).nnz == X.nnz, "shape", what)
    case.count("accepted_" + what)
    case.seen(what, n, m, top, t, X.nnz, what=what, shape=[n, m])


FAMILIES = [("util", util, 900, 40000), ("knn", knn, 500, 20000), ("evaluator", evaluator, 500, 20000), ("ials", ials, 700, 30000), ("public", public, 200, 6000), ("abandoned", abandoned, 60, 2000), ("unordered", unordered, 120, 6000),
            ("large", large, 80, 3000)]
