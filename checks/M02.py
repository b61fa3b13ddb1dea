"""All parallel native computations under ThreadSanitizer, with and without failing workers."""
import glob
import os
import re

import numpy as np
import scipy.sparse as sps

from vlib import gen

PROPERTY = "M02"
EXT = "tsan"
LEVEL = "exploration"
TECHNIQUE = "runtime race detection (ThreadSanitizer, happens-before) over threaded workloads, results compared with the single-threaded ones"
RULE = ("one case = one parallel native computation (or a short sequence of them on one object) with 2 to 8 workers under ThreadSanitizer, whose result is also compared with the one of a "
        "single worker; after each case the reports of the detector are read; non-trivial when at least two workers had rows to work on; distinct by entry point, shape class, "
        "thread count and options")
ASSUMPTIONS = ["ThreadSanitizer sees the accesses of the code compiled here (extension modules, Eigen, libstdc++ headers); a race in code the workloads never run concurrently is not seen",
               "the binding layer is the nanobind subset of /verif/shim"]
SEEN = {}


def reports():
    """New text of the detector's log files."""
    out = []
    for f in sorted(glob.glob(os.environ["VERIF_SAN_LOG"] + ".*")):
        with open(f, errors="replace") as fh:
            fh.seek(SEEN.get(f, 0))
            t = fh.read()
            SEEN[f] = fh.tell()
        if t:
            out.append(t)
    return "".join(out)


def quiet(case, what):
    t = reports()
    case.count("report_reads")
    if "ThreadSanitizer" in t:
        m = re.search(r"SUMMARY: .*", t)
        where = re.findall(r"(?:/cpp_source/[^\s]+)", t)
        case.fail("data-race", f"{what}: {(m.group(0) if m else t)[:300]} at {sorted(set(where))[:6]}\n{t[:3000]}")


def workers(rng):
    return int(gen.pick(rng, [2, 2, 3, 4, 8]))


def shape(rng):
    return int(gen.pick(rng, [2, 17, 60, 150])), int(gen.pick(rng, [3, 20, 70]))


def agree(case, a, b, mech, what, rtol=1e-6, atol=1e-7):
    a, b = (x.toarray() if sps.issparse(x) else x for x in (a, b))
    case.close(a, b, mech, rtol=rtol, atol=atol, message=what)


def util(case):
    from irspack.utils import _util_cpp as u
    rng = case.rng
    n, m = shape(rng)
    t = workers(rng)
    X = gen.csr(rng, n, m, 0.3, "counts").astype(np.float64)
    f = gen.pick(rng, ["product", "slim+", "slim-", "retrieve", "retrieve32"])
    if f == "product":
        Y = gen.csr(rng, m, 30, 0.4, "frac").tocsc()
        agree(case, u.sparse_mm_threaded(X, Y, t), u.sparse_mm_threaded(X, Y, 1), "threads-differ", f)
    elif f.startswith("slim"):
        g = u.slim_weight_positive_only if f == "slim+" else u.slim_weight_allow_negative
        B = (X > 0).astype(np.float32)
        top = int(gen.pick(rng, [-1, -1, 3]))
        a = g(B, t, 200, 5.0 + n / 10, 0.1, 1e-7, top)
        if top < 0:
            agree(case, a, g(B, 1, 200, 5.0 + n / 10, 0.1, 1e-7, top), "threads-differ", f, 5e-3, 1e-4)
    else:
        S = rng.normal(size=(n, m))
        A = gen.pick(rng, [[], [list(range(0, m, 2))], [sorted(int(x) for x in rng.permutation(m)[:5]) for _ in range(n)]])
        c = int(gen.pick(rng, [1, 5, m]))
        g = u.retrieve_recommend_from_score_f64 if f == "retrieve" else u.retrieve_recommend_from_score_f32
        S = S if f == "retrieve" else S.astype(np.float32)
        case.check(g(S, A, c, t) == g(S, A, c, 1), "threads-differ", f)
    quiet(case, f"{f} {n}x{m} threads {t}")
    case.seen(f, n, m, t, entry=f, shape=[n, m], threads=t)


def knn(case):
    from irspack.recommenders import _knn as k
    rng = case.rng
    n, m = shape(rng)
    t, chunk, top = workers(rng), int(gen.pick(rng, [1, 5, 128])), int(gen.pick(rng, [2, 10, 1000]))
    X = gen.csr(rng, n, m, 0.3, "counts").astype(np.float64)
    name = gen.pick(rng, ["CosineSimilarityComputer", "JaccardSimilarityComputer", "TverskyIndexComputer", "AsymmetricSimilarityComputer", "P3alphaComputer", "RP3betaComputer"])
    a = {"CosineSimilarityComputer": [1.0, True], "JaccardSimilarityComputer": [0.5], "TverskyIndexComputer": [0.0, 0.5, 0.5],
         "AsymmetricSimilarityComputer": [0.1, 0.5], "P3alphaComputer": [1.0], "RP3betaComputer": [1.0, 0.6]}[name]
    w = "compute_W" if name.startswith(("P3", "RP3")) else "compute_similarity"
    run = lambda th: getattr(getattr(k, name)(X, *a, th, chunk), w)(X, top)
    agree(case, run(t), run(1), "threads-differ", name)
    quiet(case, f"{name} {n}x{m} threads {t} chunk {chunk}")
    case.seen(name, n, m, t, chunk, top, entry=name, shape=[n, m], threads=t, chunk=chunk)


def evaluator(case):
    from irspack.evaluation import _core_evaluator as e
    rng = case.rng
    n, m = shape(rng)
    t = workers(rng)
    X = gen.csr(rng, n, m, 0.3, "ones").astype(np.float64)
    R = gen.pick(rng, [[], [list(range(0, m, 2))], [sorted(int(x) for x in rng.permutation(m)[:max(1, m // 2)]) for _ in range(n)]])
    S = rng.normal(size=(n, m))
    cut = int(gen.pick(rng, [1, 3, m]))
    f = gen.pick(rng, ["metrics", "metrics", "cache", "lists"])
    if f == "lists":
        rec = [[int(x) for x in rng.permutation(m)[:cut]] for _ in range(n)]
        gt = [[int(x) for x in X[i].indices] for i in range(n)]
        a, b = (e.evaluate_list_vs_list(rec, gt, m, th).as_dict() for th in (t, 1))
    else:
        def run(th):
            c = e.EvaluatorCore(X, R)
            if f == "cache":
                c.cache_X_as_set(th)
            one = c.get_metrics_f64(S, cut, 0, th, bool(n % 2))
            h = n // 2
            two = c.get_metrics_f32(S[:h].astype(np.float32), cut, 0, th, False)
            two.merge(c.get_metrics_f64(S[h:], cut, h, th, False))
            return {**one.as_dict(), **{"m" + k: v for k, v in two.as_dict().items()}}
        a, b = run(t), run(1)
    case.close([a[k] for k in sorted(a)], [b[k] for k in sorted(a)], "threads-differ", rtol=1e-9, atol=1e-12, message=f)
    quiet(case, f"{f} {n}x{m} threads {t}")
    case.seen(f, n, m, t, len(R), cut, entry=f, shape=[n, m], threads=t)


def ials(case):
    from irspack.recommenders import _ials_core as c
    rng = case.rng
    n, m = shape(rng)
    t, K = workers(rng), int(gen.pick(rng, [1, 4, 9]))
    X = gen.csr(rng, n, m, 0.3, "counts").astype(np.float32)
    kind = gen.pick(rng, ["CG", "CHOLESKY", "IALSPP"])
    cfg = c.IALSModelConfig(K, 0.3, 0.5, 0.5, 0.1, 3, gen.pick(rng, [c.LossType.ORIGINAL, c.LossType.IALSPP]), 1.0, 1.0, int(rng.integers(2)))
    aware = kind != "IALSPP" and rng.random() < 0.6
    U, I = rng.normal(size=(n, 3)).astype(np.float32), sps.csr_matrix(rng.random((m, 2)) * (rng.random((m, 2)) < 0.7)).astype(np.float32)
    sub = int(gen.pick(rng, [1, 2, 64]))

    def run(th):
        s = c.IALSSolverConfig(th, getattr(c.SolverType, kind), 0, sub, 1)
        tr = c.IALSTrainer(cfg, X, U, I) if aware else c.IALSTrainer(cfg, X)
        tr.step(s)
        tr.step(s)
        out = [np.array(tr.user_scores(0, n, s)), np.array(tr.transform_user(X, s)), np.array(tr.transform_item(X, s)), np.array([tr.compute_loss(s)])]
        if aware:
            out += [np.array(tr.transform_user_with_feature(X, U, s)), np.array(tr.transform_item_with_feature(X, I, s)), np.array(tr.transform_user_feature(U))]
        return out
    for i, (a, b) in enumerate(zip(run(t), run(1))):
        agree(case, a, b, "threads-differ", f"{kind} observation {i} aware {aware} {n}x{m} K {K}", 2e-2, 2e-3)
    quiet(case, f"{kind} aware {aware} {n}x{m} K {K} threads {t} subspace {sub}")
    case.seen(kind, aware, n, m, t, K, sub, entry="ials", solver=kind, features=aware, shape=[n, m], threads=t)


def failing(case):
    """One worker gives up; the others are still at work on shared data."""
    from irspack.recommenders import _ials_core as c
    rng = case.rng
    n, m = int(gen.pick(rng, [60, 400])), int(gen.pick(rng, [20, 70]))
    t, K = workers(rng), int(gen.pick(rng, [4, 16]))
    X = gen.csr(rng, n, m, 0.4, "ones").astype(np.float32)
    row = int(gen.pick(rng, [0, 1, n // 2]))
    v = X.data.copy()
    v[X.indptr[row]:X.indptr[row + 1]] = gen.pick(rng, [np.nan, -1e6])
    X.data = v
    kind = gen.pick(rng, ["CG", "CHOLESKY", "IALSPP"])
    cfg = c.IALSModelConfig(K, 0.3, 0.5, 0.5, 0.1, 3, c.LossType.ORIGINAL, 1.0, 1.0, 0)
    s = c.IALSSolverConfig(t, getattr(c.SolverType, kind), 0, 3, 1)
    aware = kind != "IALSPP" and rng.random() < 0.5
    refused = 0
    for _ in range(3):
        tr = c.IALSTrainer(cfg, X, np.ones((n, 2), np.float32), np.ones((m, 1), np.float32)) if aware else c.IALSTrainer(cfg, X)
        for f in (lambda: tr.transform_user(X, s), lambda: tr.step(s)):
            try:
                f()
            except (RuntimeError, ValueError):
                refused += 1
        # the storage the workers wrote to is gone or reused from here on
        np.array(tr.user).sum()
        del tr
    quiet(case, f"failing {kind} {n}x{m} K {K} threads {t} row {row}")
    case.count("failing_workers", refused)
    if refused:
        case.seen(kind, aware, n, m, t, row, entry="failing", solver=kind, threads=t, refused=refused)


def public(case):
    """Threads as users ask for them: recommenders, evaluators, scoring."""
    import irspack as ir
    from vlib import models
    rng = case.rng
    n, m = shape(rng)
    t = workers(rng)
    X = gen.covered_csr(rng, n, m)
    name = gen.pick(rng, [x for x in models.ALL if x not in ("NMFRecommender", "TruncatedSVDRecommender")])
    kw = models.params(rng, name, X.shape)
    if "n_threads" in kw or "n_threads" in getattr(models.cls(name).config_class, "model_fields", {}):
        kw["n_threads"] = t
    rec = models.cls(name)(X, **kw).learn()
    ev = ir.Evaluator(X, cutoff=min(5, m), n_threads=t, mb_size=int(gen.pick(rng, [7, 128])))
    a = ev.get_scores(rec, [1, min(5, m)])
    case.check(all(np.isfinite(v) or np.isnan(v) for v in a.values()), "metrics", str(a))
    ir.utils.ItemIDMapper(list(range(m))).score_to_recommended_items_batch(rec.get_score(np.arange(n)), 4, n_threads=t)
    try:
        rec.get_score_cold_user(X)
    except NotImplementedError:
        pass
    quiet(case, f"{name} {n}x{m} threads {t}")
    case.seen(name, n, m, t, entry=name, shape=[n, m], threads=t)


FAMILIES = [("util", util, 250, 6000), ("knn", knn, 250, 6000), ("evaluator", evaluator, 250, 6000), ("ials", ials, 300, 8000), ("failing", failing, 100, 3000), ("public", public, 150, 3000)]
