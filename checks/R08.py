"""Folding in unseen users and items against the training objective's own systems."""
import numpy as np
import scipy.sparse as sps

from checks.R06 import factors, settings, reg_scale, from_old
from checks.R07 import feature, form, setup_case, weights
from vlib import gen, ialsoracle as io

PROPERTY = "R08"
RULE = ("one case = one trained model (plain or feature-aware) folding in batches of new users and items; every row is judged against its double precision "
        "system, alone and in reordered batches; non-trivial when some folded-in vector is non-zero; distinct by configuration and data shape")
ASSUMPTIONS = ["interactions are positive; single precision: direct solves are judged by backward error, iterative ones by the value of the row's quadratic"]
BACK = 1e-4


def scaled(P, kw):
    D = P.toarray().astype(float)
    return np.where(D != 0, np.log(1 + D / kw["epsilon"]), 0) if kw.get("confidence_scaling") == "log" else D


def objective(X, kw):
    """The row systems of the trained model: same regularisation scale as in training."""
    D = X.toarray()
    reg = kw["reg"]
    if kw.get("nu_star") is not None:
        reg = reg * reg_scale(D, kw["alpha0"], kw["nu_star"]) / reg_scale(D, kw["alpha0"], kw["nu"])
    return io.Problem(scaled(X, kw), kw["alpha0"], reg, kw["nu"], kw["loss_type"])


def profiles(rng, k, m):
    P = gen.csr(rng, k, m, gen.pick(rng, [0.1, 0.4, 0.95]), gen.pick(rng, ["ones", "counts", "frac", "small", "tiny"]))
    if k > 2 and rng.random() < 0.4:
        D = P.toarray()
        D[-1] = D[0]                       # the same history twice
        P = sps.csr_matrix(D)
    return P


def mild(P, kw):
    """log(1 + x) of a tiny x has few digits left in single precision."""
    if kw.get("confidence_scaling") == "log":
        P.data = np.maximum(P.data, 0.03 * kw["epsilon"])
        if P.nnz % 4 == 1:
            P.data *= 3e4 * kw["epsilon"]        # the scale is for heavy tails
    return P


def given(rng, P):
    w = int(rng.integers(5))
    return [P, P.tocsc(), P.astype(np.float32), gen.unsorted(rng, P), sps.coo_matrix(P).tocsr()][w]


def predicted(G, W):
    """Vectors predicted from the features; the native sum over features is in single precision."""
    P = (G @ W).view(io.Rhs)
    P.mag = np.linalg.norm(np.abs(G) @ np.abs(W), axis=1)
    return P


def judge(case, pr, C, other, prior, got, solver, steps, w):
    """Every folded-in row against its own system."""
    for r in range(len(C)):
        A, b, reg = pr.system(C[r], other)
        p = np.zeros(A.shape[0]) if prior is None else prior[r]
        b = b + reg * p
        b.mag += reg * float(getattr(prior, "mag", np.zeros(len(C)))[r])
        if prior is None and not C[r].any():
            case.check(not got[r].any(), "empty-profile-not-zero", f"row {r} {w}")
            continue
        tag = f"row {r} nnz {int((C[r] != 0).sum())} {w}"
        if solver == "CHOLESKY":
            e = io.backward_error(A, b, got[r])
            case.check(e <= BACK, "fold-in-not-minimiser", lambda: f"backward error {e:.2e} got {got[r][:4]} want {np.linalg.solve(A, b)[:4]} {tag}")
            continue
        start = p                           # iterative solvers start from the prior
        best = io.phi(A, b, np.linalg.solve(A, b))
        tol = 2e-4 * (abs(best) + 0.5 * abs(start @ A @ start) + abs(b @ start)) + 1e-9
        v = io.phi(A, b, got[r])
        case.check(v <= io.phi(A, b, start) + tol, "fold-in-worse-than-start", tag)
        if np.linalg.cond(A) > 1e3:
            continue
        if solver == "CG":
            refs = [io.phi(A, b, io.cg(A, b, start, max(1, steps - 1 - steps // 4))),     # rounding delays convergence
                    io.phi(A, b, io.cg(*(z.astype(np.float32) for z in (A, b, start)), steps).astype(float))]
        else:
            refs = []
            for rev in (False, True):
                u = start
                for _ in range(steps[1]):
                    u = io.block_sweep(A, b, u, max(1, steps[0]), rev)
                refs.append(io.phi(A, b, u))
        case.check(v <= max(refs) + tol + 0.05 * (max(refs) - best), "fold-in-less-progress-than-steps-allow", lambda: f"{v} {refs} {best} {tag}")
    case.count("rows_judged", len(C))


def batches(case, fold, P, F, full, w):
    """A row's vector does not depend on the rest of the batch."""
    rng = case.rng
    k = P.shape[0]
    scale = 1 + np.abs(full).max(initial=0)
    slack = np.zeros((k, 1))
    if F is not None:
        # predicted vectors of a batch are one product; how far its rounding alone moves each row
        for _ in range(2):
            near = fold(P, (F * (1 + 1e-6 * rng.choice([-1, 1], F.shape))).astype(np.float32))
            slack = np.maximum(slack, 20 * np.abs(near - full).max(axis=1, keepdims=True))
    sub = rng.permutation(k)[: int(rng.integers(1, k + 1))]
    rep = rng.integers(0, k, int(rng.integers(1, 2 * k + 1)))
    for idx in (sub, rep, np.arange(k)[::-1], [int(rng.integers(k))]):
        got = fold(P[idx], None if F is None else F[idx])
        case.close(got, full[idx], "depends-on-batch", rtol=1e-3, atol=1e-4 * scale + slack[idx], message=w)


def products(case, got, U, V, mech, w, exact):
    """Scores are products of vectors, up to single precision."""
    got = np.asarray(got, dtype=float)
    case.check(got.shape == (len(U), len(V)), mech, f"shape {got.shape} {w}")
    want, mag = U @ V.T, np.abs(U) @ np.abs(V).T
    lim = 2e-6 * (U.shape[1] + 4) * mag + 1e-30 if exact else 1e-3 * np.abs(want) + 1e-4 * (1 + np.abs(want).max(initial=0))
    case.check((np.abs(got - want) <= lim).all(), mech, lambda: f"off by {np.abs(got - want).max()} of {np.abs(want).max()} {w}")


def one_side(case, rec, pr, kw, X, Fu, Fi, steps, side, what):
    rng = case.rng
    n, m = X.shape
    U, V = factors(rec)
    Wu, Wi = weights(rec)
    nonzero = False
    exact = kw["n_threads"] == 1             # repeated calls then give the same bits
    own, other, W, F = ((Fu, V, Wu, Fu), (Fi, U, Wi, Fi))[side]
    k = gen.size(rng, [1, 3, 10], [40, 150] if rng.random() < 0.8 else [300, 600])
    P = mild(profiles(rng, k, m if side == 0 else n), kw)
    A = given(rng, P)
    snap = gen.snapshot(A)
    call = rec.compute_user_embedding if side == 0 else (lambda Z, *f: rec.compute_item_embedding(Z.T, *f))
    w = f"side {side} {what}"
    calls = {"plain": lambda: call(A)}
    if own is not None:
        G = feature(rng, k, own.shape[1], "normal")
        Gf, gform = form(rng, G)
        alone = rec.compute_user_embedding_from_features if side == 0 else rec.compute_item_embedding_from_features
        calls.update(both=lambda: call(A, Gf), alone=lambda: alone(Gf))
    order = list(calls)
    answers = {order[i]: np.array(calls[order[i]](), dtype=float) for i in rng.permutation(len(order))}
    got = answers["plain"]
    case.check(gen.snapshot(A) == snap or not A.has_sorted_indices, "profile-modified", w)
    case.check(got.shape == (k, kw["n_components"]), "fold-in-shape", w)
    C = scaled(P, kw)
    judge(case, pr, C, other, None, got, kw["solver_type"], steps, w)
    batches(case, lambda Z, f: np.array(call(Z), dtype=float), P, None, got, w)
    nonzero |= bool(got.any())
    # the score of a folded-in row is its product with the known vectors
    if side == 0:
        products(case, rec.get_score_cold_user(A), got, V, "cold-score", w, exact)
    else:
        idx = rng.integers(0, n, 4)
        products(case, rec.get_score_from_item_embedding(idx, got.astype(np.float32)), U[idx], got, "item-embedding-score", w, True)
    if own is None:
        return nonzero
    got = answers["both"]
    judge(case, pr, C, other, predicted(G, W), got, kw["solver_type"], steps, f"{gform} {w}")
    batches(case, lambda Z, f: np.array(call(Z, f), dtype=float), P, G, got, w)
    if side == 0:
        products(case, rec.get_score_cold_user(A, Gf), got, V, "cold-score-with-features", w, exact)
    got = answers["alone"]
    judge(case, pr, np.zeros((k, len(other))), other, predicted(G, W), got, kw["solver_type"], steps, f"features only {gform} {w}")
    if side == 0:
        products(case, rec.get_score_cold_user_from_features(Gf), got, V, "cold-feature-score", w, exact)
        products(case, rec.get_score_cold_user(sps.csr_matrix((k, m)), Gf), got, V, "cold-score-with-features", f"no interactions {w}", exact)
        nonzero |= bool(got.any())
    else:
        Q = mild(profiles(rng, 3, m), kw)
        S = rec.get_score_cold_user_with_item_features(Q, Gf)
        u = np.array(rec.compute_user_embedding(Q), dtype=float)
        case.check(S.shape == (3, m + k), "appended-shape", f"{S.shape} {w}")
        products(case, S[:, :m], u, V, "known-item-scores", w, exact)
        products(case, S[:, m:], u, got, "appended-item-scores", w, exact)
        case.check(rec.get_score_cold_user_with_item_features(Q, Gf[:0]).shape == (3, m), "no-appended-items", w)
        idx = rng.integers(0, n, 4)
        products(case, rec.get_score_from_item_features(idx, Gf), U[idx], got, "item-feature-score", w, exact)
    return nonzero


def fold(case, featured):
    import irspack as ir
    rng = case.rng
    Fu = Fi = None
    if featured:
        X, n, m, kw, sides, Fu, Fi = setup_case(rng, feature_warmup_epochs=int(gen.pick(rng, [0, 1])))
        if rng.random() < 0.4:
            kw.update(solver_type="CG", max_cg_steps=3)
        rec_kw = dict(user_features=Fu, item_features=Fi)
    else:
        n, m = gen.edge(rng, gen.size(rng, [2, 7, 25], [100, 200])), gen.edge(rng, gen.size(rng, [3, 9, 30, 90], [200]))
        X = gen.csr(rng, n, m, gen.pick(rng, [0.15, 0.5]), gen.pick(rng, ["ones", "counts", "frac"]))
        kw = settings(rng)
        kw["solver_type"] = gen.pick(rng, ["CHOLESKY", "CHOLESKY", "CG", "IALSPP"])
        kw["ialspp_subspace_dimension"] = int(gen.pick(rng, [1, 2, 3, 64]))
        if not X.nnz:
            kw["nu_star"] = None
        rec_kw = {}
    if kw["alpha0"] == 0.0 and featured:
        kw["alpha0"] = 0.05
    if kw["solver_type"] != "CHOLESKY" or kw["reg"] < 0.3:
        kw["n_threads"] = 1                # the sum over threads is not associative, and short iterations or bad conditioning amplify that
    pcg, pit = int(gen.pick(rng, [1, 2, 5, 12])), int(gen.pick(rng, [1, 3, 7]))
    kw.update(train_epochs=int(rng.integers(1, 4)), prediction_time_max_cg_steps=pcg, prediction_time_ialspp_iteration=pit)
    rec = ir.IALSRecommender(X, **kw, **rec_kw)
    rec.start_learning()
    pr = objective(X, kw)
    steps = pcg if kw["solver_type"] == "CG" else (kw.get("ialspp_subspace_dimension", 64), pit)
    what = f"{kw} featured={featured} {n}x{m}"
    kept = -1
    early = case.rng.random() < 0.5          # ask for fold-ins while training, too
    nonzero = False
    for e in range(kw["train_epochs"]):
        if not solvable(case, rec, kw, scaled(X, kw), rec.run_epoch):
            return
        if early:
            one_side(case, rec, pr, kw, X, Fu, Fi, steps, int(rng.integers(2)), f"after epoch {e} {what}")
        if kept < 0 or rng.random() < 0.3:
            rec.save_state()
            kept = e
    for side in (0, 1):
        nonzero |= one_side(case, rec, pr, kw, X, Fu, Fi, steps, side, f"trained {what}")
    if rng.random() < 0.5:
        if not solvable(case, rec, kw, scaled(X, kw), rec.run_epoch):
            return
        for side in (1, 0):
            one_side(case, rec, pr, kw, X, Fu, Fi, steps, side, f"trained on {what}")
    if rng.random() < 0.7:                   # an earlier state comes back: fold-ins are those of that state
        rec.load_state()
        for side in rng.permutation(2):
            one_side(case, rec, pr, kw, X, Fu, Fi, steps, int(side), f"restored to epoch {kept} {what}")
        case.count("restored_states")
    U, V = factors(rec)
    Wu, Wi = weights(rec)
    for side in (0, 1):
        one_side(case, rec, pr, kw, X, Fu, Fi, steps, side, f"once more {what}")
    U2, V2 = factors(rec)
    Wu2, Wi2 = weights(rec)
    case.check(all(np.array_equal(x, y) for x, y in ((U, U2), (V, V2), (Wu, Wu2), (Wi, Wi2))), "fold-in-changed-model", what)
    for bad in (lambda: rec.compute_user_embedding(sps.csr_matrix((2, m + 1))), lambda: rec.compute_item_embedding(sps.csr_matrix((n + 1, 2)))):
        case.raises(ValueError, bad, "wrong-profile-width-accepted", what)
    if nonzero:
        case.seen(tuple(sorted(map(str, kw.items()))), n, m, X.nnz, featured, settings=kw, shape=[n, m], featured=featured)


def solvable(case, rec, kw, D, train):
    """Train; False if a direct solve gave up on a system which single precision cannot tell from a singular one."""
    try:
        train()
        return True
    except RuntimeError as ex:
        if "Cholesky" not in str(ex):
            raise
        worst = max(float((np.asarray(F, dtype=float) ** 2).sum()) for F in factors(rec)) * (kw["alpha0"] + float(D.max(initial=0)))
        if worst < 1e6 * kw["reg"]:
            raise
        case.count("numerically_singular_refused")
        return False


def undefined(case):
    """Nothing but features, no weight on unobserved pairs and no regularisation left: there is no one answer, so it is refused."""
    import irspack as ir
    rng = case.rng
    X, n, m, kw, sides, Fu, Fi = setup_case(rng, feature_warmup_epochs=0, alpha0=0.0, solver_type=gen.pick(rng, ["CHOLESKY", "CG"]), n_threads=1)
    kw["nu"] = gen.pick(rng, [0.0, 0.4, 1.0])
    kw.pop("nu_star", None)
    D = X.toarray()
    D[:, 0], D[0] = np.maximum(D[:, 0], 1), np.maximum(D[0], 1)           # nobody is empty in training
    rec = ir.IALSRecommender(sps.csr_matrix(D), user_features=Fu, item_features=Fi, train_epochs=2, **kw)
    if not solvable(case, rec, kw, scaled(sps.csr_matrix(D), kw), rec.learn):
        return
    what = f"{kw} {sides} {n}x{m}"
    U, V = factors(rec)
    Wu, Wi = weights(rec)
    calls = []
    if Fu is not None:
        P = sps.csr_matrix(np.where(np.arange(2)[:, None] == 0, 0, D[:1]))        # one row without history
        G = np.array(Fu[:2].toarray() if sps.issparse(Fu) else Fu[:2], dtype=float)[[0, -1]]
        calls += [(lambda: rec.compute_user_embedding_from_features(G), G @ Wu), (lambda: rec.compute_user_embedding(P, user_features=G)[:1], G[:1] @ Wu)]
    if Fi is not None:
        H = np.array(Fi[:3].toarray() if sps.issparse(Fi) else Fi[:3], dtype=float)
        calls += [(lambda: rec.compute_item_embedding_from_features(H), H @ Wi),
                  (lambda: rec.compute_item_embedding(sps.csr_matrix((n, len(H))), item_features=H), H @ Wi)]
    for call, prior in calls:
        if kw["nu"]:
            case.raises(ValueError, call, "undefined-fold-in-answered", what)
        else:
            case.close(call(), prior, "feature-only-vector", rtol=1e-3, atol=1e-4 * (1 + np.abs(prior).max()), message=what)
    E = D.copy()
    E[int(rng.integers(n))] = 0
    if kw["nu"] and Fu is not None and E.any():
        case.raises(ValueError, ir.IALSRecommender(sps.csr_matrix(E), user_features=Fu, item_features=Fi, train_epochs=2, **kw).learn,
                    "undefined-training-answered", what)
    case.seen(sides, kw["nu"], kw["solver_type"], n, m, sides=sides, nu=kw["nu"])


FAMILIES = [("plain", lambda c: fold(c, False), 140, 6000), ("featured", lambda c: fold(c, True), 120, 5000), ("undefined", undefined, 40, 800)]
