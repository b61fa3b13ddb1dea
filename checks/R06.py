"""iALS training epochs against the weighted least squares they document."""
import numpy as np
import scipy.sparse as sps

from vlib import gen, ialsoracle as io

PROPERTY = "R06"
RULE = ("one case = one training run (1-6 epochs) with random data, size, solver, loss, regularisation and threads; after every epoch each user and item "
        "row is judged against its own double precision system; non-trivial when some factor is non-zero; distinct by configuration and data shape")
ASSUMPTIONS = ["interactions are positive; single precision, so rows are judged by backward error or by the value of their quadratic"]
BACK = 1e-4


def data(rng, size=None):
    n, m = size or (gen.edge(rng, gen.size(rng, [1, 2, 7, 20, 70], [200, 400])), gen.edge(rng, gen.size(rng, [1, 3, 9, 25, 140], [300])))
    X = gen.csr(rng, n, m, gen.pick(rng, [0.1, 0.4, 0.95]), gen.pick(rng, ["ones", "counts", "small", "frac", "tiny"]))
    return X, n, m


def settings(rng, K=None):
    kw = dict(n_components=int(K or gen.pick(rng, [1, 2, 3, 5, 8, 16, 33] if rng.random() < 0.96 else [65, 80, 130])), alpha0=gen.real(rng, [0.0, 0.02, 0.3, 1.0], 1e-3, 3),
              reg=gen.real(rng, [0.003, 0.05, 0.5, 3.0], 1e-3, 10), nu=gen.real(rng, [0.0, 0.5, 1.0, 1.3], 0.05, 1.5),
              loss_type=gen.pick(rng, ["IALSPP", "ORIGINAL"]), n_threads=int(gen.pick(rng, [1, 2, 3, 8, 40])),
              random_seed=int(gen.pick(rng, [int(rng.integers(100)), int(rng.integers(2 ** 31 - 1))])), init_std=float(gen.pick(rng, [0.1, 0.1, 1.0])))
    if rng.random() < 0.4:
        kw.update(confidence_scaling="log", epsilon=gen.real(rng, [0.3, 1.0, 4.0], 0.01, 100))
    if rng.random() < 0.3:
        kw["nu_star"] = gen.real(rng, [0.0, 0.7, 1.0], 0.05, 1.5)
    return kw


def reg_scale(D, alpha0, nu):
    r, c = (D != 0).sum(1), (D != 0).sum(0)
    return ((r + alpha0 * D.shape[1]) ** nu).sum() + ((c + alpha0 * D.shape[0]) ** nu).sum()


def problem(X, kw, **more):
    """The objective that the documentation assigns to these settings."""
    D = X.toarray().astype(float)
    C = np.where(D != 0, np.log(1 + D / kw["epsilon"]), 0) if kw.get("confidence_scaling") == "log" else D
    reg = kw["reg"]
    if kw.get("nu_star") is not None:
        reg = reg * reg_scale(D, kw["alpha0"], kw["nu_star"]) / reg_scale(D, kw["alpha0"], kw["nu"])
    return io.Problem(C, kw["alpha0"], reg, kw["nu"], kw["loss_type"], **more)


def factors(rec):
    return np.array(rec.get_user_embedding(), dtype=float), np.array(rec.get_item_embedding(), dtype=float)


def check_loss(case, rec, pr, U, V, what):
    want, size = pr.loss(U, V)
    got = rec.trainer.compute_loss()
    case.close(got, want, "reported-loss", rtol=0, atol=(1e-4 + 1e-8 * rec.X_train_all.nnz) * size + 1e-6, message=what)      # a running single precision sum
    return want, size


def large(rng):
    """Sizes at which blocks, batches and counters wrap."""
    n, m = int(rng.integers(300, 1400)), int(rng.integers(30, 700))
    return (n, m) if rng.random() < 0.6 else (m, n)


def drive(case, kw, judge, size=None):
    import irspack as ir
    rng = case.rng
    X, n, m = data(rng, size)
    if kw.get("confidence_scaling") == "log" and X.nnz % 4 == 1:
        X.data *= 3e4 * kw["epsilon"]        # the scale is for heavy tails
    A = X if rng.random() < 0.6 else X.tocsc()
    snap = gen.snapshot(A)
    if not X.nnz:
        kw["nu_star"] = None          # the reference scale of nothing is undefined
    rec = ir.IALSRecommender(A, **kw)
    pr = problem(X, kw)
    what = f"{kw} {n}x{m} nnz={X.nnz}"
    rec.start_learning()
    U, V = factors(rec)
    case.check(np.isfinite(U).all() and np.isfinite(V).all(), "initial-not-finite", what)
    before, size0 = check_loss(case, rec, pr, U, V, what)
    epochs = int(rng.integers(1, 5)) if size is None else 1
    for e in range(epochs):
        try:
            rec.run_epoch()
        except RuntimeError as err:
            # only a system that is singular to single precision may be refused
            U1, V1 = factors(rec)
            worst = max(np.linalg.cond(pr.system(x, o)[0]) for D, o in ((pr.X, V), (pr.X.T, U1), (pr.X, V1)) for x in D if x.any())
            case.check(worst > 1e5, "regular-system-refused", lambda: f"{err}: condition {worst:.1e} {what}")
            case.count("numerically_singular_refused")
            break
        U1, V1 = factors(rec)
        w = f"epoch {e} {what}"
        case.check(np.isfinite(U1).all() and np.isfinite(V1).all(), "factor-not-finite", w)
        for side, (D, old, new, other) in enumerate(((pr.X, U, U1, V), (pr.X.T, V, V1, U1))):
            for r in range(len(D)):
                if not D[r].any():
                    case.check(not new[r].any(), "empty-row-not-zero", f"side {side} row {r} {w}")
                    continue
                judge(case, pr, D[r], old[r], new[r], other, f"side {side} row {r} nnz {int((D[r] != 0).sum())} {w}")
            case.count("rows_judged", len(D))
        loss, size = check_loss(case, rec, pr, U1, V1, w)
        case.check(loss <= before + 1e-4 * max(size, size0) + 1e-7, "loss-rose", f"{before} -> {loss} {w}")
        U, V, before, size0 = U1, V1, loss, size
    case.check(gen.snapshot(A) == snap, "input-modified", what)
    if U.any() and X.nnz:
        case.seen(tuple(sorted(map(str, kw.items()))), n, m, X.nnz, epochs, settings=kw, shape=[n, m], nnz=int(X.nnz), epochs=epochs)


def exact(case, pr, x, old, new, other, w):
    A, b, _ = pr.system(x, other)
    e = io.backward_error(A, b, new)
    case.check(e <= BACK, "row-not-minimiser", lambda: f"backward error {e:.2e}: got {new[:4]}, minimiser {np.linalg.lstsq(A, b, rcond=None)[0][:4]} {w}")


def not_worse(case, pr, x, old, new, ref, other, w, mech):
    """The quadratic of the row is not above that of the reference."""
    A, b, _ = pr.system(x, other)
    best = np.linalg.lstsq(A, b, rcond=None)[0]
    lo = io.phi(A, b, best)
    tol = 2e-4 * (abs(lo) + 0.5 * abs(old @ A @ old) + abs(b @ old)) + 1e-9
    got = io.phi(A, b, new)
    case.check(got <= io.phi(A, b, old) + tol, "row-objective-rose", lambda: f"{io.phi(A, b, old)} -> {got} {w}")
    refs = [io.phi(A, b, r(A, b)) for r in ref]
    if np.linalg.cond(A) > 1e4:          # single precision then decides the path
        return
    case.count("rows_compared_with_reference_path")
    case.check(got <= max(refs) + tol + 0.05 * (max(refs) - lo), mech, lambda: f"{got} vs {refs}, optimum {lo} {w}")


def from_old(A, b, old, new):
    """Solvers that correct the old value round relative to that."""
    den = np.linalg.norm(A, 2) * np.linalg.norm(new) + np.linalg.norm(b)
    return 1 + np.linalg.norm(A, 2) * np.linalg.norm(old) / (den + 1e-30)


def cholesky(case):
    kw = dict(settings(case.rng), solver_type="CHOLESKY")
    drive(case, kw, exact)


def large_exact(case):
    kw = dict(settings(case.rng, K=gen.pick(case.rng, [2, 5, 17])), solver_type="CHOLESKY")
    drive(case, kw, exact, large(case.rng))


def conjugate(case):
    steps = int(gen.pick(case.rng, [1, 2, 3, 5]))
    kw = dict(settings(case.rng), solver_type="CG", max_cg_steps=steps)

    def judge(case, pr, x, old, new, other, w):
        not_worse(case, pr, x, old, new, [lambda A, b: io.cg(A, b, old, steps - (steps > 2)),
                  lambda A, b: io.cg(*(z.astype(np.float32) for z in (A, b, old)), steps).astype(float)], other, w, "cg-less-progress-than-steps-allow")
    drive(case, kw, judge)


def conjugate_full(case):
    """Enough steps reach the minimiser of a well-conditioned row."""
    kw = dict(settings(case.rng, K=gen.pick(case.rng, [1, 2, 3, 5, 8])), solver_type="CG", max_cg_steps=int(gen.pick(case.rng, [0, 60])))

    def judge(case, pr, x, old, new, other, w):
        A, b, _ = pr.system(x, other)
        if np.linalg.cond(A) < (300 if kw["max_cg_steps"] else 30):
            case.count("cg_rows_at_minimiser")
            e = io.backward_error(A, b, new)
            single = io.cg(*(z.astype(np.float32) for z in (A, b, old)), kw["max_cg_steps"] or len(b)).astype(float)
            case.check(e <= 1e-3 * from_old(A, b, old, new) + 4 * io.backward_error(A, b, single), "cg-not-at-minimiser", lambda: f"backward error {e:.2e} {w}")
    drive(case, kw, judge)


def conjugate_long(case):
    """Many dimensions of unequal weight, where every allowed step still counts."""
    from irspack.recommenders import _ials_core as c
    rng = case.rng
    K, n, m = int(rng.integers(18, 70)), int(rng.integers(2, 12)), int(rng.integers(80, 300))
    X = gen.covered_csr(rng, n, m, float(gen.pick(rng, [0.1, 0.5])), gen.pick(rng, ["ones", "counts", "frac"])).astype(np.float32)
    alpha0, nu, loss = float(gen.pick(rng, [0.0, 0.1, 1.0])), float(gen.pick(rng, [0.0, 1.0])), gen.pick(rng, ["IALSPP", "ORIGINAL"])
    reg = float(gen.pick(rng, [0.01, 0.1])) / (1 if nu == 0 else m * (alpha0 + 0.1))
    steps = int(gen.pick(rng, [0, 0, K, int(rng.integers(6, K))]))
    t = c.IALSTrainer(c.IALSModelConfig(K, alpha0, reg, nu, 0.1, int(rng.integers(99)), getattr(c.LossType, loss), 0.0, 0.0, 0), X)
    spread = np.logspace(0, -float(gen.pick(rng, [1.0, 1.5, 2.0])), K)
    V = (rng.normal(size=(m, K)) * rng.permutation(spread) * float(gen.pick(rng, [0.1, 1.0, 3.0]))).astype(np.float32)
    t.item = V
    old = np.array(t.user, dtype=float)
    t.step(c.IALSSolverConfig(int(gen.pick(rng, [1, 4])), c.SolverType.CG, steps, 64, 1))
    new = np.array(t.user, dtype=float)
    pr = io.Problem(X.toarray().astype(float), alpha0, reg, nu, loss)
    allowed = steps or K
    w = f"K={K} {n}x{m} alpha0={alpha0} reg={reg} nu={nu} {loss} steps={steps}"
    for r in range(n):
        A, b, _ = pr.system(pr.X[r], V.astype(float))
        lo = io.phi(A, b, np.linalg.solve(A, b))
        refs = [io.phi(A, b, io.cg(*(z.astype(ty) for z in (A, b, old[r])), allowed - back).astype(float)) for ty, back in ((np.float64, 1), (np.float32, 0), (np.float32, 2))]
        scale = abs(lo) + 0.5 * abs(old[r] @ A @ old[r]) + abs(b @ old[r])
        got = io.phi(A, b, new[r])
        # single precision delays convergence: as far as the reference in single precision, with room for its path
        case.check(got - lo <= 2 * (max(refs) - lo) + 1e-5 * scale, "cg-less-progress-than-steps-allow", lambda: f"row {r}: {got - lo:.3g} above the minimum, reference {[x - lo for x in refs]} scale {scale:.3g} {w}")
        case.count("rows_judged")
    case.seen(K, n, m, X.nnz, steps, alpha0, nu, loss, settings=w)


def subspace(case):
    d = int(gen.pick(case.rng, [1, 2, 3, 4, 7]))
    kw = dict(settings(case.rng), solver_type="IALSPP", ialspp_subspace_dimension=d)

    def judge(case, pr, x, old, new, other, w):
        not_worse(case, pr, x, old, new, [lambda A, b: io.block_sweep(A, b, old, d), lambda A, b: io.block_sweep(A, b, old, d, True)],
                  other, w, "subspace-sweep-incomplete")
    drive(case, kw, judge)


def subspace_full(case):
    """A subspace as large as the model is the exact solve."""
    kw = dict(settings(case.rng, K=gen.pick(case.rng, [2, 3, 8, 20])), solver_type="IALSPP")
    kw["ialspp_subspace_dimension"] = int(gen.pick(case.rng, [kw["n_components"], kw["n_components"] + 1, 64]))

    def judge(case, pr, x, old, new, other, w):
        A, b, _ = pr.system(x, other)
        e, tol = io.backward_error(A, b, new), BACK * from_old(A, b, old, new)
        case.check(e <= tol, "subspace-row-not-minimiser", lambda: f"backward error {e:.2e} {w}")
    drive(case, kw, judge)


def degenerate(case):
    """No regularisation at all: an error or finite factors, never NaN."""
    import irspack as ir
    rng = case.rng
    X, n, m = data(rng)
    kw = dict(settings(rng), reg=0.0, alpha0=float(gen.pick(rng, [0.0, 0.0, 0.1])), nu_star=None,
              solver_type=gen.pick(rng, ["CG", "CHOLESKY", "IALSPP"]), ialspp_subspace_dimension=int(gen.pick(rng, [1, 2, 64])))
    rec = ir.IALSRecommender(X, **kw)
    rec.start_learning()
    done = 0
    try:
        for _ in range(4):
            rec.run_epoch()
            done += 1
            U, V = factors(rec)
            case.check(np.isfinite(U).all() and np.isfinite(V).all(), "factor-not-finite", f"{kw} {n}x{m}")
    except RuntimeError:
        case.count("singular_rejected")
    case.seen(tuple(sorted(map(str, kw.items()))), n, m, done, settings=kw, epochs_done=done)


def wide(case):
    """More users, or more items, than fit in sixteen bits."""
    import irspack as ir
    from vlib.simoracle import few
    rng = case.rng
    big = 66000 + int(rng.integers(500))
    X = few(rng, big, 40, 3)
    if case.index % 2:
        X = sps.csr_matrix(X.T)
    K = 3
    rec = ir.IALSRecommender(X, n_components=K, alpha0=0.01, reg=0.05, nu=1.0, loss_type="IALSPP", n_threads=8,
                             solver_type=("CHOLESKY", "CHOLESKY", "IALSPP", "IALSPP")[case.index % 4])
    rec.start_learning()
    U, V = factors(rec)
    rec.run_epoch()
    U1, V1 = factors(rec)
    for Y, other, new, name in ((X, V, U1, "user"), (sps.csr_matrix(X.T), U1, V1, "item")):
        outer = (other[:, :, None] * other[:, None, :]).reshape(len(other), -1)
        n = np.diff(Y.indptr)
        reg = 0.05 * (0.01 * len(other) + n)
        A = 0.01 * (other.T @ other)[None] + (Y @ outer).reshape(-1, K, K) + reg[:, None, None] * np.eye(K)
        b = Y @ other
        r = np.linalg.norm(np.einsum("rij,rj->ri", A, new) - b, axis=1)
        den = np.linalg.norm(A, axis=(1, 2)) * np.linalg.norm(new, axis=1) + np.linalg.norm(Y @ np.abs(other), axis=1)
        bad = (r > 1e-4 * den) & (n > 0)
        case.check(not bad.any(), "wide-row-not-minimiser", lambda: f"{name} rows {np.nonzero(bad)[0][:5]} of {len(n)}")
        case.check(not new[n == 0].any(), "wide-empty-row-not-zero", name)
        case.count("rows_judged", len(n))
    S = rec.get_score(np.array([0, X.shape[0] - 1]))
    case.close(S, U1[[0, -1]] @ V1.T, "wide-score", rtol=1e-4, atol=1e-5)
    case.seen(X.shape, rec.solver_type, shape=list(X.shape))


def initialisation(case):
    import irspack as ir
    rng = case.rng
    n, m, K = 300, 200, int([4, 150, 16, 70][case.index % 4])
    X = gen.csr(rng, n, m, 0.02, "ones")
    std = float(gen.pick(rng, [0.05, 0.1, 2.0]))
    mk = lambda s, sd=std: (lambda r: (r.start_learning(), factors(r))[1])(ir.IALSRecommender(X, n_components=K, init_std=sd, random_seed=s))
    U, V = mk(3)
    for Z in (U, V):
        case.check(abs(Z.std() * np.sqrt(K) / std - 1) < 6 / np.sqrt(2 * Z.size), "initial-scale", f"{Z.std()} for {std} K={K}")
        case.check(abs(Z.mean()) < 0.2 * std / np.sqrt(K), "initial-mean", f"{Z.mean()}")
    U2, V2 = mk(3)
    case.check(np.array_equal(U, U2) and np.array_equal(V, V2), "same-seed-differs")
    U3, V3 = mk(4)
    case.check(not np.array_equal(U, U3) and not np.array_equal(V, V3), "seed-ignored")
    s = int(rng.integers(1 << 15))
    seen = {mk(k)[0].tobytes() for k in (s, s + 1, s + 256, s + 1024, s + 65536, s + (1 << 24), s + (1 << 30))}
    case.check(len(seen) == 7, "seeds-give-same-model", f"{len(seen)} initial models from 7 seeds around {s}")
    case.seen(K, std)


HUGE = [1e8, 1e12, 1e19, 1e30, 3e38, 1e300, np.inf, np.nan]


def extreme(case, features=False):
    """Numbers at the end of the single precision range: the factors stay finite or the training is refused."""
    import irspack as ir
    rng = case.rng
    n, m = int(rng.integers(1, 20)), int(rng.integers(1, 15))
    X = gen.csr(rng, n, m, 0.5, "ones", holes=False)
    where = gen.pick(rng, ["one", "some", "all", "none"])
    v = gen.pick(rng, HUGE)
    if where == "one" and X.nnz:
        X.data[int(rng.integers(X.nnz))] = v
    elif where == "some":
        X.data[rng.random(X.nnz) < 0.4] = v
    elif where == "all":
        X.data[:] = v
    kw = dict(settings(rng), solver_type=gen.pick(rng, ["CHOLESKY", "CG"] if features else ["CHOLESKY", "CG", "IALSPP"]), n_threads=int(rng.integers(1, 4)), train_epochs=1,
              ialspp_subspace_dimension=int(gen.pick(rng, [1, 2, 3, 64])), max_cg_steps=int(rng.integers(1, 6)))
    if where == "none":
        kw[gen.pick(rng, ["alpha0", "reg", "init_std"])] = float(gen.pick(rng, HUGE[:5]))
    if features:
        Fi = rng.normal(size=(m, 2))
        Fi[int(rng.integers(m)), 0] = gen.pick(rng, HUGE)
        kw.update(item_features=Fi, lambda_item_feature=float(gen.pick(rng, [0.5, 1e30])))
    what = f"{where} {v} {n}x{m} { {k: x for k, x in kw.items() if k != 'item_features'} }"
    refused = 0
    try:
        with np.errstate(all="ignore"):
            rec = ir.IALSRecommender(X, **kw)
            rec.start_learning()
    except (RuntimeError, ValueError):
        case.count("refused")
        case.seen(where, str(v), n, m, kw["solver_type"], refused=True)
        return
    for e in range(4):
        try:
            rec.run_epoch()
        except (RuntimeError, ValueError):
            refused = e + 1
            break
        U, V = factors(rec)
        case.check(np.isfinite(U).all() and np.isfinite(V).all(), "factor-not-finite", f"epoch {e} {what}")
    case.count("refused" if refused else "trained")
    case.seen(where, str(v), n, m, kw["solver_type"], refused, value=str(v), solver=kw["solver_type"], refused_in_epoch=refused)


FAMILIES = [("cholesky", cholesky, 90, 4000), ("cg", conjugate, 70, 3000), ("cg_full", conjugate_full, 40, 1500), ("cg_long", conjugate_long, 60, 3000), ("subspace", subspace, 70, 3000),
            ("subspace_full", subspace_full, 40, 1500), ("degenerate", degenerate, 60, 2000), ("wide", wide, 3, 24), ("initialisation", initialisation, 4, 40),
            ("extreme", extreme, 150, 6000), ("large", large_exact, 6, 300)]
