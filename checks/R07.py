"""Feature-aware iALS: factor solves with a prior, feature-weight ridge, joint loss."""
import numpy as np
import scipy.sparse as sps

from checks.R06 import extreme, factors, large, problem, from_old
from vlib import gen, ialsoracle as io

PROPERTY = "R07"
RULE = ("one case = one feature-aware training run (2-6 epochs, some of them warm-up) with random data, dense or sparse features on one or both sides; every "
        "factor row and every feature weight is judged after every epoch; non-trivial when some feature weight became non-zero; distinct by configuration")
ASSUMPTIONS = ["interactions are positive; single precision: judged by backward error", "feature weights start at zero"]
BACK = 1e-4


def feature(rng, n, d, kind):
    F = rng.normal(size=(n, d))
    if kind == "onehot":
        F = np.zeros((n, d))
        if d:
            F[np.arange(n), rng.integers(0, d, n)] = 1.0
    elif kind == "sparse":
        F = F * (rng.random((n, d)) < 0.4)
    elif kind == "collinear" and d > 1:
        F[:, -1] = F[:, 0]
    return F.astype(np.float32)


def form(rng, F):
    """The same features as a user may hand them over."""
    w = int(rng.integers(5))
    if w == 0:
        return sps.csr_matrix(F), "csr"
    if w == 1:
        return sps.csc_matrix(F.astype(np.float64)), "csc64"
    if w == 2:
        return np.asfortranarray(F), "fortran"
    if w == 3:
        return F.astype(np.float64), "float64"
    return F, "dense"


def setup_case(rng, size=None, **fixed):
    n, m = size or (gen.edge(rng, gen.size(rng, [2, 6, 20, 70], [150, 300]), 0.15), gen.edge(rng, gen.size(rng, [3, 9, 25, 80], [200]), 0.15))
    X = gen.csr(rng, n, m, gen.pick(rng, [0.1, 0.4, 0.9]), gen.pick(rng, ["ones", "counts", "frac", "tiny"]))
    kw = dict(n_components=int(gen.pick(rng, [1, 2, 3, 5, 12] if rng.random() < 0.96 else [33, 66])), alpha0=gen.real(rng, [0.02, 0.3, 1.0], 3e-3, 3), reg=gen.real(rng, [0.01, 0.1, 1.0], 3e-3, 3),
              nu=gen.real(rng, [0.0, 0.5, 1.0], 0.05, 1.5), loss_type=gen.pick(rng, ["IALSPP", "ORIGINAL"]), n_threads=int(gen.pick(rng, [1, 2, 3, 8])),
              random_seed=int(rng.integers(100)), lambda_user_feature=gen.real(rng, [0.01, 0.5, 10.0], 3e-3, 100),
              lambda_item_feature=gen.real(rng, [0.01, 0.5, 10.0], 3e-3, 100), feature_warmup_epochs=int(gen.pick(rng, [0, 0, 1, 3])), solver_type="CHOLESKY")
    if rng.random() < 0.3:
        kw.update(confidence_scaling="log", epsilon=gen.real(rng, [0.7], 0.01, 30))
    if rng.random() < 0.2 and X.nnz:
        kw["nu_star"] = gen.real(rng, [0.8], 0.05, 1.5)
    kw.update(fixed)
    sides = gen.pick(rng, ["both", "both", "user", "item"])
    kinds = ["normal", "onehot", "sparse", "collinear"]
    Fu = feature(rng, n, gen.size(rng, [1, 2, 5, 9], [40, 90]), gen.pick(rng, kinds)) if sides != "item" else None
    Fi = feature(rng, m, gen.size(rng, [1, 2, 5, 9], [40, 90]), gen.pick(rng, kinds)) if sides != "user" else None
    return X, n, m, kw, sides, Fu, Fi


def weights(rec):
    c = rec.trainer.core_trainer
    return np.array(c.user_feature_weight, dtype=float), np.array(c.item_feature_weight, dtype=float)


def judge_epoch(case, rec, pr, kw, epoch, before, after, w, steps=None):
    """All four solves of an epoch, in their order."""
    (U, V, Wu, Wi), (U1, V1, Wu1, Wi1) = before, after
    warm = epoch < kw["feature_warmup_epochs"]
    lam = (kw["lambda_user_feature"], kw["lambda_item_feature"])
    for side, (D, old, new, other, Wold, Wnew) in enumerate(((pr.X, U, U1, V, Wu, Wu1), (pr.X.T, V, V1, U1, Wi, Wi1))):
        F = pr.features[side]
        active = F is not None and not warm
        prior = F @ Wold if active else np.zeros_like(old)
        for r in range(len(D)):
            tag = f"side {side} row {r} {w}"
            if not active and not D[r].any():
                case.check(not new[r].any(), "empty-row-not-zero", tag)
                continue
            A, b, reg = pr.system(D[r], other)
            b = b + reg * prior[r]
            if active:
                b.mag += reg * float(np.linalg.norm(np.abs(F[r]) @ np.abs(Wold)))
            if steps is None:
                e = io.backward_error(A, b, new[r])
                case.check(e <= BACK, "factor-not-minimiser" if active else "plain-factor-not-minimiser", lambda: f"backward error {e:.2e} {tag}")
            else:
                best = io.phi(A, b, np.linalg.solve(A, b))
                tol = 2e-4 * (abs(best) + 0.5 * abs(old[r] @ A @ old[r]) + abs(b @ old[r])) + 1e-9
                got = io.phi(A, b, new[r])
                case.check(got <= io.phi(A, b, old[r]) + tol, "row-objective-rose", tag)
                if np.linalg.cond(A) < 1e3:
                    ref = max(io.phi(A, b, io.cg(A, b, old[r], steps - (steps > 2))),
                              io.phi(A, b, io.cg(*(z.astype(np.float32) for z in (A, b, old[r])), steps).astype(float)))
                    case.check(got <= ref + tol + 0.05 * (ref - best), "cg-less-progress-than-steps-allow", lambda: f"{got} {ref} {best} {tag}")
        case.count("factor_rows_judged", len(D))
        if active:
            G, R = io.ridge(F.astype(float), new, pr.row_reg(D), lam[side])
            den = np.linalg.norm(G, 2) * np.linalg.norm(Wnew) + np.linalg.norm(R)
            den += 0.02 * np.linalg.norm((np.abs(F) * pr.row_reg(D)[:, None]).T @ np.abs(new))
            e = np.linalg.norm(G @ Wnew - R) / den if den > 0 else np.abs(Wnew).sum()
            case.check(e <= BACK, "feature-weight-not-ridge", lambda: f"side {side} backward error {e:.2e} {w}")
            case.count("feature_weights_judged", Wnew.size)
        else:
            case.check(not Wnew.size or np.array_equal(Wnew, Wold), "feature-weight-changed-early", f"side {side} {w}")


def training(case, steps=None, size=None):
    import irspack as ir
    rng = case.rng
    fixed = {} if steps is None else dict(solver_type="CG", max_cg_steps=steps)
    X, n, m, kw, sides, Fu, Fi = setup_case(rng, size, **fixed)
    if size:
        kw["feature_warmup_epochs"] = int(rng.integers(2))
    given, forms = [], []
    for F in (Fu, Fi):
        g, f = (None, "none") if F is None else form(rng, F)
        given.append(g), forms.append(f)
    snaps = [None if g is None else gen.snapshot(g) for g in given]
    rec = ir.IALSRecommender(X, user_features=given[0], item_features=given[1], **kw)
    pr = problem(X, kw, features=(Fu, Fi), lambdas=(kw["lambda_user_feature"], kw["lambda_item_feature"]))
    what = f"{kw} {sides} {forms} {n}x{m} nnz={X.nnz}"
    rec.start_learning()
    state = factors(rec) + weights(rec)
    case.check(not state[2].any() and not state[3].any(), "weights-not-zero-at-start", what)
    loss, size = pr.loss(*state)
    case.close(rec.trainer.compute_loss(), loss, "reported-loss", rtol=0, atol=(1e-4 + 1e-8 * X.nnz) * size + 1e-6, message=what)      # a running single precision sum
    epochs = int(rng.integers(2, 6)) if size is None else 2
    for e in range(epochs):
        rec.run_epoch()
        now = factors(rec) + weights(rec)
        w = f"epoch {e} {what}"
        case.check(all(np.isfinite(z).all() for z in now), "not-finite", w)
        judge_epoch(case, rec, pr, kw, e, state, now, w, steps)
        l, s = pr.loss(*now)
        case.check(l <= loss + 1e-4 * max(s, size) + 1e-7, "joint-loss-rose", f"{loss} -> {l} {w}")
        case.close(rec.trainer.compute_loss(), l, "reported-loss", rtol=0, atol=(1e-4 + 1e-8 * X.nnz) * s + 1e-6, message=w)
        state, loss, size = now, l, s
    case.check([None if g is None else gen.snapshot(g) for g in given] == snaps, "features-modified", what)
    if state[2].any() or state[3].any():
        case.seen(tuple(sorted(map(str, kw.items()))), sides, tuple(forms), n, m, X.nnz, settings=kw, sides=sides, forms=forms, shape=[n, m], epochs=epochs)


def conjugate(case):
    training(case, int(gen.pick(case.rng, [1, 2, 3, 6])))


def equal_models(case):
    """Feature storage, seed repetition and absent features do not matter."""
    import irspack as ir
    rng = case.rng
    X, n, m, kw, sides, Fu, Fi = setup_case(rng, train_epochs=3, n_threads=1)
    if rng.random() < 0.3:
        # one epoch: whether conjugate gradients stop a step earlier may hang on the last bit of the prior
        kw.update(solver_type="CG", max_cg_steps=3, train_epochs=1)

    def train(k=kw, conv=lambda F: F, X=X):
        u, i = (None if F is None else conv(F) for F in (Fu, Fi))
        rec = ir.IALSRecommender(X, user_features=u, item_features=i, **k).learn()
        return factors(rec) + weights(rec)
    a = train()
    scale = 1 + max(np.abs(z).max(initial=0) for z in a)
    # how far rounding of the features alone moves the result: single precision, and a small ridge amplifies it
    shake = [0.0] * 4
    for _ in range(3):
        near = train(conv=lambda F: (F * (1 + 1e-6 * rng.choice([-1, 1], F.shape))).astype(np.float32))
        shake = [max(s, np.abs(x - y).max(initial=0)) for s, x, y in zip(shake, a, near)]
    for name, other in (("same-seed-differs", train()), ("sparse-features-differ", train(conv=sps.csr_matrix)),
                        ("feature-layout-differs", train(conv=np.asfortranarray)), ("feature-dtype-differs", train(conv=lambda F: F.astype(np.float64)))):
        for x, y, s in zip(a, other, shake):
            case.close(x, y, name, rtol=2e-3, atol=2e-3 * scale + 20 * s, message=f"{kw} {sides}")
    # while every epoch is warm-up the model is the plain one
    k2 = dict(kw, feature_warmup_epochs=5)
    b = train(k2)
    plain = ir.IALSRecommender(X, **{k: v for k, v in kw.items() if "feature" not in k}).learn()
    for x, y in zip(b[:2], factors(plain)):
        case.close(x, y, "warm-up-is-not-plain", rtol=1e-5, atol=1e-5 * scale, message=f"{k2} {sides}")
    case.check(not b[2].any() and not b[3].any(), "weights-in-warm-up")
    case.seen(tuple(sorted(map(str, kw.items()))), sides, n, m, settings=kw, sides=sides)


def rejected(case):
    import irspack as ir
    rng = case.rng
    X = gen.covered_csr(rng, 8, 6, 0.4)
    V = (ValueError, RuntimeError)
    Fu, Fi = feature(rng, 8, 2, "normal"), feature(rng, 6, 3, "normal")
    ok = dict(n_components=2, alpha0=0.1, lambda_user_feature=1.0, lambda_item_feature=1.0, train_epochs=2)
    lr = lambda **k: ir.IALSRecommender(X, **{**ok, **k}).learn()
    for c in (lambda F: F, sps.csr_matrix):
        for bad in (dict(user_features=c(Fu[:-1])), dict(user_features=c(np.vstack([Fu, Fu[:1]]))), dict(item_features=c(Fi[:-1])),
                    dict(item_features=c(np.vstack([Fi, Fi[:1]]))), dict(user_features=c(Fu), lambda_user_feature=0.0),
                    dict(user_features=c(Fu), lambda_user_feature=-1.0), dict(item_features=c(Fi), lambda_item_feature=0.0),
                    dict(item_features=c(Fi), solver_type="IALSPP"), dict(user_features=c(Fu), solver_type="IALSPP")):
            case.raises(V, lambda: lr(**bad), "bad-features-accepted", str({k: getattr(v, "shape", v) for k, v in bad.items()}))
        rec = lr(user_features=c(Fu), item_features=c(Fi))
        P, Q = X[:3], X[:, :2]
        for fn in (lambda: rec.compute_user_embedding(P, c(Fu[:3, :1])), lambda: rec.compute_user_embedding(P, c(Fu[:4])),
                   lambda: rec.compute_item_embedding(Q, c(Fi[:2, :2])), lambda: rec.compute_item_embedding(Q, c(Fi[:3])),
                   lambda: rec.compute_user_embedding_from_features(c(Fi)), lambda: rec.compute_item_embedding_from_features(c(Fu)),
                   lambda: rec.get_score_cold_user_from_features(c(Fi)), lambda: rec.get_score_cold_user_with_item_features(P, c(Fu))):
            case.raises(V, fn, "bad-fold-in-features-accepted")
    plain = ir.IALSRecommender(X, n_components=2, alpha0=0.1, train_epochs=1).learn()
    for fn in (lambda: plain.compute_user_embedding(X[:3], Fu[:3]), lambda: plain.compute_item_embedding(X[:, :2], Fi[:2]),
               lambda: plain.compute_user_embedding_from_features(Fu)):
        case.raises(V, fn, "features-for-plain-model-accepted")
    case.raises(NotImplementedError, lambda: plain.get_score_cold_user_with_item_features(X[:2], Fi[:1]), "features-for-plain-model-accepted")
    case.seen(X.nnz)


FAMILIES = [("training", training, 120, 5000), ("cg", conjugate, 50, 2000), ("equal_models", equal_models, 60, 2000), ("rejected", rejected, 2, 10),
            ("extreme", lambda case: extreme(case, True), 80, 3000),
            ("large", lambda case: training(case, size=large(case.rng)), 6, 300)]
