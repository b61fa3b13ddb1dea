"""The same model however it is built: keyword arguments, configuration object, class name, tuning ranges."""
import json
import warnings

import numpy as np
import scipy.sparse as sps

from vlib import fakelightfm, gen, models

fakelightfm.install()

PROPERTY = "R13"
RULE = ("one case = one recommender built and trained in two or more ways (keywords, configuration, configuration after a JSON round trip, class found "
        "by name, defaults spelt out) on the same matrix and compared on known and new users; non-trivial when the scores are not constant; distinct by "
        "recommender, settings and matrix")
ASSUMPTIONS = ["lightfm is not installed: its wrapper is driven against a stand-in", "defaults are judged where documentation and constructor name one"]

NAMES = models.ALL + ["BPRFMRecommender"]
KNN = dict(shrinkage=0.0, top_k=100)
COS = dict(KNN, feature_weighting="NONE", bm25_k1=1.2, bm25_b=0.75)
# what the documentation of each class promises for a setting that is left out
DOCUMENTED = {
    "CosineKNNRecommender": dict(COS, normalize=False), "AsymmetricCosineKNNRecommender": dict(COS, alpha=0.5),
    "JaccardKNNRecommender": KNN, "TverskyIndexKNNRecommender": dict(KNN, alpha=0.5, beta=0.5),
    "CosineUserKNNRecommender": COS, "AsymmetricCosineUserKNNRecommender": dict(COS, alpha=0.5),
    "P3alphaRecommender": dict(alpha=1, normalize_weight=False), "RP3betaRecommender": dict(alpha=1, beta=0.6, normalize_weight=False),
    "SLIMRecommender": dict(alpha=0.05, l1_ratio=0.01, positive_only=True, n_iter=100, tol=1e-4, top_k=None),
    "DenseSLIMRecommender": dict(reg=1.0), "EDLAERecommender": dict(reg=1.0, dropout_p=0.1),
    "TruncatedSVDRecommender": dict(n_components=4),
    "IALSRecommender": dict(n_components=20, reg=1e-3, confidence_scaling="none", epsilon=1.0, init_std=0.1, solver_type="CG", max_cg_steps=3,
                            ialspp_subspace_dimension=64, nu_star=None, train_epochs=16, prediction_time_max_cg_steps=5),
    "BPRFMRecommender": dict(n_components=128, item_alpha=1e-9, user_alpha=1e-9, loss="bpr", train_epochs=128),
}


def settings(rng, name, shape):
    """A value for every setting the constructor knows except the matrices; a random part of it is used."""
    p = models.params(rng, name, shape)
    if "feature_weighting" in p:
        p.update(bm25_k1=float(gen.pick(rng, [0.4, 1.2, 2.5])), bm25_b=float(gen.pick(rng, [0.0, 0.75, 1.0])))
    if name == "SLIMRecommender":
        p.update(n_iter=int(rng.integers(1, 60)), tol=float(gen.pick(rng, [1e-2, 1e-4])))
    if name == "NMFRecommender":
        p.update(alpha=float(gen.pick(rng, [0.0, 1e-3, 0.05])), l1_ratio=float(gen.pick(rng, [0.0, 0.3, 1.0])),
                 init=gen.pick(rng, [None, "random", "nndsvda"]), beta_loss="frobenius", n_components=min(p["n_components"], *shape))
    if name == "IALSRecommender":
        p.update(init_std=float(gen.pick(rng, [0.05, 0.1, 1.0])), max_cg_steps=int(rng.integers(1, 7)), nu_star=gen.pick(rng, [None, 0.3, 1.0]),
                 prediction_time_max_cg_steps=int(rng.integers(1, 9)), prediction_time_ialspp_iteration=int(rng.integers(1, 9)),
                 lambda_user_feature=float(gen.pick(rng, [0.0, 0.5])), lambda_item_feature=float(gen.pick(rng, [0.0, 0.5])),
                 feature_warmup_epochs=int(rng.integers(0, 3)))
    if name == "BPRFMRecommender":
        p = dict(n_components=int(rng.integers(1, 9)), item_alpha=1e-4, user_alpha=float(rng.random()), loss=gen.pick(rng, ["bpr", "warp"]),
                 train_epochs=int(rng.integers(1, 6)), n_threads=int(rng.integers(1, 4)))
    if "n_threads" in p:
        p["n_threads"] = 1
    keep = gen.pick(rng, [0.0, 0.2, 0.6, 1.0])
    p = {k: v for k, v in p.items() if rng.random() < keep}
    if p.get("solver_type") == "IALSPP" and rng.random() < 0.7:
        p["ialspp_subspace_dimension"] = int(gen.pick(rng, [1, 2, 7]))
        p.setdefault("n_components", 5)
    if name == "NMFRecommender":
        p.setdefault("n_components", 2)
    if name in ("IALSRecommender",) + tuple(models.ITEM_KNN + models.USER_KNN + models.WALK + ["SLIMRecommender"]):
        p.setdefault("n_threads", 1)
    return p


def probe(rec, X, C):
    """What the model says about every known user and about new users."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec.learn()
        out = [rec.get_score(np.arange(X.shape[0]))]
        try:
            out.append(rec.get_score_cold_user(C))
        except NotImplementedError:
            pass
        except ValueError as e:                    # scikit-learn refuses a model regularised down to nothing
            if "full of zeros" not in str(e):
                raise
    return [np.asarray(o.toarray() if sps.issparse(o) else o, dtype=float) for o in out]


def matrix(rng, n, m):
    return gen.covered_csr(rng, n, m, gen.pick(rng, [0.15, 0.4]), gen.pick(rng, ["ones", "counts", "frac"])), gen.csr(rng, 3, m, 0.3, "ones")


def same(case, a, b, rule, what):
    case.check(len(a) == len(b), rule, f"one way scores new users, the other does not: {what}")
    for x, y in zip(a, b):
        case.close(x, y, rule, rtol=1e-6, atol=1e-7, message=what)


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def config(case):
    import irspack as ir
    rng = case.rng
    name = NAMES[case.index % len(NAMES)]
    n, m = int(rng.integers(4, 30)), int(rng.integers(6, 25))
    X, C = matrix(rng, n, m)
    p = settings(rng, name, (n, m))
    what = f"{name} {p} {n}x{m}"
    from irspack.recommenders.bpr import BPRFMRecommender
    cls = BPRFMRecommender if name == "BPRFMRecommender" else models.cls(name)
    case.check(ir.get_recommender_class(name) is cls, "class-by-name", name)
    want = probe(quiet(cls, X, **p), X, C)
    try:
        cfg = cls.config_class(**p)
    except Exception as e:
        case.fail("setting-not-accepted", f"{type(e).__name__}: {str(e)[:200]} {what}")
        return
    got = probe(quiet(ir.get_recommender_class(name).from_config, X, cfg), X, C)
    same(case, got, want, "config-differs-from-keywords", what)
    again = probe(quiet(cls.from_config, X, cfg), X, C)                # the configuration is not used up
    same(case, again, want, "config-changed-by-use", what)
    back = cls.config_class(**json.loads(cfg.model_dump_json()))
    same(case, probe(quiet(cls.from_config, X, back), X, C), want, "config-after-json", what)
    case.check(back == cfg, "config-round-trip", what)
    if np.ptp(want[0]) > 0:
        case.seen(name, tuple(sorted(map(str, p.items()))), n, m, X.nnz, recommender=name, settings=len(p))


def defaults(case):
    import irspack as ir
    rng = case.rng
    names = sorted(DOCUMENTED)
    name = names[case.index % len(names)]
    cls = ir.get_recommender_class(name) if name != "BPRFMRecommender" else __import__("irspack.recommenders.bpr", fromlist=["x"]).BPRFMRecommender
    big = name in models.ITEM_KNN + models.USER_KNN
    n, m = (int(rng.integers(130, 150)), int(rng.integers(130, 150))) if big else (int(rng.integers(25, 40)), int(rng.integers(25, 40)))
    X, C = matrix(rng, n, m)
    fixed = dict(n_threads=1) if name in models.ITEM_KNN + models.USER_KNN + models.WALK + ["SLIMRecommender", "IALSRecommender"] else {}
    if name == "IALSRecommender":                # the documented defaults have to matter
        fixed.update(alpha0=0.3, **gen.pick(rng, [{}, dict(confidence_scaling="log"), dict(solver_type="IALSPP", n_components=70)]))
    if "feature_weighting" in DOCUMENTED[name] and rng.random() < 0.6:
        fixed.update(feature_weighting=gen.pick(rng, ["TF_IDF", "BM_25"]))
    doc = {k: v for k, v in DOCUMENTED[name].items() if k not in fixed}
    what = f"{name} {fixed} {n}x{m}"
    a = probe(cls(X, **fixed), X, C)
    same(case, a, probe(cls(X, **doc, **fixed), X, C), "default-not-as-documented", what)
    try:
        cfg = cls.config_class(**fixed)
    except Exception as e:
        case.fail("setting-not-accepted", f"{type(e).__name__}: {str(e)[:200]} {what}")
        return
    same(case, probe(cls.from_config(X, cfg), X, C), a, "config-default-differs", what)
    if np.ptp(a[0]) > 0:
        case.seen(name, tuple(sorted(map(str, fixed.items()))), n, m, X.nnz, recommender=name, defaults=len(doc))


def rejected(case):
    import irspack as ir
    rng = case.rng
    X, _ = matrix(rng, 6, 8)
    pool = {n: models.cls(n) for n in models.ALL}
    a, b = [pool[n] for n in rng.choice(models.ALL, 2, replace=False)]
    if not issubclass(b.config_class, a.config_class):
        case.raises(ValueError, lambda: a.from_config(X, b.config_class()), "other-configuration-accepted", f"{a.__name__} {b.__name__}")
    for wrong in (None, {}, object()):
        case.raises((ValueError, TypeError), lambda: a.from_config(X, wrong), "no-configuration-accepted", f"{a.__name__} {wrong}")
    bad = gen.pick(rng, ["n_component", "topk", "Alpha", "reg_", "X", "x_train", "epochs", ""])
    case.raises(Exception, lambda: a.config_class(**{bad: 1}), "unknown-setting-accepted", f"{a.__name__} {bad}")
    case.raises(TypeError, lambda: a(X, **{bad: 1}), "unknown-setting-accepted", f"{a.__name__} {bad}")
    f = gen.pick(rng, sorted(a.config_class.model_fields) or [None])
    if f is not None and f not in ("confidence_scaling", "feature_weighting", "beta_loss", "init", "loss"):
        case.raises(Exception, lambda: a.config_class(**{f: "nonsense"}), "wrong-value-accepted", f"{a.__name__} {f}")
        case.raises(Exception, lambda: a.config_class(**{f: [1, 2]}), "wrong-value-accepted", f"{a.__name__} {f}")
    case.raises(KeyError, lambda: ir.get_recommender_class(a.__name__ + "X"), "unknown-class-found")
    case.raises(KeyError, lambda: ir.get_recommender_class(a.__name__.lower()), "unknown-class-found")
    # a class of the user is found by its name, unless it asked not to be
    nm = f"Mine{int(rng.integers(10 ** 9))}"
    body = {"_learn": lambda self: None, "get_score": lambda self, i: np.zeros((len(i), self.n_items))}
    meta = type(ir.BaseRecommender)
    mine = meta(nm, (ir.BaseRecommender,), dict(body))
    case.check(ir.get_recommender_class(nm) is mine, "class-by-name", nm)
    again = meta(nm, (ir.BaseRecommender,), dict(body))             # e.g. a notebook cell run again
    case.check(ir.get_recommender_class(nm) is again, "class-by-name", f"{nm} defined again")
    meta(nm, (ir.BaseRecommender,), dict(body), register_class=False)
    case.check(ir.get_recommender_class(nm) is again, "class-by-name", f"{nm} defined again unregistered")
    meta(nm + "Hidden", (ir.BaseRecommender,), dict(body), register_class=False)
    case.raises(KeyError, lambda: ir.get_recommender_class(nm + "Hidden"), "hidden-class-found")
    for n, c in pool.items():
        case.check(ir.get_recommender_class(n) is c, "class-by-name", n)
    case.seen(a.__name__, b.__name__, bad, f, recommender=a.__name__, other=b.__name__)


def ranges(case):
    """What default tuning may suggest, the recommender and its configuration accept; the extremes can be trained."""
    rng = case.rng
    name = models.ALL[case.index % len(models.ALL)]
    cls = models.cls(name)
    n, m = int(rng.integers(8, 25)), int(rng.integers(8, 20))
    X, C = matrix(rng, n, m)

    class Trial:
        def suggest_float(self, k, low, high, *, step=None, log=False):
            return float(gen.pick(rng, [low, high, low + (high - low) * rng.random()]))

        def suggest_int(self, k, low, high, *a, **kw):
            return int(gen.pick(rng, [low, high, int(rng.integers(low, high + 1))]))

        def suggest_categorical(self, k, choices):
            return choices[int(rng.integers(len(choices)))]
    p = cls.default_suggest_parameter(Trial(), {})
    if "n_threads" in cls.config_class.model_fields:         # sums in one order
        p["n_threads"] = 1
    what = f"{name} {p} {n}x{m}"
    try:
        cfg = cls.config_class(**p)
        rec = quiet(cls, X, **p)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rec.learn()
            S = np.asarray(rec.get_score(np.arange(n)))
    except Exception as e:
        case.fail("suggestion-not-trainable", f"{type(e).__name__}: {str(e)[:200]} {what}")
        return
    case.check(np.isfinite(S).all(), "suggestion-not-finite", what)
    own = set(p) - {"n_threads"}
    fix = {k: p[k] for k in own if rng.random() < 0.5}
    q = cls.default_suggest_parameter(Trial(), fix)
    case.check(set(q) == own - set(fix), "fixed-parameter-suggested", f"{sorted(q)} fixed {sorted(fix)} {name}")
    same(case, probe(quiet(cls.from_config, X, cfg), X, C), probe(quiet(cls, X, **p), X, C), "config-differs-from-keywords", what)
    if np.ptp(S) > 0:
        case.seen(name, tuple(sorted(map(str, p.items()))), n, m, X.nnz, recommender=name, suggested=sorted(p))


FAMILIES = [("config", config, 340, 8000), ("defaults", defaults, 84, 1400), ("rejected", rejected, 60, 2000), ("ranges", ranges, 90, 3000)]
