"""Every recommender of the package that can be trained here, with random settings."""
from . import gen

ITEM_KNN = ["CosineKNNRecommender", "AsymmetricCosineKNNRecommender", "JaccardKNNRecommender", "TverskyIndexKNNRecommender"]
USER_KNN = ["CosineUserKNNRecommender", "AsymmetricCosineUserKNNRecommender"]
WALK = ["P3alphaRecommender", "RP3betaRecommender"]
LINEAR = ["SLIMRecommender", "DenseSLIMRecommender", "EDLAERecommender"]
SIMILARITY = ITEM_KNN + WALK + LINEAR        # score = profile . W
ALL = SIMILARITY + USER_KNN + ["TopPopRecommender", "NMFRecommender", "TruncatedSVDRecommender", "IALSRecommender"]


def params(rng, name, shape, **fixed):
    n, m = shape
    p = {}
    if name in ITEM_KNN + USER_KNN:
        p = dict(top_k=int(gen.pick(rng, [1, 3, 100])), shrinkage=float(gen.pick(rng, [0.0, 2.0])), n_threads=int(rng.integers(1, 5)))
        if name.startswith(("Cosine", "Asymmetric")):
            p["feature_weighting"] = gen.pick(rng, ["NONE", "TF_IDF", "BM_25"])
        if name.startswith("Cosine"):
            p["normalize"] = bool(rng.integers(2))
        if name.startswith("Asym"):
            p["alpha"] = float(gen.pick(rng, [0.0, 0.3, 1.0]))
        if name.startswith("Tversky"):
            p.update(alpha=0.4, beta=1.3)
    elif name in WALK:
        p = dict(alpha=float(gen.pick(rng, [0.5, 1.0, 1.7])), top_k=gen.pick(rng, [None, 1, 4]), normalize_weight=bool(rng.integers(2)),
                 n_threads=int(rng.integers(1, 5)))
        if name.startswith("RP3"):
            p["beta"] = float(gen.pick(rng, [0.0, 0.6]))
    elif name == "SLIMRecommender":
        p = dict(alpha=float(gen.pick(rng, [0.01, 0.1])), l1_ratio=float(gen.pick(rng, [0.0, 0.05, 0.5])), positive_only=bool(rng.integers(2)),
                 top_k=gen.pick(rng, [None, None, 2]), n_threads=int(rng.integers(1, 5)))
    elif name == "DenseSLIMRecommender":
        p = dict(reg=float(gen.pick(rng, [1.0, 20.0])))
    elif name == "EDLAERecommender":
        p = dict(reg=float(gen.pick(rng, [1.0, 20.0])), dropout_p=float(gen.pick(rng, [0.0, 0.1, 0.7])))
    elif name == "NMFRecommender":
        p = dict(n_components=int(rng.integers(1, 4)))
    elif name == "TruncatedSVDRecommender":
        p = dict(n_components=int(rng.integers(1, max(2, min(4, m - 1, n)))), random_seed=int(rng.integers(5)))
    elif name == "IALSRecommender":
        p = dict(n_components=int(rng.integers(1, 9)), alpha0=float(gen.pick(rng, [0.1, 0.5])), reg=float(gen.pick(rng, [0.01, 0.1])),
                 nu=float(gen.pick(rng, [0.0, 0.5, 1.0])), solver_type=gen.pick(rng, ["CG", "CHOLESKY", "IALSPP"]),
                 loss_type=gen.pick(rng, ["IALSPP", "ORIGINAL"]), train_epochs=int(rng.integers(1, 5)),
                 ialspp_subspace_dimension=int(gen.pick(rng, [1, 2, 64])), n_threads=int(rng.integers(1, 5)),
                 confidence_scaling=gen.pick(rng, ["none", "log"]), epsilon=float(gen.pick(rng, [0.5, 1.0])),
                 random_seed=int(rng.integers(50)))
    p.update(fixed)
    return p


def cls(name):
    import irspack
    import irspack.recommenders as r
    return getattr(r, name)

