"""Thread starts and allocations made to fail inside of native calls."""
import ctypes
import os
import pickle
import signal
import time

import numpy as np
import scipy.sparse as sps

from vlib import gen

PROPERTY = "M03"
EXT = "plain"
INJECT = True
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring with fault injection: preloaded interposer fails the k-th thread start / allocation inside a native call"
RULE = ("one case = one native entry point on one random input, called in forked processes with the k-th (or every from the k-th on) thread start or allocation failing; "
        "the call has to raise or to return what the undisturbed call returns, the process has to survive, and after a refusal the same object has to give the undisturbed "
        "result; non-trivial when at least one fault was injected; distinct by entry point, fault kind, positions and outcome")
ASSUMPTIONS = ["faults: pthread_create returns EAGAIN; operator new, malloc, calloc and realloc called from the extension modules fail",
               "the interpreter's own allocations succeed", "the binding layer is the nanobind subset of /verif/shim"]
THREADS, MEMORY = 1, 2


def setup(ctx):
    global lib
    from irspack.evaluation import _core_evaluator  # noqa: F401
    from irspack.recommenders import _ials_core, _knn  # noqa: F401
    from irspack.utils import _util_cpp  # noqa: F401
    lib = ctypes.CDLL(None)
    lib.vf_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int]
    lib.vf_range.argtypes = [ctypes.c_int, ctypes.c_ulong, ctypes.c_ulong]
    lib.vf_requests.restype = lib.vf_injected.restype = ctypes.c_long
    span = {}
    with open("/proc/self/maps") as fh:
        for line in fh:
            f = line.split()
            if len(f) > 5 and f[5].startswith(os.environ["VERIF_EXT_DIR"]):
                a, b = (int(x, 16) for x in f[0].split("-"))
                lo, hi = span.get(f[5], (a, b))
                span[f[5]] = (min(lo, a), max(hi, b))
    assert len(span) == 4, span
    for i, (a, b) in enumerate(span.values()):
        lib.vf_range(i, a, b)


def flat(x):
    """Something numbers can be compared by."""
    if sps.issparse(x):
        return flat(x.toarray())
    if isinstance(x, dict):
        return [flat(x[k]) for k in sorted(x)]
    if isinstance(x, (list, tuple)):
        return [flat(y) for y in x]
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=np.float64)
    return x


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, rtol=2e-3, atol=1e-4, equal_nan=True)
    if isinstance(a, float) or isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-3, atol=1e-6, equal_nan=True))
    return a == b


def base(rng):
    n, m = int(gen.pick(rng, [3, 9, 40])), int(gen.pick(rng, [4, 12, 30]))
    return gen.covered_csr(rng, n, m) if rng.random() < 0.3 else gen.csr(rng, n, m, 0.4, "counts")


# Each entry returns (prepare, call): prepare() is undisturbed and gives the object,
# call(object) is disturbed and gives the observation.

def e_util(rng):
    from irspack.utils import _util_cpp as u
    X = base(rng).astype(np.float64)
    n, m = X.shape
    t = int(gen.pick(rng, [1, 2, 4]))
    Y = gen.csr(rng, m, 7, 0.5, "frac").tocsc().astype(np.float64)
    S = rng.normal(size=(n, m))
    A = gen.pick(rng, [[], [list(range(m))], [list(range(0, m, 2))] * n])
    W = sps.csr_matrix(rng.random((m, m)))
    X32 = (X > 0).astype(np.float32)
    return gen.pick(rng, [
        ("sparse_mm_threaded", lambda _: u.sparse_mm_threaded(X, Y, t)),
        ("remove_diagonal", lambda _: u.remove_diagonal(W)),
        ("split_ratio", lambda _: u.rowwise_train_test_split_by_ratio(X, 3, 0.5, False)),
        ("split_n", lambda _: u.rowwise_train_test_split_by_fixed_n(X, 3, 2)),
        ("okapi", lambda _: u.okapi_BM_25_weight(X, 1.2, 0.75)),
        ("tfidf", lambda _: u.tf_idf_weight(X, True)),
        ("slim_positive", lambda _: u.slim_weight_positive_only(X32, t, 500, 5.0, 0.1, 1e-7, -1)),
        ("slim_negative", lambda _: u.slim_weight_allow_negative(X32, t, 500, 5.0, 0.1, 1e-7, -1)),
        ("retrieve64", lambda _: u.retrieve_recommend_from_score_f64(S, A, 5, t)),
        ("retrieve32", lambda _: u.retrieve_recommend_from_score_f32(S.astype(np.float32), A, 5, t)),
    ])


def util(rng):
    name, call = e_util(rng)
    return name, (lambda: None), call


def retrieve(rng):
    from irspack.utils import _util_cpp as u
    n, m, t = int(gen.pick(rng, [1, 8, 60])), int(gen.pick(rng, [1, 5, 40])), int(gen.pick(rng, [1, 2, 5]))
    S = rng.normal(size=(n, m))
    A = gen.pick(rng, [[], [list(range(m))], [list(range(0, m, 2))] * n])
    return "retrieve", (lambda: None), lambda _: u.retrieve_recommend_from_score_f64(S, A, 4, t)


def knn(rng):
    from irspack.recommenders import _knn as k
    X = base(rng).astype(np.float64)
    t, chunk, top = int(gen.pick(rng, [1, 2, 4])), int(gen.pick(rng, [1, 5, 128])), int(gen.pick(rng, [1, 3, 100]))
    name = gen.pick(rng, ["CosineSimilarityComputer", "JaccardSimilarityComputer", "TverskyIndexComputer", "AsymmetricSimilarityComputer", "P3alphaComputer", "RP3betaComputer"])
    a = {"CosineSimilarityComputer": [1.0, True], "JaccardSimilarityComputer": [0.5], "TverskyIndexComputer": [0.0, 0.5, 0.5],
         "AsymmetricSimilarityComputer": [0.1, 0.5], "P3alphaComputer": [1.0], "RP3betaComputer": [1.0, 0.6]}[name]
    C = getattr(k, name)
    w = "compute_W" if name.startswith(("P3", "RP3")) else "compute_similarity"
    if rng.random() < 0.5:
        return name, (lambda: C(X, *a, t, chunk)), lambda c: getattr(c, w)(X, top)
    return name + "()", (lambda: None), lambda _: getattr(C(X, *a, t, chunk), w)(X, top)


def metrics(rng):
    from irspack.evaluation import _core_evaluator as e
    X = base(rng).astype(np.float64)
    n, m = X.shape
    t = int(gen.pick(rng, [1, 2, 4]))
    R = gen.pick(rng, [[], [list(range(0, m, 2))], [list(range(m))] * n])
    S = rng.normal(size=(n, m))
    what = gen.pick(rng, ["fresh", "fresh", "cached", "cache", "lists", "build"])
    measure = lambda c: c.get_metrics_f64(S, min(5, m), 0, t, False).as_dict()
    if what == "lists":
        rec = [[int(x) for x in rng.permutation(m)[:4]] for _ in range(n)]
        gt = [[int(x) for x in rng.permutation(m)[:3]] for _ in range(n)]
        return what, (lambda: None), lambda _: e.evaluate_list_vs_list(rec, gt, m, t).as_dict()
    if what == "build":
        return what, (lambda: None), lambda _: measure(pickle.loads(pickle.dumps(e.EvaluatorCore(X, R))))

    def prepare():
        c = e.EvaluatorCore(X, R)
        if what == "cached":
            c.cache_X_as_set(2)
        return c
    if what == "cache":
        def call(c):
            c.cache_X_as_set(t)
            lib.vf_disarm()
            return measure(c)
        return what, prepare, call
    return what, prepare, measure


def ials(rng):
    from irspack.recommenders import _ials_core as c
    X = base(rng).astype(np.float32)
    n, m = X.shape
    K, t = int(gen.pick(rng, [2, 9])), int(gen.pick(rng, [1, 2, 4]))
    cfg = c.IALSModelConfig(K, 0.3, 0.5, 0.5, 0.1, 3, gen.pick(rng, [c.LossType.ORIGINAL, c.LossType.IALSPP]), 1.0, 1.0, 0)
    aware = rng.random() < 0.5
    kinds = ["CG", "CHOLESKY"] if aware else ["CG", "CHOLESKY", "IALSPP"]
    kind = gen.pick(rng, kinds)
    s = c.IALSSolverConfig(t, getattr(c.SolverType, kind), 3, int(gen.pick(rng, [1, 2, 64])), 1)
    quiet = c.IALSSolverConfig(2, c.SolverType.CHOLESKY, 3, 2, 1)
    U, I = rng.normal(size=(n, 3)).astype(np.float32), sps.csr_matrix(rng.random((m, 2)) * (rng.random((m, 2)) < 0.7)).astype(np.float32)
    make = (lambda: c.IALSTrainer(cfg, X, U, I)) if aware else (lambda: c.IALSTrainer(cfg, X))
    what = gen.pick(rng, ["build", "step", "loss", "scores", "scores", "user", "item", "pickle"] + (["featured"] if aware else []))

    def prepare():
        tr = make()
        tr.step(quiet)
        return tr
    if what == "build":
        return what, (lambda: None), lambda _: np.array(make().user)
    if what == "step":
        def call(tr):
            tr.step(s)
            lib.vf_disarm()
            return np.array(tr.user), np.array(tr.item)
        return "step-" + kind, prepare, call
    if what == "loss":
        return what, prepare, lambda tr: float(tr.compute_loss(s))
    if what == "scores":
        return what, prepare, lambda tr: np.array(tr.user_scores(0, n, s))
    if what == "user":
        return "user-" + kind, prepare, lambda tr: np.array(tr.transform_user(X, s))
    if what == "item":
        return "item-" + kind, prepare, lambda tr: np.array(tr.transform_item(X, s))
    if what == "featured":
        return "featured-" + kind, prepare, lambda tr: np.array(tr.transform_user_with_feature(X, U, s))

    def prepare2():
        return pickle.dumps(prepare())
    return what, prepare2, lambda b: np.array(pickle.loads(b).user)


def forked(fn, limit=60):
    """Run fn in a forked child; (outcome, detail) is what it returns."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(limit)
            with open(w, "wb", closefd=False) as fh:
                fh.write(pickle.dumps(fn()))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with open(r, "rb") as fh:
        data = fh.read()
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        return ("hang" if sig == signal.SIGALRM else "crash"), f"signal {sig}"
    if os.WEXITSTATUS(st) or not data:
        return "crash", f"exit status {os.WEXITSTATUS(st)}"
    return pickle.loads(data)


def attempt(prepare, call, want, kind, at, sticky):
    def body():
        obj = prepare()
        lib.vf_arm(kind, at, sticky)
        try:
            got = call(obj)
            lib.vf_disarm()
        except (MemoryError, RuntimeError, OSError, ValueError) as e:
            lib.vf_disarm()
            hit = lib.vf_injected()
            if not hit:
                return "wrong", f"{type(e).__name__}: {e} without a fault", 0
            if want is None:
                return "refused", str(e), hit
            again = flat(call(obj))
            if not same(again, want):
                return "spoilt", f"refused with {e}; the same object then returned something else", hit
            return "refused", str(e), hit
        hit = lib.vf_injected()
        if want is not None and not same(flat(got), want):
            return "wrong", "returned something else than the undisturbed call", hit
        return "returned", "", hit
    r = forked(body)
    return r if len(r) == 3 else (*r, 1)


def drive(case, make):
    rng = case.rng
    name, prepare, call = make(rng)
    want = flat(call(prepare()))
    mutating = name.startswith("step")
    # how many requests there are
    counts = {}
    for kind in (THREADS, MEMORY):
        def body():
            obj = prepare()
            lib.vf_arm(kind, 0, 0)
            call(obj)
            n = lib.vf_requests()
            lib.vf_disarm()
            return "counted", n
        out, n = forked(body)
        if out != "counted":
            case.fail("undisturbed-" + out, f"{name}: {n}")
        counts[kind] = n
    hits, seen = 0, set()
    for kind in (THREADS, MEMORY):
        n = counts[kind]
        if not n:
            continue
        few = 10 if case.thorough else 5
        at = range(1, n + 1) if n <= few else sorted({1, n, *(int(x) for x in rng.integers(1, n + 1, few))})
        for k in at:
            sticky = int(rng.integers(2))
            what = f"{name}: {'thread start' if kind == THREADS else 'allocation'} {k} of {n}{' and later ones' if sticky else ''} failed"
            out, detail, hit = attempt(prepare, call, want, kind, k, sticky)
            if mutating and out == "spoilt":     # a step that failed half way has moved the factors
                out = "refused"
            case.count("faults_injected", hit)
            case.count("outcome_" + out)
            if out in ("crash", "hang", "wrong", "spoilt"):
                case.fail({"crash": "crash-on-fault", "hang": "hang-on-fault", "wrong": "wrong-result-on-fault", "spoilt": "object-spoilt-by-fault"}[out], f"{what}: {detail}")
            hits += hit
            seen.add((kind, out, sticky))
    case.count("calls_" + name.split("-")[0])
    if hits:
        case.seen(name, tuple(sorted(counts.items())), tuple(sorted(seen)), entry=name, thread_starts=counts[THREADS], allocations=counts[MEMORY], faults=hits)


FAMILIES = [(f.__name__, (lambda f: lambda case: drive(case, f))(f), q, t) for f, q, t in
            [(util, 40, 1200), (retrieve, 15, 400), (knn, 40, 1200), (metrics, 40, 1200), (ials, 60, 2000)]]
