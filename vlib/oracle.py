"""Independent reference computations (plain Python / dense numpy)."""
import math

import numpy as np

RANK_METRICS = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item"]


def list_metrics(recs, gts, n_items, recall_with_cutoff=False):
    """Metrics of ranked lists; users with empty ground truth are left out."""
    cnt = [0] * n_items
    tot = dict(hit=0.0, recall=0.0, ndcg=0.0, map=0.0, precision=0.0)
    valid = 0
    for rec, gt in zip(recs, gts):
        gt = set(gt)
        if not gt:
            continue
        valid += 1
        k = len(rec)
        if k == 0:
            continue
        hits = [1 if i in gt else 0 for i in rec]
        h = sum(hits)
        for i in rec:
            cnt[i] += 1
        tot["hit"] += 1.0 if h else 0.0
        tot["precision"] += h / k
        tot["recall"] += h / (min(k, len(gt)) if recall_with_cutoff else len(gt))
        dcg = sum(x / math.log2(r + 2) for r, x in enumerate(hits))
        idcg = sum(1 / math.log2(r + 2) for r in range(min(k, len(gt))))
        tot["ndcg"] += dcg / idcg
        ap, c = 0.0, 0
        for r, x in enumerate(hits):
            if x:
                c += 1
                ap += c / (r + 1)
        tot["map"] += ap / len(gt)
    out = {k: v / max(valid, 1) for k, v in tot.items()}
    total = sum(cnt)
    out["appeared_item"] = float(sum(1 for c in cnt if c))
    out["entropy"] = -sum(c / total * math.log(c / total) for c in cnt if c) if total else 0.0
    if total:
        # mean absolute difference form of the Gini index
        a = np.sort(np.array(cnt, dtype=float))
        n = len(a)
        out["gini_index"] = float(((2 * np.arange(1, n + 1) - n - 1) * a).sum() / (n * total))
    else:
        out["gini_index"] = 0.0
    out["valid_user"] = valid
    return out


def rank(row, cutoff, allowed=None):
    idx = range(len(row)) if allowed is None else sorted(allowed)
    c = [(-float(row[i]), i) for i in idx if row[i] != -np.inf]
    c.sort()
    return [i for _, i in c[:cutoff]]


def score_metrics(scores, gts, cutoff, allowed=None, recall_with_cutoff=False):
    """scores: dense (users, items) already masked; gts: one set per user;
    allowed: None, one list for all, or a list of lists."""
    n, m = scores.shape
    recs, truth = [], []
    per_user = allowed is not None and (len(allowed) and not np.isscalar(allowed[0])) and \
        isinstance(allowed[0], (list, tuple, set, np.ndarray))
    for u in range(n):
        a = None if allowed is None else (allowed[u] if per_user else allowed)
        g = set(gts[u]) if a is None else set(gts[u]) & set(a)
        truth.append(g)
        recs.append(rank(scores[u], cutoff, a) if g else [])
    out = list_metrics(recs, truth, m, recall_with_cutoff)
    if allowed is None:
        universe = m
    elif per_user:
        universe = len({i for a in allowed for i in a})
    else:
        universe = len(set(allowed))
    out["catalog_coverage"] = out["appeared_item"] / universe if universe else float("nan")
    return out


def gt_sets(G):
    import scipy.sparse as sps
    G = sps.csr_matrix(G)
    return [set(G[u].nonzero()[1].tolist()) for u in range(G.shape[0])]


def compare(case, got, want, mech, what="", keys=None, suffix="", rtol=1e-9):
    for k in keys or (RANK_METRICS + ["catalog_coverage"]):
        g, w = got[k + suffix], want[k]
        ok = (math.isnan(w) and math.isnan(g)) or abs(g - w) <= rtol * max(1.0, abs(w))
        case.check(ok, f"{mech}-{k}", lambda: f"{k}{suffix} = {g!r}, expected {w!r} {what}")
    case.count("metric_values_compared", len(keys or RANK_METRICS) + 1)
