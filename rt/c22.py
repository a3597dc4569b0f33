MODULES = ["sumo.geometry.pose3"]
import itertools

import numpy as np

import metricstub
from common import *

BUDGET = 8
RULE = ("all match vectors up to length 8 with several ground-truth counts (complete), random vectors up to length 300, any score scale, tied scores, unsorted "
        "recall samples, interpolated and not; distinct by content")


def setup():
    metricstub.install()
    global U
    import sumo.metrics.utils as U


TOL = 1e-9


def oracle(ranked, n_gt):
    """Precision, recall and average precision of a ranking (1: true positive)."""
    tp = 0
    P, R = [], []
    for k, m in enumerate(ranked):
        tp += 1 if m else 0
        P.append(tp / (k + 1))
        R.append(tp / n_gt)
    I = list(P)
    for i in range(len(I) - 2, -1, -1):
        I[i] = max(I[i], I[i + 1])
    ap, last = 0.0, 0.0
    for p, r in zip(I, R):
        ap += p * (r - last)
        last = r
    return P, I, R, ap


def curve(matches, scores, n_gt, samples):
    m, s = np.array(matches), np.array(scores, dtype=float)
    keep = frozen(m, s)
    order = sorted(range(len(scores)), key=lambda i: -scores[i])
    distinct = len(set(scores)) == len(scores)
    P, I, R, ap = oracle([matches[i] for i in order], n_gt)

    def valid(p, r, what, n=None):
        p, r = np.asarray(p), np.asarray(r)
        require(p.shape == r.shape and p.ndim == 1, "%s: shapes %s and %s", what, p.shape, r.shape)
        require(np.all(p >= 0) and np.all(p <= 1) and np.all(r >= 0) and np.all(r <= 1), "%s: values outside [0, 1]", what)

    p, r = U.compute_pr(m, s, n_gt)
    valid(p, r, "compute_pr")
    require(np.all(np.diff(r) >= 0), "recall decreases: %s", r)
    if distinct:
        close(p, P, "precision", atol=TOL)
        close(r, R, "recall", atol=TOL)
    else:
        # any order of equal scores: after the last of them the values are determined
        for i in range(len(order)):
            if i == len(order) - 1 or scores[order[i]] != scores[order[i + 1]]:
                require(abs(p[i] - P[i]) < TOL and abs(r[i] - R[i]) < TOL, "precision and recall after %d detections: %s, %s, expected %s, %s", i + 1, p[i], r[i], P[i], R[i])
    p2, r2 = U.compute_pr(m, s, n_gt, interp=True)
    valid(p2, r2, "interpolated compute_pr")
    require(np.all(np.diff(p2) <= 0), "interpolated precision increases: %s", p2)
    same(r2, r, "recall of the interpolated curve")
    if distinct:
        close(p2, I, "interpolated precision", atol=TOL)
    require(np.all(p2 >= p - 1e-12), "interpolation lowers the precision")
    rs = np.array(samples, dtype=float)
    for interp, base in ((False, p), (True, p2)):
        q, qr = U.compute_pr(m, s, n_gt, rs, interp)
        same(qr, rs, "recall samples")
        require(len(q) == len(rs), "%d values for %d samples", len(q), len(rs))
        for x, v in zip(rs, q):
            k = int(np.searchsorted(r, x, side="left"))
            w = base[k] if k < len(base) else 0
            require(abs(v - w) < TOL, "precision at recall %s: %s, expected %s", x, v, w)
        if len(rs):
            got = U.compute_ap(m, s, n_gt, rs, interp, area_under_curve=False)
            require(abs(got[0] - np.mean(q)) < TOL, "average precision over samples %s, expected %s", got[0], np.mean(q))
            same(got[1], q, "precision of compute_ap")
            same(got[2], rs, "recall of compute_ap")
    for f in (U.compute_ap, U.compute_auc_ap):
        a, p3, r3 = f(m, s, n_gt)
        require(-1e-12 <= a <= 1 + 1e-12, "average precision %s", a)
        if distinct:
            require(abs(a - ap) < 1e-9, "average precision %s, expected %s", a, ap)
        valid(p3, r3, f.__name__)
        same(r3, r, "recall of " + f.__name__)
        if distinct:
            close(p3, I, "precision of " + f.__name__, atol=TOL)
        if not any(matches):
            require(a == 0, "average precision %s without matches", a)
    unchanged([m, s], keep, "argument")


def ranking(matches, n_gt, seed):
    """Invariance under order and scale, and monotonicity in the matches."""
    r = np.random.RandomState(seed)
    n = len(matches)
    s = np.sort(r.choice(10 * n + 10, n, replace=False).astype(float))[::-1]      # in ranking order
    ref = U.compute_ap(np.array(matches), s, n_gt)[0]
    ap = oracle(matches, n_gt)[3]
    require(abs(ref - ap) < 1e-9, "average precision %s, expected %s", ref, ap)
    for g in (lambda x: x, lambda x: 1e-6 * x - 3, lambda x: np.exp(x / (10 * n + 10)), lambda x: x * 1e8):
        p = r.permutation(n)
        v = U.compute_ap(np.array(matches)[p] * int(r.choice([1, 7])), g(s)[p], n_gt)[0]
        require(abs(v - ref) < 1e-9, "average precision %s after permuting and rescaling, %s before", v, ref)
    k = 0
    while k < n and matches[k]:
        k += 1
    if k == n_gt and sum(matches) == n_gt:
        require(abs(ref - 1) < 1e-9, "average precision %s with every ground truth matched first", ref)
    if sum(map(bool, matches)) < n_gt:
        for i in range(n):
            if not matches[i]:
                m = list(matches)
                m[i] = 1
                v = U.compute_ap(np.array(m), s, n_gt)[0]
                require(v >= ref - 1e-12, "average precision falls from %s to %s when detection %d becomes correct", ref, v, i)
                rs = np.linspace(0, 1, 11)
                v0 = U.compute_ap(np.array(matches), s, n_gt, rs, True, False)[0]
                v1 = U.compute_ap(np.array(m), s, n_gt, rs, True, False)[0]
                require(v1 >= v0 - 1e-12, "sampled average precision falls from %s to %s when detection %d becomes correct", v0, v1, i)


CHECKS = {"curve": curve, "ranking": ranking}


def cases(rnd, tier):
    std = [i / 10 for i in range(11)]
    for n in range(7):
        for m in itertools.product((0, 1), repeat=n):
            for extra in (0, 2):
                g = max(1, sum(m) + extra)
                yield "ranking", {"matches": list(m), "n_gt": g, "seed": rnd.randrange(1 << 30)}
                if n < 6:
                    yield "curve", {"matches": list(m), "scores": [rnd.random() for _ in m], "n_gt": g, "samples": std}
    for i in range(20000):
        n = rnd.choice([1, 2, 5, 16, 17, 40, 300])
        m = [rnd.choice([0, 0, 1, 1, 5, -3]) if i % 3 == 0 else int(rnd.random() < rnd.choice([0.1, 0.5, 0.9])) for _ in range(n)]
        sc = [rnd.uniform(-5, 5) for _ in m] if i % 2 else [float(rnd.randrange(4)) for _ in m]
        g = max(1, sum(map(bool, m)) + rnd.choice([0, 0, 1, 50]))
        yield "curve", {"matches": m, "scores": sc, "n_gt": g, "samples": rnd.choice([std, [], [0.0], [1.0], [rnd.random() for _ in range(5)]])}
        if n <= 17:
            yield "ranking", {"matches": [int(bool(x)) for x in m], "n_gt": g, "seed": rnd.randrange(1 << 30)}
