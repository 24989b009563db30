"""P15: classification equals an independent step-by-step computation, with coherent outputs."""
import numpy as np

from lib import gen
from props.common import NOSEASON, SEASON, Workload, reference_case

RULE = "an evaluation trains the real classifier with random data and options while an observer records every iteration, and compares probabilities, losses and contributions with an independent reference; non-trivial if a comparison was made"
ASSUMPTIONS = ["bin numbers are non-negative integers or missing", "seasonal features are compared in a separate workload with looser tolerance because the code uses an iterative optimiser"]
MIN_EVENTS = {"iterations_observed": 100, "contributions_compared": 50, "classes_checked": 100}


def outputs(ctx, s, est, X):
    p = np.asarray(est.predict_proba(X))
    c = np.asarray(est.predict(X))
    ctx.check(p.shape == (len(X), 2), "shape of the class probabilities: %s" % (p.shape,))
    ctx.close(p.sum(axis=1), np.ones(len(X)), "sum of class probabilities", rtol=0, atol=1e-12)
    clear = np.abs(p[:, 1] - 0.5) > 1e-12
    ctx.same(c[clear].astype(float), (p[clear, 1] > 0.5).astype(float), "predicted class")
    ctx.event("classes_checked", int(clear.sum()))


def mixed(ctx):
    s = gen.scenario(ctx.rng, kind="classifier", shapes=NOSEASON)
    out = reference_case(ctx, s)
    if out:
        P, _, _ = gen.probe_rows(ctx.rng, s)
        outputs(ctx, s, out[0], P)


def ties(ctx):
    """A probability of exactly one half: the base value is one half and no feature contributes."""
    rng = ctx.rng
    n = 1000 * int(rng.choice([1, 2, 3]))
    s = gen.scenario(rng, kind="classifier", shapes=NOSEASON, n=n, max_dim=2, weights=False, prior=False, max_iter=2)
    s.y[:] = 0
    s.y[rng.permutation(n)[:n * 499 // 1000]] = 1
    est = s.fit()
    P = s.frame().iloc[:50].copy()
    cols = list(dict.fromkeys(c for g in s.spec.groups for c in g))
    P = P.astype({c: float for c in cols})
    for c in cols:
        P.loc[P.index[:40], c] = rng.choice([np.nan, -1.0, 1e6], 40)
    p = np.asarray(est.predict_proba(P))[:, 1]
    ctx.same(np.asarray(est.predict(P)).astype(float), (p > 0.5).astype(float), "predicted class")
    ctx.event("exact_halves", int((p == 0.5).sum()))
    ctx.sig(s.signature())


def plain(ctx):
    s = gen.scenario(ctx.rng, kind="classifier", shapes=NOSEASON, n=800, smoother=("wm", True, True), max_iter=10,
                     stop="default", aggregate=True, hier=False)
    reference_case(ctx, s)


def imbalanced(ctx):
    """Hardly any, or nearly only, positive targets."""
    s = gen.scenario(ctx.rng, kind="classifier", shapes=NOSEASON, n=int(ctx.rng.choice([20, 300, 2500])), max_dim=2)
    base = float(ctx.rng.randint(2))
    s.y[:] = base
    k = int(ctx.rng.choice([0, 1, 3]))
    s.y[ctx.rng.choice(len(s.y), k, replace=False)] = 1 - base
    out = reference_case(ctx, s)
    if out:
        outputs(ctx, s, out[0], s.frame())


def seasonal(ctx):
    s = gen.scenario(ctx.rng, kind="classifier", shapes=SEASON, max_iter=2, hier=False, max_dim=2, n=300)
    reference_case(ctx, s, rtol=1e-3, small=0.1)


def hierarchical(ctx):
    s = gen.scenario(ctx.rng, kind="classifier", shapes=NOSEASON, hier=True, n_cols=3)
    reference_case(ctx, s)


WORKLOADS = [
    Workload("large", gen.enlarged(mixed), 24, 300),
    Workload("mixed", mixed, 700, 9000),
    Workload("ties", ties, 24, 300),
    Workload("plain", plain, 60, 1200),
    Workload("imbalanced", imbalanced, 80, 1500),
    Workload("hierarchical", hierarchical, 60, 1500),
    Workload("seasonal", seasonal, 60, 1200),
]
