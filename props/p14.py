"""P14: additive regression equals an independent step-by-step computation."""
import numpy as np

from lib import gen, ref
from props.common import NOSEASON, SEASON, Workload, reference_case, scale_of, train

RULE = "an evaluation trains a real additive regressor with random data and options while an observer records every iteration, and compares predictions, losses and contributions with an independent reference; non-trivial if a comparison was made"
ASSUMPTIONS = ["bin numbers are non-negative integers or missing", "seasonal features are compared in a separate workload with looser tolerance because the code uses an iterative optimiser"]
MIN_EVENTS = {"iterations_observed": 100, "contributions_compared": 50, "calibrations_checked": 20}
KINDS = ["location", "locpoisson", "gbs"]


def mixed(ctx):
    s = gen.scenario(ctx.rng, kinds=KINDS, shapes=NOSEASON)
    reference_case(ctx, s)


def plain(ctx):
    s = gen.scenario(ctx.rng, kinds=KINDS, shapes=NOSEASON, n=800, smoother=("wm", True, True), max_iter=10,
                     stop="default", aggregate=True, hier=False, max_bins=12)
    reference_case(ctx, s)


def hierarchical(ctx):
    s = gen.scenario(ctx.rng, kinds=KINDS, shapes=NOSEASON, hier=True, n_cols=3)
    reference_case(ctx, s)


def seasonal(ctx):
    s = gen.scenario(ctx.rng, kinds=KINDS, shapes=SEASON, max_iter=2, hier=False, max_dim=2, n=300)
    reference_case(ctx, s, rtol=1e-3, small=0.1)


def scaled(ctx):
    """Very large and very small target scales, and shifted targets."""
    rng = ctx.rng
    s = gen.scenario(rng, kinds=["location", "gbs"], shapes=NOSEASON, prior=False, n=100)
    s.y[:] = s.y * 10.0 ** rng.randint(-3, 6)
    if s.kind == "location":
        s.y[:] = s.y + rng.choice([0.0, 1.0, -1.0]) * scale_of(s.y) * 5
    reference_case(ctx, s)


def calibrated(ctx):
    """Location effects average to zero over the training data; count locations are not negative."""
    rng = ctx.rng
    s = gen.scenario(rng, kinds=["location", "locpoisson"], aggregate=True)
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    if s.kind == "locpoisson":
        P, _, _ = gen.probe_rows(rng, s, 100)
        ctx.check((np.asarray(est.predict(P)) >= 0).all(), "negative prediction of a count location")
        ctx.event("calibrations_checked")
        return
    con = est.get_feature_contributions(s.frame())
    w = np.ones(len(s.y)) if s.spec.w is None else s.spec.w
    sc = scale_of(s.y)
    for g in s.spec.groups:
        c = np.asarray(con[" ".join(g)], dtype=float)
        props = [s.spec.props[k] for k in g]
        rows = w > 0
        if any("MNL" in p for p in props):
            _, _, ok, _ = ref.cell_index([s.cols[k] for k in g])
            rows = rows & ok
        if rows.any():
            ctx.close(np.sum(c[rows] * w[rows]) / np.sum(w[rows]), 0.0,
                      "weighted mean effect of feature %s" % (g,), atol=1e-8 * sc)
            ctx.event("calibrations_checked")


WORKLOADS = [
    Workload("large", gen.enlarged(mixed), 32, 400),
    Workload("mixed", mixed, 1200, 14000),
    Workload("plain", plain, 80, 1500),
    Workload("hierarchical", hierarchical, 100, 2000),
    Workload("seasonal", seasonal, 80, 1500),
    Workload("scaled", scaled, 200, 3000),
    Workload("calibrated", calibrated, 200, 3000),
]
