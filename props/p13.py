"""P13: count regression equals an independent step-by-step computation."""
from lib import gen
from props.common import NOSEASON, SEASON, Workload, diverging_scenario, reference_case

RULE = "an evaluation trains the real regressor with random data and options while an observer records every iteration, and compares all recorded predictions, losses, contributions and predictions of new rows with an independent reference; non-trivial if a comparison was made"
ASSUMPTIONS = ["bin numbers are non-negative integers or missing", "seasonal features are compared in a separate workload with looser tolerance because the code uses an iterative optimiser"]
MIN_EVENTS = {"iterations_observed": 100, "contributions_compared": 50}
KINDS = ["poisson", "nbinom"]


def mixed(ctx):
    s = gen.scenario(ctx.rng, kinds=KINDS, shapes=NOSEASON)
    reference_case(ctx, s)


def plain(ctx):
    """Default options, larger data."""
    s = gen.scenario(ctx.rng, kinds=KINDS, shapes=NOSEASON, n=800, smoother=("wm", True, True), max_iter=10,
                     stop="default", aggregate=True, hier=False, max_bins=12)
    reference_case(ctx, s)


def extreme(ctx):
    """Strong effects: the limits per step and in total become active."""
    s = gen.scenario(ctx.rng, kinds=KINDS, shapes=[{"UNORDERED"}, {"LINEAR"}, {"CONTINUOUS", "MONOTONIC"}],
                     stop="never", lr="one", max_iter=15, prior=True)
    k = s.cols[s.names[0]]
    s.y[:] = s.y * (10.0 ** ((k >= 1).astype(float) * 4))
    s.y[:] *= min(1.0, 1e6 / max(1.0, s.y.sum()))
    reference_case(ctx, s)


def hierarchical(ctx):
    s = gen.scenario(ctx.rng, kinds=KINDS, shapes=NOSEASON, hier=True, n_cols=3)
    reference_case(ctx, s)


def seasonal(ctx):
    s = gen.scenario(ctx.rng, kinds=KINDS, shapes=SEASON, max_iter=2, hier=False, max_dim=2, n=300)
    reference_case(ctx, s, rtol=1e-3, small=0.1)


def damped(ctx):
    s = diverging_scenario(ctx.rng, hier=ctx.rng.rand() < 0.3, aggregate=ctx.rng.rand() < 0.85)
    out = reference_case(ctx, s)
    if out and out[2].diverging:
        ctx.event("divergences_damped", out[2].diverging)


WORKLOADS = [
    Workload("large", gen.enlarged(mixed), 32, 400),
    Workload("mixed", mixed, 900, 12000),
    Workload("plain", plain, 60, 1500),
    Workload("extreme", extreme, 150, 2500),
    Workload("hierarchical", hierarchical, 100, 2000),
    Workload("seasonal", seasonal, 80, 1500),
    Workload("damped", damped, 40, 400),
]
