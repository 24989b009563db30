"""P17: the dispersion model picks the likelihood-optimal width per bin."""
import numpy as np
import pandas as pd

import cyclic_boosting as cb

from lib import gen, ref
from props.common import NOSEASON, Workload, reference_case

RULE = "an evaluation trains the real dispersion model and compares the chosen widths, profiles, predictions and losses with an independent likelihood computation; non-trivial if a comparison was made (cases whose likelihood minimum is ambiguous within rounding are skipped and counted)"
ASSUMPTIONS = ["means are positive and targets are counts", "candidates whose losses differ by less than the rounding of lgamma are not told apart"]
MIN_EVENTS = {"iterations_observed": 50, "choices_checked": 50}


def mixed(ctx):
    s = gen.scenario(ctx.rng, kind="nbinomc", shapes=NOSEASON)
    reference_case(ctx, s, rtol=1e-4)


def bayes(ctx):
    s = gen.scenario(ctx.rng, kind="nbinomc", shapes=NOSEASON)
    s.spec.bayes = s.kwargs["bayes"] = True
    reference_case(ctx, s, rtol=1e-4)


def clear(ctx):
    """Many rows per bin: the minimum is unambiguous."""
    rng = ctx.rng
    s = gen.scenario(rng, kind="nbinomc", shapes=NOSEASON, n=400, max_bins=4, max_dim=2, max_iter=int(rng.choice([1, 2, 4])))
    mu = np.exp(rng.normal(size=400) * 0.5) * 5
    c = rng.choice([0.05, 0.3, 0.8])
    r = 1.0 / c
    s.y[:] = rng.negative_binomial(r, 1.0 / (1.0 + c * mu))
    s.X["mu"] = s.spec.mu = mu
    s.spec.bayes = s.kwargs["bayes"] = False
    reference_case(ctx, s, rtol=1e-4)


def choice(ctx):
    """One iteration without smoothing: the profile is a candidate of (almost) minimal loss in every bin."""
    rng = ctx.rng
    n = int(rng.choice([5, 40, 300]))
    nb = int(rng.choice([1, 3, 7]))
    a = rng.randint(0, nb, n).astype(float)
    if rng.rand() < 0.5:
        a[rng.rand(n) < 0.2] = np.nan
    a[0] = nb  # a gap below may leave empty bins
    mu = np.exp(rng.normal(size=n)) * rng.choice([0.2, 3.0, 40.0])
    y = rng.poisson(mu * rng.gamma(1.0 / 0.7, 0.7, n)).astype(float)
    gamma, n_steps = float(rng.choice([0.0, 0.5, 5.0])), int(rng.choice([5, 15, 40]))
    X = pd.DataFrame(dict(a=a, mu=mu))
    prior = rng.rand() < 0.4
    kw = {}
    base = np.zeros(n)
    if prior:
        X["prior"] = rng.rand(n) * 0.9 + 0.05
        base = np.log(X["prior"].values / (1 - X["prior"].values))
        kw["prior_prediction_column"] = "prior"
    from cyclic_boosting import common_smoothers
    est = cb.CBNBinomC("mu", feature_groups=["a"], gamma=gamma, n_steps=n_steps, maximal_iterations=1,
                       smoother_choice=common_smoothers.NoSmootherChoice(use_normalization=False), **kw)
    est.fit(X.copy(), y.copy())
    ctx.describe(rows=n, bins=nb, gamma=gamma, n_steps=n_steps, prior=prior)
    ctx.sig(n, nb, gamma, n_steps, y.tolist()[:6])
    p = np.asarray(est.predict(X))
    chosen = np.log(p / (1 - p)) - base
    half = np.logspace(-3, 1.0, n_steps)
    grid = np.concatenate([-half[::-1], [0.0], half])
    L = np.zeros((len(grid), n))
    for i, g in enumerate(grid):
        c = 1.0 / (1.0 + np.exp(-(g + base)))
        pp = np.minimum(1.0 / (1.0 + c * mu), 1.0 - 1e-8)
        l = -ref.nb_logpmf(y, mu * pp / (1 - pp), pp) + gamma * np.abs(c)
        L[i] = np.where(np.isfinite(l), l, 400 + gamma * np.abs(c))
    for key in list(range(nb + 1)) + ["missing"]:
        rows = np.isnan(a) if key == "missing" else a == key
        if not rows.any():
            continue
        d = np.abs(grid - chosen[rows][0])
        k = int(np.argmin(d))
        ctx.check(d[k] < 1e-6, "width of bin %s is not one of the candidates: %r" % (key, chosen[rows][0]))
        tot = L[:, rows].sum(axis=1)
        ctx.check(tot[k] <= tot.min() + 1e-4 + 3e-6 * rows.sum(),
                  "bin %s: chosen candidate has loss %r, the best one %r" % (key, tot[k], tot.min()))
        ctx.event("choices_checked")
    ctx.event("iterations_observed")


def column(ctx):
    """The mean column is not a default feature, and is left alone."""
    rng = ctx.rng
    n = 60
    X = pd.DataFrame(dict(a=rng.randint(0, 3, n), mu=rng.gamma(3.0, 2.0, n), b=rng.randint(0, 4, n)))
    X = X[list(rng.permutation(["a", "mu", "b"]))]
    y = rng.poisson(X["mu"].values).astype(float)
    before = X.copy()
    d = cb.CBNBinomC("mu").fit(X, y)
    ctx.check(X.equals(before), "training changed the data")
    e = cb.CBNBinomC("mu", feature_groups=[c for c in X.columns if c != "mu"]).fit(X.copy(), y)
    P = X.copy()
    ctx.same(d.predict(P), e.predict(P), "default groups are the other columns")
    P["mu"] = 1e9
    ctx.same(d.predict(P), e.predict(X), "prediction does not depend on the mean column")
    ctx.sig(y.tolist()[:8])
    ctx.event("default_groups_checked")


WORKLOADS = [
    Workload("large", gen.enlarged(mixed), 16, 200),
    Workload("choice", choice, 250, 3000),
    Workload("mixed", mixed, 250, 4000),
    Workload("bayes", bayes, 150, 2500),
    Workload("clear", clear, 120, 2000),
    Workload("column", column, 10, 100),
]
