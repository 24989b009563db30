"""P28: distribution fits to quantiles return coherent distributions."""
import numpy as np
from scipy.interpolate import CubicSpline
from scipy.stats import gamma, nbinom, norm

from cyclic_boosting import quantile_matching as qm
from cyclic_boosting.utils import smear_discrete_cdftruth, smear_discrete_cdftruth_qpd

from lib.rt import Workload

RULE = "an evaluation takes the quantiles of a known distribution, fits the family to them and compares quantiles, distribution function and parameters of the result with the known one; all are non-trivial"
ASSUMPTIONS = ["probabilities from 0.02 to 0.98; standard deviation at least 1e-3 of the mean; for counts a mean of at least 5 and a variance of 1.2 to 6 times the mean"]
MIN_EVENTS = {"fits": 500, "modes_compared": 800, "smeared": 4000, "shapes_fitted": 30}


def levels(rng, least=3):
    k = str(rng.choice(["even", "tails", "random"]))
    if k == "even":
        return np.array([0.1, 0.3, 0.5, 0.7, 0.9])
    if k == "tails":
        return np.array([0.05, 0.25, 0.5, 0.75, 0.95])
    n = int(rng.randint(least, 9))
    edges = np.linspace(0.02, 0.98, n + 1)
    return edges[:-1] + (edges[1:] - edges[:-1]) * (0.2 + 0.6 * rng.rand(n))


def modes(ctx, fit, q, v, grid):
    """The three forms of the result describe one distribution."""
    d = fit(q, v, mode="dist")
    default, ppf, cdf = fit(q, v), fit(q, v, mode="ppf"), fit(q, v, mode="cdf")
    ps = np.linspace(0.01, 0.99, 15)
    for f, name in ((default, "default"), (ppf, "ppf")):
        ctx.close(f(ps), d.ppf(ps), "%s form against the distribution" % name, rtol=1e-9, atol=1e-12)
    ctx.close(cdf(grid), d.cdf(grid), "cdf form against the distribution", rtol=1e-9, atol=1e-12)
    ctx.check((np.diff(ppf(ps)) >= 0).all() and (np.diff(cdf(grid)) >= 0).all(), "fitted functions do not increase")
    ctx.event("fits", 4)
    ctx.event("modes_compared", 3)
    return d


def gaussian(ctx):
    rng = ctx.rng
    q = levels(rng)
    mu = float(rng.normal() * rng.choice([0.0, 1.0, 30.0, 500.0]))
    sd = float(np.exp(rng.normal() * 2)) + 2e-3 * abs(mu)
    v = norm.ppf(q, mu, sd)
    ctx.describe(mu=mu, sd=sd, levels=q)
    ctx.sig(len(q), round(mu), round(np.log(sd), 1))
    d = modes(ctx, qm.quantile_fit_gaussian, q, v, mu + sd * np.linspace(-4, 4, 21))
    ctx.close(d.ppf(q), v, "quantiles given to the normal fit", rtol=1e-6, atol=1e-5 * sd)
    ctx.close([d.mean(), d.std()], [mu, sd], "parameters of the normal fit", rtol=1e-5, atol=1e-5 * sd)
    ps = np.linspace(0.05, 0.95, 10)
    ctx.close(d.ppf(ps), norm.ppf(ps, mu, sd), "other quantiles of the normal fit", rtol=1e-5, atol=1e-5 * sd)


def gammas(ctx):
    rng = ctx.rng
    q = levels(rng)
    mean = float(np.exp(rng.normal() * 1.5 + 1))
    cv = float(rng.choice([0.1, 0.2, 0.4, 0.7, 1.0, 1.3]))
    a, scale = 1 / cv**2, mean * cv**2
    v = gamma.ppf(q, a, scale=scale)
    ctx.describe(mean=mean, cv=cv, levels=q)
    ctx.sig(len(q), round(np.log(mean), 1), cv)
    d = modes(ctx, qm.quantile_fit_gamma, q, v, mean * np.linspace(0.01, 4, 21))
    ctx.close(d.ppf(q), v, "quantiles given to the gamma fit", rtol=1e-5, atol=1e-6 * mean)
    ctx.close([d.mean(), d.std()], [mean, mean * cv], "parameters of the gamma fit", rtol=1e-4)
    ctx.check(d.ppf(1e-9) >= 0, "gamma fit reaches below zero")


def counts(ctx):
    """Counts are steps: the fit passes within the height of a step."""
    rng = ctx.rng
    q = levels(rng)
    mean = float(np.exp(rng.rand() * 5 + np.log(5)))
    ratio = float(rng.choice([1.2, 1.5, 2.0, 3.0, 6.0]))
    var = mean * ratio
    n, p = mean**2 / (var - mean), mean / var
    v = nbinom.ppf(q, n, p)
    ctx.describe(mean=mean, ratio=ratio, levels=q)
    if len(np.unique(v)) < 3:
        return
    ctx.sig(len(q), round(np.log(mean), 1), ratio)
    d = modes(ctx, qm.quantile_fit_nbinom, q, v, np.arange(0, int(3 * mean) + 10, max(1, int(mean / 10))))
    m, s2 = d.mean(), d.var()
    ctx.check(np.isfinite(m) and m > 0 and s2 > m, "parameters of the negative binomial fit: mean %r, variance %r" % (m, s2))
    got = d.cdf(v)
    truth = nbinom.cdf(v, n, p)
    ctx.check(np.sum((got - q) ** 2) <= np.sum((truth - q) ** 2) * 1.05 + 2e-4,
              "distribution function of the negative binomial fit at the given quantiles: %s instead of %s" % (got, q))
    step = 1.5 + 0.12 * np.sqrt(var)
    ctx.check(np.max(np.abs(d.ppf(q) - v)) <= step + 1, "quantiles of the negative binomial fit: %s instead of %s" % (d.ppf(q), v))
    ctx.check(abs(m - mean) <= step + 0.5, "mean of the negative binomial fit: %r instead of %r" % (m, mean))


def spline(ctx):
    rng = ctx.rng
    q = levels(rng, least=4)
    v = np.cumsum(np.exp(rng.normal(size=len(q)))) * float(rng.choice([1.0, 1e-3, 1e3])) + float(rng.normal() * 5)
    ctx.describe(levels=q, values=v)
    ctx.sig(len(q), round(float(v[0]), 1))
    f = qm.quantile_fit_spline(q, v)
    sc = np.ptp(v)
    ctx.close(f(q), v, "spline at the given probabilities", rtol=1e-9, atol=1e-9 * sc)
    c = CubicSpline(q, v, bc_type="not-a-knot")
    ps = np.linspace(0, 1, 41)
    ctx.close(f(ps), c(ps), "spline between the given probabilities", rtol=1e-7, atol=1e-7 * (sc + np.abs(c(ps)).max()))
    ctx.close([f(-0.5), f(1.5)], [c(0.0), c(1.0)], "spline outside of [0, 1]", rtol=1e-7, atol=1e-7 * (sc + np.abs(c(ps)).max()))
    ctx.event("fits")


def smeared(ctx):
    """Cumulative probabilities of observed counts lie between those of the count and the one before."""
    rng = ctx.rng
    np.random.seed(int(rng.randint(2**31 - 1)))
    k = str(rng.choice(["nbinom", "poisson-like", "qpd-S", "qpd-B"]))
    ctx.describe(kind=k)
    ctx.sig(k)
    m = float(np.exp(rng.normal() + 1))
    if k.startswith("qpd"):
        n = int(rng.randint(1, 30))
        med = np.exp(rng.normal(size=n) * 0.5) * m + 0.3
        lo, hi = med * (0.3 + 0.4 * rng.rand(n)), med * (1.3 + rng.rand(n))
        top = float(hi.max() * 2)
        l = float(rng.choice([0.0, 0.0, -0.5, -3.0]))
        d = qm.J_QPD_S(0.2, lo, med, hi, l) if k == "qpd-S" else qm.J_QPD_B(0.2, lo, med, hi, l, top)
        y = np.minimum(rng.poisson(med), int(top))
        y = y.astype(float) if rng.rand() < 0.5 else y
        high = np.atleast_1d(d.cdf(y, inner=True))
        low = np.array([float(np.atleast_1d(d.cdf(np.maximum(y - 1, 0), inner=True))[i]) if y[i] >= 1 else 0.0 for i in range(n)])
        draws = np.array([np.atleast_1d(smear_discrete_cdftruth_qpd(d, y)) for _ in range(40)])
        ctx.check(draws.shape == (40, n), "smeared probabilities of shape %s" % (draws.shape[1:],))
    else:
        f = nbinom(m / 0.5, 1 / 1.5).cdf if k == "nbinom" else nbinom(1e6, 1e6 / (1e6 + m)).cdf
        y = int(rng.poisson(m))
        y = [y, float(y), np.int64(y)][rng.randint(3)]
        low = np.array([f(y - 1) if y >= 1 else 0.0])
        high = np.array([f(y)])
        draws = np.array([[smear_discrete_cdftruth(f, y)] for _ in range(40)])
    ctx.check(((draws >= low - 1e-12) & (draws <= high + 1e-12)).all(), "smeared probability outside of %s to %s" % (low[:3], high[:3]))
    wide = high - low > 1e-9
    if wide.any():
        u = ((draws - low) / np.where(wide, high - low, 1.0))[:, wide]
        # forty uniform draws: both ends are visited, rows are drawn independently
        ctx.check((u.min(axis=0) < 0.4).all() and (u.max(axis=0) > 0.6).all(), "smeared probabilities do not fill the step")
        if u.shape[1] > 2:
            ctx.check(np.std(u, axis=1).max() > 1e-3, "all rows are smeared by the same number")
    ctx.event("smeared", draws.size)


def shapes(ctx):
    """The fitted tail shape describes the observations no worse than the shapes it can start from."""
    rng = ctx.rng
    bound = str(rng.choice(["S", "B", "U"]))
    n = int(rng.choice([200, 1000]))
    alpha = float(rng.choice([0.25, 0.1]))
    l, u = float(rng.choice([0.0, -3.0])), 0.0
    if bound == "U":
        y = rng.standard_t(3, n) if rng.rand() < 0.5 else rng.normal(size=n)
    elif bound == "S":
        y = l + np.exp(rng.normal(size=n) * 0.5)
    else:
        y = l + 4 * rng.beta(2, 3, n)
    u = float(y.max() + 0.3)
    ctx.describe(bound=bound, alpha=alpha, l=l, u=u, n=n)
    ctx.sig(bound, alpha, l, n)
    shape = float(qm.fit_sinhlogistic_shape(alpha, l, u, bound, y.copy()))
    ctx.check(np.isfinite(shape), "fitted shape %r" % shape)
    t = [float(np.quantile(y, p)) for p in (alpha, 0.5, 1 - alpha)]
    p = (np.arange(999) + 0.5) / 1000
    emp = np.quantile(y, p)

    def distance(s):
        if bound == "S":
            d = qm.J_QPD_extended_S(alpha, *t, l=l, shape=s)
        elif bound == "B":
            d = qm.J_QPD_extended_B(alpha, *t, l=l, u=u, shape=s)
        else:
            d = qm.J_QPD_extended_U(alpha, *t, shape=s)
        return float(np.mean(np.abs(d.ppf(p) - emp)))

    best = min(distance(0.0), distance(1.0))
    ctx.check(distance(shape) <= best * 1.1 + 0.02 * np.std(y), "fitted shape %r is at distance %r, others at %r" % (shape, distance(shape), best))
    ctx.event("shapes_fitted")


WORKLOADS = [
    Workload("gaussian", gaussian, 150, 2000),
    Workload("gammas", gammas, 120, 1500),
    Workload("counts", counts, 100, 1200),
    Workload("spline", spline, 200, 3000),
    Workload("smeared", smeared, 200, 3000),
    Workload("shapes", shapes, 60, 600),
]
