"""P21: one-dimensional smoothers compute their documented estimate."""
import warnings

import numpy as np

from cyclic_boosting.smoothing import extrapolate, onedim

from lib import refsm
from props.common import Workload

RULE = "an evaluation fits one smoother on one set of bins and compares its predictions inside, between and outside of the bins with an independent implementation, with the transformed problem, or with the data it has to reproduce; non-trivial if predictions were compared"
ASSUMPTIONS = [
    "uncertainties are positive and finite, as the estimators provide them",
    "fits that the data do not determine (a line through one bin) are not judged",
    "polynomial degrees are compared where no significance decision is within rounding",
]
MIN_EVENTS = {"predictions_compared": 60000, "fits": 1500, "exact_fits": 200, "equivariance_checks": 300, "shrinkages_checked": 3000}


def warm():
    x = np.arange(5.0)
    s = onedim.OrthogonalPolynomialSmoother().fit(np.c_[x, x, x + 1], x)
    s.predict(np.c_[x])


WARMUP = warm


def values(rng, n):
    style = rng.randint(7)
    if style == 0:
        y = rng.normal(size=n)
    elif style == 1:
        y = rng.normal(size=n) + rng.choice([-1e3, 50.0, 1e4])
    elif style == 2:
        y = np.full(n, rng.choice([0.0, 1.0, -0.3, 7.25]))
    elif style == 3:
        y = rng.randint(-3, 4, n).astype(float)
    elif style == 4:
        y = np.linspace(-1, 1, n) * rng.choice([-5.0, 0.01, 2.0]) + rng.normal(size=n) * 0.05
    elif style == 5:
        y = np.exp(rng.normal(size=n) * 2)
    else:
        y = np.sin(np.arange(n) * rng.uniform(0.1, 2)) + rng.normal(size=n) * 0.1
    return y


def errors(rng, n):
    style = rng.randint(4)
    if style == 0:
        return np.full(n, rng.choice([0.01, 0.5, 1.0, 3.0]))
    if style == 1:
        return rng.uniform(0.1, 1.0, n)
    if style == 2:
        return np.exp(rng.uniform(np.log(0.02), np.log(20.0), n))
    return 1.0 / np.sqrt(1.0 + rng.randint(0, 200, n))


def counts(rng, n):
    w = rng.randint(0, 30, n).astype(float)
    if rng.rand() < 0.3:
        w = rng.uniform(0.5, 3, n)
    return w


def points(rng, x):
    lo, hi = x.min(), x.max()
    p = np.concatenate([
        x,
        rng.uniform(lo, hi, 12),
        x + 0.5,
        x - 0.5,
        rng.uniform(lo - 8, hi + 8, 10),
        [lo - 1, hi + 1, hi + 0.49, hi + 0.51, -0.0],
    ])
    rng.shuffle(p)
    return p


def sample(rng, gaps=False, least=1, most=60):
    n = int(rng.choice([k for k in (1, 2, 3, 4, 5, 6, 8, 13, 25, 60) if least <= k <= most]))
    x = np.arange(n, dtype=float)
    if gaps and rng.rand() < 0.4:
        x = np.sort(rng.choice(3 * n, n, replace=False)).astype(float)
    return x, counts(rng, n), errors(rng, n), values(rng, n)


def fitted(ctx, est, x, w, u, y):
    X = np.c_[x, w, u]
    X0, y0 = X.copy(), y.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        est.fit(X, y)
    ctx.check(np.array_equal(X, X0) and np.array_equal(y, y0), "%s changed the data given to fit" % type(est).__name__)
    ctx.event("fits")
    if ctx.signature is None:
        ctx.sig(ctx.index, len(x), type(est).__name__, float(y[0]))
    return est


def predicted(ctx, est, p):
    P = np.c_[p]
    if ctx.rng.rand() < 0.3:
        P = np.c_[p, ctx.rng.rand(len(p)), ctx.rng.rand(len(p))]
    P0 = P.copy()
    out = np.asarray(est.predict(P), dtype=float)
    ctx.check(np.array_equal(P, P0, equal_nan=True), "%s changed the data given to predict" % type(est).__name__)
    ctx.check(out.shape == (len(p),), "%s returned shape %r for %d points" % (type(est).__name__, out.shape, len(p)))
    return out


# ------------------------------------------------ against independent estimates


def poly_ref(k, x, u, y):
    t = (x - x.mean()) / max(1.0, np.ptp(x) / 2)
    V = np.polynomial.legendre.legvander(t, k)
    sw = 1.0 / (u * u)
    coef = np.linalg.lstsq(V * sw[:, None], y * sw, rcond=None)[0]
    return lambda p: np.polynomial.legendre.legval((np.asarray(p, float) - x.mean()) / max(1.0, np.ptp(x) / 2), coef)


def prior_shrink(y, u, prior, thr):
    out = []
    prior = np.broadcast_to(np.asarray(prior, dtype=float), y.shape)
    for v, s, m in zip(y, u, prior):
        d = abs(v - m)
        if d <= thr * s:
            out.append(m)
        else:
            out.append(m + np.sign(v - m) * np.sqrt(d * d - (thr * s) ** 2))
    return np.array(out)




def make(rng):
    """(name, smoother, reference(x,w,u,y) -> predict, least bins, gaps allowed, finite outside)"""
    kind = rng.choice(["values", "prior", "one", "wm", "wm0", "wmp", "neigh", "ortho", "season", "poly", "linear", "linpos", "extra", "iso", "up", "down", "meta", "lsq", "spline"])
    if kind == "values":
        return kind, onedim.BinValuesSmoother(), refsm.fit_bin_values, 1, False
    if kind in ("prior", "one"):
        thr = float(rng.choice([0.0, 1.0, 2.5, 4.0]))
        prior = 1.0 if kind == "one" else float(rng.choice([0.0, 1.0, -2.0, 50.0]))
        est = onedim.RegularizeToOneSmoother(thr) if kind == "one" else onedim.RegularizeToPriorExpectationSmoother(prior, thr)
        return kind, est, lambda x, w, u, y: refsm.lookup(prior_shrink(y, u, prior, thr)), 1, False
    if kind == "wm":
        return kind, onedim.WeightedMeanSmoother(), refsm.fit_weighted_mean, 1, False
    if kind in ("wm0", "wmp"):
        prior = 0.0 if kind == "wm0" else float(rng.choice([1.0, -3.0, 20.0]))
        return kind, onedim.WeightedMeanSmoother(prior), lambda x, w, u, y: refsm.fit_weighted_mean(x, w, u, y, prior), 1, False
    if kind == "neigh":
        return kind, onedim.WeightedMeanSmootherNeighbors(), refsm.fit_neighbours, 1, False
    if kind == "ortho":
        return kind, onedim.OrthogonalPolynomialSmoother(), refsm.fit_orthogonal, 1, True
    if kind == "season":
        order, off, fb = int(rng.randint(1, 4)), bool(rng.randint(2)), float(rng.choice([0.0, 1.0, -2.0]))
        est = onedim.SeasonalSmoother(offset_tozero=off, order=order, fallback_value=fb)
        return kind, est, lambda x, w, u, y: refsm.fit_seasonal(x, w, u, y, off, order, fb), 2 * order + 2, False
    if kind == "poly":
        k = int(rng.randint(0, 5))
        return kind, onedim.PolynomialSmoother(k), lambda x, w, u, y: poly_ref(k, x, u, y), k + 2, True
    if kind in ("linear", "linpos"):
        def line(x, w, u, y):
            if len(x) == 1:
                return poly_ref(0, x, u, y)
            f = poly_ref(1, x, u, y)
            g = f(np.array([0.0, 1.0]))
            if kind == "linpos":
                refsm.LEAST[0] = min(refsm.LEAST[0], abs(g[1] - g[0]) / max(1e-300, np.abs(y).max()))
                if g[1] < g[0]:
                    return poly_ref(0, x, u, y)
            return f

        return kind, onedim.LinearSmoother(fallback_when_negative_slope=kind == "linpos"), line, 1, True
    if kind == "extra":
        eps = float(rng.choice([1e-4, 1e-2, 1.0]))
        return kind, extrapolate.LinearExtrapolator(eps), lambda x, w, u, y: refsm.fit_linear(x, w, u, y, eps), 2, True
    if kind in ("iso", "up", "down"):
        inc = {"iso": "auto", "up": True, "down": False}[kind]
        return kind, onedim.IsotonicRegressor(increasing=inc), lambda x, w, u, y: refsm.fit_isotonic(x, w, u, y, inc), 2 if kind == "iso" else 1, True
    if kind == "meta":
        thr, prior = float(rng.choice([0.5, 2.5])), float(rng.choice([0.0, 1.0]))
        inner = onedim.WeightedMeanSmoother()
        est = onedim.PriorExpectationMetaSmoother(inner, prior, thr)
        return kind, est, lambda x, w, u, y: refsm.lookup(prior_shrink(refsm.shrink_to_mean(y, u), u, prior, thr)), 1, False
    return kind, None, None, 8, False


def spline_case(ctx, kind):
    """Splines reproduce polynomials of their degree, and interpolate when asked to."""
    rng = ctx.rng
    x, w, u, y = sample(rng, least=8)
    w = rng.uniform(0.5, 3, len(x))
    k = int(rng.randint(1, 6))
    coef = rng.normal(size=k + 1)
    t = lambda p: (np.asarray(p, dtype=float) - x.mean()) / max(1.0, np.ptp(x) / 2)
    y = np.polynomial.chebyshev.chebval(t(x), coef)
    p = rng.uniform(x[0], x[-1], 30)
    if kind == "lsq":
        knots = np.sort(rng.uniform(x[1] + 0.1, x[-2] - 0.1, rng.randint(0, 3))) if len(x) >= 13 else []
        if len(x) >= 13 and len(knots):
            m = len(x) // 3
            knots = [x[m] + 0.3, x[2 * m] + 0.3][: len(knots)]
        est = onedim.LSQUnivariateSpline(list(knots), degree=k)
    else:
        est = onedim.UnivariateSplineSmoother(k=k, s=0 if rng.rand() < 0.7 else None)
        if est.s is None:
            fitted(ctx, est, x, w, u, y)
            z = predicted(ctx, est, x)
            ctx.check(np.sum((w * (z - y)) ** 2) <= len(x) * 1.01, "smoothing spline exceeds the allowed deviation")
            ctx.event("predictions_compared", len(x))
            return
    fitted(ctx, est, x, w, u, y)
    if kind == "spline":
        ctx.close(predicted(ctx, est, x), y, "interpolating spline at the bins", rtol=1e-7, atol=1e-7)
    want = np.polynomial.chebyshev.chebval(t(p), coef)
    ctx.close(predicted(ctx, est, p), want, "%s of degree %d on a polynomial of its degree" % (kind, k), rtol=1e-6, atol=1e-6)
    ctx.event("predictions_compared", len(p) + len(x))
    ctx.event("exact_fits")


def estimates(ctx):
    rng = ctx.rng
    kind, est, want, least, gaps = make(rng)
    ctx.sig(kind, ctx.index)
    if est is None:
        return spline_case(ctx, kind)
    x, w, u, y = sample(rng, gaps, least, 25 if kind == "ortho" else 60)
    if kind == "ortho" and len(x) > 13:
        # polynomials of high degree are ill-conditioned otherwise
        x, u = np.arange(len(x), dtype=float), np.clip(u, 0.1, 2.0)
    if kind == "poly" and np.ptp(u) > 0:
        u = np.clip(u, 0.2, 2.0)
    ctx.describe(data="%s on %d bins x=%s y=%s u=%s w=%s" % (kind, len(x), x[:6], y[:6], u[:6], w[:6]))
    # the same object fitted before must not matter
    if rng.rand() < 0.4:
        fitted(ctx, est, *sample(rng, gaps, least, 25))
    fitted(ctx, est, x, w, u, y)
    p = points(rng, x)
    got = predicted(ctx, est, p)
    refsm.LEAST[0] = np.inf
    expect = want(x, w, u, y)(p)
    scale = max(np.abs(y).max(), 1e-3)
    tol = 1e-7
    if kind == "ortho":
        if refsm.LEAST[0] < 1e-6 * (1 + np.abs(y / u).max() ** 2):
            ctx.event("ambiguous_degrees")
            return
        tol = 1e-4 if len(x) > 13 else 1e-6
        scale = max(scale, np.abs(expect).max())
    elif kind in ("iso", "linpos") and refsm.LEAST[0] < 1e-9:
        ctx.event("ambiguous_degrees")
        return
    elif kind == "season":
        tol = 1e-5
    elif kind in ("poly", "linear", "linpos", "extra"):
        span = max(1.0, np.ptp(x) / 2)
        scale = max(scale, np.abs(expect[np.isfinite(expect)]).max() if np.isfinite(expect).any() else 0.0) * span
        tol = 1e-8
    ctx.close(got, expect, "prediction of smoother %s" % kind, rtol=1e-7, atol=tol * scale)
    if kind not in ("values", "prior", "one", "wm", "wm0", "wmp", "neigh", "meta"):
        ctx.check(np.isfinite(got).all(), "non-finite prediction of %s" % kind)
    else:
        r = np.rint(p)
        inside = (p >= 0) & (r < len(x))
        ctx.check(np.isfinite(got[inside]).all(), "non-finite prediction of %s for a seen bin" % kind)
        ctx.check(np.isnan(got[~inside]).all(), "%s predicts a value outside of the bins" % kind)
    ctx.event("predictions_compared", len(p))


def missing(ctx):
    """Missing positions: value-based smoothers give missing."""
    rng = ctx.rng
    x, w, u, y = sample(rng)
    for est in (onedim.BinValuesSmoother(), onedim.WeightedMeanSmoother(), onedim.WeightedMeanSmoother(0.0), onedim.WeightedMeanSmootherNeighbors(), onedim.RegularizeToPriorExpectationSmoother(0.5)):
        ctx.raises(lambda: est.predict(np.c_[x]), "%s used before fit" % type(est).__name__, ValueError)
        fitted(ctx, est, x, w, u, y)
        bad = np.array([np.nan, np.inf, -np.inf, -1.0, -0.6, len(x), len(x) + 5.0, 1e9, 1e15])
        z = predicted(ctx, est, np.concatenate([bad, x]))
        ctx.check(np.isnan(z[: len(bad)]).all(), "%s gives %r for missing or unknown bins" % (type(est).__name__, z[: len(bad)]))
        ctx.check(np.isfinite(z[len(bad):]).all(), "%s gives missing for known bins" % type(est).__name__)
        ctx.event("predictions_compared", len(z))
    for est in (onedim.OrthogonalPolynomialSmoother(), onedim.SeasonalSmoother(), onedim.SeasonalLassoSmoother(), onedim.PolynomialSmoother(1), onedim.LinearSmoother(), extrapolate.LinearExtrapolator(), onedim.IsotonicRegressor(), onedim.UnivariateSplineSmoother(), onedim.LSQUnivariateSpline([1.5])):
        ctx.raises(lambda: est.predict(np.c_[x]), "%s used before fit" % type(est).__name__, ValueError)
    for bad in (0, 4, -1):
        ctx.raises(lambda: onedim.SeasonalSmoother(order=bad), "seasonal order %d" % bad, ValueError)


def shrinkage(ctx):
    """Shrunk values lie between value and mean, more so for larger uncertainty."""
    rng = ctx.rng
    x, w, u, y = sample(rng, least=2)
    n = len(x)
    # equal values at different uncertainties show the ordering directly
    if n >= 4 and rng.rand() < 0.5:
        y = y[rng.randint(0, max(1, n // 3), n)]
    y = y - np.round(y.mean()) if np.abs(y).max() > 1e3 else y
    ctx.describe(data="shrinkage y=%s u=%s" % (y[:8], u[:8]))
    wx = 1.0 / u**2
    for prior in (None, 0.0, float(rng.normal())):
        est = fitted(ctx, onedim.WeightedMeanSmoother(prior), x, w, u, y)
        z = predicted(ctx, est, x)
        m = np.sum(wx * y) / np.sum(wx) if prior is None else prior
        eps = 1e-9 * max(1e-6, np.abs(y).max() + abs(m))
        if np.allclose(y, y[0] if prior is None else prior):
            ctx.close(z, y, "values equal to their mean", rtol=1e-6, atol=1e-6)
            continue
        lo, hi = np.minimum(y, m), np.maximum(y, m)
        ctx.check(((z >= lo - eps) & (z <= hi + eps)).all(), "a shrunk value leaves the range between its value and %r" % m)
        frac = np.where(np.abs(y - m) > 1e-6, (z - m) / np.where(y == m, 1.0, y - m), np.nan)
        ok = np.isfinite(frac)
        order = np.argsort(u[ok], kind="stable")
        f = frac[ok][order]
        ctx.check((np.diff(f) <= 1e-6).all(), "a larger uncertainty is shrunk less towards %r" % m)
        ctx.event("shrinkages_checked", n)
    est = fitted(ctx, onedim.WeightedMeanSmootherNeighbors(), x, w, u, y)
    z = predicted(ctx, est, x)
    if n >= 3:
        for i in range(n):
            j = slice(max(0, i - 1), i + 2)
            m = np.sum(wx[j] * y[j]) / np.sum(wx[j])
            eps = 1e-9 * max(1e-6, np.abs(y[j]).max())
            ctx.check(min(y[i], m) - eps <= z[i] <= max(y[i], m) + eps, "bin %d is not between its value and the mean of its neighbourhood" % i)
            # bins further away have no influence
        k = int(rng.randint(n))
        y2, u2 = y.copy(), u.copy()
        y2[k] += rng.choice([-7.0, 3.0, 100.0])
        u2[k] *= rng.choice([0.1, 1.0, 10.0])
        z2 = predicted(ctx, fitted(ctx, onedim.WeightedMeanSmootherNeighbors(), x, w, u2, y2), x)
        far = np.abs(np.arange(n) - k) > 1
        # convolution sums may differ by rounding of other terms
        ctx.close(z2[far], z[far], "bins that are not neighbours of the changed bin", rtol=1e-9, atol=1e-9 * np.abs(y).max())
        ctx.event("shrinkages_checked", n)


def neutral_constants(ctx):
    """Constant values stay constant in every smoother without an absolute prior."""
    rng = ctx.rng
    x, w, u, _ = sample(rng, least=6, most=25)
    c = float(rng.choice([0.0, 1.0, -2.5, 1e3, 1e-3, 17.25]))
    y = np.full(len(x), c)
    for est in (onedim.BinValuesSmoother(), onedim.WeightedMeanSmoother(), onedim.WeightedMeanSmoother(c), onedim.WeightedMeanSmootherNeighbors(),
                onedim.OrthogonalPolynomialSmoother(), onedim.SeasonalSmoother(offset_tozero=False), onedim.PolynomialSmoother(2), onedim.LinearSmoother(),
                onedim.LinearSmoother(True), extrapolate.LinearExtrapolator(), onedim.IsotonicRegressor(), onedim.IsotonicRegressor(True), onedim.IsotonicRegressor(False),
                onedim.RegularizeToPriorExpectationSmoother(c), onedim.PriorExpectationMetaSmoother(onedim.WeightedMeanSmoother(), c)):
        uu = np.clip(u, 0.2, 2.0) if isinstance(est, onedim.PolynomialSmoother) else u
        z = predicted(ctx, fitted(ctx, est, x, w, uu, y), x)
        tol = 1e-4 if isinstance(est, (onedim.OrthogonalPolynomialSmoother, onedim.SeasonalSmoother)) else 1e-8
        ctx.close(z, y, "%s on constant values" % type(est).__name__, rtol=1e-9, atol=tol * max(1e-3, abs(c)))
        ctx.event("exact_fits")


def own_form(ctx):
    """Data of the smoother's own form come back exactly, also beyond the bins."""
    rng = ctx.rng
    x, w, u, _ = sample(rng, gaps=True, least=8, most=25)
    u = np.clip(u, 0.2, 2.0)
    n = len(x)
    p = rng.uniform(x[0] - 5, x[-1] + 5, 20)
    a, b = rng.normal(size=2) * rng.choice([0.1, 1.0, 30.0])
    line = lambda v: a + b * v
    span = max(1.0, np.abs(p).max())
    for est in (onedim.LinearSmoother(), onedim.PolynomialSmoother(1), onedim.PolynomialSmoother(2), extrapolate.LinearExtrapolator(), extrapolate.LinearExtrapolator(0.5), onedim.LinearSmoother(True)):
        z = predicted(ctx, fitted(ctx, est, x, w, u, line(x)), p)
        if isinstance(est, onedim.LinearSmoother) and est.fallback_when_negative_slope and b < 0:
            ctx.check(np.ptp(z) <= 1e-9 * (abs(a) + abs(b) * span), "negative slope despite the fallback")
            lo, hi = np.sort(line(x[[0, -1]]))
            ctx.check(lo <= z[0] <= hi, "fallback constant outside of the values")
        else:
            ctx.close(z, line(p), "%s on a line" % type(est).__name__, rtol=1e-7, atol=1e-7 * (abs(a) + abs(b) * span))
        ctx.event("exact_fits")
    z = predicted(ctx, fitted(ctx, onedim.OrthogonalPolynomialSmoother(), x, w, u, line(x)), p)
    ctx.close(z, line(np.clip(p, x[0], x[-1])), "orthogonal polynomial on a line", rtol=1e-6, atol=1e-6 * (abs(a) + abs(b) * span))
    # seasonal
    order = int(rng.randint(1, 4))
    xs = np.arange(n, dtype=float)
    t = lambda v: 2 * np.pi * np.asarray(v) / n
    c = rng.normal(size=2 * order + 1)
    wave = lambda v: refsm.season_matrix(t(v), order).dot(c)
    for off in (False, True):
        z = predicted(ctx, fitted(ctx, onedim.SeasonalSmoother(offset_tozero=off, order=order), xs, w, u, wave(xs)), p)
        ctx.close(z, wave(p) - (c[0] if off else 0.0), "seasonal smoother on a wave", rtol=1e-5, atol=1e-5)
        z2 = predicted(ctx, fitted(ctx, onedim.SeasonalSmoother(offset_tozero=off, order=order), xs, w, u, wave(xs)), p + n)
        ctx.close(z2, z, "seasonal smoother one period later", rtol=1e-5, atol=1e-5)
        ctx.event("exact_fits")
    custom = onedim.SeasonalSmoother(offset_tozero=False, custom_fit_function=lambda v, k0, k1: k0 + k1 * np.cos(v))
    z = predicted(ctx, fitted(ctx, custom, xs, w, u, c[0] + c[1] * np.cos(t(xs))), p)
    ctx.close(z, c[0] + c[1] * np.cos(t(p)), "custom seasonal function", rtol=1e-5, atol=1e-5)
    # monotone data come back from the isotonic fits; opposite data are pooled to one value
    up = np.sort(rng.normal(size=n))
    for inc in ("auto", True):
        z = predicted(ctx, fitted(ctx, onedim.IsotonicRegressor(increasing=inc), x, w, u, up), x)
        ctx.close(z, up, "isotonic regression on increasing values", rtol=1e-9, atol=1e-9)
        z = predicted(ctx, fitted(ctx, onedim.IsotonicRegressor(increasing=False if inc is True else inc), x, w, u, -up), x)
        ctx.close(z, -up, "isotonic regression on decreasing values", rtol=1e-9, atol=1e-9)
        ctx.event("exact_fits")
    z = predicted(ctx, fitted(ctx, onedim.IsotonicRegressor(increasing=True), x, w, u, -up), x)
    ctx.close(z, np.full(n, np.sum(-up / u**2) / np.sum(1 / u**2)), "increasing fit of decreasing values", rtol=1e-7, atol=1e-7)
    ctx.event("predictions_compared", 20 * len(p))


def lasso(ctx):
    """Seasonal lasso: zero below the minimal number of days with data, otherwise a first harmonic of the data with data."""
    rng = ctx.rng
    n = int(rng.choice([8, 20, 60, 366]))
    x = np.arange(n, dtype=float)
    w = (rng.rand(n) < rng.choice([0.3, 0.8, 1.0])).astype(float) * rng.randint(1, 5, n)
    w[-1] = rng.choice([0.0, 2.0])
    amp, phase = rng.uniform(1, 4), rng.uniform(0, 2 * np.pi)
    wave = lambda v: amp * np.sin(2 * np.pi * np.asarray(v) / (n - 1) + phase)
    y = wave(x)
    y[w == 0] = rng.normal(size=int(np.sum(w == 0))) * 50
    seen = int(np.sum(w > 0))
    days = int(rng.choice([max(7, seen), seen + 1, 7, 300]))
    est = fitted(ctx, onedim.SeasonalLassoSmoother(min_days=days), x, w, np.ones(n), y)
    z = predicted(ctx, est, x)
    if seen < days:
        ctx.check((z == 0).all(), "lasso smoother with %d of %d days gives values" % (seen, days))
    else:
        ctx.close(z, wave(x), "lasso smoother on a noise-free wave of %d days" % seen, rtol=1e-3, atol=1e-3 * amp)
    ctx.event("predictions_compared", n)
    ctx.event("exact_fits")


def equivariance(ctx):
    """Shifted or scaled values (with uncertainties) give shifted or scaled estimates."""
    rng = ctx.rng
    x, w, u, y = sample(rng, least=8, most=25)
    u = np.clip(u, 0.05, 5.0)
    if np.abs(y).max() > 100 or np.ptp(y) < 1e-3:
        y = rng.normal(size=len(x)) * 3
    s = float(rng.choice([-30.0, 2.5, 100.0]))
    k = float(rng.choice([0.5, 4.0, 128.0]))
    p = np.concatenate([x, rng.uniform(x[0], x[-1], 10)])
    makers = {
        "values": onedim.BinValuesSmoother, "wm": onedim.WeightedMeanSmoother, "neighbours": onedim.WeightedMeanSmootherNeighbors,
        "ortho": onedim.OrthogonalPolynomialSmoother, "season": lambda: onedim.SeasonalSmoother(offset_tozero=False, order=int(1 + ctx.index % 3)),
        "poly": lambda: onedim.PolynomialSmoother(2), "linear": onedim.LinearSmoother, "linpos": lambda: onedim.LinearSmoother(True),
        "up": lambda: onedim.IsotonicRegressor(True), "auto": onedim.IsotonicRegressor, "extra": lambda: extrapolate.LinearExtrapolator(0.0),
    }
    ctx.describe(data="equivariance shift %r scale %r y=%s u=%s" % (s, k, y[:8], u[:8]))
    for name, f in makers.items():
        uu = np.clip(u, 0.2, 2.0) if name in ("poly", "linear", "linpos") else u
        base = predicted(ctx, fitted(ctx, f(), x, w, uu, y), p)
        shifted = predicted(ctx, fitted(ctx, f(), x, w, uu, y + s), p) - s
        scaled = predicted(ctx, fitted(ctx, f(), x, w, uu * k, y * k), p) / k
        refsm.LEAST[0] = np.inf
        if name == "ortho":
            refsm.fit_orthogonal(x, w, uu, y)
        elif name == "auto":
            refsm.fit_isotonic(x, w, uu, y)
        elif name == "linpos":
            g = poly_ref(1, x, uu, y)(np.array([0.0, 1.0]))
            refsm.LEAST[0] = abs(g[1] - g[0])
        if refsm.LEAST[0] < 1e-6 * (1 + (np.abs(y / uu).max() ** 2 if name == "ortho" else 0)):
            ctx.event("ambiguous_degrees")
            continue
        tol = 1e-4 if name in ("ortho", "season") else 1e-8
        scale = np.abs(y).max() + abs(s)
        ctx.close(shifted, base, "%s on shifted values" % name, rtol=1e-8, atol=tol * scale)
        ctx.close(scaled, base, "%s on scaled values" % name, rtol=1e-8, atol=tol * scale)
        ctx.event("equivariance_checks", 2)
        ctx.event("predictions_compared", 2 * len(p))


WORKLOADS = [
    Workload("estimates", estimates, 4000, 40000),
    Workload("missing", missing, 60, 300),
    Workload("shrinkage", shrinkage, 500, 3000),
    Workload("constants", neutral_constants, 100, 1000),
    Workload("own_form", own_form, 100, 1000),
    Workload("lasso", lasso, 60, 400),
    Workload("equivariance", equivariance, 400, 1500),
]
