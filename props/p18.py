"""P18: the price enters only as an exponential of the price ratio."""
import numpy as np
import pandas as pd
from scipy.optimize import brentq

import cyclic_boosting as cb
from cyclic_boosting import common_smoothers, flags, learning_rate
from cyclic_boosting.utils import ConvergenceError

from lib import gen, ref
from props.common import Workload, composed, external_keys, standard_keys, train

RULE = "an evaluation trains a price model and checks its decomposition, the effect of changed prices row by row, the exponents of a first update against an independent solution of the documented objective, or the recovery of known elasticities; non-trivial if training returned"
ASSUMPTIONS = ["prior exponents are finite and not zero", "exponents are compared where the documented objective is convex in the searched range"]
MIN_EVENTS = {"trainings": 60, "rows_repriced": 3000, "exponents_checked": 150, "elasticities_recovered": 10}

PRICES = np.array([0.05, 0.3, 0.5, 0.75, 0.9, 1.0, 1.1, 1.5, 2.5])


def price_scenario(rng, **kw):
    s = gen.zoo(rng, kinds=["exponential"], **kw)
    n = len(s.y)
    style = rng.randint(4)
    if style == 1:
        s.X["price"] = np.exp(rng.normal(size=n) * 0.4)
    elif style == 2:
        s.X["price"] = 1.0
    if "pexp" in s.X and rng.rand() < 0.5:
        s.X["pexp"] = rng.choice([-4.0, -1.5, -0.2, 0.4, 1.2], n)
    return s


def exponent(s, est, X):
    con = est.get_feature_contributions(X.copy())
    e = np.ones(len(X))
    for k in external_keys(s):
        e = e * np.asarray(con[k], dtype=float)
    return con, e, np.asarray(X["pexp"], dtype=float) if "pexp" in X else np.full(len(X), -1.0)


def formula(ctx):
    """Repricing rows: log p(r) = log p(1) + exponent (r - 1), for hostile rows too."""
    rng = ctx.rng
    s = price_scenario(rng)
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    X, cols, prior = gen.probe_rows(rng, s, 50)
    con, e, pexp = exponent(s, est, X)
    ctx.check((e > 0).all() and np.isfinite(e).all(), "external factors are not positive: %r" % e.min())
    one = X.copy()
    one["price"] = 1.0
    p1 = np.asarray(est.predict(one.copy()), dtype=float)
    ctx.check((p1 > 0).all() or not (s.y > 0).any(), "predictions are not positive")
    for missing in (np.nan, np.inf, -np.inf):
        m = X.copy()
        m["price"] = missing
        ctx.close(est.predict(m), p1, "prediction with price %r against price ratio 1" % missing, rtol=1e-12, atol=0)
    last = None
    for r in np.r_[np.sort(rng.choice(PRICES, 3, replace=False)), 0.0]:
        q = X.copy()
        q["price"] = r
        p = np.asarray(est.predict(q.copy()), dtype=float)
        lp = np.log(p1) + pexp * e * (r - 1)
        ctx.close(np.log(p), lp, "log prediction at price ratio %.2f" % r, rtol=1e-10, atol=1e-10)
        ctx.event("rows_repriced", len(q))
        up = np.where(pexp < 0, r < 1, r > 1)
        ok = np.where(r == 1, np.abs(p - p1) <= 1e-12 * p1, np.where(up, p >= p1, p <= p1))
        ctx.check(ok.all(), "price effect has the wrong sign at price ratio %.2f" % r)
    # reported contributions do not depend on the price
    other = exponent(s, est, one)[0]
    for k in con:
        ctx.same(other[k], con[k], "contribution of %s with another price" % k)
    # a row's own exponent only scales with its own prior exponent
    if "pexp" in X:
        z = X.copy()
        z["price"] = 0.5
        base = np.log(np.asarray(est.predict(z.copy()), dtype=float)) - np.log(p1)
        z["pexp"] = np.asarray(X["pexp"]) * 3
        more = np.log(np.asarray(est.predict(z), dtype=float)) - np.log(p1)
        ctx.close(more, 3 * base, "price effect with three times the prior exponent", rtol=1e-8, atol=1e-9)
    # training formula: the final observed prediction is the composition at the training prices
    T = s.frame()
    con, e, pexp = exponent(s, est, T)
    price = np.asarray(T["price"], dtype=float)
    d = np.where(np.isfinite(price), price - 1, 0.0)
    start = np.log(rec.preds[0]) - pexp * d
    want = start.copy()
    for k in standard_keys(s):
        want = want + np.log(con[k])
    want = want + pexp * e * d
    ctx.close(np.log(rec.final), want, "prediction at the end of training", rtol=1e-9, atol=1e-8)
    if s.spec.prior is None:
        ctx.check(np.ptp(start) <= 1e-9 * (1 + np.abs(start).max()), "base value differs between rows")


def root(f, lo, hi):
    return brentq(f, lo, hi, xtol=1e-12)


def exponents(ctx):
    """After one full, unsmoothed update each external factor solves the documented objective."""
    rng = ctx.rng
    n = int(rng.choice([40, 150, 500]))
    k = int(rng.randint(1, 5))
    a = rng.randint(0, k, n).astype(float)
    b = rng.randint(0, 3, n).astype(float)
    if rng.rand() < 0.5:
        a[rng.rand(n) < 0.15] = np.nan
    price = rng.choice([0.5, 0.7, 0.9, 1.0, 1.2], n)
    price[rng.rand(n) < rng.choice([0.0, 0.2])] = np.nan
    d = np.where(np.isfinite(price), price - 1, 0.0)
    pexp = rng.choice([-3.0, -1.5, -0.7], n) if rng.rand() < 0.6 else np.full(n, -1.0)
    true = rng.choice([0.7, 1.0, 1.4, 2.0])
    mu = rng.choice([2.0, 10.0, 60.0]) * np.exp(pexp * true * d)
    y = rng.poisson(mu).astype(float)
    if not y.any():
        return
    w = np.ones(n) if rng.rand() < 0.4 else rng.rand(n) + 0.1
    X = pd.DataFrame(dict(a=a, b=b, price=price, pexp=pexp, w=w))
    ext = [["a"], ["b"], ["a", "b"], [("a", "b")], ["b", ("a", "b")], [("b", "a"), "a", "b"]][rng.randint(6)]
    var, A, C = float(rng.choice([0.05, 0.1, 1.0])), float(rng.choice([1.0, 1.5])), float(rng.choice([0.0, 0.1]))
    mnl = rng.rand() < 0.4
    kw = dict(prior_exponent_colname="pexp") if len(np.unique(pexp)) > 1 else {}
    rec = gen.Recorder()
    ctx.describe(rows=n, bins=k, external=ext, var_prior=var, a=A, c=C, missing_not_learned=mnl)
    est = cb.CBExponential("price", ["b"], list(ext), weight_column="w", maximal_iterations=1, var_prior_exponent=var, a=A, c=C,
                           feature_properties={"a": flags.IS_UNORDERED | (flags.MISSING_NOT_LEARNED if mnl else 0), "b": flags.IS_UNORDERED},
                           learn_rate=learning_rate.constant_learn_rate_one, observers=[rec],
                           smoother_choice=common_smoothers.NoSmootherChoice(use_normalization=False), **kw)
    try:
        est.fit(X.copy(), y.copy())
    except ConvergenceError:
        return
    ctx.event("trainings")
    con = est.get_feature_contributions(X.copy())
    fac = np.log(rec.preds[0]) - pexp * d + np.log(con["b"])
    expo = pexp.copy()
    wext = w * np.isfinite(price)
    for g in ext:
        g = (g,) if isinstance(g, str) else g
        got = np.asarray(con[" ".join(g) + "_external"], dtype=float)
        p = np.exp(fac + expo * d)
        sw = wext / (A * p + C * p * p)
        bad = np.any([~np.isfinite(X[c].values) for c in g], axis=0)
        lab = np.where(bad, -1, np.array([np.where(np.isfinite(X[c].values), X[c].values, 0) * (10.0 ** i) for i, c in enumerate(g)]).sum(axis=0))
        for v in np.unique(lab):
            m = lab == v
            ctx.check(np.ptp(got[m]) == 0, "several exponents for bin %s" % v)
            if v == -1 and mnl and "a" in g:
                ctx.close(got[m], np.ones(int(m.sum())), "exponent factor of missing values that are not learned", rtol=1e-12)
                continue
            ym, dm, kk, c0, s, f = y[m], d[m], expo[m], pexp[m], sw[m], np.exp(fac[m])
            cnt = m.sum()

            def jac(l):
                mu = f * np.exp(kk * l * dm)
                data = -2 * kk * dm * mu * (ym - mu) * s
                prior = 2 * (kk * (kk * l - c0) + l - 1 + (np.log(kk / c0) + 2 * np.log(l)) / l) / var / cnt
                return np.sum(data + prior)

            def hess(l):
                mu = f * np.exp(kk * l * dm)
                x = kk * dm
                data = 2 * x * x * mu * mu * s - 2 * x * x * mu * (ym - mu) * s
                prior = 2 * (kk * kk + 1 + (2 - (np.log(kk / c0) + 2 * np.log(l))) / l / l) / var / cnt
                return np.sum(data + prior)

            if wext[m].sum() == 0:
                continue
            # The documented objective is convex where the search happens
            grid = np.linspace(0.05, 2.0, 60)
            js = np.array([jac(t) for t in grid])
            hs = np.array([hess(t) for t in grid])
            if not (js[0] < 0 < js[-1] and (hs > 0).all()):
                ctx.event("bins_skipped")
                continue
            l = root(jac, 0.05, 2.0)
            h = hess(l)
            link, _ = ref.gamma_update(np.array([l * l * h]), np.array([l * h]))
            want = float(np.clip(np.exp(link[0]), 0.5, 2.0))
            tol = 2e-3 + 0.03 / h
            # a coarse root is allowed: the search stops at |gradient| < 0.01
            ctx.check(abs(got[m][0] - want) <= tol * max(1.0, want), "external factor of bin %s of %s is %.5f, the documented objective has its minimum at %.5f (update %.5f)"
                      % (v, g, got[m][0], l, want))
            ctx.event("exponents_checked")
        expo = expo * got
    ctx.sig(n, k, ext, var, A, C, y[:4].tolist())


def recovery(ctx):
    """Known elasticities per group are found by a full training."""
    rng = ctx.rng
    n = 6000
    g = rng.randint(0, 3, n)
    b = rng.randint(0, 4, n)
    true = np.array([0.6, 1.0, 1.8])[rng.permutation(3)]
    price = rng.choice([0.5, 0.7, 0.85, 1.0], n)
    pexp = float(rng.choice([-2.0, -3.0]))
    lam = 40 * np.exp(0.3 * b) * np.exp(pexp * true[g] * (price - 1))
    y = rng.poisson(lam).astype(float)
    X = pd.DataFrame(dict(g=g, b=b, price=price, pexp=pexp))
    ctx.describe(true=true.tolist(), prior=pexp)
    est = cb.CBExponential("price", ["b", "g"], ["g"], prior_exponent_colname="pexp",
                           feature_properties={"g": flags.IS_UNORDERED, "b": flags.IS_UNORDERED}).fit(X.copy(), y.copy())
    q = pd.DataFrame(dict(g=[0, 1, 2], b=1, price=1.0, pexp=pexp))
    h = q.copy()
    h["price"] = 0.5
    e = (np.log(est.predict(h)) - np.log(est.predict(q))) / -0.5
    for i in range(3):
        ctx.check(abs(e[i] - pexp * true[i]) <= 0.15 * abs(pexp * true[i]), "elasticity of group %d is %.3f instead of %.3f" % (i, e[i], pexp * true[i]))
        ctx.event("elasticities_recovered")
    ctx.event("trainings")
    ctx.sig(true.tolist(), pexp, y[:5].tolist())


def no_variation(ctx):
    """Without price variation the price part stays at the prior and the rest equals the model without prices."""
    rng = ctx.rng
    s = price_scenario(rng)
    fill = [1.0, np.nan][rng.randint(2)]
    s.X["price"] = fill
    est, rec = train(ctx, s)
    if est is None:
        return
    T = s.frame()
    con, e, pexp = exponent(s, est, T)
    kw = {k: v for k, v in s.kwargs.items() if k not in ("standard_feature_groups", "external_feature_groups", "external_colname", "prior_exponent_colname")}
    t = gen.Scenario()
    t.__dict__.update(s.__dict__)
    t.kind = "nbinom"
    kw["feature_groups"] = s.kwargs["standard_feature_groups"]
    kw["maximal_iterations"] = rec.n_iter
    kw["minimal_loss_change"] = kw["minimal_factor_change"] = -1.0
    from cyclic_boosting import learning_rate as lr
    # the schedule depends on the limit: use the one of the price model
    top = s.kwargs.get("maximal_iterations", 20)
    f = getattr(lr, gen.LEARN[s.spec.lr]) if isinstance(s.spec.lr, str) else s.spec.lr
    kw["learn_rate"] = lambda i, m, feature=None: f(i, top, feature)
    t.kwargs = kw
    r2 = gen.Recorder()
    try:
        other = t.fit([r2])
    except ConvergenceError:
        return
    ctx.sig(s.signature())
    for k in range(min(2, rec.n_iter) + 1):
        a = rec.preds[k] if k < rec.n_iter else rec.final
        b = r2.preds[k] if k < r2.n_iter else r2.final
        ctx.close(a, b, "prediction before iteration %d against the model without prices" % k, rtol=1e-7, atol=1e-12)
    ctx.event("models_without_prices_compared")


WORKLOADS = [
    Workload("formula", formula, 130, 1500),
    Workload("exponents", exponents, 300, 3000),
    Workload("recovery", recovery, 6, 60),
    Workload("no_variation", no_variation, 60, 700),
]
