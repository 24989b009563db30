"""P07: predictions are finite and inside the model's range; factor limits hold."""
import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import common_smoothers, flags, learning_rate
from cyclic_boosting.utils import ConvergenceError

from lib import gen, ref
from props.common import Workload, diverging_scenario, external_keys, price_term, standard_keys, train

RULE = "an evaluation trains one of the 13 estimators on hostile data and checks its predictions, probabilities and contributions for known, unseen, missing and out-of-range rows; non-trivial if training returned"
ASSUMPTIONS = ["target magnitudes between 1e-12 and 1e12", "finite prior exponents and price ratios of moderate size"]
MIN_EVENTS = {"trainings": 100, "predictions_checked": 5000, "factors_checked": 500, "updates_checked": 200, "exponent_limits_reached_1d": 5, "exponent_limits_reached_2d": 5}


def in_range(ctx, s, est, X, what):
    n = len(X)
    if s.kind == "classifier":
        pr = np.asarray(est.predict_proba(X.copy()))
        ctx.check(pr.shape == (n, 2), "%s: probabilities of shape %s" % (what, pr.shape))
        ctx.check(np.isfinite(pr).all(), "%s: probabilities not finite" % what)
        ctx.check(((pr >= 0) & (pr <= 1)).all(), "%s: probabilities outside [0, 1]" % what)
        ctx.check(np.allclose(pr.sum(axis=1), 1.0, rtol=0, atol=1e-12), "%s: probabilities do not sum to one" % what)
        cl = np.asarray(est.predict(X.copy()))
        ctx.check(cl.shape == (n,) and np.isin(cl, [0, 1]).all(), "%s: class other than 0 and 1" % what)
    p = s.proba(est, X.copy())
    ctx.check(p.shape == (n,), "%s: %s predictions for %d rows" % (what, p.shape, n))
    if s.kind == "exponential":
        # a product of large exponents may exceed the range of numbers
        con = est.get_feature_contributions(X.copy())
        power = np.prod([con[k] for k in external_keys(s)], axis=0) * price_term(X)
        p = p[np.abs(power) < 600]
    ctx.check(np.isfinite(p).all(), "%s: prediction not finite in row %s" % (what, np.argwhere(~np.isfinite(p))[:1]))
    if s.kind in ("poisson", "nbinom"):
        ctx.check((p > 0).all(), "%s: prediction not positive: %s" % (what, p.min()))
    elif s.kind in ("mgeneric", "mquantile", "exponential", "locpoisson"):
        ctx.check((p >= 0).all(), "%s: negative prediction %s" % (what, p.min()))
    elif s.kind in ref.LOGIT:
        ctx.check(((p >= 0) & (p <= 1)).all(), "%s: prediction outside [0, 1]: %s %s" % (what, p.min(), p.max()))
    ctx.event("predictions_checked", n)


def hostile_rows(rng, s, m=80):
    X, cols, prior = gen.probe_rows(rng, s, m)
    for c in s.names:
        v = np.asarray(X[c], dtype=float)
        bad = rng.rand(m) < 0.15
        v[bad] = rng.choice([1e9, 2.0 ** 52, -2.0 ** 52, 1e15, -0.0, -1e-3, 3e5], int(bad.sum()))
        X[c] = v
    if "prior" in X:
        bad = rng.rand(m) < 0.3
        X.loc[bad, "prior"] = rng.choice([np.nan, np.inf, -np.inf, 0.0, -3.0, 1e-8, 1e6, 1.0], int(bad.sum()))
    return X


def hostile_target(rng, s):
    n = len(s.y)
    how = str(rng.choice(["scale", "zero", "one", "outlier", "keep"]))
    y = s.y
    if s.kind in ref.LOGIT and s.kind != "nbinomc":
        if how == "zero":
            y[:] = 0.0
        elif how == "one":
            y[:] = 1.0
        elif how == "outlier":
            v = float(rng.rand() < 0.5)
            y[:] = v
            y[rng.randint(n)] = 1 - v
        return how
    if how == "scale":
        y[:] = np.floor(y * 50) if s.kind == "nbinomc" else y * 10.0 ** rng.randint(-9, 9)
    elif how == "zero":
        y[:] = 0.0
        if s.kind == "gbs":
            y[rng.randint(n)] = 1.0
            if s.spec.w is not None:
                s.spec.w[:] = 1.0
                s.X["w"] = s.spec.w
    elif how == "one":
        y[:] = 1.0
    elif how == "outlier":
        y[rng.randint(n)] = (200.0 if s.kind == "nbinomc" else 10.0 ** rng.randint(3, 9)) * (np.abs(y).max() + 1)
        if s.kind == "nbinomc":
            y[:] = np.floor(y)
    return how


def verify(ctx, s, limits=True):
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature(), ctx.index)
    in_range(ctx, s, est, s.frame(), "training rows")
    X = hostile_rows(ctx.rng, s)
    in_range(ctx, s, est, X, "new rows")
    con = est.get_feature_contributions(X.copy())
    for k, c in con.items():
        c = np.asarray(c, dtype=float)
        ctx.check(c.shape == (len(X),) and np.isfinite(c).all(), "contribution of %s not finite" % k)
    damped = max(rec.losses) > 2 * rec.losses[0] * (1 - 1e-9)
    if s.kind in ref.LOG and s.spec.aggregate and limits and not damped:
        for k, g in list(zip(standard_keys(s), s.spec.groups)):
            lo, hi = (0.01, 1000.0) if len(g) == 1 else (0.1, 100.0)
            c = con[k]
            ctx.check((c >= lo * (1 - 1e-9)).all() and (c <= hi * (1 + 1e-9)).all(),
                      "factor of %s outside [%s, %s]: %s %s" % (k, lo, hi, c.min(), c.max()))
            ctx.event("factors_checked", len(c))
        for k, g in list(zip(external_keys(s), getattr(s, "external", []))):
            lo, hi = (0.05, 20.0) if len(g) == 1 else (0.1, 5.0)
            c = con[k]
            ctx.check((c >= lo * (1 - 1e-9)).all() and (c <= hi * (1 + 1e-9)).all(),
                      "exponent factor of %s outside [%s, %s]: %s %s" % (k, lo, hi, c.min(), c.max()))
        if s.kind != "exponential":
            m = len(s.spec.groups)
            seq = rec.preds[1:] + [rec.final]
            for i, p in enumerate(seq):
                r = p / rec.preds[i]
                r = r[~((p == 0) & (rec.preds[i] == 0))]  # a quantile model of base value zero
                if not len(r):
                    continue
                ctx.check((r <= 2.0 ** m * (1 + 1e-9)).all() and (r >= 0.5 ** m * (1 - 1e-9)).all(),
                          "iteration %d changes a prediction by %s to %s with %d features" % (i, r.min(), r.max(), m))
                ctx.event("updates_checked", len(r))


def zoo(ctx):
    s = gen.zoo(ctx.rng, stop=str(ctx.rng.choice(["never", "default"])))
    ctx.describe(target=hostile_target(ctx.rng, s))
    verify(ctx, s)


def strong_price(ctx):
    """Price effects far beyond what an exponent factor may reach."""
    rng = ctx.rng
    n, k = int(rng.choice([200, 600])), int(rng.randint(2, 4))
    a, b = rng.randint(0, k, n), rng.randint(0, 2, n)
    price = 1.0 - rng.choice([0.0, 0.02, 0.05, 0.1, 0.15], n) * (1.0 if rng.rand() < 0.5 else 2.0)
    true = rng.choice([0.0, 0.01, 1.0, 12.0, 60.0], k)
    true[rng.randint(k)] = rng.choice([30.0, 60.0])
    y = rng.poisson(np.minimum(rng.choice([1.0, 5.0]) * np.exp(-true[a] * (price - 1)), 1e6)).astype(float)
    if not y.any():
        return
    X = pd.DataFrame(dict(a=a.astype(float), b=b.astype(float), price=price))
    ext = [["a"], [("a", "b")], ["a", ("a", "b")]][rng.randint(3)]
    var = float(rng.choice([1.0, 1e3, 1e6]))
    ctx.describe(rows=n, external=ext, true=true.tolist(), var_prior=var)
    rec = gen.Recorder()
    est = cb.CBExponential("price", ["b"], ext, var_prior_exponent=var, maximal_iterations=int(rng.choice([10, 30])), minimal_loss_change=1e-12,
                           minimal_factor_change=1e-12, learn_rate=learning_rate.constant_learn_rate_one if rng.rand() < 0.5 else None, observers=[rec],
                           feature_properties={c: flags.IS_UNORDERED for c in "ab"}, smoother_choice=common_smoothers.NoSmootherChoice(use_normalization=False))
    try:
        est.fit(X.copy(), y.copy())
    except ConvergenceError:
        return
    ctx.event("trainings")
    ctx.sig(n, k, ext, var, y[:4].tolist())
    p = np.asarray(est.predict(X.copy()), dtype=float)
    ctx.check(np.isfinite(p).all() and (p > 0).all(), "a prediction is not finite and positive")
    if max(rec.losses) > 2 * rec.losses[0] * (1 - 1e-9):
        return
    con = est.get_feature_contributions(X.copy())
    for g in ext:
        g = (g,) if isinstance(g, str) else g
        c = np.asarray(con[" ".join(g) + "_external"], dtype=float)
        lo, hi = (0.05, 20.0) if len(g) == 1 else (0.1, 5.0)
        ctx.check((c >= lo * (1 - 1e-9)).all() and (c <= hi * (1 + 1e-9)).all(), "exponent factor of %s outside [%s, %s]: %s %s" % (g, lo, hi, c.min(), c.max()))
        ctx.event("exponent_limits_reached_%dd" % len(g), int((c > hi * 0.999).any()) + int((c < lo * 1.001).any()))


def tiny(ctx):
    """Very few rows, many missing."""
    s = gen.zoo(ctx.rng, n=int(ctx.rng.randint(1, 6)), max_dim=3)
    if s.kind == "gbs" and s.spec.w is not None and not s.spec.w[s.y != 0].sum() > 0:
        return
    if ctx.rng.rand() < 0.5:
        ctx.describe(target=hostile_target(ctx.rng, s))
    verify(ctx, s)


def strong(ctx):
    """Effects far beyond the limits, one feature at a time."""
    kind = str(ctx.rng.choice(["poisson", "nbinom", "mgeneric", "mquantile"]))
    n = 60 if kind in gen.SLOW else 200
    d = ctx.rng.randint(1, 3)
    names = ["a", "b"][:d]
    s = gen.zoo(ctx.rng, kinds=[kind], n=n, n_cols=d, groups=[tuple(names)], stop="never", lr="one", hier=False,
                max_iter=16 if kind not in gen.SLOW else 8, shapes=[{"UNORDERED"}], missing=bool(ctx.rng.rand() < 0.5),
                aggregate=True, smoother=("none", True, True) if ctx.rng.rand() < 0.5 else ("wm", True, True))
    k = np.nan_to_num(s.cols["a"], nan=3, posinf=3, neginf=3)
    s.y[:] = (1 + s.y) * 10.0 ** (np.where(k == 0, 0, np.where(k == 1, 7, 3)))
    if kind == "mquantile":
        s.y[k == 2] = 0.0
    verify(ctx, s)


def damped(ctx):
    verify(ctx, diverging_scenario(ctx.rng, aggregate=ctx.rng.rand() < 0.7), limits=False)


def empty(ctx):
    """Zero rows give zero predictions."""
    s = gen.zoo(ctx.rng, kinds=["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier", "exponential"])
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    X = s.frame().iloc[:0]
    p = s.proba(est, X)
    ctx.check(len(p) == 0, "%d predictions for no rows" % len(p))
    X1 = s.frame().iloc[:1]
    in_range(ctx, s, est, X1, "single row")


WORKLOADS = [
    Workload("large", gen.enlarged(zoo), 24, 300),
    Workload("zoo", zoo, 600, 8000),
    Workload("tiny", tiny, 150, 2000),
    Workload("strong", strong, 120, 1200),
    Workload("strong_price", strong_price, 40, 400),
    Workload("damped", damped, 20, 200),
    Workload("empty", empty, 60, 500),
]
