"""P24: prior predictions enter as calibrated per-row base values."""
import numpy as np
import pandas as pd

from lib import gen, ref
from props.common import (NOSEASON, Workload, composed, link_scale, output_step, price_term, scale_of, train)

RULE = "an evaluation trains an estimator with a prior-prediction column and without it, derives every row's base value from base value, weights and priors alone, and compares it with the first observed prediction and with predictions of new rows; non-trivial if both trainings returned"
ASSUMPTIONS = ["the base value is taken from the training of the same data without a prior column",
               "re-trainings on rescaled priors are compared after a fixed number of iterations, numerically minimised losses only before the first"]
MIN_EVENTS = {"row_bases_checked": 4000, "new_rows_checked": 2000, "rescaled_trainings": 60, "constant_priors": 40,
              "pairs_checked": 1500, "fallback_rows_checked": 300}

KINDS = [k for k in gen.ZOO if k not in ("gbs", "nbinomc")]
STEADY = [k for k in KINDS if k not in gen.SLOW and k != "locpoisson"]


def domain(kind):
    """Priors the link can and cannot transform."""
    if kind in ref.LOG:
        return [0.0, -1.0, -0.0, -1e-9, np.nan, np.inf, -np.inf]
    if kind in ref.LOGIT:
        return [0.0, 1.0, -0.5, 1.5, np.nan, np.inf, -np.inf]
    return [np.nan, np.inf, -np.inf]


def priors(rng, s, n):
    y = np.asarray(s.y, dtype=float)
    if s.kind in ref.LOGIT:
        p = rng.rand(n) * 0.96 + 0.02
    elif s.kind in ref.LOG:
        p = np.exp(rng.normal(size=n) * rng.choice([0.3, 1.0, 2.0])) * (np.mean(y) + 0.1) * rng.choice([1e-3, 1.0, 50.0])
    else:
        p = rng.normal(size=n) * (np.std(y) + 0.1) + rng.choice([0.0, 1.0, -5.0]) * (np.mean(y) + 1)
    how = rng.choice(["clean", "some", "many"])
    if how != "clean":
        m = rng.rand(n) < (0.1 if how == "some" else 0.6)
        m[0] = False
        p[m] = rng.choice(domain(s.kind), int(m.sum()))
    return p


def mean_prior(s, p, w):
    f = np.isfinite(p)
    w = np.ones(len(p)) if w is None else np.asarray(w, dtype=float)
    if not w[f].sum() > 0:
        return np.nan
    return float(np.sum(p[f] * w[f]) / np.sum(w[f]))


def row_base(s, base, mean, p):
    """Link-scale base value of rows from their priors."""
    with np.errstate(all="ignore"):
        out = ref.link(s.kind, np.asarray(p, dtype=float)) + (base - ref.link(s.kind, mean))
    bad = ~np.isfinite(out)
    return np.where(bad, base, out), bad


def first_link(s, rec):
    b = ref.link(s.kind, rec.preds[0])
    return b - price_term(s.X) if s.kind == "exponential" else b


def set_prior(s, p):
    s.X = s.X.copy()
    s.X["prior"] = p
    s.spec.prior = np.asarray(p, dtype=float)
    s.kwargs["prior_prediction_column"] = "prior"


def base_of(ctx, s):
    """The base value: what training starts from without priors."""
    keep = s.kwargs.pop("prior_prediction_column", None)
    est, rec = train(ctx, s)
    if keep is not None:
        s.kwargs["prior_prediction_column"] = keep
    if not rec.preds:
        return None, None, None
    return float(first_link(s, rec)[0]), est, rec


def close_link(ctx, s, got, want, what):
    if s.kind in ref.LOG + ref.LOGIT:
        ctx.close(got, want, what, rtol=1e-9, atol=1e-8)
    else:
        ctx.close(got, want, what, rtol=1e-9, atol=1e-9 * scale_of(want))


def close_prediction(ctx, s, got, link, what, atol=0.0):
    want = output_step(s, ref.unlink(s.kind, link))
    if s.kind in ref.LOGIT:
        ctx.close(got, want, what, rtol=1e-8, atol=1e-11)
    else:
        sc = 1 + scale_of(link) if s.kind in ref.LOG else 1
        ctx.close(got, want, what, rtol=1e-9 * sc, atol=1e-300 if s.kind in ref.LOG else 1e-9 * link_scale(s, link))


def scenario(ctx, kinds=KINDS, **kw):
    return gen.zoo(ctx.rng, kinds=kinds, prior=False, **kw)


def check_model(ctx, s, p, frame=None):
    base, _, _ = base_of(ctx, s)
    if base is None:
        return
    set_prior(s, p)
    est, rec = train(ctx, s)
    if not rec.preds:
        return
    mean = mean_prior(s, s.spec.prior, s.spec.w)
    want, bad = row_base(s, base, mean, s.spec.prior)
    close_link(ctx, s, first_link(s, rec), want, "base values of the training rows")
    ctx.event("row_bases_checked", len(want))
    ctx.event("fallback_rows_checked", int(bad.sum()))
    if est is None:
        return
    ctx.sig(s.signature(), "w" if s.spec.w is not None else "", int(bad.any()), int(np.isfinite(mean)))
    # new rows with new priors
    X, cols, _ = gen.probe_rows(ctx.rng, s, 40)
    q = priors(ctx.rng, s, 40)
    X["prior"] = q
    b, bad = row_base(s, base, mean, q)
    lp = composed(s, est.get_feature_contributions(X.copy()), b, X)
    got = s.proba(est, X.copy())
    close_prediction(ctx, s, got, lp, "prediction of new rows")
    ctx.event("new_rows_checked", len(X))
    ctx.event("fallback_rows_checked", int(bad.sum()))
    # what the other rows of a prediction carry does not matter
    i = ctx.rng.permutation(len(X))[:5]
    ctx.close(s.proba(est, X.iloc[i].copy()), got[i], "prediction of a few of the rows", rtol=1e-13, atol=1e-300)
    return est, base, mean


def formula(ctx):
    s = scenario(ctx)
    check_model(ctx, s, priors(ctx.rng, s, len(s.y)))


def weighted(ctx):
    """Weights of widely different size, zero weights on finite priors."""
    s = scenario(ctx, weights=True, kinds=[k for k in KINDS if k not in gen.SLOW])
    w = np.asarray(s.spec.w, dtype=float) * np.exp(ctx.rng.normal(size=len(s.y)) * 2)
    w[ctx.rng.rand(len(w)) < 0.2] = 0.0
    w[0] = w[1] = 1.0
    s.spec.w = w
    s.X["w"] = w
    p = priors(ctx.rng, s, len(s.y))
    # the mean of the priors depends on which rows count
    p[w == 0] = p[w == 0] * (10 if s.kind not in ref.LOGIT else 1.0)
    check_model(ctx, s, p)


def degenerate(ctx):
    """Priors whose mean the link cannot transform, integers, one valid prior only."""
    s = scenario(ctx, kinds=[k for k in KINDS if k not in gen.SLOW])
    n = len(s.y)
    how = ctx.rng.choice(["missing", "outside", "integer", "single"])
    if how == "missing":
        p = np.full(n, np.nan)
    elif how == "outside":
        p = priors(ctx.rng, s, n)
        if s.kind in ref.LOG:
            p[: n // 2] = -1e6 * (1 + np.abs(scale_of(p)))
        elif s.kind in ref.LOGIT:
            p[: n // 2] = 7.0
            p[n // 2:] = ctx.rng.rand(n - n // 2) * 0.5 + 0.2
        else:
            p = np.where(ctx.rng.rand(n) < 0.5, np.inf, np.nan)
    elif how == "integer":
        p = ctx.rng.randint(0 if s.kind in ref.LOG + ref.LOGIT else -9, 9, n) if s.kind not in ref.LOGIT else None
        if p is None:
            p = ctx.rng.randint(0, 2, n)
        p[0] = 1
    else:
        p = np.full(n, np.nan)
        i = int(ctx.rng.randint(n)) if s.spec.w is None else int(np.argmax(s.spec.w))
        p[i] = 0.4
    ctx.sig(str(how))
    if how in ("missing", "outside"):
        base, plain, prec = base_of(ctx, s)
        if plain is None:
            return
        set_prior(s, p)
        est, rec = train(ctx, s)
        if est is None:
            return
        close_link(ctx, s, first_link(s, rec), np.full(n, base), "base values without a usable mean prior")
        ctx.event("row_bases_checked", n)
        ctx.event("fallback_rows_checked", n)
        X, cols, _ = gen.probe_rows(ctx.rng, s, 40)
        X["prior"] = priors(ctx.rng, s, 40)
        lp = composed(s, est.get_feature_contributions(X.copy()), np.full(40, base), X)
        close_prediction(ctx, s, s.proba(est, X.copy()), lp, "prediction without a usable mean prior")
        ctx.event("new_rows_checked", 40)
    else:
        check_model(ctx, s, p)


def compare_runs(ctx, s, a, b, what):
    """Two trainings: equal start and, where training is steady, equal outcome."""
    (ea, ra), (eb, rb) = a, b
    close_link(ctx, s, first_link(s, rb), first_link(s, ra), "%s: base values" % what)
    ctx.event("row_bases_checked", len(s.y))
    if ea is None or eb is None:
        return
    if s.kind not in STEADY:
        return
    if ra.n_iter != rb.n_iter:
        ctx.event("iteration_counts_differ")
        return
    sc = scale_of(ra.final)
    ctx.close(rb.final, ra.final, "%s: trained prediction" % what, rtol=1e-6, scale=1e-3 * sc)
    ctx.event("trained_predictions_compared")


STILL = dict(minimal_loss_change=0.0, minimal_factor_change=0.0)


def rescaled(ctx):
    s = scenario(ctx, kinds=[k for k in KINDS if k not in ref.LOGIT], shapes=NOSEASON)
    p = priors(ctx.rng, s, len(s.y))
    set_prior(s, p)
    with np.errstate(all="ignore"):
        if not np.isfinite(ref.link(s.kind, mean_prior(s, p, s.spec.w))):
            return
    a = train(ctx, s, **STILL)
    if s.kind in ref.LOG:
        f = float(ctx.rng.choice([0.5, 2.0, 10.0, 1e-6, 1e6, 1.1]))
        set_prior(s, p * f)
    else:
        f = float(ctx.rng.choice([1.0, -3.0, 100.0])) * (scale_of(s.y) + 1)
        set_prior(s, p + f)
    b = train(ctx, s, **STILL)
    if not a[1].preds or not b[1].preds:
        return
    ctx.event("rescaled_trainings")
    ctx.sig(s.signature())
    compare_runs(ctx, s, a, b, "priors %s %g" % ("times" if s.kind in ref.LOG else "plus", f))


def constant(ctx):
    s = scenario(ctx, shapes=NOSEASON)
    a = train(ctx, s, **STILL)
    n = len(s.y)
    c = float(ctx.rng.rand() * 0.9 + 0.05) if s.kind in ref.LOGIT else float(np.exp(ctx.rng.normal() * 2))
    if s.kind not in ref.LOG + ref.LOGIT and ctx.rng.rand() < 0.5:
        c = -c
    p = np.full(n, c)
    if ctx.rng.rand() < 0.4:
        m = ctx.rng.rand(n) < 0.3
        m[0] = False
        # outside the domain but finite values would move the mean
        p[m] = ctx.rng.choice([np.nan, np.inf, -np.inf], int(m.sum()))
        if s.spec.w is not None and not s.spec.w[~m].sum() > 0:
            p[:] = c
    set_prior(s, p)
    b = train(ctx, s, **STILL)
    if not a[1].preds or not b[1].preds:
        return
    ctx.event("constant_priors")
    ctx.sig(s.signature())
    compare_runs(ctx, s, a, b, "constant prior")


def ratios(ctx):
    """Rows that differ in nothing but the prior."""
    s = scenario(ctx)
    set_prior(s, priors(ctx.rng, s, len(s.y)))
    est, rec = train(ctx, s)
    with np.errstate(all="ignore"):
        usable = np.isfinite(ref.link(s.kind, mean_prior(s, s.spec.prior, s.spec.w)))
    if est is None or not usable:
        return
    ctx.sig(s.signature())
    X, cols, _ = gen.probe_rows(ctx.rng, s, 30)
    X = X.drop(columns=["prior"])
    if s.spec.w is not None:
        X = X.drop(columns=["w"]) if ctx.rng.rand() < 0.5 else X
    m = len(X)

    def valid():
        if s.kind in ref.LOGIT:
            return ctx.rng.rand(m) * 0.98 + 0.01
        v = np.exp(ctx.rng.normal(size=m) * 2)
        return v if s.kind in ref.LOG else v * ctx.rng.choice([-1.0, 1.0], m)

    p, q = valid(), valid()
    u, v = s.proba(est, X.assign(prior=p)), s.proba(est, X.assign(prior=q))
    if s.kind in ref.LOG:
        ok = (u > 1e-290) & (v > 1e-290) & np.isfinite(u) & np.isfinite(v)
        ctx.close((u / v)[ok], (p / q)[ok], "ratio of predictions against ratio of priors", rtol=1e-8)
    elif s.kind in ref.LOGIT:
        ok = (np.maximum(u, v) < 1 - 1e-4) & (np.minimum(u, v) > 1e-200)
        ctx.close((u / (1 - u) / (v / (1 - v)))[ok], (p / (1 - p) / (q / (1 - q)))[ok],
                  "ratio of odds against odds of priors", rtol=1e-8)
    else:
        ok = (u > 0) & (v > 0) if s.kind == "locpoisson" else np.ones(m, dtype=bool)
        ctx.close((u - v)[ok], (p - q)[ok], "difference of predictions against difference of priors", rtol=1e-9,
                  atol=1e-9 * (scale_of(u) + scale_of(v) + 1))
    ctx.event("pairs_checked", int(ok.sum()))
    # a missing prior is the base value: equal for all such rows
    bad = ctx.rng.choice(domain(s.kind), m)
    t = s.proba(est, X.assign(prior=bad))
    ctx.same(t, s.proba(est, X.assign(prior=np.nan)), "prediction without a usable prior")
    ctx.event("fallback_rows_checked", m)


def arrays(ctx):
    """Plain arrays: the prior is one of the columns, addressed by its position."""
    s = scenario(ctx, kinds=["poisson", "nbinom", "location", "classifier"])
    p = priors(ctx.rng, s, len(s.y))
    set_prior(s, p)
    names = list(s.X.columns)
    pos = {c: i for i, c in enumerate(names)}
    kw = dict(s.kwargs)

    def groups(gs):
        return [tuple(pos[c] for c in g) if isinstance(g, tuple) else pos[g] for g in gs]

    if any(k in kw for k in ("smoother_choice", "hierarchical_feature_groups", "external_feature_groups")):
        return
    frame_model, rec = train(ctx, s)
    kw["feature_groups"] = groups(kw["feature_groups"])
    kw["feature_properties"] = {pos[c]: v for c, v in kw["feature_properties"].items()}
    kw["prior_prediction_column"] = pos["prior"]
    if "weight_column" in kw:
        kw["weight_column"] = pos["w"]
    if frame_model is None:
        return
    over = {k: kw[k] for k in ("feature_groups", "feature_properties", "prior_prediction_column") if k in kw}
    if "weight_column" in kw:
        over["weight_column"] = kw["weight_column"]
    est = s.build(None, **over)
    est.fit(s.X.values.astype(float), s.y.copy())
    got = est.predict_proba(s.X.values.astype(float))[:, 1] if s.kind == "classifier" else est.predict(
        s.X.values.astype(float))
    ctx.close(got, s.proba(frame_model, s.frame()), "array against frame", rtol=1e-12, atol=1e-300)
    ctx.event("array_models")
    ctx.sig(s.signature())


WORKLOADS = [
    Workload("large", gen.enlarged(formula), 16, 200),
    Workload("formula", formula, 200, 4000),
    Workload("weighted", weighted, 140, 2500),
    Workload("degenerate", degenerate, 120, 1800),
    Workload("rescaled", rescaled, 100, 1600),
    Workload("constant", constant, 110, 1600),
    Workload("ratios", ratios, 150, 2200),
    Workload("arrays", arrays, 60, 800),
]
