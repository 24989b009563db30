"""P06: predictions decompose exactly into reported contributions."""
import numpy as np
import pandas as pd

import cyclic_boosting as cb

from lib import gen, ref
from props.common import (Workload, composed, price_term, diverging_scenario, external_keys, link_scale, output_step, scale_of,
                          standard_keys, train)

RULE = "an evaluation trains one of the 13 estimators, composes its base value and reported contributions for training rows and hostile new rows, and compares with its predictions; non-trivial if training returned"
ASSUMPTIONS = ["base values are taken from the prediction observed before the first iteration",
               "finite prior exponents for the price model"]
MIN_EVENTS = {"trainings": 100, "rows_composed": 2000, "equal_bins_checked": 200}


def group_ids(X, group):
    """One id per combination of bins; all missing combinations share one."""
    M = np.array([np.asarray(X[c], dtype=float) for c in group]).T
    bad = (~np.isfinite(M) | (M < 0)).any(axis=1)
    M = np.where(bad[:, None], -1.0, M)
    _, ids = np.unique(M, axis=0, return_inverse=True)
    return ids.ravel()


def check_rows(ctx, s, est, X, base_link, what):
    con = est.get_feature_contributions(X.copy())
    keys = standard_keys(s) + external_keys(s)
    ctx.check(sorted(con) == sorted(keys), "contributions reported for %s instead of %s" % (sorted(con), sorted(keys)))
    lp = composed(s, con, base_link, X)
    want = output_step(s, ref.unlink(s.kind, lp))
    got = s.proba(est, X.copy())
    sc = link_scale(s, lp) * (1 + max(1.0, scale_of(lp)) if s.kind in ref.LOG + ref.LOGIT else 1)
    if s.kind in ref.LOGIT:
        ctx.close(got, want, "%s: prediction against base and contributions" % what, rtol=1e-8, atol=1e-11)
    else:
        ctx.close(got, want, "%s: prediction against base and contributions" % what, rtol=1e-9 * sc,
                  atol=1e-300 if s.kind in ref.LOG else 1e-10 * scale_of(lp))
    ctx.event("rows_composed", len(X))
    for g in list(s.spec.groups) + list(getattr(s, "external", [])):
        for ext in (False, True):
            k = " ".join(g) + ("_external" if ext else "")
            if k not in con:
                continue
            c = np.asarray(con[k], dtype=float)
            ids = group_ids(X, g)
            first = np.zeros(ids.max() + 1)
            first[ids[::-1]] = c[::-1]
            ctx.same(c, first[ids], "%s: contribution of %s within equal bins" % (what, k))
            ctx.event("equal_bins_checked", len(first))


def verify(ctx, s):
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    base = ref.link(s.kind, rec.preds[0])
    if s.kind == "exponential":
        # the first prediction already has the prior exponent in it
        base = base - price_term(s.X)
    check_rows(ctx, s, est, s.frame(), base, "training rows")
    X, cols, prior = gen.probe_rows(ctx.rng, s, 60)
    if prior is None:
        ctx.close(base, np.full(len(base), base[0]), "base value equal for all rows", rtol=1e-12)
        b = np.full(len(X), base[0])
    else:
        # a row's base value depends on its prior only
        order = {}
        for p, v in zip(np.asarray(s.spec.prior, dtype=float), base):
            order[np.float64(p).tobytes()] = v
        b = np.array([order[np.float64(p).tobytes()] for p in np.asarray(prior, dtype=float)])
    check_rows(ctx, s, est, X, b, "new rows")
    return est, X, b


def zoo(ctx):
    verify(ctx, gen.zoo(ctx.rng))


def price(ctx):
    verify(ctx, gen.zoo(ctx.rng, kinds=["exponential"]))


def damped(ctx):
    verify(ctx, diverging_scenario(ctx.rng, aggregate=ctx.rng.rand() < 0.7))


def categories(ctx):
    """Contributions summed up by influence category."""
    s = gen.zoo(ctx.rng, kinds=["poisson", "nbinom", "location", "classifier", "gbs", "exponential"], n_cols=3)
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    X, cols, prior = gen.probe_rows(ctx.rng, s, 40)
    cats = {}
    for g in s.spec.groups:
        k = g[0] if len(g) == 1 and ctx.rng.rand() < 0.5 else g
        cats[k] = str(ctx.rng.choice(["holiday", "trend", "promo"]))
    plain = est.predict_extended(X.copy(), None).predict_link()
    ext = est.predict_extended(X.copy(), dict(cats))
    ctx.close(ext.predict_link(), plain, "prediction with influence categories", rtol=1e-12, atol=1e-12)
    con = est.get_feature_contributions(X.copy())
    sc = link_scale(s, plain)
    for name in sorted(set(cats.values())):
        want = np.zeros(len(X))
        for g, c in cats.items():
            if c == name:
                want = want + ref.link(s.kind, con[g if isinstance(g, str) else " ".join(g)])
        ctx.close(ext.df[name].values, want, "sum of influence category %s" % name, rtol=1e-8, atol=1e-9 * sc)
        ctx.event("categories_checked")


def joined(ctx):
    """Labels with blanks: every group has an entry of its own."""
    rng = ctx.rng
    n = 40
    X = pd.DataFrame(rng.randint(0, 3, (n, 3)).astype(float), columns=["a", "b", "a b"])
    groups = ["a b", ("a", "b")]
    ctx.describe(groups=groups)
    ctx.sig(int(X.sum().sum()))
    est = cb.CBPoissonRegressor(feature_groups=groups, maximal_iterations=2)
    est.fit(X.copy(), rng.poisson(3.0, n).astype(float))
    con = est.get_feature_contributions(X.copy())
    ctx.check(len(con) == len(groups), "%d contributions for the groups %s" % (len(con), groups), mech="joined-names")


WORKLOADS = [
    Workload("large", gen.enlarged(zoo), 24, 300),
    Workload("zoo", zoo, 700, 9000),
    Workload("price", price, 80, 1000),
    Workload("damped", damped, 20, 200),
    Workload("categories", categories, 100, 1200),
    Workload("joined", joined, 2, 4),
]
