"""P31: feature importances are a faithful normalised attribution."""
import numpy as np
import pandas as pd

import cyclic_boosting as cb

from lib import gen, ref
from props.common import ConvergenceError, Workload, diverging_scenario, train

RULE = "an evaluation trains an estimator and compares its importances with the mean absolute contributions it reports for the training rows; non-trivial if training returned"
ASSUMPTIONS = ["importances of models whose mean absolute contributions add up to less than 1e-6 are not normalised",
               "group names are compared as the labels joined by underscores"]
MIN_EVENTS = {"importances_compared": 400, "models_compared": 60, "names_checked": 60}


def key(group, external=False):
    return "_".join(str(c) for c in group) + ("_external" if external else "")


def contributions(s, est, X):
    """Contribution of every feature on the model's scale, by importance name."""
    con = est.get_feature_contributions(X)
    out = {}
    for g in s.spec.groups:
        out[key(g)] = ref.link(s.kind, np.asarray(con[" ".join(g)], dtype=float))
    for g in getattr(s, "external", []):
        out[key(g, True)] = np.log(np.asarray(con[" ".join(g) + "_external"], dtype=float))
    return out


def attribution(ctx, got, con, what):
    ctx.check(sorted(got) == sorted(con), "%s: importances of %s instead of %s" % (what, sorted(got), sorted(con)))
    v = np.array([float(got[k]) for k in sorted(con)])
    ctx.check(np.isfinite(v).all() and (v >= 0).all(), "%s: importances %s" % (what, v))
    size = np.array([np.mean(np.abs(con[k])) for k in sorted(con)])
    if not np.isfinite(size).all():
        ctx.event("saturated_skipped")
        return
    t = size.sum()
    if t > 2e-6:
        ctx.close(v.sum(), 1.0, "%s: sum of importances" % what, rtol=1e-9)
        # contributions pass through the link and back
        ctx.close(v, size / t, "%s: importances against mean absolute contributions" % what, rtol=1e-6, atol=1e-8 + 1e-13 / t)
    elif t < 1e-7:
        ctx.check(v.max() <= 1e-6, "%s: importances %s of a neutral model" % (what, v))
        ctx.event("neutral_models")
    ctx.event("importances_compared", len(v))


def verify(ctx, s):
    rng = ctx.rng
    est, rec = train(ctx, s, recorder=rng.rand() < 0.5)
    if est is None:
        return None
    ctx.sig(s.signature())
    first = dict(est.get_feature_importances())
    attribution(ctx, first, contributions(s, est, s.frame()), s.kind)
    P, _, _ = gen.probe_rows(rng, s, 30)
    est.predict(P)
    est.get_feature_contributions(s.frame())
    again = est.get_feature_importances()
    ctx.check(first == again, "importances after predictions: %s instead of %s" % (again, first))
    # what the caller does with the answer is their own affair
    for k in list(again):
        again[k] = -1.0
    again.clear()
    ctx.check(first == est.get_feature_importances(), "importances changed by the caller's use of the answer")
    return est


def general(ctx):
    verify(ctx, gen.zoo(ctx.rng))


def hard(ctx):
    """Hierarchies, missing values, damped training, constant targets."""
    rng = ctx.rng
    k = str(rng.choice(["hier", "missing", "diverging", "neutral"]))
    if k == "diverging":
        s = diverging_scenario(rng, hier=rng.rand() < 0.3)
    else:
        s = gen.scenario(rng, kinds=["poisson", "nbinom", "location", "classifier", "locpoisson"], hier=True if k == "hier" else None,
                         missing=True if k == "missing" else None)
        if k == "neutral":
            s.y = np.full(len(s.y), 1.0 if s.kind == "classifier" else 3.0)
            s.spec.y = s.y
    verify(ctx, s)


def history(ctx):
    """The importances are those of the last training and do not depend on the order of columns."""
    rng = ctx.rng
    s = gen.zoo(rng, kinds=["poisson", "nbinom", "location", "gbs", "classifier", "exponential", "nbinomc"])
    est, _ = train(ctx, s, recorder=False)
    if est is None:
        return
    ctx.sig(s.signature())
    want = est.get_feature_importances()
    other = s.build()
    keep = np.arange(len(s.y)) % 2 == 0
    w = s.spec.w if s.spec.w is not None else np.ones(len(s.y))
    if w[keep].sum() > 0 and not (s.kind == "gbs" and not (w * (s.y != 0))[keep].sum() > 0):
        try:
            other.fit(s.frame()[keep], s.y[keep].copy())
            other.get_feature_importances()
        except ConvergenceError:
            pass
    cols = list(s.X.columns)
    other.fit(s.frame()[[cols[i] for i in rng.permutation(len(cols))]], s.y.copy())
    ctx.check(other.get_feature_importances() == want, "importances of a second training: %s instead of %s" % (other.get_feature_importances(), want))
    names = sorted(want)
    ctx.check(sorted(est.get_feature_importances()) == names, "importances of the first model")
    ctx.event("models_compared")


def names(ctx):
    """Labels of any kind: every group has an entry of its own."""
    rng = ctx.rng
    n = int(rng.choice([30, 80]))
    style = str(rng.choice(["integers", "array", "mixed", "spaces", "prefix", "joined"]))
    labels = dict(integers=[0, 1, 2], array=[0, 1, 2], mixed=["a", 7, "c d"], spaces=["a b", "a", "b "], prefix=["a", "aa", "aaa"],
                  joined=["a", "b", "a_b"])[style]
    Z = np.c_[rng.randint(0, 4, n), rng.randint(0, 3, n), rng.randint(0, 5, n)].astype(float)
    y = rng.poisson(np.exp(0.3 * Z[:, 0] - 0.5 * Z[:, 1] + 0.1 * Z[:, 2])).astype(float)
    l0, l1, l2 = labels
    groups = [l0, l1, (l0, l1), (l1, l0)] if rng.rand() < 0.3 else [l0, l1, l2, (l0, l1), (l1, l2)]
    groups = [groups[i] for i in rng.permutation(len(groups))[: rng.randint(2, len(groups) + 1)]]
    if style == "joined":
        groups = [l2, (l0, l1)] + ([l0] if rng.rand() < 0.5 else [])
    ctx.describe(labels=labels, groups=groups)
    X = Z if style == "array" else pd.DataFrame(Z, columns=labels)
    name = str(rng.choice(["CBPoissonRegressor", "CBLocationRegressor"]))
    est = getattr(cb, name)(feature_groups=list(groups), maximal_iterations=3)
    est.fit(X, y)
    ctx.sig(style, repr(groups), name)
    imp, con = est.get_feature_importances(), est.get_feature_contributions(X)
    tup = [g if isinstance(g, tuple) else (g,) for g in groups]
    if style == "joined":
        ctx.check(len(imp) == len(groups), "%d importances for the groups %s" % (len(imp), groups), mech="joined-names")
    kind = "poisson" if name.startswith("CBP") else "location"
    got = {key(g): ref.link(kind, np.asarray(con[" ".join(map(str, g))], float)) for g in tup}
    attribution(ctx, imp, got, "labels %s" % labels)
    ctx.event("names_checked")


WORKLOADS = [
    Workload("large", gen.enlarged(general), 16, 200),
    Workload("general", general, 120, 3000),
    Workload("hard", hard, 120, 3000),
    Workload("history", history, 90, 2000),
    Workload("names", names, 90, 1500),
]
