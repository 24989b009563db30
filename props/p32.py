"""P32: invalid input is rejected before it can corrupt a model."""
import numpy as np
import pandas as pd
from sklearn.base import clone as sk_clone

import cyclic_boosting as cb
import cyclic_boosting.observers
from cyclic_boosting import common_smoothers, flags, pipelines
from cyclic_boosting import quantile_matching as qm
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer
from cyclic_boosting.smoothing import onedim
from cyclic_boosting.utils import ConvergenceError

from lib import gen
from props.common import Workload, same_model

RULE = "an evaluation hands one invalid thing among valid ones to the real code and observes whether it raises, what it changed and whether valid input is accepted afterwards; all are non-trivial"
ASSUMPTIONS = ["weights, learning rates and values of features are not validated by the package and are always valid here",
               "infinite targets of count models and targets of the background-subtraction model are not validated by the package"]
MIN_EVENTS = {"rejections": 900, "accepted": 200, "trained_after_rejection": 25}

COUNTS = ("poisson", "nbinom", "nbinomc", "exponential", "mquantile", "mgeneric")
REAL = ("location", "locpoisson", "aquantile", "ageneric")
BINARY = ("classifier", "gclassifier")


def offending(rng, kind):
    if kind in COUNTS:
        return float(rng.choice([-1.0, -1e-9, -1e6, np.nan, -np.inf, -5e-324]))
    if kind in REAL:
        return float(rng.choice([np.nan, np.inf, -np.inf]))
    return float(rng.choice([np.nan, 2.0, -1.0, 0.5, 1e-9, 1 - 1e-12, np.inf, 255.0]))


def small(rng, kind=None, **kw):
    kind = kind or str(rng.choice([k for k in gen.ZOO if k != "gbs"]))
    kw.setdefault("n", int(rng.choice([5, 20, 50])))
    return gen.scenario(rng, kind=kind, max_bins=4, max_dim=2, max_iter=2, **kw)


def rejected(ctx, f, what):
    ctx.raises(f, what, Exception)
    ctx.event("rejections")


def snapshot(X, y):
    return (X.copy(), list(X.columns), X.dtypes.tolist(), np.array(y, copy=True))


def unchanged(ctx, X, y, snap, what):
    ctx.check(list(X.columns) == snap[1] and X.dtypes.tolist() == snap[2], "%s changed the caller's columns" % what)
    ctx.same(np.asarray(X, dtype=float), np.asarray(snap[0], dtype=float), "%s: the caller's data" % what)
    ctx.same(np.asarray(y, dtype=float), np.asarray(snap[3], dtype=float), "%s: the caller's target" % what)


def still_usable(ctx, s, est, what):
    """After rejected trainings, the estimator trains like a new one."""
    try:
        want = s.fit()
    except ConvergenceError:
        return
    est.fit(s.frame(), s.y.copy())
    same_model(ctx, s, est, want, s.frame(), "training after %s" % what)
    ctx.event("trained_after_rejection")


def not_trained(ctx, s, est, what):
    rejected(ctx, lambda: est.predict(s.frame()), "prediction after %s" % what)


def targets(ctx):
    rng = ctx.rng
    s = small(rng)
    n = len(s.y)
    bad = [offending(rng, s.kind) for _ in range(4)]
    ctx.describe(scenario=s.summary(), values=bad)
    ctx.sig(s.kind, n, bad[0])
    est = s.build()
    for v in bad:
        y = s.y.copy()
        where = int(rng.choice([0, n - 1, rng.randint(n)]))
        y[where] = v
        if rng.rand() < 0.2:
            y[rng.rand(n) < 0.3] = v
        X = s.frame()
        if s.spec.w is not None and rng.rand() < 0.3 and s.spec.w.sum() > s.spec.w[where] > 0:
            X.loc[where, "w"] = 0.0
        yy = pd.Series(y) if rng.rand() < 0.2 else y
        snap = snapshot(X, yy)
        what = "training of %s with a target of %r in row %d of %d" % (s.kind, v, where, n)
        rejected(ctx, lambda: est.fit(X, yy), what)
        unchanged(ctx, X, yy, snap, what)
    not_trained(ctx, s, est, "rejected targets")
    if rng.rand() < 0.5:
        still_usable(ctx, s, est, "rejected targets")


def structure(ctx):
    """Empty and mismatched data, unknown columns, no groups."""
    rng = ctx.rng
    s = small(rng, kind=str(rng.choice(gen.ZOO)))
    n = len(s.y)
    ctx.describe(scenario=s.summary())
    ctx.sig(s.kind, n, len(s.names))
    first = s.build()
    extra = int(rng.randint(1, 4))
    for X, y, what in (
        (s.frame().iloc[:0], s.y[:0].copy(), "empty data"),
        (s.frame().iloc[:0], s.y.copy(), "data without rows"),
        (s.frame(), s.y[:0].copy(), "an empty target"),
        (s.frame(), np.r_[s.y, s.y[:extra]], "a target that is too long"),
        (s.frame(), s.y[: max(1, n - extra)].copy(), "a target that is too short"),
        (s.frame().iloc[: max(1, n - extra)], s.y.copy(), "a frame that is too short"),
    ):
        what = "training of %s with %s" % (s.kind, what)
        snap = snapshot(X, y)
        rejected(ctx, lambda: first.fit(X, y), what)
        unchanged(ctx, X, y, snap, what)
    used = sorted({c for g in list(s.spec.groups) + list(getattr(s, "external", [])) for c in g})
    need = list(used)
    for k in ("weight_column", "prior_prediction_column", "mean_prediction_column", "external_colname", "prior_exponent_colname"):
        if s.kwargs.get(k):
            need.append(s.kwargs[k])
    for c in need:
        what = "training of %s without the column %s" % (s.kind, c)
        X, y = s.frame().drop(columns=c), s.y.copy()
        snap = snapshot(X, y)
        rejected(ctx, lambda: first.fit(X, y), what)
        unchanged(ctx, X, y, snap, what)
    not_trained(ctx, s, first, "rejected data")
    key = "standard_feature_groups" if s.kind == "exponential" else "feature_groups"
    if s.kind != "exponential":
        rejected(ctx, lambda: s.fit(**{key: []}), "training of %s with an empty list of groups" % s.kind)
    else:
        rejected(ctx, lambda: s.fit(**{key: None}), "training of the price model without groups")
        rejected(ctx, lambda: s.fit(**{key: [], "external_feature_groups": []}), "training of the price model with empty groups")
    names = [g if len(g) > 1 else g[0] for g in s.spec.groups]
    g = [names + ["nowhere"], ["nowhere"] + names, names + [(s.names[0], "nowhere")]][rng.randint(3)]
    rejected(ctx, lambda: s.fit(**{key: g}), "training of %s with the groups %s" % (s.kind, g))
    if s.kind not in ("nbinomc",):
        rejected(ctx, lambda: s.fit(weight_column="nowhere"), "training of %s with an unknown weight column" % s.kind)
    if s.kind != "gbs":
        rejected(ctx, lambda: s.fit(prior_prediction_column="nowhere"), "training of %s with an unknown prior column" % s.kind)
    if rng.rand() < 0.4:
        still_usable(ctx, s, first, "rejected data")


def untrained(ctx):
    """Nothing is answered before training, or without the needed columns."""
    rng = ctx.rng
    s = small(rng, kind=str(rng.choice(gen.ZOO)))
    ctx.describe(scenario=s.summary())
    est = s.build(output_column="out")
    ctx.sig(s.kind, len(s.names), len(s.y))

    def calls(e, X):
        out = [("predict", lambda: e.predict(X.copy())), ("get_feature_contributions", lambda: e.get_feature_contributions(X.copy())),
               ("transform", lambda: e.transform(X.copy()))]
        if hasattr(e, "predict_proba"):
            out.append(("predict_proba", lambda: e.predict_proba(X.copy())))
        return out

    for e, what in ((est, "an untrained"), (sk_clone(est), "a cloned")):
        for name, f in calls(e, s.frame()) + [("get_feature_importances", e.get_feature_importances)]:
            rejected(ctx, f, "%s of %s %s" % (name, what, s.kind))
    try:
        est.fit(s.frame(), s.y.copy())
    except ConvergenceError:
        return
    rejected(ctx, lambda: sk_clone(est).predict(s.frame()), "prediction of an untrained clone of a trained %s" % s.kind)
    used = sorted({c for g in list(s.spec.groups) + list(getattr(s, "external", [])) for c in g})
    gone = str(rng.choice(used))
    for name, f in calls(est, s.frame().drop(columns=gone)):
        rejected(ctx, f, "%s of %s without the column %s" % (name, s.kind, gone))
    for k in ("prior_prediction_column", "external_colname", "prior_exponent_colname"):
        if s.kwargs.get(k) and k in est.get_params():
            rejected(ctx, lambda: est.predict(s.frame().drop(columns=s.kwargs[k])), "prediction of %s without its %s" % (s.kind, k))
    X = s.frame()
    X["out"] = 1.0
    rejected(ctx, lambda: est.transform(X), "transform onto an existing column")
    rejected(ctx, lambda: sk_clone(est).fit_transform(X, s.y.copy()), "fit_transform onto an existing column")
    rejected(ctx, lambda: s.fit().transform(s.frame()), "transform without an output column")
    rejected(ctx, lambda: est.transform(s.frame().values), "transform of an array")
    cats = {g: "all" for g in s.spec.groups}
    if s.kind in ("poisson", "location", "classifier", "nbinom") and len(cats) > 1:
        cats.pop(s.spec.groups[rng.randint(len(s.spec.groups))])
        if hasattr(est, "predict_extended"):
            rejected(ctx, lambda: est.predict_extended(s.frame(), cats), "an extended prediction without a category for each group")
    ctx.check(np.isfinite(np.asarray(est.predict(s.frame()), dtype=float)).all(), "prediction after rejected calls")
    ctx.event("accepted")


def required(ctx):
    """The columns reported as required are enough for training and prediction, and training needs each of them."""
    rng = ctx.rng
    s = small(rng, kind=str(rng.choice([k for k in gen.ZOO])), n_cols=3, groups=None if rng.rand() < 0.5 else [
        tuple(str(c) for c in rng.permutation(["a", "b", "c"])), (str(rng.choice(["a", "b", "c"])),)])
    req = set(s.build([]).required_columns())
    F = s.frame()
    F["unused"] = rng.normal(size=len(F))
    ctx.describe(scenario=s.summary(), required=sorted(map(str, req)))
    ctx.check(req <= set(F.columns) and "unused" not in req, "reported as required: %s of %s" % (sorted(req), list(F.columns)))
    try:
        want = s.fit([], X=F.copy())
    except ConvergenceError:
        return
    ctx.sig(s.signature())
    F = F[[c for c in F.columns if c in req]]
    est = s.fit([], X=F.copy())
    ctx.event("accepted")
    X, _, _ = gen.probe_rows(rng, s, 20)
    ctx.same(s.proba(est, X[[c for c in X.columns if c in req]]), s.proba(want, X), "prediction with required columns only")
    ctx.check(set(est.required_columns()) == req, "columns required after training: %s, before: %s" % (
        sorted(est.required_columns()), sorted(req)))
    for c in sorted(req):
        rejected(ctx, lambda: s.build([]).fit(F.drop(columns=[c]), s.y.copy()), "training without the required column %s" % c)


def binning(ctx):
    rng = ctx.rng
    cls = [BinNumberTransformer, ECdfTransformer][rng.randint(2)]
    n, k = int(rng.choice([8, 40])), int(rng.randint(1, 4))
    cols = list("abc")[:k]
    X = pd.DataFrame(rng.normal(size=(n, k)), columns=cols)
    asarray = rng.rand() < 0.3
    data = X.values if asarray else X
    fp = {(i if asarray else c): flags.IS_CONTINUOUS for i, c in enumerate(cols)} if rng.rand() < 0.7 else None
    ctx.describe(transformer=cls.__name__, array=asarray, columns=k, properties=fp is not None)
    ctx.sig(cls.__name__, asarray, k, n, fp is not None)
    t = cls(n_bins=int(rng.randint(2, 9)), feature_properties=fp)
    rejected(ctx, lambda: t.transform(data), "transform of an untrained %s" % cls.__name__)
    rejected(ctx, lambda: t.fit(data[:0]), "training of %s on no rows" % cls.__name__)
    t.fit(data)
    want = np.asarray(t.transform(data), dtype=float)
    if k > 1:
        less = data[:, : k - 1] if asarray else data.drop(columns=str(rng.choice(cols)))
        rejected(ctx, lambda: t.transform(less), "%s with a column less" % cls.__name__)
    if fp is None:
        more = np.c_[data, data[:, :1]] if asarray else data.assign(z=1.0)
        rejected(ctx, lambda: t.transform(more), "%s with a column more" % cls.__name__)
    if not asarray:
        rejected(ctx, lambda: t.transform(data.rename(columns={cols[0]: "other"})), "%s with another column" % cls.__name__)
    for nb in (1, 0, -3):
        rejected(ctx, lambda: cls(n_bins=nb, feature_properties=fp).fit(data), "%s with %d bins" % (cls.__name__, nb))
    rejected(ctx, lambda: cls(n_bins=5, weight_column=17 if asarray else "nowhere", feature_properties=fp).fit(data), "%s with an unknown weight column" % cls.__name__)
    bad = [flags.IS_CONTINUOUS | flags.IS_UNORDERED, flags.IS_ORDERED | flags.IS_UNORDERED, flags.IS_CONTINUOUS | flags.IS_ORDERED,
           flags.HAS_MISSING, flags.IS_CONTINUOUS | flags.INCREASING | flags.DECREASING]
    for b in bad:
        p = {(i if asarray else c): flags.IS_CONTINUOUS for i, c in enumerate(cols)}
        p[sorted(p)[rng.randint(k)]] = b
        rejected(ctx, lambda: cls(n_bins=5, feature_properties=p).fit(data), "%s with the flags %d" % (cls.__name__, b))
    ctx.same(np.asarray(t.transform(data), dtype=float), want, "transform after rejected calls")
    for ok in (flags.IS_CONTINUOUS | flags.HAS_MISSING, flags.IS_ORDERED | flags.MISSING_NOT_LEARNED, flags.IS_UNORDERED,
               flags.IS_CONTINUOUS | flags.IS_LINEAR, flags.IS_MONOTONIC | flags.INCREASING, flags.IS_CONTINUOUS | flags.IS_SEASONAL):
        p = {(i if asarray else c): ok for i, c in enumerate(cols)}
        r = cls(n_bins=2, feature_properties=p).fit(data).transform(data)
        ctx.check(np.asarray(r).shape == (n, k), "%s with the flags %d" % (cls.__name__, ok))
        ctx.event("accepted")


def options(ctx):
    rng = ctx.rng
    kind = str(rng.choice(gen.ZOO))
    s = small(rng, kind=kind, n=5)
    ctx.describe(kind=kind)
    ctx.sig(kind, len(s.names), float(s.y.sum()))
    for o in ("weighted", 3, onedim.WeightedMeanSmoother(), object()):
        rejected(ctx, lambda: s.build(smoother_choice=o), "%s with the smoother choice %r" % (kind, o))
    for cls in (common_smoothers.SmootherChoiceWeightedMean, common_smoothers.SmootherChoiceGroupBy, common_smoothers.NoSmootherChoice):
        for e in ({"a": onedim.WeightedMeanSmoother()}, {("a",): "smoother"}, {("a", 1): onedim.WeightedMeanSmoother()}, {("a",): None}):
            rejected(ctx, lambda: cls(explicit_smoothers=e), "%s with the explicit smoothers %r" % (cls.__name__, e))
        cls(explicit_smoothers={("a",): onedim.WeightedMeanSmoother()})
        ctx.event("accepted")
    rejected(ctx, lambda: cyclic_boosting.observers.PlottingObserver(iteration=0), "an observer for iteration zero")
    rejected(ctx, lambda: cyclic_boosting.observers.PlottingObserver().check_fitted(), "an observer that saw nothing")
    for e in (None, "CBPoissonRegressor", object):
        rejected(ctx, lambda: pipelines.pipeline_CB(estimator=e, feature_groups=["a"]), "a pipeline of %r" % (e,))


def distributions(ctx):
    rng = ctx.rng
    q = np.sort(rng.rand(3)) * 3 + np.array([1.0, 1.2, 1.4])
    a = float(rng.choice([0.1, 0.25]))
    swaps = [(q[1], q[0], q[2]), (q[0], q[2], q[1]), (q[2], q[1], q[0]), (q[1], q[2], q[0])]
    ctx.describe(quantiles=q, alpha=a)
    ctx.sig(round(q[0], 2), a)
    makers = dict(
        J_QPD_S=lambda *t, **k: qm.J_QPD_S(a, *t, l=0.5, **k),
        J_QPD_B=lambda *t, **k: qm.J_QPD_B(a, *t, l=0.5, u=9.0, **k),
        J_QPD_extended_U=lambda *t, **k: qm.J_QPD_extended_U(a, *t, **k),
        J_QPD_extended_S=lambda *t, **k: qm.J_QPD_extended_S(a, *t, l=0.5, **k),
        J_QPD_extended_B=lambda *t, **k: qm.J_QPD_extended_B(a, *t, l=0.5, u=9.0, **k),
    )
    for name, make in makers.items():
        for t in swaps:
            rejected(ctx, lambda: make(*t), "%s with the quantiles %s" % (name, t))
        rejected(ctx, lambda: make(*q, version="cauchy"), "%s with an unknown distribution" % name)
        for v in ("normal", "logistic"):
            make(*q, version=v)
        ctx.event("accepted", 2)
    # one row out of order among many
    n = int(rng.randint(2, 30))
    Q = np.sort(rng.rand(3, n), axis=0) * 4 + np.array([[1.0], [1.1], [1.2]])
    i = int(rng.choice([0, n - 1, rng.randint(n)]))
    R = Q.copy()
    j = int(rng.randint(2))
    R[[j, j + 1], i] = R[[j + 1, j], i]
    rejected(ctx, lambda: qm.J_QPD_S(a, *R, l=0.5), "J_QPD_S with the quantiles of row %d of %d out of order" % (i, n))
    rejected(ctx, lambda: qm.J_QPD_B(a, *R, l=0.5, u=9.0), "J_QPD_B with the quantiles of row %d of %d out of order" % (i, n))
    qm.J_QPD_S(a, *Q, l=0.5)
    qm.J_QPD_B(a, *Q, l=0.5, u=9.0)
    p, v = np.array([0.1, 0.4, 0.6, 0.9]), np.array([2.0, 3.0, 4.0, 6.0])
    for f in (qm.quantile_fit_gaussian, qm.quantile_fit_gamma, qm.quantile_fit_nbinom):
        rejected(ctx, lambda: f(p, v, mode="pdf"), "%s with an unknown mode" % f.__name__)
    rejected(ctx, lambda: qm.fit_sinhlogistic_shape(0.25, 0.0, 9.0, "X", rng.rand(50) + 1), "a shape fit with an unknown bound")
    m = [cb.CBAdditiveQuantileRegressor(quantile=x, feature_groups=["a"], maximal_iterations=1) for x in (0.5, a, 1 - a)]
    X = pd.DataFrame({"a": rng.randint(0, 3, 20).astype(float)})
    y = rng.rand(20) + 1
    rejected(ctx, lambda: qm.QPD_RegressorChain(*m, bound="X", l=0.0, u=9.0).fit(X, y), "a chain with an unknown bound")
    ctx.event("accepted", 2)


def valid(ctx):
    """Unusual but valid input trains."""
    rng = ctx.rng
    kind = str(rng.choice([k for k in gen.ZOO if k not in ("mquantile", "aquantile")]))
    s = small(rng, kind=kind, n=int(rng.choice([1, 2, 5, 30])), prior=False, weights=False)
    ctx.describe(scenario=s.summary())
    style = str(rng.choice(["plain", "zero", "constant", "extra", "twice", "series", "list", "ints", "bools"]))
    y, X, over = s.y.copy(), s.frame(), {}
    if style == "zero" and kind in ("poisson", "nbinom", "nbinomc", "classifier", "location"):
        y[:] = rng.choice([0.0, -0.0])
    elif style == "constant" and kind not in BINARY:
        y[:] = 4.0
    elif style == "extra":
        X["unused"] = rng.choice([np.nan, np.inf, 3.0], len(y))
        X["text"] = "x"
    elif style == "twice" and kind in ("poisson", "location", "classifier"):
        over["feature_groups"] = [s.names[0], s.names[0]]
    elif style == "series":
        y = pd.Series(y, index=np.arange(len(y)) + 100)
    elif style == "ints" and kind in COUNTS + BINARY:
        y = np.floor(y).astype(np.int64)
    elif style == "bools" and kind == "classifier":
        y = y.astype(bool)
    if kind == "gbs" and not np.any(np.asarray(y) != 0):
        y[:] = 1.0
    ctx.sig(kind, style, len(y), len(s.names))
    est = s.build(**over)
    try:
        est.fit(X, y)
    except ConvergenceError:
        return
    p = np.asarray(est.predict(X), dtype=float)
    ctx.check(p.shape == (len(y),), "prediction of shape %s" % (p.shape,))
    e = est.predict(X.iloc[:0])
    ctx.check(len(e) == 0, "prediction of no rows")
    ctx.event("accepted")


WORKLOADS = [
    Workload("large", gen.enlarged(valid), 8, 100),
    Workload("targets", targets, 90, 2000),
    Workload("structure", structure, 60, 1200),
    Workload("untrained", untrained, 60, 1000),
    Workload("required", required, 60, 1000),
    Workload("binning", binning, 60, 1000),
    Workload("options", options, 20, 300),
    Workload("distributions", distributions, 30, 500),
    Workload("valid", valid, 200, 3000),
]
