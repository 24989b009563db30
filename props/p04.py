"""P04: caller's data and arguments are never modified."""
import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import binning, common_smoothers, flags, interaction_selection, pipelines, smoothing, utils
from cyclic_boosting import quantile_matching as qm
from cyclic_boosting.utils import ConvergenceError

from lib import gen
from props.common import Workload, overshooting
from props.p09 import labels, retype

RULE = "an evaluation takes deep snapshots of every argument (bytes, types, labels, columns, nested options) before a public call and compares them bit for bit afterwards; non-trivial if at least one argument is mutable data"
ASSUMPTIONS = ["observers are exempt, they exist to record", "the output column appended by transform is documented"]
MIN_EVENTS = {"calls_watched": 3000, "arguments_compared": 6000}


def snap(v, depth=0):
    """A deep description of a value that changes when the value does."""
    if isinstance(v, pd.DataFrame):
        return ("frame", type(v).__name__, [str(c) for c in v.columns], [str(d) for d in v.dtypes], snap(v.index),
                [snap(v.iloc[:, i].to_numpy()) for i in range(v.shape[1])])
    if isinstance(v, pd.Series):
        return ("series", str(v.name), str(v.dtype), snap(v.index), snap(v.to_numpy()))
    if isinstance(v, pd.Index):
        return ("index", type(v).__name__, str(v.name), str(v.dtype), [repr(i) for i in v])
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objects", v.shape, [repr(i) for i in v.ravel()])
        return ("array", v.dtype.str, v.shape, v.flags.writeable, v.tobytes())
    if isinstance(v, dict):
        return ("dict", [(repr(k), snap(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x, depth + 1) for x in v])
    if isinstance(v, smoothing.base.AbstractBinSmoother):
        return ("smoother", type(v).__name__, snap({k: x for k, x in vars(v).items()}, depth + 1))
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return repr(v)
    return ("object", id(v))


class Watch(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, what, fn, *args, watch=None, **kw):
        objs = list(args) + list(kw.values()) if watch is None else list(watch)
        before = [snap(o) for o in objs]
        out = fn(*args, **kw)
        self.ctx.event("calls_watched")
        for i, (o, b) in enumerate(zip(objs, before)):
            self.ctx.check(snap(o) == b, "%s changed its argument %d (%s)" % (what, i, type(o).__name__))
            self.ctx.event("arguments_compared")
        return out


def target_form(rng, y):
    k = rng.randint(4)
    if k == 0:
        return pd.Series(y, name="t")
    if k == 1 and (y == np.floor(y)).all() and np.abs(y).max() < 2 ** 31:
        return y.astype(np.int64)
    return y.copy()


def estimators(ctx):
    rng = ctx.rng
    s = gen.zoo(rng)
    ctx.describe(scenario=s.summary())
    X = s.frame()
    # values at and beyond what any clipping inside might touch
    if "prior" in X and s.kind in ("nbinomc", "classifier", "gclassifier"):
        X["prior"] = rng.choice([0.0, 1.0, 0.5, 1e-9, 1 - 1e-9, 0.3], len(X)) if s.kind == "nbinomc" else X["prior"]
    X.index = labels(rng, len(X))
    if rng.rand() < 0.5:
        X = retype(rng, X, s.names)
    y = target_form(rng, s.y)
    if isinstance(y, pd.Series):
        y.index = X.index
    W = Watch(ctx)
    kw = dict(s.kwargs)
    groups = {k: kw[k] for k in kw if isinstance(kw[k], (list, dict))}
    if rng.rand() < 0.4 and "smoother_choice" not in kw:
        explicit = {(c,): smoothing.onedim.WeightedMeanSmoother() for c in s.names}
        choice = common_smoothers.SmootherChoiceWeightedMean(explicit_smoothers=explicit)
        kw["smoother_choice"] = choice
        groups["explicit_smoothers"] = explicit
    held = snap(groups)
    over = {k: kw[k] for k in kw if k not in s.kwargs}
    est = s.build(None, output_column="out", **over)
    rec = gen.Recorder() if rng.rand() < 0.5 else None
    try:
        if rec:
            est.observers = [rec]
        W("fit", est.fit, X, y)
    except ConvergenceError:
        ctx.event("rejected")
        return
    ctx.sig(s.signature())
    P, _, _ = gen.probe_rows(rng, s)
    P.index = labels(rng, len(P))
    W("predict", est.predict, P)
    W("predict on the training data", est.predict, X)
    if s.kind == "classifier":
        W("predict_proba", est.predict_proba, P)
    W("get_feature_contributions", est.get_feature_contributions, P)
    if s.kind != "exponential":
        cats = {g if len(g) > 1 else g[0]: "k%d" % (i % 2) for i, g in enumerate(s.spec.groups)}
        if hasattr(est, "predict_extended"):
            cats = {g: "k%d" % (i % 2) for i, g in enumerate(s.spec.groups)}
            W("predict_extended", est.predict_extended, P, cats)
    imp = est.get_feature_importances()
    ctx.check(snap(imp) == snap(est.get_feature_importances()), "importances change from call to call")
    # transform may append its column, nothing else
    before = snap(P)
    Q = P.copy()
    T = est.transform(Q)
    ctx.check(snap(Q.drop(columns=["out"], errors="ignore")) == before, "transform changed other columns than its output")
    ctx.check(snap(T.drop(columns=["out"])) == before, "transform returns other columns than its input")
    # a column that is there already is never overwritten
    Q = P.copy()
    Q.insert(int(rng.randint(Q.shape[1] + 1)), "out", rng.normal(size=len(Q)))
    before = snap(Q)
    try:
        (est.transform if rng.rand() < 0.7 else lambda Z: s.build(None, output_column="out", **over).fit_transform(Z, np.resize(s.y, len(Z))))(Q)
    except KeyError:
        ctx.event("rejected_outputs")
    ctx.check(snap(Q) == before, "a column named like the output was overwritten")
    ctx.check(snap(groups) == held, "groups, properties or smoothers passed to the constructor were changed")
    ctx.event("calls_watched", 2)


def readonly(ctx):
    """Data that cannot be written to is accepted."""
    rng = ctx.rng
    s = gen.zoo(rng, kinds=[k for k in gen.ZOO if k not in ("gclassifier", "mquantile", "aquantile")])
    ctx.describe(scenario=s.summary())
    order = list(s.X.columns)
    A = s.X.to_numpy(dtype=float).copy()
    A.flags.writeable = False
    X = pd.DataFrame(A, columns=order, copy=False)
    y = s.y.copy()
    y.flags.writeable = False
    W = Watch(ctx)
    est = s.build()
    try:
        W("fit", est.fit, X, y, watch=[A, y, X])
    except ConvergenceError:
        return
    W("predict", est.predict, X, watch=[A, X])
    ctx.sig(s.signature())


def binners(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 20, 200]))
    X = pd.DataFrame({"c": rng.normal(size=n), "d": rng.randint(0, 5, n), "e": rng.choice([1.5, np.nan, -9.0, 3.0], n),
                      "other": rng.rand(n), "w": rng.randint(0, 3, n).astype(float) + 0.5})
    X.index = labels(rng, n)
    p = {"c": flags.IS_CONTINUOUS, "d": flags.IS_UNORDERED, "e": flags.IS_ORDERED | flags.HAS_MAGIC_INT_MISSING}
    W = Watch(ctx)
    use_w = rng.rand() < 0.5
    nb = {"c": 5, "d": 5, "e": 5} if rng.rand() < 0.5 else 5
    for cls in (binning.BinNumberTransformer, binning.ECdfTransformer):
        held = snap([p, nb])
        t = cls(n_bins=nb, feature_properties=p, weight_column="w" if use_w else None)
        W(cls.__name__ + ".fit", t.fit, X, None if rng.rand() < 0.5 else rng.rand(n))
        W(cls.__name__ + ".transform", t.transform, X)
        W(cls.__name__ + ".transform of new data", t.transform, X.iloc[rng.permutation(n)])
        W(cls.__name__ + ".fit_transform", cls(n_bins=nb, feature_properties=p).fit_transform, X)
        A = X.to_numpy()
        ta = cls(n_bins=5, feature_properties={0: p["c"], 1: p["d"], 2: p["e"]}, weight_column=4 if use_w else None)
        W(cls.__name__ + ".fit of an array", ta.fit, A)
        W(cls.__name__ + ".transform of an array", ta.transform, A)
        B = np.ascontiguousarray(A[:, :1])
        tb = cls(n_bins=3)
        W(cls.__name__ + ".fit of one column", tb.fit, B)
        W(cls.__name__ + ".transform of one column", tb.transform, B)
        I = rng.randint(0, 9, (n, 2))
        ti = cls(n_bins=3, feature_properties={0: flags.IS_UNORDERED, 1: flags.IS_CONTINUOUS})
        W(cls.__name__ + ".fit of integers", ti.fit, I)
        W(cls.__name__ + ".transform of integers", ti.transform, I)
        ctx.check(snap([p, nb]) == held, "feature properties or bin numbers changed")
    if n > 1:
        W("build_binned_interaction_features", interaction_selection.build_binned_interaction_features, X, [("c", "d"), ("d", "e")], p, 4)
    if n > 50:
        W("select_interaction_terms_anova", interaction_selection.select_interaction_terms_anova, X, rng.rand(n), p, 2, 1)
    W("multidim_binnos_to_lexicographic_binnos", utils.multidim_binnos_to_lexicographic_binnos,
      np.c_[rng.randint(-1, 3, n).astype(float), rng.choice([0.0, 1.0, np.nan], n)])
    ctx.sig(n, ctx.index)


def smoothers(ctx):
    rng = ctx.rng
    n = int(rng.choice([4, 7, 12]))
    X = np.c_[np.arange(n, dtype=float), rng.choice([0.0, 1.0, 5.0], n), rng.rand(n) * 2 + 0.1]
    X[0, 1] = 1.0
    X[-1, 1] = 2.0
    y = rng.normal(size=n)
    D, M, E = smoothing.onedim, smoothing.meta_smoother, smoothing.extrapolate
    one = [D.BinValuesSmoother(), D.RegularizeToPriorExpectationSmoother(0.5), D.RegularizeToOneSmoother(),
           D.WeightedMeanSmoother(), D.WeightedMeanSmoother(0.0), D.WeightedMeanSmootherNeighbors(), D.OrthogonalPolynomialSmoother(),
           D.SeasonalSmoother(), D.SeasonalLassoSmoother(min_days=7), D.PolynomialSmoother(2), D.LinearSmoother(True),
           D.UnivariateSplineSmoother(k=1), D.LSQUnivariateSpline([n / 2.0], 1), D.IsotonicRegressor(),
           D.PriorExpectationMetaSmoother(D.WeightedMeanSmoother(), 0.0), E.LinearExtrapolator(),
           M.NormalizationSmoother(D.WeightedMeanSmoother(0.0)), M.NormalizationSmoother(D.BinValuesSmoother()),
           M.RegressionTypeSmoother(D.BinValuesSmoother(), M.RegressionType.discontinuous),
           M.NormalizationRegressionTypeSmoother(D.OrthogonalPolynomialSmoother(), M.RegressionType.interpolating),
           M.SectionSmoother(n // 2, D.LinearSmoother(), D.PolynomialSmoother(1))]
    W = Watch(ctx)
    P = np.c_[np.r_[rng.uniform(0, n - 1, 5), np.arange(n), [n + 3.0]]]
    if rng.rand() < 0.5:
        P = np.c_[P, np.zeros(len(P)), np.ones(len(P))]
    for sm in one:
        name = type(sm).__name__
        W(name + ".fit", sm.fit, X, y)
        W(name + ".predict", sm.predict, P)
        W(name + ".predict at the bins", sm.predict, X)
        a = np.array(sm.predict(X))
        b = np.array(sm.predict(X))
        ctx.check(a.tobytes() == b.tobytes(), "%s: predicting changed the smoother" % name)
    k, m = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    X2 = np.c_[np.repeat(np.arange(k), m), np.tile(np.arange(m), k), rng.choice([0.0, 1.0, 3.0], k * m), rng.rand(k * m) + 0.1].astype(float)
    X2[0, 2] = 1.0
    y2 = rng.normal(size=k * m)
    MD = smoothing.multidim
    two = [MD.BinValuesSmoother(), MD.RegularizeToPriorExpectationSmoother(0.0), MD.RegularizeToOneSmoother(), MD.WeightedMeanSmoother(),
           MD.WeightedMeanSmoother(0.0), MD.PriorExpectationMetaSmoother(MD.BinValuesSmoother(), 0.0),
           MD.Neutralize2DMetaSmoother(MD.BinValuesSmoother()), MD.GroupBySmoother(D.WeightedMeanSmoother(0.0), 2),
           MD.GroupBySmootherCB(D.WeightedMeanSmoother(0.0), 2),
           M.NormalizationRegressionTypeSmoother(MD.WeightedMeanSmoother(0.0), M.RegressionType.discontinuous)]
    for sm in two:
        name = "multidim " + type(sm).__name__
        W(name + ".fit", sm.fit, X2, y2)
        W(name + ".predict", sm.predict, np.ascontiguousarray(X2[:, :2]))
    ctx.sig(n, y[:3].tolist())


def helpers(ctx):
    rng = ctx.rng
    n = int(rng.choice([3, 8, 30]))
    W = Watch(ctx)
    v, u, w, b = rng.normal(size=n), rng.rand(n) + 0.1, rng.rand(n) + 0.1, rng.randint(0, 3, n).astype(float)
    W("regularize_to_prior_expectation", utils.regularize_to_prior_expectation, v, u, 0.0)
    W("regularize_to_error_weighted_mean", utils.regularize_to_error_weighted_mean, v, u)
    W("regularize_to_error_weighted_mean", utils.regularize_to_error_weighted_mean, v, u, 0.0)
    W("regularize_to_error_weighted_mean_neighbors", utils.regularize_to_error_weighted_mean_neighbors, v, u)
    W("neutralize_one_dim_influence", utils.neutralize_one_dim_influence, np.outer(v, v), np.outer(u, u))
    W("calc_means_medians", utils.calc_means_medians, b, v)
    W("calc_means_medians", utils.calc_means_medians, b, v, w)
    W("calc_weighted_quantile", utils.calc_weighted_quantile, b, v, w, 0.3)
    W("continuous_quantile_from_discrete_pdf", utils.continuous_quantile_from_discrete_pdf, np.round(v), 0.4, w)
    W("weighted_stddev", utils.weighted_stddev, v, w)
    W("linear_regression", utils.linear_regression, v, u, w)
    W("get_normalized_values", utils.get_normalized_values, list(w))
    W("not_seen_events", utils.not_seen_events, np.c_[b], np.array([1.0, 0.0, 2.0]), np.array([3]))
    W("slice_finite_semi_positive", utils.slice_finite_semi_positive, np.c_[b, v])
    W("digitize", utils.digitize, v, np.array([-1.0, 0.0, 1.0]))
    lo, me, hi = np.sort(rng.rand(3, n) * 0.8 + 0.1, axis=0)
    q, x = np.array([0.1, 0.5, 0.8]), np.array([0.2, 0.5, 0.9])
    for d in (W("J_QPD_S", qm.J_QPD_S, 0.2, lo, me, hi, 0), W("J_QPD_B", qm.J_QPD_B, 0.2, lo, me, hi, 0, 1)):
        W("ppf", d.ppf, q)
        W("cdf", d.cdf, x)
        W("inner ppf", d.ppf, np.full(n, 0.3), inner=True)
        W("inner cdf", d.cdf, np.full(n, 0.3), inner=True)
        ctx.check(snap([lo, me, hi]) == snap([lo.copy(), me.copy(), hi.copy()]), "quantile arrays changed")
    for d in (qm.J_QPD_extended_U(0.2, lo[0], me[0], hi[0]), qm.J_QPD_extended_S(0.2, lo[0], me[0], hi[0]),
              qm.J_QPD_extended_B(0.2, lo[0], me[0], hi[0])):
        W("extended ppf", d.ppf, q)
        W("extended cdf", d.cdf, x)
    y = rng.gamma(2.0, size=60) + 0.01
    W("fit_sinhlogistic_shape", qm.fit_sinhlogistic_shape, 0.25, 0.0, 100.0, "S", y)
    qs = np.array([0.1, 0.3, 0.5, 0.7, 0.9])
    vals = np.sort(rng.normal(size=5))
    W("quantile_fit_gaussian", qm.quantile_fit_gaussian, qs, vals)
    W("quantile_fit_spline", qm.quantile_fit_spline, qs, vals)
    ctx.sig(n, v[:3].tolist())


def chains(ctx):
    """Pipelines and the quantile chain."""
    rng = ctx.rng
    n = 80
    X = pd.DataFrame({"c": rng.normal(size=n), "d": rng.randint(0, 4, n), "w": rng.rand(n) + 0.5, "extra": rng.rand(n)})
    X.index = labels(rng, n)
    y = rng.poisson(np.exp(0.3 * X["c"].to_numpy()) * 2).astype(float)
    p = {"c": flags.IS_CONTINUOUS, "d": flags.IS_UNORDERED}
    groups = ["c", "d", ("c", "d")]
    held = snap([p, groups])
    W = Watch(ctx)
    kind = rng.randint(4)
    if kind == 3:
        def model(q):
            return cb.CBAdditiveQuantileRegressor(quantile=q, feature_groups=["c", "d"], feature_properties=p, maximal_iterations=2)
        B = binning.BinNumberTransformer(n_bins=4, feature_properties=p).fit_transform(X)
        chain = qm.QPD_RegressorChain(model(0.5), model(0.5), model(0.5), "S")
        t = y + 0.5
        W("QPD chain fit", chain.fit, B, t)
        W("QPD chain predict", chain.predict, B)
    else:
        make = [pipelines.pipeline_CBPoissonRegressor, pipelines.pipeline_CBLocationRegressor, pipelines.pipeline_CBClassifier][kind]
        t = (y > 2).astype(float) if kind == 2 else y
        if kind == 2:
            t[:2] = [0.0, 1.0]
        e = make(feature_groups=groups, feature_properties=p, number_of_bins=6, maximal_iterations=3,
                 weight_column="w" if rng.rand() < 0.5 else None)
        W("pipeline fit", e.fit, X, t)
        W("pipeline predict", e.predict, X)
        W("contributions of the pipeline's model", e[-1].get_feature_contributions, e[0].transform(X))
    ctx.check(snap([p, groups]) == held, "properties or groups changed")
    ctx.sig(kind, ctx.index)


def WARMUP():
    binning.ECdfTransformer(n_bins=3).fit(np.c_[np.arange(9.0)]).transform(np.c_[np.arange(9.0)])


WORKLOADS = [
    Workload("large", gen.enlarged(estimators), 12, 120),
    Workload("damped", overshooting(estimators), 10, 100),
    Workload("estimators", estimators, 250, 2500),
    Workload("readonly", readonly, 60, 500),
    Workload("binners", binners, 60, 500),
    Workload("smoothers", smoothers, 60, 500),
    Workload("helpers", helpers, 60, 500),
    Workload("chains", chains, 24, 150),
]
