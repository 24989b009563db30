"""P30: pipelines equal explicit binning followed by the estimator."""
import numpy as np
import pandas as pd
from sklearn.base import clone as sk_clone

import cyclic_boosting as cb
import cyclic_boosting.observers
from cyclic_boosting import learning_rate, pipelines
from cyclic_boosting.binning import BinNumberTransformer

from lib import gen, restore
from props.common import ConvergenceError, Workload
from props.p25 import plain, same_answers

RULE = "an evaluation builds a ready-made pipeline, trains and applies it on raw data and compares options, bins and answers bit for bit with binner and estimator built by hand; non-trivial if training returned"
ASSUMPTIONS = ["flags are declared for every feature column (otherwise the binner also bins weight and prior columns)"]
MIN_EVENTS = {"pipelines_built": 400, "options_compared": 6000, "pipelines_trained": 100, "answers_compared": 300}

COMMON = dict(feature_properties=None, weight_column=None, minimal_loss_change=1e-3, minimal_factor_change=1e-3,
              maximal_iterations=10, observers=None, smoother_choice=None, output_column=None, learn_rate=None)
PLAIN = dict(COMMON, feature_groups=None, hierarchical_feature_groups=None, aggregate=True)
PRIOR = dict(PLAIN, prior_prediction_column=None)
OPTIONS = dict(
    poisson=PRIOR, location=PRIOR, locpoisson=PRIOR, classifier=PRIOR,
    nbinom=dict(PRIOR, a=1.0, c=0.0),
    gbs=dict(PLAIN, regalpha=0.0),
    nbinomc=dict(COMMON, feature_groups=None, prior_prediction_column=None, mean_prediction_column=None, gamma=0.0, bayes=False, n_steps=15),
    exponential=dict(COMMON, prior_prediction_column=None, external_colname=None, standard_feature_groups=None,
                     external_feature_groups=None, var_prior_exponent=0.1, prior_exponent_colname=None, a=1.0, c=0.0),
    mquantile=dict(PRIOR, quantile=None), aquantile=dict(PRIOR, quantile=None),
    mgeneric=dict(PRIOR, costs=None), ageneric=dict(PRIOR, costs=None), gclassifier=dict(PRIOR, costs=None),
)


def some_value(rng, name):
    """A value of the option unlike its default."""
    num = lambda: float(np.round(rng.rand() * 3 + 0.01, 3))  # noqa: E731
    if name in ("feature_groups", "hierarchical_feature_groups", "standard_feature_groups", "external_feature_groups"):
        pool = ["a", "b", "c", ("a", "b"), ("b", "c"), ("a", "b", "c")]
        return [pool[i] for i in rng.permutation(len(pool))[: rng.randint(1, 4)]]
    if name == "feature_properties":
        return {c: gen.flag_int(gen.SHAPES[rng.randint(3)]) for c in "abc"}
    if name.endswith("column") or name.endswith("colname"):
        return "col_%d" % rng.randint(1000)
    if name == "maximal_iterations":
        return int(rng.randint(1, 10))
    if name == "n_steps":
        return int(rng.randint(16, 40))
    if name == "observers":
        return [cyclic_boosting.observers.PlottingObserver(iteration=int(rng.randint(1, 5)))]
    if name == "smoother_choice":
        return gen.make_choice([("wm", False, True), ("groupby", True, False), ("none", True, True)][rng.randint(3)])
    if name == "learn_rate":
        return getattr(learning_rate, gen.LEARN[str(rng.choice(sorted(gen.LEARN)))])
    if name == "aggregate":
        return False
    if name == "bayes":
        return True
    if name == "quantile":
        return float(np.round(rng.rand() * 0.9 + 0.05, 3))
    if name == "costs":
        return [gen.squared_costs, gen.logistic_costs][rng.randint(2)]
    return num()


def function(rng, kind):
    """The pipeline function, or the general one given the class."""
    name = gen.CLASSES[kind]
    if rng.rand() < 0.2:
        return lambda **kw: pipelines.pipeline_CB(estimator=getattr(cb, name), **kw)
    return getattr(pipelines, "pipeline_" + name)


def compare_options(ctx, pipe, kind, given, bins, inplace):
    opts = OPTIONS[kind]
    est = pipe.steps[-1][1]
    binner = pipe.steps[0][1]
    ctx.check(len(pipe.steps) == 2 and isinstance(binner, BinNumberTransformer), "steps of the pipeline: %s" % [n for n, _ in pipe.steps])
    ctx.check(type(est) is getattr(cb, gen.CLASSES[kind]), "the pipeline trains a %s" % type(est).__name__)
    full = dict(opts)
    full.update(given)
    hand = getattr(cb, gen.CLASSES[kind])(**full)
    got, want = est.get_params(deep=False), hand.get_params(deep=False)
    ctx.check(sorted(got) == sorted(want), "options of the estimator: %s" % sorted(got))
    for k in want:
        ctx.check(plain(got[k]) == plain(want[k]), "option %s of the %s is %r instead of %r" % (k, kind, got[k], want[k]))
        if given.get(k) is not None and not (k == "learn_rate" and given.get("hierarchical_feature_groups")):
            ctx.check(plain(want[k]) == plain(full[k]), "option %s given to %s is %r instead of %r" % (k, kind, want[k], full[k]))
        ctx.event("options_compared")
    for k in ("observers", "smoother_choice", "costs", "learn_rate"):
        if given.get(k) is not None and not (k == "learn_rate" and given.get("hierarchical_feature_groups")):
            ctx.check(got[k] is given[k] or plain(got[k]) == plain(given[k]), "option %s is not the object given" % k)
    b = binner.get_params(deep=False)
    ctx.check(b["n_bins"] == (100 if bins is None else bins), "number of bins %r instead of %r" % (b["n_bins"], bins))
    ctx.check(plain(b["feature_properties"]) == plain(full["feature_properties"]), "feature properties of the binner")
    ctx.check(bool(b["inplace"]) == bool(inplace), "inplace option of the binner")
    ctx.event("pipelines_built")
    return hand


def options(ctx):
    """Any set of options, without training; another pipeline built in between."""
    rng = ctx.rng
    kinds = [str(k) for k in rng.choice(gen.ZOO, 2)]
    made = []
    for kind in kinds:
        names = sorted(OPTIONS[kind])
        frac = float(rng.choice([0.0, 0.15, 0.5, 1.0]))
        given = {k: some_value(rng, k) for k in names if rng.rand() < frac or k in ("standard_feature_groups", "external_feature_groups")}
        extra = {}
        if rng.rand() < 0.5:
            extra["number_of_bins"] = int(rng.randint(2, 300))
        if rng.rand() < 0.3:
            extra["inplace"] = bool(rng.rand() < 0.5)
        made.append((function(rng, kind)(**dict(given, **extra)), kind, given, extra))
    ctx.describe(kinds=kinds, options=[sorted(m[2]) for m in made])
    ctx.sig(kinds, [sorted(m[2]) for m in made])
    for pipe, kind, given, extra in made:
        compare_options(ctx, pipe, kind, given, extra.get("number_of_bins"), extra.get("inplace", False))


SHAPES = [{"UNORDERED"}, {"ORDERED"}, {"CONTINUOUS"}, {"CONTINUOUS", "LINEAR"}, {"CONTINUOUS", "MONOTONIC"}]


def raw(rng, s, X):
    """Values that fall into the bins of the scenario."""
    X = X.copy()
    for c in s.names:
        v = np.asarray(X[c], dtype=float)
        v = np.where(np.isfinite(v) & (v >= 0), v, np.nan)
        if "CONTINUOUS" in s.spec.props[c]:
            v = s.rawscale[c] * (v - 2.0 + 0.9 * rng.rand(len(v)))
        else:
            v = v * 7 + 3
        X[c] = v
    return X


def setting(ctx):
    rng = ctx.rng
    s = gen.zoo(rng, shapes=SHAPES, props_everywhere=True, n=int(rng.choice([20, 40, 90])), max_iter=int(rng.choice([1, 2, 4])))
    s.rawscale = {c: float(rng.choice([0.01, 1.0, 1000.0])) for c in s.names}
    s.raw = raw(rng, s, s.X)
    new, _, _ = gen.probe_rows(rng, s, 40)
    new = raw(rng, s, new)
    given = dict(s.kwargs)
    if "learn_rate" in given:
        given["learn_rate"] = getattr(learning_rate, gen.LEARN[given["learn_rate"]])
    if "smoother_choice" in given:
        given["smoother_choice"] = gen.make_choice(given["smoother_choice"])
    if rng.rand() < 0.3:
        given["output_column"] = "out"
    return s, new, given


def outcome(f):
    try:
        return f(), None
    except ConvergenceError as e:
        return None, type(e).__name__


def trained(ctx):
    rng = ctx.rng
    s, new, given = setting(ctx)
    ctx.describe(scenario=s.summary(), options=sorted(given))
    extra = {}
    if rng.rand() < 0.7:
        extra["number_of_bins"] = int(rng.choice([2, 3, 7, 30]))
    if rng.rand() < 0.3:
        extra["inplace"] = bool(rng.rand() < 0.5)
    pipe = function(rng, s.kind)(**dict(given, **extra))
    hand = compare_options(ctx, pipe, s.kind, given, extra.get("number_of_bins"), extra.get("inplace", False))
    late = {}
    if rng.rand() < 0.25:
        late = dict(CB__maximal_iterations=int(rng.randint(1, 6)), binning__n_bins=int(rng.randint(2, 12)))
        pipe.set_params(**late)
        hand.set_params(maximal_iterations=late["CB__maximal_iterations"])
    if rng.rand() < 0.2:
        pipe = sk_clone(pipe)
    ctx.sig(s.signature(), sorted(extra), sorted(late))
    bins = late.get("binning__n_bins", extra.get("number_of_bins", 100))
    rounds = [(s.raw, s.y)]
    if rng.rand() < 0.3:
        # trained before on other rows: nothing of that may remain
        k = np.sort(rng.permutation(len(s.y))[: max(3, len(s.y) * 2 // 3)])
        ok = not (s.spec.w is not None and not s.spec.w[k].sum() > 0)
        ok = ok and not (s.kind == "gbs" and not ((s.spec.w if s.spec.w is not None else np.ones(len(s.y)))[k] * (s.y[k] != 0)).sum() > 0)
        if ok:
            rounds.insert(0, (s.raw.iloc[k].reset_index(drop=True), s.y[k]))
    for i, (X, y) in enumerate(rounds):
        last = i == len(rounds) - 1
        r, e = outcome(lambda: pipe.fit(X.copy(), y.copy()))
        if not last:
            continue
        binner = BinNumberTransformer(n_bins=bins, feature_properties=dict(given["feature_properties"]), inplace=False)
        Z = binner.fit(X.copy(), y.copy()).transform(X.copy())
        r2, e2 = outcome(lambda: hand.fit(Z.copy(), y.copy()))
        ctx.check(e == e2, "training of the pipeline ended with %s, by hand with %s" % (e, e2))
        if e:
            ctx.event("trainings_rejected_as_diverging")
            return
    ctx.event("pipelines_trained")
    est = pipe.steps[-1][1]
    for what, X in (("training rows", s.raw), ("new rows", new)):
        Z = binner.transform(X.copy())
        ctx.same(np.asarray(pipe.steps[0][1].transform(X.copy())[s.names], float), np.asarray(Z[s.names], float), "bins of the %s" % what)
        other = [c for c in X.columns if c not in s.names]
        ctx.same(np.asarray(Z[other], float), np.asarray(X[other], float), "columns that are not features of the %s" % what)
        ctx.same(pipe.predict(X.copy()), hand.predict(Z.copy()), "prediction for the %s" % what)
        if hasattr(est, "predict_proba"):
            ctx.same(pipe.predict_proba(X.copy()), hand.predict_proba(Z.copy()), "probabilities for the %s" % what)
        same_answers(ctx, hand.get_feature_contributions(Z.copy()), est.get_feature_contributions(pipe[:-1].transform(X.copy())),
                     "contributions for the %s" % what)
        if "output_column" in given:
            t = pipe.transform(X.copy())
            ctx.same(np.asarray(t["out"], float), np.asarray(hand.predict(Z.copy()), float), "appended column of the %s" % what)
        ctx.event("answers_compared", 3)
    same_answers(ctx, hand.get_feature_importances(), est.get_feature_importances(), "importances")
    same_answers(ctx, list(hand.stop_criteria_), list(est.stop_criteria_), "stop criteria")
    a, b = binner.get_feature_bin_boundaries(), pipe.steps[0][1].get_feature_bin_boundaries()
    same_answers(ctx, dict(a), dict(b), "bin boundaries")
    # the trained boundaries do not move with the rows predicted
    sub = new.iloc[rng.permutation(len(new))[:5]].reset_index()
    full = pipe.predict(new.copy())
    ctx.same(pipe.predict(sub.drop(columns="index")), full[sub["index"].values], "prediction for a few of the rows")


WORKLOADS = [
    Workload("options", options, 400, 5000),
    Workload("trained", trained, 150, 3000),
]
