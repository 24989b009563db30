"""P11: training is deterministic and has no memory."""
import copy

import numpy as np
import pandas as pd

import cyclic_boosting
from cyclic_boosting import flags
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer
from cyclic_boosting.observers import PlottingObserver
from cyclic_boosting.utils import ConvergenceError

from lib import gen
from props.common import Workload, diverging_scenario, same_model, train

RULE = "an evaluation trains the same estimator class on the same data in two ways (fresh, again, after other data, after failures, next to others sharing option objects) and compares models bit for bit; non-trivial if the trainings returned"
ASSUMPTIONS = ["one thread; equal data and options"]
MIN_EVENTS = {"models_compared": 200, "refits": 100, "binners_compared": 400}


def history(rec):
    return [list(rec.losses), [float(d) if d is not None else None for d in rec.deltas]] + [p.tolist() for p in rec.preds] + [
        rec.final.tolist()]


def try_fit(est, X, y):
    try:
        est.fit(X, y)
        return True
    except ConvergenceError:
        return False


def other_data(rng, s):
    """Different data accepted by the same options: rows drawn anew, other bins, other target."""
    n = len(s.y)
    rows = rng.randint(0, n, rng.randint(1, 2 * n + 1))
    X = s.X.iloc[rows].reset_index(drop=True)
    for c in s.names:
        v = np.asarray(X[c], dtype=float)
        if rng.rand() < 0.5:
            fin = np.isfinite(v) & (v >= 0)
            v = np.where(fin, np.floor(v * rng.choice([0.5, 2.0, 1.0])), v)
        X[c] = v
    y = s.y[rng.permutation(rows)]
    if "w" in X and not X["w"].sum() > 0:
        X["w"] = 1.0
    if s.kind == "gbs":
        w = np.asarray(X["w"]) if "w" in X else np.ones(len(y))
        if not w[y != 0].sum() > 0:
            y = y.copy()
            y[np.argmax(w)] = 1.0
    return X, y


def disturb(rng, s, est, fitted=True):
    """Anything a user may do between two trainings."""
    X, _, _ = gen.probe_rows(rng, s, 20)
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(5)
        if k == 0 and fitted:
            s.proba(est, X.copy())
        elif k == 1 and fitted:
            est.get_feature_contributions(X.copy())
            est.get_feature_importances()
        elif k == 2:
            try:
                est.fit(s.frame().drop(columns=[s.names[0]]), s.y.copy())
            except Exception:
                return "failed"
        elif k == 3:
            try:
                est.fit(s.frame(), s.y[:-1])
            except Exception:
                return "failed"
        elif k == 4:
            try:
                bad = s.y.copy()
                bad[-1] = np.nan
                est.fit(s.frame(), bad)
            except Exception:
                return "failed"
    return "ok"


def twice(ctx):
    """Two fresh estimators."""
    s = gen.zoo(ctx.rng)
    a, ra = train(ctx, s)
    b, rb = train(ctx, s)
    ctx.check((a is None) == (b is None), "one of two equal trainings was rejected")
    if a is None:
        return
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(ctx.rng, s, 40)
    same_model(ctx, s, a, b, X, "two equal trainings")
    ctx.check(history(ra) == history(rb), "two equal trainings report different histories")


def diverged(ctx):
    """The same with trainings whose first iterations overshoot and are damped, or that are rejected."""
    rng = ctx.rng
    refit(ctx, diverging_scenario(rng, hier=rng.rand() < 0.3, aggregate=rng.rand() < 0.8))


def refit(ctx, s=None):
    """One estimator trained on other data first, then disturbed, then on the data."""
    rng = ctx.rng
    overshooting = s is not None
    if s is None:
        s = gen.zoo(rng, n=60 if rng.rand() < 0.7 else None)
    fresh, rf = train(ctx, s)
    if fresh is None:
        return
    rec = gen.Recorder()
    est = s.build([rec])
    n_other = rng.randint(1, 3)
    ok = False
    for _ in range(n_other):
        ok = try_fit(est, *((s.frame(), s.y.copy()) if overshooting and rng.rand() < 0.6 else other_data(rng, s)))
        ok = disturb(rng, s, est, ok) != "failed" and ok
    for attr in ("events", "preds", "deltas", "losses"):
        getattr(rec, attr)[:] = []
    if not try_fit(est, s.frame(), s.y.copy()):
        ctx.fail("training again was rejected although a fresh estimator is not")
    ctx.event("refits")
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(rng, s, 40)
    same_model(ctx, s, est, fresh, X, "training again")
    ctx.check(history(rec) == history(rf), "training again reports a different history")
    ctx.check(list(est.stop_criteria_) == list(fresh.stop_criteria_), "training again reports other stop criteria")


def default_groups(ctx):
    """Default feature groups are derived from the data of each training."""
    rng = ctx.rng
    s = gen.zoo(rng, kinds=["poisson", "nbinom", "location", "locpoisson", "classifier", "nbinomc", "gbs", "ageneric"],
                max_dim=1, hier=False, n_cols=2)
    s.kwargs["feature_groups"] = None
    est = s.build([])
    F = s.frame()
    F["extra"] = rng.randint(0, 3, len(F))
    ctx.describe(scenario=s.summary())
    if rng.rand() < 0.5:
        try_fit(est, F, s.y.copy())
    else:
        try_fit(est, s.frame().drop(columns=["b"]), s.y.copy())
    fresh = s.build([])
    if not (try_fit(est, s.frame(), s.y.copy()) and try_fit(fresh, s.frame(), s.y.copy())):
        return
    ctx.event("refits")
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(rng, s, 30)
    same_model(ctx, s, est, fresh, X, "training again with default features")


def shared(ctx):
    """Two estimators sharing option objects (groups, properties, smoother choice, observers list)."""
    rng = ctx.rng
    s = gen.zoo(rng, n=60)
    fresh, rf = train(ctx, s)
    if fresh is None:
        return
    choice = gen.make_choice(s.spec.smoother)
    kw = dict(s.kwargs)
    kw["smoother_choice"] = choice
    obs = []
    a, b = s.build(obs, **{"smoother_choice": choice}), s.build(obs, **{"smoother_choice": choice})
    if not try_fit(a, s.frame(), s.y.copy()):
        ctx.fail("training with a shared smoother choice was rejected")
    X, _, _ = gen.probe_rows(rng, s, 30)
    before = s.proba(a, X.copy())
    con = {k: np.array(v) for k, v in a.get_feature_contributions(X.copy()).items()}
    try_fit(b, *other_data(rng, s))
    ctx.same(s.proba(a, X.copy()), before, "prediction after training another estimator with the same options")
    for k, v in a.get_feature_contributions(X.copy()).items():
        ctx.same(v, con[k], "contribution of %s after training another estimator" % k)
    same_model(ctx, s, a, fresh, X, "shared options")
    if try_fit(b, s.frame(), s.y.copy()):
        same_model(ctx, s, b, fresh, X, "second estimator with shared options")
        ctx.event("refits")
    ctx.sig(s.signature())


def untouched(ctx):
    """A trained model is not changed by anything but training."""
    rng = ctx.rng
    s = gen.zoo(rng, n=60)
    plot = PlottingObserver(iteration=-1)
    try:
        est = s.fit([plot])
    except ConvergenceError:
        return
    ctx.event("trainings")
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(rng, s, 30)
    before = s.proba(est, X.copy())
    imp = dict(est.get_feature_importances())
    con = {k: np.array(v) for k, v in est.get_feature_contributions(X.copy()).items()}
    Y, _, _ = gen.probe_rows(rng, s, 50)
    for _ in range(3):
        k = rng.randint(6)
        if k == 0:
            p = s.proba(est, Y.copy())
            p *= 0
        elif k == 1:
            c = est.get_feature_contributions(Y.copy())
            for v in c.values():
                np.asarray(v)[...] = 5.0
        elif k == 2:
            d = est.get_feature_importances()
            d.clear()
        elif k == 3:
            repr(est)
            est.get_params()
        elif k == 4:
            try:
                s.proba(est, Y.drop(columns=[s.spec.groups[0][0]]))
            except Exception:
                pass
        else:
            o = s.build([])
            try_fit(o, *other_data(rng, s))
    ctx.same(s.proba(est, X.copy()), before, "prediction after other use")
    ctx.check(dict(est.get_feature_importances()) == imp, "importances after other use")
    for k, v in est.get_feature_contributions(X.copy()).items():
        ctx.same(v, con[k], "contribution of %s after other use" % k)
    ctx.event("models_compared")


def options(ctx):
    """An estimator used with other options first; then it is given the options through set_params."""
    rng = ctx.rng
    s = gen.zoo(rng, n=60 if rng.rand() < 0.7 else None)
    fresh, rf = train(ctx, s)
    if fresh is None:
        return
    o = gen.zoo(rng, kinds=[s.kind], n=40)
    est = o.build([])
    for k in est.get_params(deep=False):
        if k not in o.kwargs and k in s.kwargs:
            o.kwargs[k] = est.get_params(deep=False)[k]
    ok = try_fit(est, o.frame(), o.y.copy())
    if ok and rng.rand() < 0.5:
        P, _, _ = gen.probe_rows(rng, o, 10)
        o.proba(est, P)
    rec = gen.Recorder()
    est.set_params(**s.build([rec]).get_params(deep=False))
    if not try_fit(est, s.frame(), s.y.copy()):
        ctx.fail("training with changed options was rejected although a fresh estimator is not")
    ctx.event("refits")
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(rng, s, 40)
    same_model(ctx, s, est, fresh, X, "training after a change of options")
    ctx.check(history(rec) == history(rf), "training after a change of options reports a different history")


BINFLAGS = [flags.IS_CONTINUOUS, flags.IS_ORDERED, flags.IS_UNORDERED, flags.IS_CONTINUOUS | flags.IS_LINEAR,
            flags.IS_CONTINUOUS | flags.HAS_MISSING, flags.IS_UNORDERED | flags.HAS_MAGIC_INT_MISSING,
            flags.IS_CONTINUOUS | flags.HAS_MAGIC_INT_MISSING]


def bin_table(rng, weights):
    n = int(rng.randint(1, 80))
    cols = {}
    for c in "ab":
        v = np.round(rng.normal(size=n) * rng.choice([1, 5, 30]), int(rng.randint(0, 3)))
        v[rng.rand(n) < 0.15] = np.nan
        v[rng.rand(n) < 0.1] = -9.0
        cols[c] = v if rng.rand() < 0.95 else np.full(n, np.nan)
    if weights:
        cols["w"] = rng.randint(0, 4, n) + (np.arange(n) == 0)
    return pd.DataFrame(cols)


def bin_options(rng):
    o = dict(
        n_bins=int(rng.randint(2, 30)) if rng.rand() < 0.6 else {"a": int(rng.randint(2, 30)), "b": int(rng.randint(2, 30))},
        feature_properties={c: int(rng.choice(BINFLAGS)) for c in ("a", "b")},
        weight_column="w" if rng.rand() < 0.4 else None,
        tolerance=float(rng.choice([0.0, 0.1, 0.5])),
        epsilon=float(rng.choice([1e-9, 1e-6])),
    )
    if rng.rand() < 0.2:
        del o["feature_properties"][str(rng.choice(["a", "b"]))]
    return o


def binners(ctx):
    """Binning transformers with a history of fits, failed fits, changed options and use, against fresh ones."""
    rng = ctx.rng
    cls = [BinNumberTransformer, ECdfTransformer][rng.randint(2)]
    opt = bin_options(rng)
    X = bin_table(rng, opt["weight_column"])
    X = X.drop(columns=[c for c in "ab" if c not in opt["feature_properties"]])
    P = bin_table(rng, opt["weight_column"])[list(X.columns)]
    fresh = cls(**copy.deepcopy(opt)).fit(X.copy())
    first = bin_options(rng)
    for k in first:
        if rng.rand() < 0.4:
            first[k] = copy.deepcopy(opt[k])
    t = cls(**first)
    steps = []
    for _ in range(rng.randint(1, 4)):
        k = str(rng.choice(["fit", "transform", "fail", "set_params"], p=[0.5, 0.2, 0.15, 0.15]))
        steps.append(k)
        Z = bin_table(rng, t.weight_column)
        Z = Z.drop(columns=[c for c in "ab" if c not in t.feature_properties])
        if k == "fit":
            t.fit(Z)
            ctx.event("binner_fits")
        elif k == "set_params":
            t.set_params(**{a: copy.deepcopy(b) for a, b in bin_options(rng).items() if rng.rand() < 0.5})
        else:
            try:
                t.transform(Z) if k == "transform" else t.fit(Z.iloc[:0])
            except Exception:
                pass
    t.set_params(**copy.deepcopy(opt))
    t.fit(X.copy())
    ctx.event("binners_compared")
    ctx.describe(transformer=cls.__name__, options=opt, first=first, steps=steps, rows=len(X))
    ctx.sig(cls.__name__, repr(opt), steps, X.to_numpy().tobytes())
    for name, T in (("the training rows", X), ("new rows", P)):
        ctx.same(np.asarray(t.transform(T.copy()), dtype=float), np.asarray(fresh.transform(T.copy()), dtype=float),
                 "%s after fitting again: %s" % (cls.__name__, name))
    ctx.check(len(t.bins_and_cdfs_) == len(fresh.bins_and_cdfs_), "number of binned columns after fitting again")
    for g, f in zip(t.bins_and_cdfs_, fresh.bins_and_cdfs_):
        ctx.check(g[0] == f[0] and g[1] == f[1] and (g[2] is None) == (f[2] is None), "reported bins of %s" % (f[0],))
        if f[2] is not None:
            ctx.same(g[2], f[2], "reported boundaries of %s after fitting again" % (f[0],))


WORKLOADS = [
    Workload("large", gen.enlarged(refit), 16, 200),
    Workload("binners", binners, 600, 8000),
    Workload("options", options, 150, 2000),
    Workload("twice", twice, 200, 2500),
    Workload("refit", refit, 250, 3000),
    Workload("diverged", diverged, 24, 300),
    Workload("default_groups", default_groups, 60, 600),
    Workload("shared", shared, 120, 1500),
    Workload("untouched", untouched, 120, 1500),
]
