"""P29: observers and plots are passive and report the truth."""
import copy
import io
import os
import shutil
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

import cyclic_boosting.observers  # noqa: E402
from cyclic_boosting import plots  # noqa: E402
from cyclic_boosting.observers import PlottingObserver  # noqa: E402

from lib import gen, ref  # noqa: E402
from props.common import ADDITIVE, ConvergenceError, Workload, contribution_key, overshooting, raw_loss, same_model, scale_of  # noqa: E402
from props.p25 import same_answers  # noqa: E402

RULE = "an evaluation trains an estimator with and without observers, recomputes what they report from the data and the model, and draws plots; non-trivial if training returned"
ASSUMPTIONS = ["observers do not change what they are given", "whether a plot is nice is not judged", "plots are drawn for features with an observation of positive weight and target outside the missing bin"]
MIN_EVENTS = {"models_compared": 100, "losses_recomputed": 400, "profiles_compared": 200, "bin_tables_recomputed": 150,
              "snapshots_compared": 60, "histograms_recomputed": 60, "plots_drawn": 15}


class Spy(cyclic_boosting.observers.BaseObserver):
    """Writes down at the time of the event."""

    def __init__(self):
        self.seen = {}
        self.order = []
        self.features = 0

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.order.append(iteration)
        self.seen[iteration] = dict(
            prediction=np.array(prediction, dtype=float), loss=float(estimator_state["insample_loss"]), delta=delta,
            profiles=[None if f.factors_link is None else np.array(f.factors_link, dtype=float) for f in estimator_state["features"]],
            groups=[f.feature_group for f in estimator_state["features"]], y=np.array(y, dtype=float), rows=len(X),
            weights=np.array(weights, dtype=float))

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        self.features += 1


class Silent(cyclic_boosting.observers.BaseObserver):
    pass


def fit(ctx, s, obs):
    try:
        return s.fit(obs), None
    except ConvergenceError:
        ctx.event("trainings_rejected_as_diverging")
        return None, "diverged"


def some_observers(rng, n_iter):
    out = []
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(4)
        out.append(PlottingObserver() if k == 0 else PlottingObserver(iteration=int(rng.randint(1, n_iter + 3))) if k == 1
                   else Silent() if k == 2 else Spy())
    return out


def passive(ctx):
    """The same model with any observers as without."""
    rng = ctx.rng
    s = gen.zoo(rng)
    obs = some_observers(rng, s.spec.max_iter)
    ctx.describe(scenario=s.summary(), observers=[(type(o).__name__, getattr(o, "iteration", None)) for o in obs])
    ctx.sig(s.signature(), len(obs))
    a, ea = fit(ctx, s, None)
    b, eb = fit(ctx, s, obs)
    ctx.check(ea == eb, "training ended with %s, with observers with %s" % (ea, eb))
    if a is None:
        return
    P, _, _ = gen.probe_rows(rng, s, 30)
    same_model(ctx, s, b, a, P, "model trained with observers")
    same_model(ctx, s, b, a, s.frame(), "model trained with observers, training rows")
    same_answers(ctx, list(a.stop_criteria_), list(b.stop_criteria_), "stop criteria with observers")
    ctx.check(len(b.observers) == len(obs) and all(x is y for x, y in zip(b.observers, obs)), "the observers are not those given")
    # use of the observers afterwards does not reach the model
    for o in obs:
        if isinstance(o, PlottingObserver) and o.features is not None:
            for f in o.features:
                f.factors_link = np.asarray(f.factors_link) * 0 + 7.0
    same_model(ctx, s, b, a, P, "model after the observer was changed")


def bin_ids(X, group, n_bins):
    """Number of the cell of every row in the order of the profile; the last one is that of missing values."""
    M = np.array([np.asarray(X[c], dtype=float) for c in group]).T
    ok = np.isfinite(M).all(axis=1) & (np.where(np.isfinite(M), M, -1.0) >= 0).all(axis=1)
    ids = np.full(len(M), int(np.prod(n_bins)))
    if ok.any():
        ids[ok] = np.ravel_multi_index(M[ok].astype(int).T, [int(k) for k in n_bins])
    return ids


def truth(ctx, s=None):
    rng = ctx.rng
    s = s or gen.zoo(rng)
    spy = Spy()
    k = int(rng.randint(1, s.spec.max_iter + 1))
    last, middle = PlottingObserver(), PlottingObserver(iteration=k)
    order = [[spy, last, middle], [last, spy, middle], [middle, last, spy]][rng.randint(3)]
    ctx.describe(scenario=s.summary(), snapshot=k)
    est, _ = fit(ctx, s, order)
    if est is None:
        return
    ctx.sig(s.signature(), k)
    n_iter = len(spy.order) - 1
    ctx.check(spy.order == list(range(n_iter)) + [-1], "order of the events %s" % spy.order)
    events = [spy.seen[i] for i in spy.order]
    # losses
    for i, e in enumerate(events):
        ctx.check(e["rows"] == len(s.y), "rows at event %d" % i)
        ctx.same(e["y"], s.y, "target at event %d" % i)
        want = raw_loss(s, e["prediction"], s.y, s.spec.w)
        if want is not None:
            sc = scale_of(s.y) ** 2 + scale_of(e["prediction"]) ** 2
            ctx.close(e["loss"], want, "loss at event %d" % i, rtol=1e-9, atol=1e-13 * sc)
            ctx.event("losses_recomputed")
    ctx.same(np.array(last.loss, dtype=float), np.array([e["loss"] for e in events]), "losses of the observer")
    ctx.same(np.array(last.factor_change, dtype=float), np.array([e["delta"] for e in events[1:]], dtype=float), "factor changes of the observer")
    m = min(k, n_iter - 1)
    ctx.same(np.array(middle.loss, dtype=float), np.array([e["loss"] for e in events[: m + 1]]), "losses of the observer of iteration %d" % k)
    ctx.same(np.array(middle.factor_change, dtype=float), np.array([e["delta"] for e in events[1: m + 1]], dtype=float),
             "factor changes of the observer of iteration %d" % k)
    # snapshots
    for o, at in ((last, -1), (middle, k)):
        if at not in spy.seen:
            ctx.raises(o.check_fitted, "an observer of an iteration that was not reached", ValueError)
            continue
        o.check_fitted()
        e = spy.seen[at]
        got = list(o.features)
        ctx.check([f.feature_group for f in got] == e["groups"], "features of the snapshot of iteration %s" % at)
        for f, want in zip(got, e["profiles"]):
            if want is not None:
                ctx.same(np.asarray(f.factors_link, dtype=float), want, "profile of %s in the snapshot of iteration %s" % (f.feature_group, at))
                ctx.event("snapshots_compared")
        histogram(ctx, s, o.histograms, e["prediction"], at)
    final(ctx, s, est, last, spy.seen[-1]["prediction"])


def histogram(ctx, s, h, p, at):
    means, centers, errors, counts = h
    if not np.ptp(p) > 1e-9 * scale_of(p):
        return
    w = np.ones(len(s.y)) if s.spec.w is None else s.spec.w
    if s.kind == "exponential" and s.spec.w is not None:
        return
    edges = np.linspace(p.min(), p.max(), 101)
    b = np.minimum(np.digitize(p, edges), 100)
    keys = np.unique(b)
    ctx.check(list(means.index) == list(keys) and list(counts.index) == list(keys), "bins of the calibration histogram of iteration %s" % at)
    even = len(np.unique(w)) == 1
    sw = np.array([w[b == k].sum() for k in keys])
    ctx.close(np.asarray(counts, float), np.array([np.sum(b == k) for k in keys]) if even else sw, "counts of the calibration histogram", rtol=1e-9)
    if s.kind not in ("mquantile", "aquantile"):
        want = np.array([np.sum(w[b == k] * s.y[b == k]) / t if t > 0 else np.nan for k, t in zip(keys, sw)])
        ok = sw > 0
        ctx.close(np.asarray(means, float)[ok], want[ok], "means of the calibration histogram of iteration %s" % at, rtol=1e-9, atol=1e-12 * scale_of(s.y))
    else:
        ok = sw > 0
        for k, v in zip(keys[ok], np.asarray(means, float)[ok]):
            yy, ww = s.y[b == k], w[b == k]
            t, tol = ww.sum() * s.quantile, 1e-9 * ww.sum()
            ctx.check(ww[yy <= v].sum() >= t - tol and ww[yy < v].sum() <= t + tol, "quantile %r of the calibration histogram" % v)
    ctx.close(np.asarray(centers, float), (0.5 * (edges[1:] + edges[:-1]))[keys - 1], "centres of the calibration histogram", rtol=1e-9, atol=1e-9 * scale_of(p))
    binary = np.isin(s.y, [0, 1]).all()
    ctx.check((errors is None) == bool(binary or s.kind in ("mquantile", "aquantile")), "errors of the calibration histogram")
    ctx.event("histograms_recomputed")


def final(ctx, s, est, o, p):
    """Profiles and tables per bin of the finished training."""
    w = np.ones(len(s.y)) if s.spec.w is None else s.spec.w
    groups = [(g, False) for g in s.spec.groups] + [(g, True) for g in getattr(s, "external", [])]
    feats = list(o.features)
    ctx.check(len(feats) == len(groups), "%d features observed instead of %d" % (len(feats), len(groups)))
    for f, (g, ext) in zip(feats, groups):
        ctx.check(tuple(f.feature_group) == tuple(g), "feature %s observed instead of %s" % (f.feature_group, g))
        nb = [int(k) for k in np.atleast_1d(o.n_feature_bins[f.feature_group])]
        cells = np.array(list(np.ndindex(*nb)), dtype=float).reshape(-1, len(g))
        cells = np.r_[cells, np.full((1, len(g)), np.nan)]
        X = pd.DataFrame({c: np.zeros(len(cells)) for c in s.X.columns})
        for j, c in enumerate(g):
            X[c] = cells[:, j]
        con = np.asarray(est.get_feature_contributions(X)[contribution_key(g, ext)], dtype=float)
        link = np.log(con) if ext else ref.link(s.kind, con)
        prof = np.asarray(f.factors_link, dtype=float)
        ctx.check(prof.shape == (len(cells),), "profile of %s has %s entries instead of %d" % (g, prof.shape, len(cells)))
        fin = np.isfinite(link) & (np.abs(prof) < 30)
        ctx.close(prof[fin], link[fin], "observed profile of %s against the contributions of the model" % (g,), rtol=1e-7, atol=1e-9 * max(1.0, scale_of(prof)))
        ctx.event("profiles_compared")
        V = np.array([s.cols[c] for c in g])
        V = V[:, (np.isfinite(V) & (np.where(np.isfinite(V), V, -1) >= 0)).all(axis=0)]
        for c, v in zip(g, V):
            n = int(v.max()) + 1 if len(v) else 0
            ctx.check(nb[list(g).index(c)] == n, "%d bins of %s observed instead of %d" % (nb[list(g).index(c)], c, n))
        ids = bin_ids(s.X, g, nb)
        n = len(cells)
        if s.kind in ("mquantile", "aquantile"):
            quantile_table(ctx, s, f, g, ids, n, w, p)
            continue
        wg = w * np.isfinite(np.asarray(s.X["price"], float)) if ext else w
        sw, sy, sp = (np.bincount(ids, weights=v, minlength=n) for v in (wg, wg * s.y, wg * p))
        ctx.close(np.asarray(f.bin_weightsums, float), sw, "observed weights per bin of %s" % (g,), rtol=1e-9, atol=1e-12)
        my, mp = (sy + 1) / (sw + 1), (sp + 1) / (sw + 1)
        if n > 1:
            if not sw[:-1].sum() > 0:
                continue
            ty, tp = sy[:-1].sum() / sw[:-1].sum(), sp[:-1].sum() / sw[:-1].sum()
        else:
            ty, tp = s.y.mean(), p.mean()
        with np.errstate(all="ignore"):
            if s.kind in ADDITIVE + ("ageneric",):
                want = (mp - my, my - ty, mp - tp)
            else:
                want = (np.log(mp + 1e-12) - np.log(my + 1e-12), np.log(my / ty + 1e-12), np.log(mp / tp + 1e-12))
        sc = scale_of(s.y) + scale_of(p) + 1.0
        for name, got, v in zip(("mean_dev", "y", "prediction"), (f.mean_dev, f.y, f.prediction), want):
            ok = np.isfinite(v)
            ctx.close(np.asarray(got, float)[ok], v[ok], "observed table %s of %s" % (name, g), rtol=1e-8, atol=1e-10 * (sc if s.kind in ADDITIVE + ("ageneric",) else 1.0))
        ctx.close([f.y_finite, f.prediction_finite], [ty, tp], "observed means of %s" % (g,), rtol=1e-9, atol=1e-12 * sc)
        ctx.event("bin_tables_recomputed")


def smooth_quantile(y, w, q):
    """Weighted quantile, moved on by the share of equal values already passed; rounding of the sums leaves three candidates."""
    o = np.argsort(y, kind="stable")
    y, w = y[o][w[o] > 0], w[o][w[o] > 0]
    out = []
    for k in (1 - 1e-10, 1.0, 1 + 1e-10):
        total, cut = np.cumsum(w), w.sum() * q * k
        hit = np.flatnonzero(total >= cut)
        v = y[hit[0]] if len(hit) else y[-1]
        same = np.flatnonzero(y == v)
        out.append(v if len(same) == 1 else v + (np.sum(total <= cut) - same[0]) / (len(same) - 1.0))
    return out


def quantile_table(ctx, s, f, g, ids, n, w, p):
    for name in ("mean_dev", "y", "prediction"):
        got = np.asarray(getattr(f, name), float)
        ctx.check(got.shape == (n,), "observed table %s of %s has shape %s instead of %d bins" % (name, g, got.shape, n))
    if len(np.unique(w)) > 1:
        return  # the order of equal targets of different weight is not determined
    sw, sp = np.bincount(ids, weights=w, minlength=n), np.bincount(ids, weights=w * p, minlength=n)
    additive = s.kind == "aquantile"
    tp = sp.sum() / sw.sum()
    ty = smooth_quantile(s.y, w, s.quantile)
    ctx.close(f.prediction_finite, tp, "observed mean prediction of %s" % (g,), rtol=1e-9, atol=1e-12 * scale_of(p))
    ctx.check(any(np.isclose(f.y_finite, v, rtol=1e-9, atol=1e-12) for v in ty), "observed quantile %r of %s is none of %s" % (f.y_finite, g, ty))
    sc = scale_of(s.y) + scale_of(p) + 1.0
    for b in range(n):
        mp = sp[b] / sw[b] if sw[b] > 0 else 1.0
        my = smooth_quantile(s.y[ids == b], w[ids == b], s.quantile) if sw[b] > 0 else [1.0]
        with np.errstate(all="ignore"):
            wp = mp - f.prediction_finite if additive else np.log(mp / f.prediction_finite + 1e-12)
            wy = [v - f.y_finite if additive else np.log(v / f.y_finite + 1e-12) for v in my]
            wd = [mp - v if additive else np.log(mp + 1e-12) - np.log(v + 1e-12) for v in my]
        for name, got, want in (("mean_dev", f.mean_dev[b], wd), ("y", f.y[b], wy), ("prediction", f.prediction[b], [wp])):
            if np.isfinite(want).all():
                ctx.check(any(np.isclose(got, v, rtol=1e-7, atol=1e-9 * (sc if additive else 1.0)) for v in want),
                          "observed table %s of %s, bin %d: %r is none of %s" % (name, g, b, got, want))
    ctx.event("quantile_tables_recomputed")


def state(o):
    """All an observer holds, as plain values."""
    out = [list(o.loss), [float(v) for v in o.factor_change], repr(sorted(map(repr, o.n_feature_bins.items())))]
    for f in o.features:
        for k in sorted(f.__dict__):
            v = f.__dict__[k]
            if isinstance(v, np.ndarray) and v.dtype.kind in "fiub":
                out.append([k, v.astype(float).copy()])
            elif isinstance(v, (int, float)):
                out.append([k, float(v)])
    h = o.histograms
    out.append([np.asarray(h[0], float).copy(), np.array(h[1], dtype=float), np.asarray(h[3], float).copy()])
    return copy.deepcopy(out)


def drawn(ctx):
    rng = ctx.rng
    s = gen.zoo(rng, kinds=["poisson", "nbinom", "location", "classifier", "exponential", "locpoisson", "gbs", "mgeneric"], n=int(rng.choice([60, 150])),
                n_cols=int(rng.choice([1, 2])), shapes=[{"UNORDERED"}, {"CONTINUOUS"}, {"ORDERED"}, {"CONTINUOUS", "LINEAR"}], max_iter=3,
                props_everywhere=True)
    o = PlottingObserver()
    ctx.describe(scenario=s.summary())
    est, _ = fit(ctx, s, [o])
    if est is None:
        return
    ctx.sig(s.signature())
    if not all(np.isfinite(np.r_[f.y, f.prediction, f.mean_dev]).all() for f in o.features):
        return  # no observation of positive weight and target outside the missing bin: there is nothing to draw
    P, _, _ = gen.probe_rows(rng, s, 20)
    twin = copy.deepcopy(est)
    before = state(o)
    rc = dict(matplotlib.rcParams)
    what = str(rng.choice(["analysis", "file", "factors", "single"]))
    try:
        if what == "analysis":
            f = io.BytesIO()
            plots.plot_analysis(o, f, use_tightlayout=bool(rng.rand() < 0.5), plot_yp=bool(rng.rand() < 0.7))
            ctx.check(f.getvalue()[:5] == b"%PDF-", "no document was written")
        elif what == "file":
            d = tempfile.mkdtemp(prefix="p29-")
            try:
                name = os.path.join(d, "plot" if rng.rand() < 0.5 else "plot.pdf")
                plots.plot_analysis(o, name, figsize=(6, 4))
                ctx.check(os.listdir(d) == ["plot.pdf"], "files written: %s" % os.listdir(d))
            finally:
                shutil.rmtree(d)
        elif what == "factors":
            plt.figure()
            plots.plot_factors(o, features_per_row=1, use_tightlayout=False)
        else:
            plt.figure()
            plots.plot_iteration_info(o)
            plt.figure()
            plots.plot_in_sample_diagonal_plot(o)
            f = list(o.features)[int(rng.randint(len(list(o.features))))] if len(list(o.features)) else None
            if f is not None:
                plots.plot_factor_histogram(f)
    finally:
        plt.close("all")
    ctx.event("plots_drawn")
    now = {k: v for k, v in matplotlib.rcParams.items()}
    ctx.check({k: repr(v) for k, v in now.items()} == {k: repr(v) for k, v in rc.items()}, "plotting settings changed by %s" % what)
    same_answers(ctx, before, state(o), "observer after %s" % what)
    same_model(ctx, s, est, twin, P, "model after %s" % what)


def sparse(ctx):
    """Quantile models whose interactions have many empty cells."""
    rng = ctx.rng
    s = gen.scenario(rng, kind=str(rng.choice(["mquantile", "aquantile"])), n=int(rng.choice([4, 8, 15, 30])), n_cols=int(rng.choice([2, 3])), max_iter=1, hier=False,
                     groups=[("a", "b"), ("b",)] if rng.rand() < 0.7 else [("b", "a")], weights=bool(rng.rand() < 0.3))
    truth(ctx, s)


WORKLOADS = [
    Workload("large", gen.enlarged(passive), 8, 100),
    Workload("damped", overshooting(truth), 16, 200),
    Workload("sparse", sparse, 40, 800),
    Workload("drawn", drawn, 24, 400),
    Workload("truth", truth, 150, 4000),
    Workload("passive", passive, 100, 3000),
]
