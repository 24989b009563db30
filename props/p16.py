"""P16: quantile and custom-cost regression minimise the stated cost in every bin."""
import numpy as np
import pandas as pd
import scipy.stats
from scipy.optimize import minimize_scalar

import cyclic_boosting as cb
from cyclic_boosting import common_smoothers, flags, learning_rate

from lib import gen, ref, refsm
from props.common import Workload, train

RULE = "an evaluation trains a quantile or custom-cost model and compares the cost per bin before and after an update with independent minimisation, the rows seen by the cost function with the bins, the loss history, the base value and the share of targets below a trained quantile; non-trivial if at least one bin has training rows"
ASSUMPTIONS = ["cost functions handle empty bins"]
MIN_EVENTS = {"bins_checked": 400, "cost_calls_observed": 5000, "coverages_checked": 60, "smoothed_bins": 100, "base_values_checked": 100}

KINDS = ["mquantile", "aquantile", "mgeneric", "ageneric"]


def pinball(p, y, w, q):
    d = y - p
    return float(np.sum(w * np.where(d < 0, (q - 1) * d, q * d)) / np.sum(w))


def expectile(t):
    def costs(prediction, y, weights):
        if len(y) == 0 or np.sum(weights) == 0:
            return 0.0
        d = y - prediction
        return float(np.sum(weights * np.where(d < 0, 1 - t, t) * d * d) / np.sum(weights))

    return costs


def logcosh(scale):
    def costs(prediction, y, weights):
        if len(y) == 0 or np.sum(weights) == 0:
            return 0.0
        d = np.abs(y - prediction) / scale
        return float(np.sum(weights * (d + np.log1p(np.exp(-2 * d)))) / np.sum(weights))

    return costs


def clean(cols):
    """One label per bin of a group, -1 for missing."""
    key = np.zeros(len(cols[0]))
    ok = np.ones(len(cols[0]), dtype=bool)
    for c in cols:
        good = np.isfinite(c) & (c >= 0)
        ok &= good
        key = key * 1000 + np.where(good, c, 0)
    return np.where(ok, key, -1.0)


def draw(rng, kinds=None, **kw):
    kind = str(rng.choice(kinds or KINDS))
    kw.setdefault("n", int(rng.choice([30, 80, 200])))
    kw.setdefault("max_bins", 5)
    kw.setdefault("max_dim", 2)
    s = gen.scenario(rng, kind=kind, lr="one", smoother=("none", True, True), hier=False, aggregate=True, prior=False, **kw)
    s.cost = None
    if kind in ("mgeneric", "ageneric"):
        sc = float(np.std(s.y)) + 0.1
        k = rng.randint(3)
        s.cost = [expectile(0.5), expectile(float(rng.choice([0.2, 0.8]))), logcosh(sc)][k]
        s.kwargs["costs"] = s.cost
    else:
        q = s.quantile
        s.cost = lambda p, y, w: pinball(p, y, w, q) if len(y) and np.sum(w) > 0 else 0.0
    return s


def base_value(ctx, s, rec):
    """Independent definition of the weighted quantile; values that repeat are spread over one unit."""
    w = np.ones(len(s.y)) if s.spec.w is None else s.spec.w
    p = rec.preds[0]
    ctx.check(np.ptp(p) <= 1e-9 * max(1e-300, np.max(np.abs(p))), "base value differs between rows")
    if s.kind in ("mgeneric", "ageneric"):
        ctx.close(p[0], np.sum(w * s.y) / np.sum(w), "base value", rtol=1e-7, atol=1.5e-3)
        return
    vals = np.unique(s.y[w > 0])
    cum = np.array([np.sum(w[s.y <= v]) for v in vals])
    goal = s.quantile * np.sum(w)
    exact = s.quantile in (0.25, 0.5, 0.75) and (w == np.floor(w)).all()
    if np.min(np.abs(cum - goal)) < 1e-9 * np.sum(w) and not exact:
        return
    v = vals[np.argmax(cum >= goal)]
    rows = int(np.sum((s.y == v) & (w > 0)))
    tol = 1e-7 * max(abs(v), 1e-12)
    if rows == 1:
        ctx.check(abs(p[0] - v) <= tol, "base value %r instead of the quantile %r" % (p[0], v))
    else:
        ctx.check(v - tol <= p[0] <= v + rows / (rows - 1.0) + 1e-7 * (abs(v) + 1), "base value %r not close above the quantile %r" % (p[0], v))
        # rows of the value up to the quantile
        below = np.sum(w[s.y < v])
        cs = below + np.cumsum(np.sort(w[(s.y == v) & (w > 0)]))
        if exact or np.min(np.abs(cs - goal)) > 1e-9 * np.sum(w):
            ctx.close(p[0], v + np.sum(cs <= goal) / (rows - 1.0), "base value", rtol=1e-7, scale=1.0)
    ctx.event("base_values_checked")


def one_update(ctx):
    rng = ctx.rng
    s = draw(rng, max_iter=1, n_cols=int(rng.choice([1, 2])), groups=None)
    g = s.spec.groups[0]
    s.spec.groups = [g]
    s.kwargs["feature_groups"] = [g if len(g) > 1 else g[0]]
    est, rec = train(ctx, s)
    if est is None:
        return
    base_value(ctx, s, rec)
    w = np.ones(len(s.y)) if s.spec.w is None else s.spec.w
    lab = clean([s.cols[c] for c in g])
    base, fin = rec.preds[0], rec.final
    if not base[0] > 1e-9 and s.kind[0] == "m":
        return
    mult = s.kind[0] == "m"
    sc = max(np.max(np.abs(s.y)), 1e-9)
    mnl = any("MNL" in s.spec.props[c] for c in g)
    for v in np.unique(lab):
        m = lab == v
        y, ww = s.y[m], w[m]
        par = fin[m] / base[m] if mult else fin[m] - base[m]
        ctx.check(np.ptp(par) <= 1e-9 * (1.0 if mult else sc), "bin %s got several parameters" % v)
        par = float(par[0])
        if ww.sum() == 0:
            ctx.check(abs(par - (1.0 if mult else 0.0)) <= 1e-6 * (1.0 if mult else sc), "bin %s without weight got parameter %r" % (v, par))
            continue
        if v == -1 and mnl:
            ctx.check(abs(par - (1.0 if mult else 0.0)) <= 1e-9 * (1.0 if mult else sc), "missing bin is learned: %r" % par)
            continue
        c0, c1 = s.cost(base[m], y, ww), s.cost(fin[m], y, ww)
        ctx.check(c1 <= c0 * (1 + 1e-9) + 1e-12 * sc, "bin %s: cost %r after the update, %r before" % (v, c1, c0))
        # independent minimum within what one update may do
        if mult:
            f = lambda t: s.cost(base[m] * np.exp(t), y, ww)
            # a single update may at most double or halve
            lo, hi = -np.log(2.0), np.log(2.0)
        else:
            f = lambda t: s.cost(base[m] + t, y, ww)
            lo, hi = (y - base[m]).min() - 1e-9, (y - base[m]).max() + 1e-9
        if hi > lo and s.kind in ("mgeneric", "ageneric"):
            r = minimize_scalar(f, bounds=(lo, hi), method="bounded", options=dict(xatol=1e-10 * (hi - lo)))
            best = min(f(r.x), f(lo), f(hi))
            ctx.check(c1 <= best + 1e-4 * (c0 - best) + 1e-5 * abs(best) + 1e-12, "bin %s: cost %r, minimum %r, before %r" % (v, c1, best, c0))
        elif s.kind == "aquantile":
            best = min(s.cost(np.full(len(y), t), y, ww) for t in y)
            good = c1 <= best + 0.1 * (c0 - best) + 1e-9 * sc
            ctx.event("quantile_bins_minimised" if good else "quantile_bins_improved")
        ctx.event("bins_checked")
    ctx.sig(s.signature())


def base(ctx):
    rng = ctx.rng
    s = draw(rng, kinds=["mquantile", "aquantile"], n=int(rng.choice([3, 17, 40])), max_iter=1, max_bins=2, n_cols=1, groups=[("a",)])
    if rng.rand() < 0.5:
        s.y = np.round(np.abs(s.y)) + (0.0 if s.kind == "aquantile" else 1.0)
    est, rec = train(ctx, s)
    if est is not None:
        base_value(ctx, s, rec)
        ctx.sig(s.signature())


def rows_of_bins(ctx):
    """The cost function is asked about exactly the rows of each bin, with their targets and weights."""
    rng = ctx.rng
    s = draw(rng, kinds=["mgeneric", "ageneric"], n=int(rng.choice([25, 60])), max_iter=int(rng.choice([1, 3])))
    n = len(s.y)
    s.y = np.abs(s.y) + np.sort(rng.rand(n))[rng.permutation(n)] * 1e-3 + 0.5
    w = rng.rand(n) * 2 + 0.5
    if len(np.unique(s.y)) < n or len(np.unique(w)) < n:
        return
    s.spec.w = w
    s.X["w"] = w
    s.kwargs["weight_column"] = "w"
    rows = {v: i for i, v in enumerate(s.y)}
    seen = {}
    counts = [0]
    inner = expectile(0.5)

    def costs(prediction, y, weights):
        counts[0] += 1
        prediction, y, weights = (np.asarray(a, dtype=float) for a in (prediction, y, weights))
        ctx.check(prediction.shape == y.shape == weights.shape, "cost function called with shapes %s %s %s" % (
            prediction.shape, y.shape, weights.shape))
        idx = [rows.get(v) for v in y]
        ctx.check(None not in idx, "cost function called with unknown targets")
        ctx.check(np.array_equal(weights, w[idx]), "weights do not belong to the targets")
        seen.setdefault(frozenset(idx), 0)
        seen[frozenset(idx)] += 1
        return inner(prediction, y, weights)

    s.kwargs["costs"] = costs
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.event("cost_calls_observed", counts[0])
    want = {frozenset(range(n)), frozenset()}
    need = set()
    for g in s.spec.groups:
        lab = clean([s.cols[c] for c in g])
        for v in np.unique(lab):
            b = frozenset(np.nonzero(lab == v)[0])
            want.add(b)
            need.add(b)
    ctx.check(set(seen) <= want, "cost function called with rows that form no bin: %s" % sorted(map(sorted, set(seen) - want))[:2])
    mnl = any("MNL" in p for p in s.spec.props.values())
    if not mnl:
        ctx.check(need <= set(seen), "bins never optimised")
    ctx.sig(s.signature())


def descent(ctx):
    rng = ctx.rng
    s = draw(rng, n=int(rng.choice([30, 80])), max_iter=int(rng.choice([2, 5])), stop="never", max_bins=4)
    est, rec = train(ctx, s)
    if est is None:
        return
    if rec.preds[0][0] < 1e-9 and s.kind[0] == "m":
        return
    L = np.array(rec.losses)
    w = np.ones(len(s.y)) if s.spec.w is None else s.spec.w
    for k in range(len(L) - 1):
        ctx.check(L[k + 1] <= L[k] * (1 + 1e-7) + 1e-12, "training cost rises from %r to %r in iteration %d" % (L[k], L[k + 1], k))
    ctx.close(L[-1], s.cost(rec.final, s.y, w), "reported cost", rtol=1e-9)
    for k, p in enumerate(rec.preds):
        ctx.close(L[k], s.cost(p, s.y, w), "reported cost before iteration %d" % k, rtol=1e-9)
    base_value(ctx, s, rec)
    ctx.event("bins_checked", len(L))
    ctx.sig(s.signature())


def coverage(ctx):
    rng = ctx.rng
    k = int(rng.randint(2, 5))
    n = int(rng.choice([120, 300])) * k
    b = rng.randint(0, k, n)
    eff = rng.uniform(-1, 1, k)
    mult = bool(rng.randint(2))
    q = float(rng.choice([0.1, 0.2, 0.5, 0.75, 0.9]))
    y = rng.gamma(2.0, size=n) * np.exp(eff[b]) if mult else rng.normal(size=n) * rng.choice([0.1, 1, 50]) + eff[b]
    w = rng.rand(n) + 0.2 if rng.rand() < 0.5 else np.ones(n)
    smooth = bool(rng.randint(2))
    choice = common_smoothers.SmootherChoiceWeightedMean() if smooth else common_smoothers.NoSmootherChoice()
    cls = cb.CBMultiplicativeQuantileRegressor if mult else cb.CBAdditiveQuantileRegressor
    bb = b.astype(float)
    if rng.rand() < 0.4:
        bb[b == 0] = np.nan
    X = pd.DataFrame({"b": bb, "w": w})
    ctx.describe(bins=k, rows=n, quantile=q, multiplicative=mult, smoothed=smooth)
    est = cls(quantile=q, feature_groups=["b"], feature_properties={"b": flags.IS_UNORDERED | flags.HAS_MISSING}, weight_column="w",
              smoother_choice=choice).fit(X.copy(), y.copy())
    p = est.predict(X.copy())
    for v in range(k):
        m = b == v
        c = np.sum(w[m] * (y[m] <= p[m])) / np.sum(w[m])
        tol = (0.08 if smooth else 0.05)
        ctx.check(abs(c - q) <= tol, "%.3f of the targets of bin %d lie below the predicted %.2f quantile" % (c, v, q))
        ctx.event("coverages_checked")
    ctx.sig(k, n, q, mult, smooth, y[:3].tolist())


def uncertainty(kind, y, w):
    """Documented uncertainty of the parameter of one bin."""
    if kind[0] == "m":
        a = np.sum(w * y) + 2.0
        return np.sqrt(np.log(1 + a) - np.log(a))
    if kind == "gclassifier":
        a, b = np.sum(w * y) + 1.001, np.sum(w * (1 - y)) + 1.001
        shift = 0.4 * (a / (a + b) - 0.5)
        q1, q2 = scipy.stats.beta.ppf([0.75 - shift, 0.25 - shift], a, b)
        z1, z2 = scipy.stats.norm.ppf([0.75 - shift, 0.25 - shift])
        return (np.log(q1 / (1 - q1)) - np.log(q2 / (1 - q2))) / (z1 - z2)
    if not len(y):
        return 10.0
    sw = np.sum(w)
    rss = np.sum(w * (y - np.sum(w * y) / sw) ** 2)
    v0 = rss / sw if rss / sw > 1e-9 else 1.0
    var = (0.5 * v0 + 0.5 * rss) / (0.5 + 0.5 * sw)
    return np.sqrt((np.sum(w * w) / var + 1e-2) / (sw / var + 1e-2) ** 2)


def slow_rate(iteration, maximal_iteration, feature=None):
    return 0.05


def smoothed(ctx):
    """The same update without and with smoothing: the second is the smoothing of the first."""
    rng = ctx.rng
    kind = str(rng.choice(KINDS + ["gclassifier"]))
    s = gen.scenario(rng, kind=kind, lr="one", n=int(rng.choice([30, 80, 200])), n_cols=1 if rng.rand() < 0.6 else 2, max_bins=5, max_dim=2,
                     shapes=[{"UNORDERED"}, {"ORDERED"}], hier=False, aggregate=True, prior=False, max_iter=1)
    g = s.spec.groups[0]
    s.spec.groups = [g]
    s.kwargs["feature_groups"] = [g if len(g) > 1 else g[0]]
    if kind in ("mgeneric", "ageneric"):
        s.kwargs["costs"] = expectile(float(rng.choice([0.2, 0.5, 0.8])))
    if kind == "aquantile" and rng.rand() < 0.5:
        s.y[:] = s.y * 10.0 ** rng.randint(-5, 3)
    w = np.ones(len(s.y)) if s.spec.w is None else s.spec.w
    if s.spec.w is not None and rng.rand() < 0.4:
        w[:] *= 10.0 ** rng.randint(-2, 3)
        s.X["w"] = w
    idx, nb, _, _ = ref.cell_index([s.cols[c] for c in g])
    n = int(np.prod(nb)) + 1
    cnt, sw = ref.sums(idx, n, np.ones(len(w)), w)
    if n == 1 or ((cnt > 0) & (sw == 0)).any() or (kind == "gclassifier" and (cnt[:-1] == 0).any()):
        return
    kw = dict(learn_rate=slow_rate)
    ctx.describe(scenario=s.summary())
    raw, got = gen.Recorder(), gen.Recorder()
    s.fit([raw], smoother_choice=common_smoothers.NoSmootherChoice(use_regression_type=False, use_normalization=False), **kw)
    s.fit([got], **kw)
    link = (lambda v: np.log(v)) if kind[0] == "m" else (lambda v: np.log(v / (1 - v))) if kind == "gclassifier" else (lambda v: v)
    base = raw.preds[0]
    if kind[0] == "m" and not base[0] > 1e-9:
        return
    ctx.check(np.array_equal(base, got.preds[0]), "the base value depends on the smoothing")
    par, res = np.zeros(n), np.full(n, np.nan)
    par[idx] = (link(raw.final) - link(base)) / 0.05
    res[idx] = (link(got.final) - link(base)) / 0.05
    if not np.isfinite(par).all():
        return
    u = np.array([uncertainty(kind, s.y[idx == j], w[idx == j]) for j in range(n)])
    want = np.append(refsm.profile(s.spec.smoother[0], [s.spec.props.get(c, set()) for c in g], nb, sw[:-1], u[:-1], par[:-1],
                                   s.spec.smoother[1], s.spec.smoother[2]), par[-1])
    want = np.where(np.isfinite(want), want, 0.0)
    seen = cnt > 0
    limit = np.log(2.0) / 0.05
    free = seen & (np.abs(par) < limit * 0.999) & (np.abs(want) < limit * 0.999)
    if free[:-1].sum() < seen[:-1].sum():
        return
    sc = max(np.abs(par).max(), np.abs(link(base)).max() if kind[0] == "a" else 1.0)
    ctx.close(res[free], want[free], "smoothed update", rtol=1e-5, atol=1e-6 * sc)
    ctx.event("smoothed_bins", int(free.sum()))
    ctx.sig(s.signature())


def classifier(rng, a, y, **kw):
    rec = gen.Recorder()
    est = cb.CBGenericClassifier(feature_groups=["a"], costs=gen.logistic_costs, maximal_iterations=1, observers=[rec],
                                 learn_rate=learning_rate.constant_learn_rate_one,
                                 smoother_choice=common_smoothers.NoSmootherChoice(), **kw)
    est.fit(pd.DataFrame({"a": a}), y.copy())
    return est, rec


def classifier_minimum(ctx):
    """The custom-cost classifier: a full update should reach the minimum of a bin."""
    rng = ctx.rng
    n = 200
    a = rng.randint(0, 3, n).astype(float)
    y = (rng.rand(n) < np.array([0.2, 0.5, 0.85])[a.astype(int)]).astype(float)
    ctx.describe(case="custom-cost classifier, three bins")
    est, rec = classifier(rng, a, y, feature_properties={"a": flags.IS_UNORDERED})
    base, fin = rec.preds[0], rec.final
    for v in range(3):
        m = a == v
        one = np.ones(int(m.sum()))
        c0, c1 = gen.logistic_costs(base[m], y[m], one), gen.logistic_costs(fin[m], y[m], one)
        best = gen.logistic_costs(np.full(int(m.sum()), y[m].mean()), y[m], one)
        ctx.check(c1 <= c0 * (1 + 1e-9), "custom-cost classifier: cost of bin %d rises from %.4f to %.4f" % (v, c0, c1))
        ctx.event("bins_checked")
    for v in range(3):
        m = a == v
        one = np.ones(int(m.sum()))
        c0, c1 = gen.logistic_costs(base[m], y[m], one), gen.logistic_costs(fin[m], y[m], one)
        best = gen.logistic_costs(np.full(int(m.sum()), y[m].mean()), y[m], one)
        ctx.check(c1 <= best + 1e-3 * (c0 - best) + 1e-6, "custom-cost classifier: cost of bin %d is %.4f, minimum %.4f" % (v, c1, best),
                  mech="generic-classifier-minimum")


def classifier_empty(ctx):
    """The custom-cost classifier: a bin without rows should stay neutral."""
    rng = ctx.rng
    n = 200
    a = rng.choice([0.0, 1.0, 3.0], n)
    y = (rng.rand(n) < 0.3).astype(float)
    ctx.describe(case="custom-cost classifier, an empty bin")
    est, rec = classifier(rng, a, y, feature_properties={"a": flags.IS_CONTINUOUS})
    con = est.get_feature_contributions(pd.DataFrame({"a": [0.0, 2.0, 3.0, np.nan]}))["a"]
    ctx.check(np.isfinite(con).all(), "contributions not finite")
    ctx.event("bins_checked")
    ctx.check(abs(con[1] - 0.5) <= 1e-6, "custom-cost classifier: the empty bin has contribution %.4f instead of the neutral 0.5" % con[1],
              mech="generic-classifier-empty")


WORKLOADS = [
    Workload("one_update", one_update, 170, 1500),
    Workload("base", base, 120, 1200),
    Workload("rows_of_bins", rows_of_bins, 60, 500),
    Workload("descent", descent, 70, 600),
    Workload("coverage", coverage, 30, 300),
    Workload("smoothed", smoothed, 120, 1200),
    Workload("classifier_minimum", classifier_minimum, 2, 4),
    Workload("classifier_empty", classifier_empty, 2, 4),
]
