"""P27: chained quantile predictions are ordered, bounded and trained as a chain."""
import numpy as np
import pandas as pd
from scipy.special import expit, logit
from sklearn.base import BaseEstimator

import cyclic_boosting as cb
from cyclic_boosting import quantile_matching as qm

from lib import gen
from lib.rt import Workload

RULE = "an evaluation trains a chain whose members record what they are given (stubs with chosen outputs, members reproducing an order statistic, real quantile regressors), and compares training sets, targets and returned quantiles with the definition of the chain; non-trivial if all three members were trained"
ASSUMPTIONS = ["targets inside the bounds; equal to the lower bound only where stated"]
MIN_EVENTS = {"chains": 300, "member_targets": 5000, "quantile_rows": 8000, "order_statistics": 300, "distributions_hit": 1000}

KNOWN_HIGH = "chain-semibounded-high"


class Member(BaseEstimator):
    """Gives chosen outputs per row; the row's number is the first column."""

    def __init__(self, outputs=None, rule=None):
        self.outputs = outputs
        self.rule = rule

    def rows(self, X):
        v = X.values if hasattr(X, "values") else X
        return np.asarray(v[:, 0], dtype=int)

    def fit(self, X, y):
        self.X_, self.rows_, self.y_ = X, self.rows(X), np.array(y, dtype=float)
        self.fits_ = getattr(self, "fits_", 0) + 1
        if self.rule is not None:
            groups = np.asarray((X.values if hasattr(X, "values") else X)[:, 1], dtype=int)
            self.table_ = {g: pick(self.y_[groups == g], self.rule) for g in np.unique(groups)}
        return self

    def predict(self, X):
        if self.rule is not None:
            groups = np.asarray((X.values if hasattr(X, "values") else X)[:, 1], dtype=int)
            return np.array([self.table_[g] for g in groups])
        return np.array(self.outputs, dtype=float)[self.rows(X)]


def pick(v, share):
    """An order statistic, which monotone transformations keep."""
    v = np.sort(v)
    return v[min(len(v) - 1, int(share * len(v)))]


def setting(rng, n):
    bound = str(rng.choice(["S", "B"]))
    l = float(rng.choice([0.0, 0.0, 1.0, -3.0, -100.0, 0.1]))
    u = l + float(rng.choice([1.0, 7.0, 0.3, 250.0]))
    if bound == "B":
        y = l + (u - l) * (rng.rand(n) * 0.998 + 0.001)
    else:
        y = l + np.exp(rng.normal(size=n) * rng.choice([0.3, 1.5]))
    if rng.rand() < 0.3:
        y = np.round(y, 1)
        y = np.clip(y, l + 0.05 * (u - l), l + 0.95 * (u - l)) if bound == "B" else np.maximum(y, l + 0.05)
    return bound, l, u, y


def features(rng, n, extra=None):
    cols = dict(i=np.arange(n))
    if extra is not None:
        cols["g"] = extra
    X = pd.DataFrame(cols)
    how = str(rng.choice(["frame", "array", "labels"]))
    if how == "array":
        return X.values.astype(float), how
    if how == "labels":
        X.index = rng.permutation(n) + 5
    return X, how


def check_quantiles(ctx, chain, X, zm, zl, zh, bound, l, u, alpha, strict):
    low, med, high, qpd = chain.predict(X)
    low, med, high = (np.asarray(v, dtype=float) for v in (low, med, high))
    with np.errstate(all="ignore"):
        wm = l + np.exp(zm) if bound == "S" else l + (u - l) * expit(zm)
        wl = l + (wm - l) * expit(zl)
        wh = wm + (wm - wl) * np.exp(zh) if bound == "S" else wm + (u - wm) * expit(zh)
    sc = np.abs(l) + (np.abs(u) if bound == "B" else 0.0)
    tol = dict(rtol=1e-9, atol=1e-11 * (sc + 1e-3))
    ctx.close(med, wm, "median against the output of its member", **tol)
    ctx.close(low, wl, "low quantile against the outputs of its members", **tol)
    # order and bounds hold whatever the members put out
    ctx.check(np.isfinite(low).all() and np.isfinite(med).all() and np.isfinite(high).all(), "quantiles are not finite")
    cmp_ = np.less if strict else np.less_equal
    ctx.check(cmp_(low, med).all(), "low quantile not below the median")
    ctx.check(cmp_(med, high).all(), "high quantile not above the median")
    ctx.check((low >= l).all(), "low quantile below the lower bound")
    if bound == "B":
        ctx.check((high <= u).all(), "high quantile %r above the upper bound %r" % (high.max(), u))
    ctx.event("quantile_rows", len(low))
    if strict:
        for p, v, name in ((alpha, low, "low"), (0.5, med, "median"), (1 - alpha, high, "high")):
            ctx.close(np.atleast_1d(qpd.ppf(p)), v, "returned distribution at the %s quantile" % name, rtol=1e-7,
                      atol=1e-8 * (sc + 1e-3))
        lo = float(np.min(np.asarray(qpd.ppf(1e-4))))
        ctx.check(lo >= l - 1e-9 * (1 + abs(l)), "returned distribution reaches %r below the lower bound" % lo)
        if bound == "B":
            hi = float(np.max(np.asarray(qpd.ppf(1 - 1e-4))))
            ctx.check(hi <= u + 1e-9 * (1 + abs(u)), "returned distribution reaches %r above the upper bound" % hi)
        ctx.event("distributions_hit", len(low))
    check_high(ctx, high, wh, med, zh, bound, tol)


def check_high(ctx, high, want, med, zh, bound, tol):
    if bound == "S":
        with np.errstate(all="ignore"):
            plain = med + np.exp(zh)
        scale = np.abs(plain) * 1e-9 + tol["atol"]
        if (np.abs(high - plain) <= scale).all() and not (np.abs(high - want) <= np.abs(want) * 1e-9 + tol["atol"]).all():
            # a known finding, which the workload of its own reports
            ctx.event("semibounded_high_as_known", len(high))
            return
    ctx.close(high, want, "high quantile against the outputs of its members", **tol)


def check_training(ctx, members, X, y, bound, l, u, zm, zl):
    n = len(y)
    med, low, high = members
    yt = np.log(y - l) if bound == "S" else logit((y - l) / (u - l))
    ctx.check(med.fits_ == 1 and low.fits_ == 1 and high.fits_ == 1, "members trained %s times" % [m.fits_ for m in members])
    ctx.check(list(med.rows_) == list(range(n)), "median trained on other rows")
    tol = dict(rtol=1e-9, atol=1e-9)
    ctx.close(med.y_, yt, "target of the median", **tol)
    wm = l + np.exp(zm) if bound == "S" else l + (u - l) * expit(zm)
    wl = l + (wm - l) * expit(zl)
    near = np.abs(y - wm) <= 1e-12 * (np.abs(y) + np.abs(l))
    for m, sel, f, name in (
            (low, y < wm, lambda k: logit((y[k] - l) / (wm[k] - l)), "low"),
            (high, y > wm, lambda k: np.log((y[k] - wm[k]) / (wm[k] - wl[k])) if bound == "S" else
             logit((y[k] - wm[k]) / (u - wm[k])), "high")):
        got = np.zeros(n, dtype=bool)
        got[m.rows_] = True
        bad = (got != sel) & ~near
        ctx.check(not bad.any() and (np.diff(m.rows_) > 0).all(), "%s quantile trained on other rows: %s" % (name, np.nonzero(bad)[0][:5]))
        k = m.rows_[~near[m.rows_]]
        with np.errstate(all="ignore"):
            want = f(k)
            # a difference close to zero carries the rounding of its parts
            err = 1e-12 * (np.abs(y[k]) + np.abs(l) + np.abs(wm[k])) / np.minimum(np.abs(y[k] - wm[k]), y[k] - l)
            if bound == "B" and name == "high":
                err = err + 1e-12 * (np.abs(u) + np.abs(y[k])) / (u - y[k])
        v = m.y_[~near[m.rows_]]
        ctx.check((np.abs(v - want) <= 1e-9 * (1 + np.abs(want)) + 10 * err).all(), "target of the %s quantile: %s instead of %s" % (
            name, v[:4], want[:4]))
        ctx.event("member_targets", len(k))


def draw(rng, n, width):
    return rng.normal(size=n) * width


def stubs(ctx):
    rng = ctx.rng
    n = int(rng.randint(4, 60))
    bound, l, u, y = setting(rng, n)
    X, how = features(rng, n)
    alpha = float(rng.choice([0.25, 0.1, 0.05]))
    yt = np.log(y - l) if bound == "S" else logit((y - l) / (u - l))
    zm = np.full(n, np.median(yt)) + draw(rng, n, 0.5)
    zl, zh = draw(rng, n, 1.5), draw(rng, n, 1.5)
    wm = l + np.exp(zm) if bound == "S" else l + (u - l) * expit(zm)
    if not ((y < wm).any() and (y > wm).any()):
        return
    ctx.describe(bound=bound, l=l, u=u, n=n, how=how, alpha=alpha)
    ctx.sig(bound, l, how, alpha, n)
    members = [Member(zm), Member(zl), Member(zh)]
    opts = dict(alpha=alpha) if alpha != 0.25 or rng.rand() < 0.5 else {}
    if l != 0.0 or rng.rand() < 0.5:
        opts["l"] = l
    if bound == "B":
        opts["u"] = u
    chain = qm.QPD_RegressorChain(*members, bound, **opts)
    r = chain.fit(X, y.copy())
    ctx.check(r is chain, "fit does not return the chain")
    ctx.event("chains")
    check_training(ctx, members, X, y, bound, l, u, zm, zl)
    ctx.event("trained_members", 3)
    # other rows, other order: predictions follow the members row by row
    k = rng.permutation(n)[: max(1, n // 2)]
    Z = X[k] if isinstance(X, np.ndarray) else X.iloc[k]
    check_quantiles(ctx, chain, Z, zm[k], zl[k], zh[k], bound, l, u, alpha, True)


def extremes(ctx):
    """Outputs of members far out: order and bounds remain."""
    rng = ctx.rng
    n = 40
    bound, l, u, y = setting(rng, n)
    if rng.rand() < 0.7:
        l = float(rng.normal() * 10)
        u = l + float(np.exp(rng.normal() * 2))
        y = l + (u - l) * (rng.rand(n) * 0.998 + 0.001)
    X, how = features(rng, n)
    yt = np.log(y - l) if bound == "S" else logit((y - l) / (u - l))
    mid = float(np.median(yt))
    ctx.describe(bound=bound, l=l, u=u, how=how)
    ctx.sig(bound, how, l)
    members = [Member(np.full(n, mid)), Member(np.zeros(n)), Member(np.zeros(n))]
    chain = qm.QPD_RegressorChain(*members, bound, alpha=0.25, l=l, u=u)
    chain.fit(X, y.copy())
    ctx.event("chains")
    top = 25.0 if bound == "S" else 80.0
    far = np.r_[-80.0, -40.0, -20.0, -5.0, 0.0, 5.0, 20.0, 25.0, top]
    zm, zl, zh = (rng.choice(far, n) for _ in range(3))
    if bound == "S":
        zh = np.minimum(zh, 25.0)
    zm[:5] = mid
    for m, z in zip(members, (zm, zl, zh)):
        m.outputs = z
    check_quantiles(ctx, chain, X, zm, zl, zh, bound, l, u, 0.25, False)


def statistics(ctx):
    """Members that reproduce an order statistic per group make the chain reproduce order statistics."""
    rng = ctx.rng
    n = int(rng.choice([40, 90]))
    bound, l, u, y = setting(rng, n)
    y = np.unique(y)
    y = rng.permutation(y)
    n = len(y)
    g = rng.randint(0, 3, n)
    X, how = features(rng, n, g)
    share = [float(v) for v in rng.choice([0.5, 0.3, 0.7], 3)]
    ctx.describe(bound=bound, l=l, u=u, n=n, how=how, share=share)
    want = {}
    for k in np.unique(g):
        v = y[g == k]
        m = pick(v, share[0])
        if not ((v < m).sum() >= 2 and (v > m).sum() >= 2):
            return
        want[k] = (pick(v[v < m], share[1]), m, pick(v[v > m], share[2]))
    ctx.sig(bound, l, how, n, share)
    members = [Member(rule=s) for s in share]
    chain = qm.QPD_RegressorChain(*members, bound, alpha=0.25, l=l, u=u)
    chain.fit(X, y.copy())
    ctx.event("chains")
    # rounding may put the median's own row on either side
    med_ok = []
    for k, (a, m, b) in want.items():
        rows = np.nonzero((g == k) & (y == m))[0]
        med_ok.append(all(r not in members[1].rows_ and r not in members[2].rows_ for r in rows))
    low, med, high, qpd = chain.predict(X)
    tol = dict(rtol=1e-7, atol=1e-8 * (1 + abs(l)))
    W = np.array([want[k] for k in g])
    ctx.close(med, W[:, 1], "median of the chain against the median of the group", **tol)
    ctx.event("order_statistics", len(want))
    if not all(med_ok):
        return
    ctx.close(low, W[:, 0], "low quantile of the chain against that of the group", **tol)
    ctx.event("order_statistics", 2 * len(want))
    zh = members[2].predict(X)
    check_high(ctx, np.asarray(high), W[:, 2], np.asarray(med), zh, bound, dict(rtol=1e-7, atol=1e-8 * (1 + abs(l))))


def history(ctx):
    """Training again replaces everything; predicting trains nothing."""
    rng = ctx.rng
    n = 30
    bound, l, u, y = setting(rng, n)
    g = np.arange(n) % 2
    X = pd.DataFrame(dict(i=np.arange(n), g=g))
    new = lambda: qm.QPD_RegressorChain(Member(rule=0.5), Member(rule=0.5), Member(rule=0.5), bound, alpha=0.25, l=l, u=u)  # noqa: E731
    y2 = rng.permutation(y)

    def feasible(v):
        return all((v[g == k] < pick(v[g == k], 0.5) * (1 - 1e-9) - 1e-9).sum() >= 2 and (v[g == k] > pick(v[g == k], 0.5) + 1e-9).sum() >= 2 for k in (0, 1))

    if not feasible(y) or not feasible(y2):
        return
    ctx.describe(bound=bound, l=l, u=u)
    ctx.sig(bound, l, u)
    a, b = new(), new()
    a.fit(X, y2.copy())
    a.predict(X)
    before = [m.fits_ for m in (a.est_median, a.est_lowq, a.est_highq)]
    a.fit(X, y.copy())
    a.predict(X)
    after = [m.fits_ for m in (a.est_median, a.est_lowq, a.est_highq)]
    ctx.check(after == [v + 1 for v in before], "members trained %s times after %s" % (after, before))
    b.fit(X, y.copy())
    for p, q, name in zip(a.predict(X)[:3], b.predict(X)[:3], ("low", "median", "high")):
        ctx.same(p, q, "%s quantile after training again" % name)
    ctx.event("chains", 2)


def real(ctx):
    """Real quantile regressors."""
    rng = ctx.rng
    n = int(rng.randint(80, 200))
    bound = str(rng.choice(["S", "B"]))
    l = float(rng.choice([0.0, -2.0]))
    a, b = rng.randint(0, 4, n).astype(float), rng.randint(0, 3, n).astype(float)
    y = l + np.exp(rng.normal(size=n) * 0.5 + 0.3 * a)
    u = float(y.max() + 1)
    X = pd.DataFrame(dict(a=a, b=b))
    alpha = float(rng.choice([0.25, 0.2]))

    def member(q):
        return cb.CBAdditiveQuantileRegressor(quantile=q, feature_groups=["a", "b"], maximal_iterations=2, feature_properties={
            "a": gen.flag_int({"CONTINUOUS"}), "b": gen.flag_int({"UNORDERED"})})

    qs = [0.5, 2 * alpha, 2 * (1 - alpha) - 1]
    ctx.describe(bound=bound, l=l, u=u, n=n, alpha=alpha)
    ctx.sig(bound, l, alpha, n)
    chain = qm.QPD_RegressorChain(member(qs[0]), member(qs[1]), member(qs[2]), bound, alpha=alpha, l=l, u=u)
    chain.fit(X.copy(), y.copy())
    ctx.event("chains")
    low, med, high, qpd = chain.predict(X.copy())
    ctx.check((low < med).all() and (med < high).all() and (low >= l).all(), "order of the quantiles")
    if bound == "B":
        ctx.check((high <= u).all(), "high quantile above the upper bound")
    for p, v, name in ((alpha, low, "low"), (0.5, med, "median"), (1 - alpha, high, "high")):
        ctx.close(qpd.ppf(p), v, "returned distribution at the %s quantile" % name, rtol=1e-7, atol=1e-9)
    # members see the transformed targets: the median is the regressor's own on the transformed scale
    again = chain.est_median.predict(X.copy())
    ctx.close(med, l + np.exp(again) if bound == "S" else l + (u - l) * expit(again), "median of the chain", rtol=1e-9)
    ctx.event("quantile_rows", n)


def semibounded_high(ctx):
    """The upper member is trained on multiples of the distance from low quantile to median."""
    y = np.array([0.25, 0.5, 1.0, 2.0, 5.0, 8.0])
    n = len(y)
    X = pd.DataFrame(dict(i=np.arange(n), g=np.zeros(n, dtype=int)))
    chain = qm.QPD_RegressorChain(Member(rule=0.5), Member(rule=0.5), Member(rule=0.5), "S")
    chain.fit(X, y.copy())
    ctx.sig("semibounded")
    ctx.event("chains")
    low, med, high, _ = chain.predict(X)
    ctx.close(med, np.full(n, 2.0), "median", rtol=1e-9)
    ctx.close(low, np.full(n, 0.5), "low quantile", rtol=1e-9)
    # 5 and 8 were the upper targets; their upper one is predicted
    if np.allclose(high, 8.0, rtol=1e-9):
        return
    ctx.fail("semi-bounded chain: members that reproduce the upper training target 8 give %r" % float(high[0]),
             mech=KNOWN_HIGH if np.allclose(high, 2.0 + 4.0, rtol=1e-9) else None)


WORKLOADS = [
    Workload("semibounded_high", semibounded_high, 1, 1),
    Workload("stubs", stubs, 500, 8000),
    Workload("extremes", extremes, 200, 3000),
    Workload("statistics", statistics, 250, 4000),
    Workload("history", history, 40, 400),
    Workload("real", real, 16, 160),
]
