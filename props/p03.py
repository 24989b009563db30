"""P03: the empirical-CDF transform is the weighted training distribution."""
import numpy as np
import pandas as pd

from cyclic_boosting import flags
from cyclic_boosting.binning import ECdfTransformer

from props.common import Workload
from props.p01 import column, dirty, weights
from props.p09 import labels

RULE = "an evaluation fits the empirical-CDF transformer on a random column with weights and compares transformed training and new values with weighted shares computed directly; non-trivial if a finite value of positive weight exists"
ASSUMPTIONS = ["weights are zero or at least 1e-6 of the largest"]
MIN_EVENTS = {"columns_fitted": 400, "values_transformed": 50000, "boundaries_checked": 3000}


def WARMUP():
    for p in (flags.IS_CONTINUOUS, flags.IS_ORDERED):
        ECdfTransformer(n_bins=3, feature_properties={0: p}).fit(np.c_[np.arange(9.0)]).transform(np.c_[np.arange(9.0)])


def build(rng, x, w, n_bins, prop):
    n = len(x)
    if rng.rand() < 0.3:
        X = np.c_[x] if w is None else np.c_[x, w]
        t = ECdfTransformer(n_bins=n_bins, feature_properties={0: prop}, weight_column=None if w is None else 1).fit(X)
        return t, lambda v: np.asarray(t.transform(np.c_[v] if w is None else np.c_[v, np.ones(len(v))]))[:, 0]
    d = {"x": x, "other": rng.rand(n)}
    if w is not None:
        d["w"] = w
    X = pd.DataFrame(d)[list(rng.permutation(list(d)))]
    t = ECdfTransformer(n_bins=n_bins, feature_properties={"x": prop}, weight_column=None if w is None else "w").fit(X)

    def trans(v):
        F = pd.DataFrame({c: (v if c == "x" else np.full(len(v), 0.5)) for c in X.columns})
        F.index = labels(rng, len(v))
        G = t.transform(F)
        if list(G.columns) != list(F.columns) or not G.index.equals(F.index) or not (np.asarray(G["other"]) == 0.5).all():
            raise AssertionError("columns, labels or undeclared columns changed")
        return np.asarray(G["x"])

    return t, trans


def share(known, ww, v):
    """Weighted share of training values not above v."""
    return np.array([ww[known <= q].sum() for q in v]) / ww.sum()


def continuous(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 20, 150, 800]))
    kind, x0 = column(rng, n)
    magic = rng.rand() < 0.25
    x, miss = dirty(rng, x0, magic)
    w = weights(rng, n) if rng.rand() < 0.5 else None
    n_bins = int(rng.choice([2, 3, 5, 10, 100]))
    ctx.describe(column=kind, rows=n, n_bins=n_bins, weighted=w is not None, magic=magic)
    t, trans = build(rng, x, w, n_bins, flags.IS_CONTINUOUS | (flags.HAS_MAGIC_INT_MISSING if magic else 0))
    ctx.event("columns_fitted")
    ww = np.ones(n) if w is None else w
    used = ~miss & (ww > 0)
    got = trans(x)
    ctx.check(np.isnan(got[miss]).all(), "missing training values not missing after the transform")
    if not used.any():
        ctx.check(np.isnan(got).all(), "values transformed although none was seen in training")
        return
    ctx.sig(kind, n, n_bins, x[used][:5].tolist())
    bc = [b for c, e, b in t.bins_and_cdfs_ if c in (0, "x")][0]
    edges, cdf = bc[:, 0], bc[:, 1]
    ctx.check(edges[0] == x[used].min() and edges[-1] == x[used].max(), "boundaries do not span the training values")
    ctx.close(cdf[1:], share(x[used], ww[used], edges[1:]), "cumulated share at the boundaries", rtol=1e-9)
    ctx.check(cdf[0] == 0 and (np.diff(cdf) > -1e-12).all() and len(edges) - 1 <= n_bins, "cumulated shares not increasing from 0")
    ctx.event("boundaries_checked", len(edges))
    lo, hi = edges[0], edges[-1]
    span = hi - lo if hi > lo else 1.0
    probe = np.r_[x[used][:100], edges, rng.uniform(lo - 0.1 * span, hi + 0.1 * span, 100), (edges[1:] + edges[:-1]) / 2,
                  [lo - 1e30, hi + 1e30, np.nan, np.inf, -np.inf, -9.0, -999.0]]
    p = trans(probe)
    bad = ~np.isfinite(probe) | (np.isin(probe, [-9.0, -999.0]) if magic else False)
    ctx.check(np.isnan(p[bad]).all(), "missing new values not missing after the transform")
    v, q = probe[~bad], p[~bad]
    ctx.check(np.isfinite(q).all() and (q >= 0).all() and (q <= 1 + 1e-12).all(), "transformed values outside [0, 1]")
    o = np.argsort(v, kind="stable")
    ctx.check((np.diff(q[o]) >= -1e-9).all(), "transform decreases")
    # piecewise linear between boundaries; at a repeated first boundary the larger share
    u, idx = np.unique(edges, return_index=True)
    last = np.r_[idx[1:] - 1, len(edges) - 1]
    want = np.interp(v, u, cdf[last])
    want = np.where(v < lo, 0.0, np.where(v >= hi, 1.0, want))
    gap = np.diff(u).min() if len(u) > 1 else 1.0
    clear = ~((np.abs(v[:, None] - u[None, :]) <= 2e-9 * gap) & (v[:, None] != u[None, :])).any(axis=1)
    ctx.close(q[clear], want[clear], "transformed new values", rtol=1e-6, atol=1e-6)
    ctx.event("values_transformed", len(v) + n)


def discrete(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 5, 60, 400]))
    cats = np.unique(rng.choice([np.arange(9.0), rng.normal(size=9), np.arange(9.0) - 4][rng.randint(3)], 6))
    x = rng.choice(cats, n)
    magic = rng.rand() < 0.3
    x, miss = dirty(rng, x, magic)
    w = weights(rng, n) if rng.rand() < 0.5 else None
    ctx.describe(rows=n, weighted=w is not None, magic=magic)
    t, trans = build(rng, x, w, 10, int(rng.choice([flags.IS_UNORDERED, flags.IS_ORDERED])) | (
        flags.HAS_MAGIC_INT_MISSING if magic else 0))
    ctx.event("columns_fitted")
    ww = np.ones(n) if w is None else w
    used = ~miss & (ww > 0)
    known = np.unique(x[used])
    probe = np.r_[x, known, known + 0.01, cats, [np.nan, np.inf, -np.inf, -9.0, -999.0, 123.0, -5.5]]
    p = trans(probe)
    hit = np.isin(probe, known)
    ctx.check(np.isnan(p[~hit]).all(), "unseen or missing values not missing after the transform")
    if hit.any():
        ctx.sig(n, x[used][:5].tolist())
        ctx.close(p[hit], share(x[used], ww[used], probe[hit]), "share of values not above a category", rtol=1e-9)
        ctx.event("boundaries_checked", len(known))
    ctx.event("values_transformed", len(probe))


WORKLOADS = [
    Workload("continuous", continuous, 1000, 12000),
    Workload("discrete", discrete, 500, 5000),
]
