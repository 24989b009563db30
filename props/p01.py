"""P01: continuous binning is an equal-weight partition."""
import numpy as np
import pandas as pd

from cyclic_boosting import flags
from cyclic_boosting.binning import BinNumberTransformer

from props.common import Workload

RULE = "an evaluation fits the bin-number transformer on a random column with weights, bin count and tolerance and checks the bins of the training values and of hostile new values against the reported boundaries and direct weight sums; non-trivial if the column has at least one finite value of positive weight"
ASSUMPTIONS = ["weights are zero or at least 1e-6 of the largest", "values within 2e-9 of the smallest bin width next to a boundary are not judged"]
MIN_EVENTS = {"columns_fitted": 500, "values_binned": 50000, "bins_checked": 3000}


def WARMUP():
    BinNumberTransformer(n_bins=3).fit(np.c_[np.arange(9.0)]).transform(np.c_[np.arange(9.0)])


def column(rng, n):
    k = str(rng.choice(["normal", "ties", "heavy", "tiny", "huge", "ints", "few", "const", "zero_inflated", "mixed_scale", "linspace", "clusters"]))
    if k == "normal":
        x = rng.normal(size=n)
    elif k == "ties":
        x = np.round(rng.normal(size=n) * 3) / 2
    elif k == "heavy":
        x = rng.standard_cauchy(n)
    elif k == "tiny":
        x = rng.rand(n) * 1e-12
    elif k == "huge":
        x = rng.normal(size=n) * 1e15
    elif k == "ints":
        x = rng.randint(-1000, 1000, n).astype(float)
    elif k == "few":
        x = rng.choice([-2.5, 0.0, 1.0, 7.0], n)
    elif k == "const":
        x = np.full(n, float(rng.randint(-3, 4)))
    elif k == "zero_inflated":
        x = np.where(rng.rand(n) < 0.7, 0.0, rng.gamma(2, size=n))
    elif k == "mixed_scale":
        x = 10.0 ** rng.uniform(-4, 4, n)
    elif k == "clusters":
        # values next to each other beside values far apart
        x = np.where(rng.rand(n) < 0.3, rng.rand(n) * 10.0 ** -rng.randint(9, 13), rng.normal(size=n) * 100)
    else:
        x = np.linspace(-1, 1, n)[rng.permutation(n)]
    return k, x


def weights(rng, n):
    w = weights_of_one(rng, n)
    if rng.rand() < 0.3:
        # only the shares of the total matter
        w = w * 2.0 ** int(rng.choice([-60, -30, -24, 24, 30, 60]))
    return w


def weights_of_one(rng, n):
    k = rng.randint(5)
    if k == 0:
        return rng.randint(1, 5, n).astype(float)
    if k == 1:
        return rng.rand(n) + 0.01
    if k == 2:
        w = rng.randint(0, 3, n).astype(float)
        w[rng.randint(n)] = 1.0
        return w
    if k == 3:
        w = np.ones(n)
        w[rng.randint(n)] = float(n)
        return w
    return np.full(n, 1e-3)


def dirty(rng, x, magic):
    """Mixes in missing values; returns the column and the mask of missing rows."""
    x = x.copy()
    m = rng.rand(len(x)) < rng.choice([0.0, 0.2, 0.6])
    x[m] = rng.choice([np.nan, np.inf, -np.inf], int(m.sum()))
    if magic:
        g = rng.rand(len(x)) < 0.2
        x[g] = rng.choice([-9.0, -999.0], int(g.sum()))
        m = m | g | np.isin(x, [-9.0, -999.0])
    return x, m


def fit_bins(x, w, n_bins, tol, magic, extra, as_array, rng):
    prop = flags.IS_CONTINUOUS | (flags.HAS_MAGIC_INT_MISSING if magic else 0)
    if extra == "linear":
        prop |= flags.IS_LINEAR
    elif extra == "monotonic":
        prop |= flags.IS_MONOTONIC
    elif extra == "missing":
        prop |= flags.HAS_MISSING
    elif extra == "not_learned":
        prop |= flags.MISSING_NOT_LEARNED
    if as_array:
        X = np.c_[x] if w is None else np.c_[x, w]
        t = BinNumberTransformer(n_bins=n_bins, tolerance=tol, feature_properties={0: prop}, weight_column=None if w is None else 1)
        t.fit(X)
        return t, 0, lambda v: np.asarray(t.transform(np.c_[v] if w is None else np.c_[v, np.ones(len(v))]))[:, 0]
    d = {"x": x}
    if w is not None:
        d["w"] = w
    d["other"] = rng.rand(len(x))
    X = pd.DataFrame(d)
    t = BinNumberTransformer(n_bins=n_bins if rng.rand() < 0.6 else {"x": n_bins}, tolerance=tol, feature_properties={"x": prop, "absent": prop} if rng.rand() < 0.2 else {"x": prop},
                             weight_column=None if w is None else "w")
    t.fit(X)

    def trans(v):
        F = pd.DataFrame({"x": v, "w": 1.0, "other": 0.0})
        if w is None:
            F = F.drop(columns=["w"])
        return np.asarray(t.transform(F)["x"])

    return t, "x", trans


def partition(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 5, 30, 200, 1500], p=[0.05, 0.05, 0.1, 0.3, 0.35, 0.15]))
    kind, x0 = column(rng, n)
    magic = rng.rand() < 0.25
    x, miss = dirty(rng, x0, magic)
    w = weights(rng, n) if rng.rand() < 0.5 else None
    n_bins = int(rng.choice([2, 3, 4, 7, 10, 50, 100, 1000]))
    tol = float(rng.choice([0.1, 0.0, 0.5, 0.05]))
    as_array = rng.rand() < 0.3
    extra = str(rng.choice(["", "linear", "monotonic", "missing", "not_learned"]))
    ctx.describe(column=kind, rows=n, n_bins=n_bins, tolerance=tol, weighted=w is not None, magic=magic)
    t, key, trans = fit_bins(x, w, n_bins, tol, magic, extra, as_array, rng)
    ctx.event("columns_fitted")
    ww = np.ones(n) if w is None else w
    used = ~miss & (ww > 0)
    b = trans(x).astype(float)
    ctx.check(b.shape == (n,), "%s bins for %d rows" % (b.shape, n))
    ctx.check((b[miss] == -1).all(), "missing values not in the missing bin")
    bounds = t.get_feature_bin_boundaries()[key]
    if not used.any():
        ctx.check(bounds is None, "boundaries for a column without values")
        ctx.check((b == -1).all(), "values binned although no value was seen in training")
        return
    ctx.sig(kind, n, n_bins, tol, x[used][:5].tolist())
    edges = np.asarray(bounds, dtype=float)[:, 0]
    k = len(edges) - 1
    if kind == "clusters":
        # boundaries are compared within 1e-9 of the smallest bin width
        gaps, wide = np.diff(np.unique(x[used])), np.diff(edges)
        if len(gaps) and gaps.min() <= 1e-8 * (wide[wide > 0].min() if (wide > 0).any() else 1.0):
            return
        ctx.event("clusters_checked")
    ctx.check((b[~miss] >= 0).all() and (b[~miss] < k).all(), "bin outside 0..%d" % (k - 1))
    ctx.check(k <= n_bins, "%d bins instead of at most %d" % (k, n_bins))
    ctx.check(np.array_equal(np.unique(b[used]), np.arange(k)), "bins %s of the training values do not cover 0..%d" % (
        np.unique(b[used]), k - 1))
    ctx.check(edges[0] == x[used].min() and edges[-1] == x[used].max(), "boundaries do not span the training values")
    total = ww[used].sum()
    share = np.bincount(b[used].astype(int), weights=ww[used], minlength=k) / total
    ctx.check((share >= (1 - tol) / n_bins - 2e-9).all(), "a bin holds only %s of the weight, expected at least %s" % (
        share.min(), (1 - tol) / n_bins))
    # without its largest value a bin (but the last) is too small
    for i in range(k - 1):
        inside = used & (b == i)
        rest = ww[inside & (x < x[inside].max())].sum() / total
        ctx.check(rest < 1.0 / n_bins + 2e-9, "bin %d could have been closed earlier: %s without its largest value" % (i, rest))
    ctx.event("bins_checked", k)
    order = np.argsort(x[used], kind="stable")
    ctx.check((np.diff(b[used][order]) >= 0).all(), "bin numbers decrease with the value")
    # new values
    lo, hi = edges[0], edges[-1]
    span = hi - lo if hi > lo else 1.0
    probe = np.r_[rng.uniform(lo - 0.2 * span, hi + 0.2 * span, 100), edges, (edges[1:] + edges[:-1]) / 2, rng.choice(x[used], 20),
                  [lo - 1e30, hi + 1e30, lo - span, hi + span, -0.0, 0.0, -9.0, -999.0, np.nan, np.inf, -np.inf]]
    pb = trans(probe).astype(float)
    bad = ~np.isfinite(probe) | (np.isin(probe, [-9.0, -999.0]) if magic else False)
    ctx.check((pb[bad] == -1).all(), "missing new values not in the missing bin")
    v, vb = probe[~bad], pb[~bad]
    eps = 2e-9 * (np.diff(edges)[np.diff(edges) > 0].min() if (np.diff(edges) > 0).any() else 1.0)
    eps = max(eps, 4e-16 * max(abs(lo), abs(hi)))
    for val, bb in zip(v, vb):
        # bin i holds (edge i, edge i+1]
        near = np.abs(edges - val) <= eps
        want = int(np.clip(np.searchsorted(edges[1:], val, side="left"), 0, k - 1))
        if near.any():
            exact = edges[1:] == val
            if exact.any() and bb == int(np.argmax(exact)):
                continue
            if not exact.any():
                continue
            want = int(np.argmax(exact))
        ctx.check(bb == want, "value %r in bin %d instead of %d of %d" % (val, bb, want, k))
    ctx.event("values_binned", len(v) + n)


def influence(ctx):
    """Missing rows and rows of weight zero do not matter for the boundaries."""
    rng = ctx.rng
    n = int(rng.choice([20, 200]))
    kind, x0 = column(rng, n)
    magic = rng.rand() < 0.4
    x, miss = dirty(rng, x0, magic)
    w = weights(rng, n)
    w[rng.rand(n) < 0.3] = 0.0
    n_bins, tol = int(rng.choice([2, 5, 20, 100])), 0.1
    used = ~miss & (w > 0)
    if not used.any():
        return
    ctx.describe(column=kind, rows=n, n_bins=n_bins, magic=magic)
    t1, k1, _ = fit_bins(x, w, n_bins, tol, magic, "", False, rng)
    t2, k2, _ = fit_bins(x[used], w[used], n_bins, tol, magic, "", False, rng)
    a, b = t1.get_feature_bin_boundaries()[k1], t2.get_feature_bin_boundaries()[k2]
    ctx.close(a, b, "boundaries without missing and zero-weight rows", rtol=1e-12)
    perm = rng.permutation(n)
    t3, k3, _ = fit_bins(x[perm], w[perm], n_bins, tol, magic, "", True, rng)
    c = t3.get_feature_bin_boundaries()[k3]
    if np.asarray(c).shape == np.asarray(a).shape:
        ctx.close(np.asarray(c)[:, 1], np.asarray(a)[:, 1], "cumulated weights for permuted rows", rtol=1e-9)
    ctx.event("columns_fitted", 3)
    ctx.sig(kind, n, x[used][:5].tolist())


def defaults(ctx):
    """No feature properties: every column but the weight is continuous with up to 100 bins."""
    rng = ctx.rng
    n = int(rng.choice([50, 2000]))
    X = pd.DataFrame({"a": rng.normal(size=n), "b": rng.rand(n), "w": rng.rand(n) + 0.5})
    use_w = rng.rand() < 0.5
    t = BinNumberTransformer(weight_column="w" if use_w else None)
    before = X.copy()
    B = t.fit(X).transform(X)
    ctx.check(B.shape == X.shape and list(B.columns) == list(X.columns), "shape or columns changed")
    if use_w:
        ctx.same(B["w"], before["w"], "weight column")
    for c in ("a", "b"):
        k = int(B[c].max()) + 1
        ctx.check(k <= 100 and B[c].min() >= 0, "bins %d to %d" % (B[c].min(), B[c].max()))
        if n == 2000:
            ctx.check(k >= 90, "only %d bins for 2000 distinct values" % k)
        o = np.argsort(X[c].to_numpy())
        ctx.check((np.diff(B[c].to_numpy()[o].astype(int)) >= 0).all(), "bins decrease")
    ctx.event("columns_fitted", 2)
    ctx.sig(n, use_w, ctx.index)


WORKLOADS = [
    Workload("partition", partition, 2500, 30000),
    Workload("influence", influence, 400, 4000),
    Workload("defaults", defaults, 30, 200),
]
