"""P02: categorical binning is a stable bijection."""
import numpy as np
import pandas as pd

from cyclic_boosting import flags
from cyclic_boosting.binning import BinNumberTransformer

from props.common import Workload
from props.p01 import WARMUP, weights  # noqa: F401
from props.p09 import labels

RULE = "an evaluation fits the bin-number transformer on random discrete columns and compares the bins of training values, equal values in other types and hostile unseen values with the rank among distinct training values; non-trivial if at least one category was seen"
ASSUMPTIONS = ["unseen values differ from seen ones by at least one millionth of the smallest gap"]
MIN_EVENTS = {"columns_fitted": 400, "values_binned": 50000, "unseen_checked": 5000}


def categories(rng, big=False):
    k = int(rng.choice([300, 700, 40000])) if big else int(rng.choice([1, 2, 3, 10, 60, 200]))
    style = str(rng.choice(["ints", "neg", "float", "close", "large", "half", "ids", "uneven"]))
    if style == "ints":
        c = np.arange(k, dtype=float)
    elif style == "neg":
        c = np.arange(k, dtype=float) - k // 2
    elif style == "float":
        c = np.sort(rng.normal(size=k)) * 10
    elif style == "close":
        c = 1.0 + np.arange(k) * 1e-9
    elif style == "large":
        c = 2.0 ** 50 + np.arange(k) * 3.0
    elif style == "half":
        c = np.arange(k) * 0.5 - 3.25
    elif style == "uneven":
        c = rng.choice([-1.0, 1.0], k) * 10.0 ** rng.uniform(-13, 3, k)
    else:
        c = rng.choice(10 ** 7, k, replace=False).astype(float)
    c = np.unique(c)
    return style, c


def fit_column(ctx, big=False):
    rng = ctx.rng
    style, cats = categories(rng, big)
    n = int(max(len(cats), rng.choice([5, 100, 400])))
    x = np.r_[cats, rng.choice(cats, n - len(cats))] if n > len(cats) else cats.copy()
    x = x[rng.permutation(n)]
    prop = int(rng.choice([flags.IS_UNORDERED, flags.IS_ORDERED])) | int(
        rng.choice([0, flags.HAS_MISSING, flags.MISSING_NOT_LEARNED]))
    magic = bool(rng.rand() < 0.3)
    if magic:
        prop |= flags.HAS_MAGIC_INT_MISSING
    miss = rng.rand(n) < rng.choice([0.0, 0.3])
    x = x.copy()
    x[miss] = rng.choice([np.nan, np.inf, -np.inf] + ([-9.0, -999.0] if magic else []), int(miss.sum()))
    if magic:
        miss = miss | np.isin(x, [-9.0, -999.0])
    w = weights(rng, n) if rng.rand() < 0.5 else None
    ww = np.ones(n) if w is None else w
    known = np.unique(x[~miss & (ww > 0)])
    F = {"x": x}
    cols = ["x"]
    if np.isfinite(x).all() and (x == np.floor(x)).all() and rng.rand() < 0.6:
        pool = [np.int64]
        if np.abs(x).max() < 2 ** 31:
            pool.append(np.int32)
        if np.abs(x).max() < 120:
            pool += [np.int8, np.float32]
        if (x >= 0).all() and x.max() < 250:
            pool += [np.uint8, np.uint32]
        F["x"] = x.astype(pool[rng.randint(len(pool))])
    if w is not None:
        F["w"] = w
    F["other"] = rng.normal(size=n)
    order = list(rng.permutation(list(F)))
    X = pd.DataFrame({c: F[c] for c in order})
    X.index = labels(rng, n)
    t = BinNumberTransformer(n_bins=int(rng.choice([2, 10, 100])), feature_properties={"x": prop, "absent": prop} if rng.rand() < 0.2 else {"x": prop},
                             weight_column=None if w is None else "w")
    t.fit(X)
    ctx.event("columns_fitted")
    ctx.describe(style=style, categories=len(known), rows=n, magic=magic, weighted=w is not None, dtype=str(X["x"].dtype))
    return rng, t, X, x, miss, ww, known, magic


def expected(known, v, magic):
    v = np.asarray(v, dtype=float)
    out = np.full(len(v), -1.0)
    ok = np.isfinite(v)
    if magic:
        ok &= ~np.isin(v, [-9.0, -999.0])
    if len(known):
        pos = np.clip(np.searchsorted(known, v), 0, len(known) - 1)
        hit = ok & (known[pos] == v)
        out[hit] = pos[hit]
    return out


def check(ctx, big=False):
    rng, t, X, x, miss, ww, known, magic = fit_column(ctx, big)
    if len(known):
        ctx.sig(len(known), known[:5].tolist(), len(x))
    B = t.transform(X)
    ctx.check(list(B.columns) == list(X.columns), "columns %s instead of %s" % (list(B.columns), list(X.columns)))
    ctx.check(len(B) == len(X) and B.index.equals(X.index), "rows or labels changed")
    for c in X.columns:
        if c != "x":
            ctx.same(B[c], X[c], "column %s without declared property" % c)
    ctx.same(np.asarray(B["x"], dtype=float), expected(known, x, magic), "bins of the training values")
    ctx.event("values_binned", len(x))
    got = np.asarray(B["x"], dtype=float)
    if len(known):
        ctx.check(np.array_equal(np.unique(got[got >= 0]), np.arange(len(known))), "bins do not cover 0..%d" % (len(known) - 1))
    # other values
    gap = np.diff(known).min() if len(known) > 1 else 1.0
    near = known if len(known) <= 300 else rng.choice(known, 300)
    v = np.r_[near, near + gap * 0.5, near - gap * 0.25, near + 1e-3 * gap, near - 1e-3 * gap, rng.normal(size=20) * 100,
              [np.nan, np.inf, -np.inf, -9.0, -999.0, 0.0, -0.0, 1e300, -1e300]]
    # arithmetic on large values may hit a known value again; the oracle is exact on v itself
    P = pd.DataFrame({c: (v if c == "x" else np.zeros(len(v))) for c in X.columns})
    want = expected(known, v, magic)
    dist = np.abs(known[np.clip(np.searchsorted(known, v), 0, max(0, len(known) - 1))] - v) if len(known) else np.full(len(v), 9e9)
    if len(known) > 1:
        left = np.clip(np.searchsorted(known, v) - 1, 0, len(known) - 1)
        dist = np.minimum(dist, np.abs(known[left] - v))
    clear = ~((dist > 0) & (dist < 1e-6 * gap))
    pb = np.asarray(t.transform(P)["x"], dtype=float)
    ctx.same(pb[clear], want[clear], "bins of other values")
    ctx.event("values_binned", len(v))
    ctx.event("unseen_checked", int((want == -1).sum()))


def columns(ctx):
    check(ctx)


def many(ctx):
    check(ctx, big=True)


def several(ctx):
    """Several columns of different kinds at once, frames and arrays."""
    rng = ctx.rng
    n = int(rng.choice([30, 300]))
    F = {"d": rng.choice([-3.0, 0.0, 2.5, 90.0], n), "e": rng.randint(0, 400, n).astype(float), "f": rng.normal(size=n),
         "c": rng.rand(n)}
    names = list(rng.permutation(list(F)))
    props = {"d": flags.IS_UNORDERED, "e": flags.IS_ORDERED, "c": flags.IS_CONTINUOUS, "f": flags.IS_UNORDERED}
    drop = [c for c in names if rng.rand() < 0.3]
    if len(drop) == 4:
        drop = drop[:3]
    X = pd.DataFrame({c: F[c] for c in names})
    X.index = labels(rng, n)
    p = {c: v for c, v in props.items() if c not in drop}
    ctx.describe(columns=names, declared=sorted(p), rows=n)
    t = BinNumberTransformer(n_bins=7, feature_properties=p)
    B = t.fit(X).transform(X)
    pos = {c: i for i, c in enumerate(names)}
    A = X.to_numpy()
    ta = BinNumberTransformer(n_bins=7, feature_properties={pos[c]: v for c, v in p.items()})
    BA = ta.fit(A).transform(A)
    ctx.sig(names, sorted(p), n)
    for c in names:
        col = np.asarray(B[c], dtype=float)
        if c in drop:
            ctx.same(col, F[c], "undeclared column %s" % c)
        elif c != "c":
            ctx.same(col, expected(np.unique(F[c]), F[c], False), "bins of %s" % c)
        ctx.same(np.asarray(BA[:, pos[c]], dtype=float), col, "array against frame, column %s" % c)
        # on its own
        if c not in drop:
            one = BinNumberTransformer(n_bins=7, feature_properties={c: props[c]})
            ctx.same(np.asarray(one.fit(X[[c]]).transform(X[[c]])[c], dtype=float), col, "column %s binned on its own" % c)
        ctx.event("values_binned", n)
    ctx.event("columns_fitted", len(p))
    # column order at transform time
    q = list(rng.permutation(names))
    B2 = t.transform(X[q])
    for c in names:
        ctx.same(np.asarray(B2[c], dtype=float), np.asarray(B[c], dtype=float), "column %s with columns reordered" % c)
    rows = rng.permutation(n)[: max(1, n // 3)]
    B3 = t.transform(X.iloc[rows])
    for c in names:
        ctx.same(np.asarray(B3[c], dtype=float), np.asarray(B[c], dtype=float)[rows], "column %s of a subset" % c)


def inplace(ctx):
    """In-place transformation gives the same bins."""
    rng = ctx.rng
    n = 60
    X = pd.DataFrame({"d": rng.choice([1.0, 5.0, 7.0, np.nan], n), "c": rng.rand(n)})
    p = {"d": flags.IS_UNORDERED, "c": flags.IS_CONTINUOUS}
    a = BinNumberTransformer(n_bins=5, feature_properties=p)
    b = BinNumberTransformer(n_bins=5, feature_properties=p, inplace=True)
    B = a.fit(X).transform(X)
    Y = X.copy()
    C = b.fit(Y).transform(Y)
    for c in X.columns:
        ctx.same(np.asarray(C[c], dtype=float), np.asarray(B[c], dtype=float), "in-place bins of %s" % c)
    ctx.sig(ctx.index)


WORKLOADS = [
    Workload("columns", columns, 900, 9000),
    Workload("many", many, 40, 300),
    Workload("several", several, 200, 2000),
    Workload("inplace", inplace, 10, 50),
]
