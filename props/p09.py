"""P09: prediction is a pure row-wise function."""
import numpy as np
import pandas as pd

from lib import gen
from props.common import Workload, overshooting, train

RULE = "an evaluation trains one of the 13 estimators and compares predictions and contributions of the same rows presented in other batches, orders, labels, column layouts, storage types and containers, interleaved with other calls; non-trivial if training returned"
ASSUMPTIONS = ["bin numbers exactly representable in all storage types used"]
MIN_EVENTS = {"trainings": 80, "presentations_compared": 800, "rows_compared": 10000}


def outputs(s, est, X):
    out = {"prediction": s.proba(est, X)}
    if s.kind == "classifier":
        out["class"] = np.asarray(est.predict(X))
    for k, v in est.get_feature_contributions(X).items():
        out["contribution of %s" % k] = np.asarray(v)
    return out


def compare(ctx, ref_out, rows, got, what):
    for k, v in ref_out.items():
        want = v[rows] if rows is not None else v
        ctx.close(got[k], want, "%s: %s" % (what, k), rtol=1e-13, atol=1e-300)
    ctx.event("presentations_compared")
    ctx.event("rows_compared", len(want))


def labels(rng, n):
    kind = rng.randint(6)
    if kind == 0:
        return pd.Index(rng.permutation(n) + 1000)
    if kind == 1:
        return pd.Index(["r%d" % i for i in rng.randint(0, max(1, n // 2), n)])
    if kind == 2:
        return pd.Index(np.zeros(n, dtype=int))
    if kind == 3:
        return pd.date_range("2020-01-01", periods=n)
    if kind == 4:
        return pd.MultiIndex.from_arrays([rng.randint(0, 3, n), np.arange(n)])
    return pd.Index(np.arange(n)[::-1])


def retype(rng, X, names):
    X = X.copy()
    for c in names:
        v = np.asarray(X[c], dtype=float)
        fin = np.isfinite(v)
        pool = [np.float64]
        if (np.abs(v[fin]) <= 2 ** 24).all():
            pool.append(np.float32)
        if fin.all():
            pool += [np.int64]
            if (np.abs(v) < 2 ** 31).all():
                pool.append(np.int32)
            if (np.abs(v) < 120).all():
                pool.append(np.int8)
            if (v >= 0).all() and (v < 200).all():
                pool += [np.uint8, np.uint64]
        X[c] = v.astype(pool[rng.randint(len(pool))])
    return X


def presentations(ctx):
    rng = ctx.rng
    s = gen.zoo(rng)
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    m = 60
    X, _, _ = gen.probe_rows(rng, s, m)
    X = X.reset_index(drop=True)
    base = outputs(s, est, X.copy())
    # one row at a time
    for i in rng.choice(m, 4, replace=False):
        compare(ctx, base, np.array([i]), outputs(s, est, X.iloc[[i]].copy()), "row on its own")
    # subset, order, repetition
    rows = rng.permutation(m)
    compare(ctx, base, rows, outputs(s, est, X.iloc[rows]), "rows in another order")
    rows = rng.choice(m, rng.randint(1, 2 * m))
    compare(ctx, base, rows, outputs(s, est, X.iloc[rows]), "rows repeated and left out")
    # among extreme company
    far = X.copy()
    for c in s.names:
        far[c] = rng.choice([0.0, 50.0, np.nan, 1e5], m)
    compare(ctx, base, None, {k: v[:m] for k, v in outputs(s, est, pd.concat([X, far], ignore_index=True)).items()},
            "rows in a larger batch")
    Y = X.copy()
    Y.index = labels(rng, m)
    compare(ctx, base, None, outputs(s, est, Y), "other row labels")
    Y = X[list(rng.permutation(X.columns))].copy()
    Y.insert(0, "zz", rng.rand(m))
    Y["text"] = "x"
    compare(ctx, base, None, outputs(s, est, Y), "columns reordered and added")
    compare(ctx, base, None, outputs(s, est, retype(rng, X, s.names)), "other storage types")
    Y = X.copy()
    if "w" in Y:
        Y["w"] = rng.rand(m)
        compare(ctx, base, None, outputs(s, est, Y), "other weights")
    # a frame taken as a strided view
    Z = pd.DataFrame(np.repeat(X.to_numpy(dtype=float), 2, axis=0), columns=X.columns).iloc[::2]
    compare(ctx, base, None, outputs(s, est, Z), "every second row of a frame")
    compare(ctx, base, None, outputs(s, est, X.copy()), "prediction repeated after others")


def containers(ctx):
    """Integer column labels: frame against array in several layouts."""
    rng = ctx.rng
    kind = str(rng.choice(["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier", "nbinomc", "ageneric"]))
    s = gen.zoo(rng, kinds=[kind])
    pos = {c: i for i, c in enumerate(s.X.columns)}
    kw = s.kwargs

    def num(g):
        return tuple(pos[c] for c in g) if isinstance(g, tuple) else pos[g]

    for k in ("feature_groups", "hierarchical_feature_groups"):
        if kw.get(k) is not None:
            kw[k] = [num(g) for g in kw[k]]
    if kw.get("feature_properties"):
        kw["feature_properties"] = {pos[c]: v for c, v in kw["feature_properties"].items()}
    for k in ("weight_column", "prior_prediction_column", "mean_prediction_column"):
        if kw.get(k) is not None:
            kw[k] = pos[kw[k]]
    F = s.X.astype(float)
    F.columns = range(F.shape[1])
    est = None
    ctx.describe(scenario=s.summary())
    from cyclic_boosting.utils import ConvergenceError

    try:
        est = s.fit([], X=F.copy() if rng.rand() < 0.5 else F.to_numpy().copy())
    except ConvergenceError:
        return
    ctx.event("trainings")
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(rng, s, 40)
    X = X[list(s.X.columns)].astype(float)
    X.columns = range(X.shape[1])
    base = outputs(s, est, X.copy())
    A = X.to_numpy()
    compare(ctx, base, None, outputs(s, est, np.ascontiguousarray(A)), "array in row order")
    compare(ctx, base, None, outputs(s, est, np.asfortranarray(A)), "array in column order")
    B = np.full((2 * len(A), A.shape[1] + 1), 77.0)
    B[::2, :-1] = A
    compare(ctx, base, None, outputs(s, est, B[::2]), "array view with an extra column")
    if A.dtype == float and np.isfinite(A).all() and s.spec.prior is None and s.spec.mu is None and s.spec.w is None:
        compare(ctx, base, None, outputs(s, est, A.astype(np.int64)), "array of integers")
    ro = A.copy()
    ro.setflags(write=False)
    compare(ctx, base, None, outputs(s, est, ro), "read-only array")
    rows = rng.permutation(len(A))
    compare(ctx, base, rows, outputs(s, est, A[rows]), "array rows in another order")


def extended(ctx):
    """predict_extended gives the same answer with and without categories, for any batch."""
    rng = ctx.rng
    s = gen.zoo(rng, kinds=["poisson", "location", "classifier", "exponential", "nbinom"])
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(rng, s, 30)
    a = est.predict_extended(X.copy(), None).predict_link()
    rows = rng.permutation(30)
    Y = X.iloc[rows]
    b = est.predict_extended(Y, None).predict_link()
    ctx.close(b, a[rows], "extended prediction in another order", rtol=1e-13)
    ctx.event("presentations_compared")


WORKLOADS = [
    Workload("large", gen.enlarged(presentations), 16, 200),
    Workload("damped", overshooting(presentations), 16, 200),
    Workload("presentations", presentations, 400, 5000),
    Workload("containers", containers, 200, 2500),
    Workload("extended", extended, 60, 600),
]
