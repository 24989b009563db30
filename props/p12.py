"""P12: training ignores row order, labels and container."""
import numpy as np
import pandas as pd

from cyclic_boosting.utils import ConvergenceError

from lib import gen, ref
from props.common import NOSEASON, SEASON, Violation, Workload, overshooting, scale_of, train
from props.p09 import labels, retype

RULE = "an evaluation trains an estimator on the same data presented in another order, with other labels, layout, types, containers or bin numbers and compares the models; non-trivial if training returned"
ASSUMPTIONS = ["a difference is attributed to rounding if changing weights, targets or means in the tenth digit has a comparable effect", "quantile models and the custom-cost classifier are trained by an optimiser that may end anywhere in a flat minimum, and the dispersion model without averaging picks one of equally likely candidates: only their base value is compared across row orders"]
QUANTILE = ("mquantile", "aquantile")
MIN_EVENTS = {"pairs_trained": 300, "values_compared": 10000, "relabellings": 50}


def noisy(s):
    """The same training with data changed in the tenth digit, in random row order."""
    rng = np.random.RandomState(11)
    F = s.frame()
    n = len(F)
    over = {}

    def noise(v):
        return np.asarray(v, dtype=float) * (1 + 1e-10 * rng.normal(size=n))

    if s.kind == "nbinomc":
        F["mu"] = noise(F["mu"])
    else:
        F["w"] = noise(F["w"]) if "w" in F else noise(np.ones(n))
        over["weight_column"] = "w"
    rows = rng.permutation(n)
    try:
        return s.fit([], X=F.iloc[rows], y=s.y[rows], **over)
    except ConvergenceError:
        return None


def equal_models(ctx, s, a, b, X, what, rtol=1e-8, map_b=None, Xb=None):
    Xb = X if Xb is None else Xb
    items = [("prediction", s.proba(a, X.copy()), s.proba(b, Xb.copy()))]
    ca, cb = a.get_feature_contributions(X.copy()), b.get_feature_contributions(Xb.copy())
    ctx.check(sorted(ca) == sorted(cb), "%s: other contributions" % what)
    items += [(k, ca[k], cb[k]) for k in ca]
    ia, ib = a.get_feature_importances(), b.get_feature_importances()
    ks = sorted(ia)
    ctx.check(ks == sorted(ib), "%s: other importances" % what)
    items.append(("importances", np.array([ia[k] for k in ks]), np.array([ib[k] for k in ks])))
    sc = scale_of(items[0][1])
    alt = None
    for i, (name, want, got) in enumerate(items):
        if name == "prediction":
            scale = (1.0 if s.kind in gen.SLOW else 1e-2) * sc
        elif name == "importances" or s.kind in ref.LOG + ref.LOGIT:
            scale = 1.0
        else:
            scale = sc
        try:
            ctx.close(got, want, "%s: %s" % (what, name), rtol=rtol, scale=scale)
        except Violation:
            alt = noisy(s)
            if alt is None:
                return
            if name == "prediction":
                v = s.proba(alt, X.copy())
            elif name == "importances":
                iv = alt.get_feature_importances()
                v = np.array([iv[k] for k in ks])
            else:
                v = alt.get_feature_contributions(X.copy())[name]
            got, want, v = (np.asarray(q, dtype=float) for q in (got, want, v))
            if got.shape != want.shape or not np.nanmax(np.abs(got - want)) <= 20 * np.nanmax(np.abs(v - want)):
                raise
            ctx.event("ill_conditioned_skipped")
            return


def fit_or_none(s, **kw):
    try:
        return s.fit([], **kw)
    except ConvergenceError:
        return None


def order(ctx):
    rng = ctx.rng
    s = gen.zoo(rng, shapes=NOSEASON)
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    n = len(s.y)
    rows = rng.permutation(n) if rng.rand() < 0.7 else np.argsort(s.y)[::-1]
    X = s.X.iloc[rows]
    if rng.rand() < 0.5:
        X = X.reset_index(drop=True)
    P, _, _ = gen.probe_rows(rng, s, 40)
    rb = gen.Recorder()
    try:
        b = s.fit([rb], X=X, y=s.y[rows])
    except ConvergenceError:
        return
    ctx.event("pairs_trained")
    ctx.close(rb.preds[0], rec.preds[0][rows], "rows in another order: base prediction", rtol=1e-9)
    if s.kind in QUANTILE + ("gclassifier",) or (s.kind == "nbinomc" and not s.spec.bayes):
        return
    equal_models(ctx, s, est, b, P, "rows in another order", rtol=1e-4 if s.kind in gen.SLOW else 1e-8)


def seasonal(ctx):
    rng = ctx.rng
    s = gen.zoo(rng, kinds=["poisson", "location", "classifier", "nbinom"], shapes=SEASON, max_iter=2)
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    rows = rng.permutation(len(s.y))
    b = fit_or_none(s, X=s.X.iloc[rows], y=s.y[rows])
    if b is None:
        return
    ctx.event("pairs_trained")
    P, _, _ = gen.probe_rows(rng, s, 40)
    equal_models(ctx, s, est, b, P, "rows in another order", rtol=1e-3)


def presentation(ctx):
    """Labels, column layout, additional columns, types and containers of X and y: bit for bit equal."""
    rng = ctx.rng
    s = gen.zoo(rng)
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    P, _, _ = gen.probe_rows(rng, s, 40)
    n = len(s.y)
    for how in rng.choice(["index", "columns", "types", "y_series", "y_list", "y_type", "view", "y_view", "y_labels"], 3,
                          replace=False):
        X, y = s.frame(), s.y.copy()
        if how == "index":
            X.index = labels(rng, n)
        elif how == "columns":
            X = X[list(rng.permutation(X.columns))].copy()
            X.insert(0, "zz", rng.rand(n))
            X["text"] = "x"
        elif how == "types":
            X = retype(rng, X, s.names)
        elif how == "y_series":
            y = pd.Series(y)
        elif how == "y_labels":
            lab = labels(rng, n)
            y = pd.Series(y, index=lab)
        elif how == "y_list":
            y = y.tolist()
        elif how == "y_type":
            if not (y == np.floor(y)).all() or np.abs(y).max() > 1e9:
                continue
            y = y.astype([np.int64, np.int32][rng.randint(2)])
            if s.kind in ("classifier", "gclassifier") and rng.rand() < 0.5:
                y = y.astype(bool)
        elif how == "view":
            X = pd.DataFrame({c: np.repeat(np.asarray(X[c]), 2) for c in X.columns}).iloc[::2]
        elif how == "y_view":
            y = np.repeat(y, 2)[::2]
        b = fit_or_none(s, X=X, y=y)
        ctx.check(b is not None, "training rejected with other %s" % how)
        ctx.event("pairs_trained")
        equal_models(ctx, s, est, b, P, "other %s" % how, rtol=1e-12)


def arrays(ctx):
    """Frame with integer labels against the array."""
    rng = ctx.rng
    kind = str(rng.choice(["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier", "nbinomc", "mgeneric"]))
    s = gen.zoo(rng, kinds=[kind])
    pos = {c: i for i, c in enumerate(s.X.columns)}
    kw = s.kwargs

    def num(g):
        return tuple(pos[c] for c in g) if isinstance(g, tuple) else pos[g]

    named = fit_or_none(s)
    if named is None:
        return
    for k in ("feature_groups", "hierarchical_feature_groups"):
        if kw.get(k) is not None:
            kw[k] = [num(g) for g in kw[k]]
    if kw.get("feature_properties"):
        kw["feature_properties"] = {pos[c]: v for c, v in kw["feature_properties"].items()}
    for k in ("weight_column", "prior_prediction_column", "mean_prediction_column"):
        if kw.get(k) is not None:
            kw[k] = pos[kw[k]]
    ctx.describe(scenario=s.summary())
    F = s.X.astype(float)
    A = F.to_numpy()
    F.columns = range(F.shape[1])
    a = fit_or_none(s, X=F.copy())
    B = np.full((len(A), A.shape[1] + 1), 3.0)
    B[:, :-1] = A
    arr = [np.ascontiguousarray(A), np.asfortranarray(A), B][rng.randint(3)]
    b = fit_or_none(s, X=arr.copy(order="K"))
    ctx.check(a is not None and b is not None, "training on integer labels or an array was rejected")
    ctx.event("pairs_trained")
    ctx.sig(s.signature())
    P, _, _ = gen.probe_rows(rng, s, 40)
    P = P[list(s.X.columns)].astype(float)
    p0 = s.proba(named, P.copy())
    P.columns = range(P.shape[1])
    equal_models(ctx, s, a, b, P, "array instead of frame", rtol=1e-12)
    ctx.close(s.proba(a, P.copy()), p0, "integer labels instead of names", rtol=1e-12)


def relabel(ctx):
    """Renumbering the bins of an unordered feature permutes its profile."""
    rng = ctx.rng
    s = gen.zoo(rng, kinds=[k for k in gen.ZOO if k not in ("nbinomc", "gclassifier") + QUANTILE], shapes=[{"UNORDERED"}] if rng.rand() < 0.5 else NOSEASON,
                smoother=("wm", True, bool(rng.rand() < 0.7)))
    cands = [c for c in s.names if "UNORDERED" in s.spec.props[c]]
    if not cands:
        return
    c = str(rng.choice(cands))
    est, rec = train(ctx, s)
    if est is None:
        return
    v = s.cols[c]
    fin = np.isfinite(v) & (v >= 0)
    if not fin.any():
        return
    top = int(v[fin].max()) + 1
    # every group has to know the same range of bins before and after
    perm = rng.permutation(top).astype(float)
    lim = top if len(np.unique(v[fin])) == top else top - 1
    for g in s.spec.groups + list(getattr(s, "external", [])):
        if len(g) > 1 and c in g:
            ok = ref.cell_index([s.cols[k] for k in g])[2]
            lim = min(lim, int(v[ok].max()) if ok.any() else 0)
    perm = np.r_[rng.permutation(lim), np.arange(lim, top)].astype(float)

    def apply(x):
        x = np.asarray(x, dtype=float).copy()
        ok = np.isfinite(x) & (x >= 0) & (x < top)
        x[ok] = perm[x[ok].astype(int)]
        return x

    X = s.frame()
    X[c] = apply(X[c])
    b = fit_or_none(s, X=X)
    if b is None:
        return
    ctx.event("pairs_trained")
    ctx.event("relabellings")
    ctx.sig(s.signature(), c)
    P, _, _ = gen.probe_rows(rng, s, 40)
    Q = P.copy()
    Q[c] = apply(Q[c])
    equal_models(ctx, s, est, b, P, "bins of %s renumbered" % c, rtol=1e-4 if s.kind in gen.SLOW else 1e-8, Xb=Q)


WORKLOADS = [
    Workload("large", gen.enlarged(order), 16, 200),
    Workload("damped", overshooting(order), 16, 200),
    Workload("order", order, 250, 3000),
    Workload("seasonal", seasonal, 30, 300),
    Workload("presentation", presentation, 180, 2000),
    Workload("arrays", arrays, 100, 1200),
    Workload("relabel", relabel, 200, 2500),
]
