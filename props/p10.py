"""P10: sample weights mean repetition."""
import numpy as np
import pandas as pd

from cyclic_boosting.utils import ConvergenceError

from lib import gen, ref
from props.common import NOSEASON, SEASON, Violation, Workload, overshooting, scale_of, train

RULE = "an evaluation trains the same data once with integer weights and once with repeated rows (or unit against no weights, or a weight column next to default feature groups) and compares models; non-trivial if both trainings returned"
ASSUMPTIONS = ["integer weights up to 4", "a difference is attributed to rounding if changing the weights in the tenth digit has a comparable effect"]
MIN_EVENTS = {"pairs_trained": 200, "values_compared": 5000, "bases_checked": 50, "weightless_columns": 30}


def models_close(ctx, s, a, b, X, what, rtol, retrain):
    """Same predictions and contributions; a difference as large as that of a tiny data change is rounding."""
    items = [("prediction", s.proba(a, X.copy()), s.proba(b, X.copy()))]
    ca, cb = a.get_feature_contributions(X.copy()), b.get_feature_contributions(X.copy())
    for k in ca:
        items.append(("contribution of %s" % k, ca[k], cb[k]))
    sc = scale_of(items[0][2])
    for i, (name, got, want) in enumerate(items):
        scale = 1e-2 * sc if i == 0 else (sc if s.kind not in ref.LOG + ref.LOGIT else 1.0)
        try:
            ctx.close(got, want, "%s: %s" % (what, name), rtol=rtol, scale=scale)
        except Violation:
            o = retrain()
            if o is None:
                return False
            alt = s.proba(o, X.copy()) if i == 0 else o.get_feature_contributions(X.copy())[name[16:]]
            if not np.max(np.abs(np.asarray(got) - want)) <= 20 * np.max(np.abs(np.asarray(alt) - want)):
                raise
            ctx.event("ill_conditioned_skipped")
            return False
    return True


def jitter(s, X, y, weights=True):
    """Retrains with weights changed in the tenth digit."""
    rng = np.random.RandomState(3)
    F = X.copy()
    over = {}
    F["w"] = (np.asarray(F["w"], dtype=float) if "w" in F else 1.0) * (1 + 1e-10 * rng.normal(size=len(F)))
    over["weight_column"] = "w"
    try:
        return s.fit([], X=F, y=y.copy(), **over)
    except ConvergenceError:
        return None


def repetition(ctx, kinds, smoother=None, shapes=NOSEASON, rtol=1e-7):
    rng = ctx.rng
    s = gen.zoo(rng, kinds=kinds, weights=False, smoother=smoother, shapes=shapes)
    n = len(s.y)
    w = rng.randint(1, 5, n)
    if rng.rand() < 0.6:
        # weight zero only where the row is not needed to declare the range of bins
        z = rng.rand(n) < 0.3
        for c in s.names:
            v = s.cols[c]
            fin = np.isfinite(v) & (v >= 0)
            if fin.any():
                z &= ~(v == v[fin].max())
        for g in s.spec.groups:
            if len(g) > 1:
                lex, nb, ok, _ = ref.cell_index([s.cols[c] for c in g])
                if ok.any():
                    for c in g:
                        z &= ~(ok & (s.cols[c] == s.cols[c][ok].max()))
        w[z] = 0
        if w.sum() == 0 or (s.kind == "gbs" and not w[s.y != 0].sum() > 0):
            w[:] = 1
    F = s.frame()
    F["w"] = w.astype(float) if rng.rand() < 0.5 else w
    ctx.describe(scenario=s.summary(), zero_weights=int((w == 0).sum()))
    try:
        a = s.fit([], X=F, weight_column="w")
        rows = np.repeat(np.arange(n), w)
        if rng.rand() < 0.5:
            rows = rng.permutation(rows)
        b = s.fit([], X=s.X.iloc[rows].reset_index(drop=True), y=s.y[rows])
    except ConvergenceError:
        return
    ctx.event("pairs_trained")
    ctx.sig(s.signature(), w.tolist()[:10])
    X, _, _ = gen.probe_rows(rng, s, 50)
    X["w"] = 1.0
    models_close(ctx, s, a, b, X, "weights against repeated rows", rtol, lambda: jitter(s, F, s.y))


def counts(ctx):
    repetition(ctx, ["poisson", "nbinom", "classifier"])


def seasonal(ctx):
    repetition(ctx, ["poisson", "nbinom", "classifier"], shapes=SEASON, rtol=1e-3)


def additive(ctx):
    repetition(ctx, ["location", "gbs"], smoother=("none", False, False) if ctx.rng.rand() < 0.5 else ("none", True, True))


def weightless(ctx):
    """All rows in which a column is known have weight zero: they might as well be absent."""
    rng = ctx.rng
    s = gen.zoo(rng, kinds=["poisson", "nbinom", "classifier", "location", "location", "locpoisson", "gbs"], weights=False, missing=True, stop="never",
                smoother=("none", False, False) if rng.rand() < 0.5 else ("none", True, True))
    v = s.cols[str(rng.choice(s.names))]
    w = np.where(np.isfinite(v) & (v >= 0), 0.0, rng.randint(1, 4, len(v)))
    keep = w > 0
    if not keep.sum() > 3 or not s.y[keep].any():
        return
    F = s.frame()
    F["w"] = w
    ctx.describe(scenario=s.summary(), zero_weights=int((~keep).sum()))
    try:
        a = s.fit([], X=F, weight_column="w")
        b = s.fit([], X=F[keep].reset_index(drop=True), y=s.y[keep], weight_column="w")
    except ConvergenceError:
        return
    ctx.event("pairs_trained")
    ctx.event("weightless_columns")
    ctx.sig(s.signature(), w.tolist()[:10])
    got, want = s.proba(a, F[keep]), s.proba(b, F[keep])
    try:
        ctx.close(got, want, "prediction with rows of weight zero", rtol=1e-7, scale=1e-2 * scale_of(want))
    except Violation:
        o = jitter(s, F, s.y)
        if o is None or not np.max(np.abs(np.asarray(got) - want)) <= 20 * np.max(np.abs(s.proba(o, F[keep]) - want)):
            raise
        ctx.event("ill_conditioned_skipped")
    ctx.check(np.isfinite(s.proba(a, F)).all() and np.isfinite(list(a.get_feature_importances().values())).all(), "rows of weight zero make the model not finite")


def costs(ctx):
    """Cost-minimising models without smoothing."""
    repetition(ctx, ["mgeneric", "ageneric"], smoother=("none", False, False), rtol=1e-4)


def unit(ctx):
    rng = ctx.rng
    s = gen.zoo(rng, kinds=[k for k in gen.ZOO if k != "nbinomc"], weights=False)
    F = s.frame()
    F["w"] = 1.0
    ctx.describe(scenario=s.summary())
    try:
        a = s.fit([], X=F, weight_column="w")
        b = s.fit([])
    except ConvergenceError:
        return
    ctx.event("pairs_trained")
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(rng, s, 50)
    X["w"] = 1.0
    models_close(ctx, s, a, b, X, "unit weights against no weights", 1e-10, lambda: jitter(s, F, s.y))


def wquantile(y, q, w):
    """Smallest y whose cumulated weight reaches the share q."""
    o = np.argsort(y, kind="stable")
    return y[o][np.cumsum(w[o]) >= w.sum() * q][0]


def base_value(ctx):
    """The prediction before the first iteration is that of the weighted target."""
    s = gen.zoo(ctx.rng, kinds=[k for k in gen.ZOO if k not in ("nbinomc", "gbs")], weights=True, prior=False,
                max_iter=1)
    if s.kind == "exponential":
        s.X["price"] = 1.0
    if s.kind in ("mquantile", "aquantile"):
        # without ties, where the code interpolates
        s.y[:] = s.y + np.linspace(0.01, 0.02, len(s.y))[ctx.rng.permutation(len(s.y))]
        if s.spec.w.min() < 1e-9:
            s.spec.w[:] = s.spec.w + 0.5
            s.X["w"] = s.spec.w
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    w, y = s.spec.w, s.y
    if s.kind in ("mquantile", "aquantile"):
        want = wquantile(y, s.quantile, w)
    else:
        want = np.sum(w * y) / np.sum(w) + 0.001
        if s.kind in ("classifier", "gclassifier"):
            want = min(want, 0.999)
    ctx.close(rec.preds[0], np.full(len(y), want), "base prediction against the weighted target", rtol=1e-9,
              atol=1e-10 * scale_of(y))
    ctx.event("bases_checked")


def default_groups(ctx):
    """Without declared groups the weight, prior and mean columns are no features."""
    rng = ctx.rng
    s = gen.zoo(rng, kinds=["poisson", "nbinom", "location", "locpoisson", "classifier", "nbinomc", "gbs", "mgeneric"],
                weights=True, max_dim=1, groups=None, hier=False)
    s.kwargs["feature_groups"] = None
    ctx.describe(scenario=s.summary())
    try:
        est = s.fit([])
    except ConvergenceError:
        return
    ctx.sig(s.signature())
    con = est.get_feature_contributions(s.frame())
    ctx.check(sorted(con) == sorted(s.names), "default features %s instead of %s" % (sorted(con), sorted(s.names)))
    if s.spec.w is not None:
        ctx.event("pairs_trained")
        # an increased or constant scale of the weight column leaves predictions alone
        P = s.frame()
        p = s.proba(est, P)
        P["w"] = 12345.0
        ctx.same(s.proba(est, P), p, "prediction with another weight column")


WORKLOADS = [
    Workload("large", gen.enlarged(counts), 16, 200),
    Workload("damped", overshooting(unit), 16, 200),
    Workload("counts", counts, 350, 4500),
    Workload("seasonal", seasonal, 40, 500),
    Workload("additive", additive, 150, 2000),
    Workload("costs", costs, 40, 400),
    Workload("weightless", weightless, 120, 1500),
    Workload("unit", unit, 150, 2000),
    Workload("base_value", base_value, 200, 2500),
    Workload("default_groups", default_groups, 60, 600),
]
