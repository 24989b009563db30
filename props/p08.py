"""P08: missing and unseen values have one fixed meaning."""
import numpy as np
import pandas as pd

from lib import gen, ref
from props.common import Workload, external_keys, overshooting, same_model, scale_of, standard_keys, train

RULE = "an evaluation trains one of the 13 estimators on data with missing values and compares contributions across representations of missing and unseen values, or trains the same data with missing values represented differently; non-trivial if training returned"
ASSUMPTIONS = ["float columns", "bin numbers integer and below 2^53"]
MIN_EVENTS = {"trainings": 100, "missing_checked": 300, "beyond_checked": 300, "empty_bins_checked": 50, "retrainings": 50}

NEUTRAL = lambda kind: float(ref.unlink(kind, 0.0))  # noqa: E731
REPS = [np.nan, -1.0, -2.0, -1e6, np.inf, -np.inf, -0.5, -0.01, -1e-9]


def all_groups(s):
    return [(k, g) for k, g in zip(standard_keys(s), s.spec.groups)] + [
        (k, g) for k, g in zip(external_keys(s), getattr(s, "external", []))]


def tops(s, g):
    """Number of bins per dimension the group knows from training."""
    return ref.cell_index([s.cols[c] for c in g])[1]


def base_frame(s, m):
    X = s.frame().iloc[np.zeros(m, dtype=int)].reset_index(drop=True)
    for c in s.names:
        X[c] = X[c].astype(float)
    return X


def neutral_link(s):
    return 0.0 if s.kind in ref.LOG + ref.LOGIT else None


def meaning(ctx):
    """Contributions of missing, beyond and empty bins after training."""
    s = gen.zoo(ctx.rng, missing=True if ctx.rng.rand() < 0.7 else None)
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    neutral = NEUTRAL(s.kind)
    con_train = est.get_feature_contributions(s.frame())
    for key, g in all_groups(s):
        nb = tops(s, g)
        lex, _, ok, _ = ref.cell_index([s.cols[c] for c in g])
        known = [max(0, n - 1) for n in nb]
        rows = []
        for d in range(len(g)):
            for rep in REPS:
                r = [float(v) for v in known]
                r[d] = rep
                rows.append(r)
        for _ in range(4):
            rows.append([float(ctx.rng.choice(REPS + [0.0, 1e5])) for _ in g])
            rows[-1][ctx.rng.randint(len(g))] = float(ctx.rng.choice(REPS))
        X = base_frame(s, len(rows))
        for d, c in enumerate(g):
            X[c] = [r[d] for r in rows]
        c = np.asarray(est.get_feature_contributions(X)[key], dtype=float)
        ctx.same(c, np.full(len(c), c[0]), "missing value of %s in different representations and dimensions" % key)
        if (~ok).any():
            ctx.close(con_train[key][~ok], np.full(int((~ok).sum()), c[0]),
                      "contribution of missing training rows of %s" % key, rtol=1e-12)
        if any("MNL" in s.spec.props[v] for v in g):
            ctx.close(c[0], neutral, "missing value of %s, which does not learn missing values" % key, rtol=0, atol=1e-15)
            ctx.event("not_learned_checked")
        ctx.event("missing_checked", len(c))
        # beyond the known bins in some dimension
        if int(np.prod(nb)) > 0:
            rows = []
            for d in range(len(g)):
                for far in (0, 1, 10, 10 ** 6, 2 ** 50):
                    r = [float(ctx.rng.randint(0, n)) for n in nb]
                    r[d] = float(nb[d] + far)
                    rows.append(r)
            X = base_frame(s, len(rows))
            for d, v in enumerate(g):
                X[v] = [r[d] for r in rows]
            c = np.asarray(est.get_feature_contributions(X)[key], dtype=float)
            ctx.close(c, np.full(len(c), neutral), "bins of %s above all known bins" % key, rtol=0, atol=1e-15)
            ctx.event("beyond_checked", len(c))


def empty_bins(ctx):
    """Bins without rows of unordered features, also inside the known range."""
    s = gen.zoo(ctx.rng, kinds=["poisson", "nbinom", "classifier", "mquantile", "mgeneric", "exponential"],
                shapes=[{"UNORDERED"}], styles=["gaps", "skew", "uni"], smoother=[("wm", True, True), ("groupby", True, True),
                                                                                  ("wm", True, False)][ctx.rng.randint(3)])
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    neutral = NEUTRAL(s.kind)
    for key, g in all_groups(s):
        if s.kind == "exponential" and key.endswith("_external"):
            continue
        nb = tops(s, g)
        total = int(np.prod(nb))
        if not 0 < total <= 400:
            continue
        lex, _, ok, _ = ref.cell_index([s.cols[c] for c in g])
        w = np.ones(len(s.y)) if s.spec.w is None else s.spec.w
        filled = np.bincount(lex[ok], weights=w[ok], minlength=total) > 0
        cells = np.array(np.unravel_index(np.arange(total), nb)).T[~filled]
        if not len(cells):
            continue
        X = base_frame(s, len(cells))
        for d, v in enumerate(g):
            X[v] = cells[:, d].astype(float)
        c = np.asarray(est.get_feature_contributions(X)[key], dtype=float)
        ctx.close(c, np.full(len(c), neutral), "bins of %s without training rows" % key, rtol=0, atol=1e-12)
        ctx.event("empty_bins_checked", len(c))


def representation(ctx):
    """The same training data with missing values written differently."""
    s = gen.zoo(ctx.rng, missing=True)
    est, rec = train(ctx, s)
    if est is None:
        return
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(ctx.rng, s, 40)
    for _ in range(2):
        F = s.frame()
        for c in s.names:
            v = np.asarray(F[c], dtype=float)
            m = ~np.isfinite(v) | (v < 0)
            v = v.copy()
            v[m] = ctx.rng.choice(REPS, int(m.sum()))
            F[c] = v
        other = s.fit([], X=F)
        ctx.event("retrainings")
        same_model(ctx, s, est, other, X, "missing values written differently in training", rtol=1e-12, atol=1e-300)


def not_learned(ctx):
    """Exchanging targets among the missing rows of a feature that does not learn them."""
    kind = str(ctx.rng.choice([k for k in gen.ZOO if k not in ("exponential", "mquantile", "aquantile")]))
    s = gen.zoo(ctx.rng, kinds=[kind], n_cols=1, groups=[("a",)], missing=True, weights=False, prior=False, max_iter=1,
                hier=False, shapes=[p | {"MNL"} for p in [{"UNORDERED"}, {"ORDERED"}, {"CONTINUOUS"}, {"CONTINUOUS", "LINEAR"}]])
    s.spec.props["a"] |= {"MNL"}
    s.kwargs["feature_properties"] = {"a": gen.flag_int(s.spec.props["a"])}
    est, rec = train(ctx, s)
    if est is None:
        return
    v = s.cols["a"]
    m = np.nonzero(~np.isfinite(v) | (v < 0))[0]
    if len(m) < 2 or len(m) == len(v) or np.ptp(s.y) == 0:
        return
    ctx.sig(s.signature())
    y = s.y.copy()
    y[m] = ctx.rng.permutation(y[m])
    if kind in ("poisson", "nbinom", "mgeneric"):
        # move target between missing rows, keeping the total
        i, j = m[0], m[1]
        d = y[i] * ctx.rng.rand()
        y[i], y[j] = y[i] - d, y[j] + d
    other = s.fit([], y=y)
    ctx.event("retrainings")
    X = base_frame(s, 20)
    X["a"] = np.arange(20.0)
    ca, cb = est.get_feature_contributions(X)["a"], other.get_feature_contributions(X)["a"]
    ctx.close(cb, ca, "profile after exchanging targets among missing rows", rtol=1e-4 if kind in gen.SLOW else 1e-7,
              scale=scale_of(s.y) if kind not in ref.LOG + ref.LOGIT else 1.0)


WORKLOADS = [
    Workload("large", gen.enlarged(meaning), 16, 200),
    Workload("damped", overshooting(meaning), 16, 200),
    Workload("meaning", meaning, 400, 5000),
    Workload("empty_bins", empty_bins, 200, 2500),
    Workload("representation", representation, 250, 3000),
    Workload("not_learned", not_learned, 150, 2000),
]
