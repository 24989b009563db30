"""P20: declared shape flags constrain the learned profile."""
import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import common_smoothers, flags
from cyclic_boosting.utils import ConvergenceError

from lib import gen, ref
from props.common import Workload, train

RULE = "an evaluation trains an estimator on hostile data with a declared shape and examines the learned profile over all bins after every iteration, retrains with renumbered bins, or retrains with flag combinations of equal meaning; non-trivial if training returned and the profile has at least two bins"
ASSUMPTIONS = ["the limits per update and in total of multiplicative models may cut a linear profile; linear profiles are examined where no limit is active",
               "updates damped after a divergence are covered by the known finding"]
MIN_EVENTS = {"monotone_profiles_checked": 150, "auto_updates_checked": 30, "linear_profiles_checked": 60, "seasonal_profiles_checked": 40,
              "renumberings_checked": 60, "flag_combinations_checked": 60, "grouped_profiles_checked": 80}

KINDS = ["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier", "nbinomc", "exponential", "mgeneric", "ageneric", "gclassifier", "mquantile", "aquantile"]
P = np.array([3, 3, 3, 2, 2, 3, 1, 2, 1, 1, 0.7, 0.5, 0.5])


def draw(rng, shape, nd=1, kinds=None, choice=None, others=True, **kw):
    """A scenario with one group whose last column has the shape; data without any such tendency."""
    p = P if kinds is None else np.array([P[KINDS.index(k)] for k in kinds])
    kind = str(rng.choice(kinds or KINDS, p=p / p.sum()))
    slow = kind in gen.SLOW
    names = ["a", "b", "c"][:nd]
    n = int(rng.choice([40, 80] if slow else [30, 120, 400]))
    smoother = (choice or ("wm" if rng.rand() < 0.6 or nd == 1 and rng.rand() < 0.5 else "groupby"), True if rng.rand() < 0.7 else False, bool(rng.rand() < 0.7))
    grp = [tuple(names)]
    if others and rng.rand() < 0.4:
        names = names + ["d"]
        grp = grp + [("d",)] if rng.rand() < 0.5 else [("d",)] + grp
    kw.setdefault("max_iter", int(rng.choice([1, 2] if slow else [1, 3, 8])))
    aggregate = kw.pop("aggregate", None)
    s = gen.scenario(rng, kind=kind, n=n, groups=grp, n_cols=4 if "d" in names else nd, smoother=smoother, hier=False, max_bins=6 if nd > 1 else 10,
                     aggregate=aggregate, shapes=[{"UNORDERED"}], **kw)
    t = names[nd - 1]
    s.spec.props[t] = set(shape) | (s.spec.props[t] & {"MISSING", "MNL"})
    s.kwargs["feature_properties"] = {c: gen.flag_int(q) for c, q in s.spec.props.items() if q}
    return s, grp[0] if len(grp[0]) == nd and grp[0] != ("d",) else grp[-1], t


def complete(s, c):
    """Rows without missing value in the group of a column."""
    ok = np.ones(len(s.y), dtype=bool)
    for h in s.spec.groups:
        if c in h:
            for q in h:
                z = np.asarray(s.cols[q], dtype=float)
                ok &= np.isfinite(z) & (z >= 0)
    return ok


def top(s, c):
    v = np.asarray(s.cols[c], dtype=float)[complete(s, c)]
    return int(v.max()) + 1 if len(v) else 0


def damped(rec):
    return max(rec.losses) > 2 * rec.losses[0]


def base_row(s):
    X = s.X.iloc[:1].copy()
    return X


def profile(s, est, group, fixed, t):
    """Contribution on the link scale over all bins of the last column."""
    nb = top(s, t)
    X = pd.concat([base_row(s)] * nb, ignore_index=True)
    for c in X.columns:
        if c in s.names:
            X[c] = 0.0
    for c, v in fixed.items():
        X[c] = float(v)
    X[t] = np.arange(nb, dtype=float)
    con = est.get_feature_contributions(X)
    key = " ".join(group)
    out = [ref.link(s.kind, np.asarray(con[key], dtype=float))]
    if key + "_external" in con:
        out.append(np.log(np.asarray(con[key + "_external"], dtype=float)))
    return out


def monotone(ctx, v, up, what):
    d = np.diff(v) if up else -np.diff(v)
    sc = max(1e-12, np.max(np.abs(v)))
    ctx.check((d >= -1e-9 * max(sc, 1.0 if sc < 1 else sc)).all(), "%s: profile %s is not %s" % (what, np.round(v, 6).tolist(), "non-decreasing" if up else "non-increasing"))


def direction(ctx):
    rng = ctx.rng
    up = bool(rng.randint(2))
    s, g, t = draw(rng, {"CONTINUOUS", "MONOTONIC", "INCREASING" if up else "DECREASING"})
    est, rec = train(ctx, s)
    if est is None or top(s, t) < 2:
        return
    if damped(rec):
        ctx.event("damped_skipped")
        return
    for v in profile(s, est, g, {}, t):
        monotone(ctx, v, up, s.kind)
        ctx.event("monotone_profiles_checked")
    ctx.sig(s.signature())


def updates(s, rec):
    """Profiles of single updates for a model of one group (link scale), over the observed bins."""
    c = np.asarray(s.cols[s.spec.groups[0][-1]], dtype=float)
    ok = np.isfinite(c) & (c >= 0)
    bins = np.unique(c[ok])
    first = np.array([np.nonzero(ok & (c == b))[0][0] for b in bins])
    seq = [ref.link(s.kind, p)[first] for p in rec.preds + [rec.final]]
    return bins, [b - a for a, b in zip(seq, seq[1:])], seq


def auto(ctx):
    """Without declared direction every single update is monotone in one of the two."""
    rng = ctx.rng
    s, g, t = draw(rng, {"CONTINUOUS", "MONOTONIC"}, others=False, kinds=[k for k in KINDS if k not in ("exponential", "locpoisson", "mquantile", "aquantile")], prior=False)
    est, rec = train(ctx, s)
    if est is None or top(s, t) < 3 or damped(rec):
        return
    bins, ups, seq = updates(s, rec)
    for k, u in enumerate(ups):
        if not s.spec.aggregate:
            u = seq[k + 1] - seq[0]
        elif s.kind in ref.LOG and (np.abs(np.array(seq) - seq[0]) > np.log(80)).any():
            continue
        if not np.isfinite(u).all():
            continue
        d = np.diff(u)
        tol = 1e-8 * max(np.max(np.abs(u)), np.max(np.abs(seq[k])), 1e-9)
        ctx.check((d >= -tol).all() or (d <= tol).all(), "update %d: %s is monotone in neither direction" % (k, np.round(u, 6).tolist()))
        ctx.event("auto_updates_checked")
    ctx.sig(s.signature())


def stepwise(ctx):
    """Declared direction after every iteration, from the predictions reported during training."""
    rng = ctx.rng
    up = bool(rng.randint(2))
    s, g, t = draw(rng, {"CONTINUOUS", "MONOTONIC", "INCREASING" if up else "DECREASING"}, others=False, prior=False,
                   kinds=["poisson", "nbinom", "location", "gbs", "classifier", "nbinomc"], max_iter=6, stop="never")
    est, rec = train(ctx, s)
    if est is None or top(s, t) < 2 or damped(rec):
        return
    bins, ups, seq = updates(s, rec)
    for k, v in enumerate(seq[1:]):
        monotone(ctx, v - seq[0], up, "%s after iteration %d" % (s.kind, k + 1))
        ctx.event("monotone_profiles_checked")
    ctx.sig(s.signature())


def limited(s, seq):
    """Whether limits of multiplicative models may have been active."""
    if s.kind not in ref.LOG or not s.spec.aggregate:
        return False
    ups = [b - a for a, b in zip(seq, seq[1:])]
    return max(np.max(np.abs(u)) for u in ups) > np.log(2) - 1e-6 or max(np.max(np.abs(q - seq[0])) for q in seq) > np.log(80)


def affine(ctx, v, what):
    if len(v) < 3:
        return
    d = np.diff(v, 2)
    sc = max(np.max(np.abs(v)), 1e-9)
    ctx.check((np.abs(d) <= 1e-7 * sc + 1e-12).all(), "%s: profile %s is not affine" % (what, np.round(v, 6).tolist()))


def linear(ctx):
    rng = ctx.rng
    s, g, t = draw(rng, [{"LINEAR"}, {"CONTINUOUS", "LINEAR"}, {"ORDERED", "LINEAR"}, {"LINEAR", "SEASONAL"}][rng.randint(4)], others=False,
                   kinds=[k for k in KINDS if k != "exponential"], prior=False)
    if s.kind in ref.LOG and s.kind not in gen.SLOW and rng.rand() < 0.5:
        s.y = np.round(np.mean(s.y) + 3 + 0.3 * (s.y - np.mean(s.y)) / (np.std(s.y) + 1e-9), 1)
    est, rec = train(ctx, s)
    if est is None or top(s, t) < 3 or damped(rec):
        return
    if s.spec.aggregate and s.kind in ref.LOG:
        v = profile(s, est, g, {}, t)[0]
        _, _, seq = updates(s, rec)
        ext = np.max(np.abs(np.diff(v))) * len(v)
        if limited(s, seq) or ext > np.log(2):
            ctx.event("limited_skipped")
            return
    for v in profile(s, est, g, {}, t):
        affine(ctx, v, s.kind)
        ctx.event("linear_profiles_checked")
    ctx.sig(s.signature())


def seasonal(ctx):
    rng = ctx.rng
    s, g, t = draw(rng, [{"SEASONAL"}, {"CONTINUOUS", "SEASONAL"}, {"ORDERED", "SEASONAL"}, {"CONTINUOUS", "MONOTONIC", "SEASONAL"}][rng.randint(4)], others=False, prior=False,
                   kinds=["poisson", "nbinom", "location", "gbs", "classifier"])
    est, rec = train(ctx, s)
    nb = top(s, t)
    if est is None or nb < 5 or damped(rec):
        return
    v = profile(s, est, g, {}, t)[0]
    _, _, seq = updates(s, rec)
    if limited(s, seq) or np.max(np.abs(v)) > np.log(2) - 1e-6 and s.kind in ref.LOG and s.spec.aggregate:
        ctx.event("limited_skipped")
        return
    x = 2 * np.pi * np.arange(nb) / nb
    A = np.c_[np.ones(nb), np.sin(x), np.cos(x)]
    c = np.linalg.lstsq(A, v, rcond=None)[0]
    sc = max(np.max(np.abs(v)), 1e-9)
    ctx.check(np.max(np.abs(A @ c - v)) <= 1e-6 * sc, "profile %s is not periodic over its %d bins" % (np.round(v, 5).tolist(), nb))
    ctx.event("seasonal_profiles_checked")
    ctx.sig(s.signature())


def unordered(ctx):
    """Renumbering the bins of unordered features changes nothing."""
    rng = ctx.rng
    nd = int(rng.choice([1, 1, 2, 3]))
    s, g, t = draw(rng, [{"UNORDERED"}, set()][rng.randint(2)], nd=nd, choice="wm" if nd > 1 else None,
                   kinds=["poisson", "nbinom", "location", "gbs", "classifier", "exponential"])
    est, rec = train(ctx, s)
    if est is None:
        return
    o = gen.Scenario()
    o.__dict__.update(s.__dict__)
    o.X = s.X.copy()
    for c in s.names:
        v = np.asarray(s.cols[c], dtype=float)
        ok = np.isfinite(v) & (v >= 0)
        if not ok.any():
            continue
        perm = np.arange(int(v[ok].max()) + 1.0)
        # only numbers in use are exchanged: cells without data are part of the grid
        used = np.unique(v[complete(s, c) & ok]).astype(int)
        perm[used] = rng.permutation(used)
        w = v.copy()
        w[ok] = perm[v[ok].astype(int)]
        o.X[c] = w
    try:
        other = o.fit()
    except ConvergenceError:
        ctx.fail("training with renumbered bins is rejected")
    a, b = s.proba(est, s.frame()), s.proba(other, o.frame())
    sc = np.max(np.abs(a))
    ctx.close(b, a, "prediction after renumbering the bins", rtol=1e-6, atol=1e-7 * sc)
    ca, cb_ = est.get_feature_contributions(s.frame()), other.get_feature_contributions(o.frame())
    for k in ca:
        ctx.close(cb_[k], ca[k], "contribution of %s after renumbering the bins" % k, rtol=1e-6,
                  atol=1e-7 * (sc if s.kind in ("location", "gbs") else 1.0))
    ctx.event("renumberings_checked")
    ctx.sig(s.signature())


FAMILIES = [
    [{"LINEAR"}, {"LINEAR", "CONTINUOUS"}, {"LINEAR", "ORDERED"}, {"LINEAR", "SEASONAL"}, {"LINEAR", "MONOTONIC", "INCREASING"}, {"LINEAR", "UNORDERED"}],
    [{"SEASONAL"}, {"SEASONAL", "CONTINUOUS"}, {"SEASONAL", "ORDERED"}, {"SEASONAL", "UNORDERED"}, {"SEASONAL", "MONOTONIC"}, {"SEASONAL", "MONOTONIC", "DECREASING"}],
    [{"MONOTONIC"}, {"MONOTONIC", "CONTINUOUS"}, {"MONOTONIC", "ORDERED"}, {"MONOTONIC", "UNORDERED"}],
    [{"MONOTONIC", "INCREASING"}, {"MONOTONIC", "INCREASING", "CONTINUOUS"}, {"MONOTONIC", "INCREASING", "ORDERED"}],
    [{"MONOTONIC", "DECREASING"}, {"MONOTONIC", "DECREASING", "CONTINUOUS"}, {"MONOTONIC", "DECREASING", "UNORDERED"}],
    [{"CONTINUOUS"}, {"CONTINUOUS", "ORDERED"}, {"CONTINUOUS", "UNORDERED"}, {"CONTINUOUS", "INCREASING"}, {"CONTINUOUS", "MISSING"}],
    [{"ORDERED"}, {"ORDERED", "UNORDERED"}, {"ORDERED", "DECREASING"}, {"ORDERED", "MISSING"}],
    [{"UNORDERED"}, set(), {"MISSING"}, {"UNORDERED", "INCREASING"}],
]


def precedence(ctx):
    rng = ctx.rng
    i = rng.randint(len(FAMILIES))
    fam = FAMILIES[i]
    s, g, t = draw(rng, fam[0], kinds=["poisson", "nbinom", "location", "gbs", "classifier"], missing=False, nd=int(rng.choice([1, 1, 2])))
    X = s.X.copy()

    def run(flagset):
        props = dict(s.spec.props)
        props[t] = set(flagset)
        return s.fit(feature_properties={c: gen.flag_int(q) for c, q in props.items()})

    ctx.describe(scenario=s.summary(), family=[sorted(f) for f in fam])
    try:
        first = run(fam[0])
    except ConvergenceError:
        return
    P, cols, prior = gen.probe_rows(rng, s, 30)
    want = s.proba(first, P.copy())
    for f in [fam[k] for k in rng.permutation(np.arange(1, len(fam)))[:3]]:
        ctx.same(s.proba(run(f), P.copy()), want, "prediction with flags %s against %s" % (sorted(f), sorted(fam[0])))
        ctx.event("flag_combinations_checked")
    ctx.sig(s.signature(), i)


def different(ctx):
    """The shapes are really different: no two families give the same profile on rough data."""
    rng = ctx.rng
    n = 500
    b = rng.randint(0, 8, n).astype(float)
    eff = np.array([-4.0, 5.0, 9.0, 6.0, 0.0, -5.0, -6.0, 8.0]) * rng.choice([-1, 1])
    y = eff[b.astype(int)] + 0.3 * rng.normal(size=n)
    X = pd.DataFrame(dict(b=b))
    prof = []
    for f in FAMILIES:
        est = cb.CBLocationRegressor(feature_groups=["b"], feature_properties={"b": gen.flag_int(f[0])}).fit(X.copy(), y.copy())
        prof.append(est.get_feature_contributions(pd.DataFrame(dict(b=np.arange(8.0))))["b"])
    for i in range(len(prof)):
        for j in range(i):
            if {i, j} & {2} and {i, j} & {3, 4} or {i, j} == {0, 5}:
                continue  # the automatic direction is one of the two, and a polynomial may be a line
            ctx.check(np.max(np.abs(prof[i] - prof[j])) > 1e-3, "flags %s and %s give the same profile" % (sorted(FAMILIES[i][0]), sorted(FAMILIES[j][0])))
    ctx.sig(y[:5].tolist())


def grouped(ctx):
    """Shape of the innermost dimension in grouped smoothing, for every outer bin."""
    rng = ctx.rng
    nd = int(rng.choice([2, 2, 3]))
    which = rng.randint(3)
    up = bool(rng.randint(2))
    shape = [{"CONTINUOUS", "MONOTONIC", "INCREASING" if up else "DECREASING"}, {"LINEAR"}, {"CONTINUOUS", "MONOTONIC", "INCREASING" if up else "DECREASING"}][which]
    lin = which == 1
    kinds = ["location", "gbs", "classifier"] if lin else ["poisson", "nbinom", "location", "gbs", "classifier", "locpoisson"]
    s, g, t = draw(rng, shape, nd=nd, choice="groupby", kinds=kinds)
    est, rec = train(ctx, s)
    if est is None or top(s, t) < 2 or damped(rec):
        return
    outer = g[:-1]
    M = np.array([np.asarray(s.cols[c], dtype=float) for c in g]).T
    ok = (np.isfinite(M) & (M >= 0)).all(axis=1)
    w = np.ones(len(s.y)) if s.spec.w is None else s.spec.w
    cells = np.unique(M[ok & (w > 0)][:, :-1], axis=0) if (ok & (w > 0)).any() else []
    for cell in cells[:12]:
        v = profile(s, est, g, dict(zip(outer, cell)), t)[0]
        what = "%s, outer bin %s" % (s.kind, cell.tolist())
        if lin:
            affine(ctx, v, what)
        else:
            monotone(ctx, v, up, what)
        ctx.event("grouped_profiles_checked")
    ctx.sig(s.signature())


def damped_shape(ctx):
    """A feature declared decreasing in a training whose first iterations diverge."""
    a, y, prior = [], [], []
    for b, (t, p) in enumerate([(5.0, 10.0), (10.0, 20.0), (40.0, 5.0), (5.0, 5.0)]):
        a += [float(b)] * 1000
        y += [t] * 1000
        prior += [p] * 1000
    X = pd.DataFrame(dict(a=a, prior=prior))
    ctx.describe(case="four bins, diverging first iterations")
    rec = gen.Recorder()
    est = cb.CBPoissonRegressor(feature_groups=["a"], feature_properties={"a": flags.IS_CONTINUOUS | flags.IS_MONOTONIC | flags.DECREASING},
                                prior_prediction_column="prior", observers=[rec])
    est.fit(X.copy(), np.array(y))
    v = np.log(est.get_feature_contributions(pd.DataFrame(dict(a=np.arange(4.0), prior=1.0)))["a"])
    ctx.describe(losses=rec.losses)
    ctx.event("damped_trainings")
    d = np.diff(v)
    ctx.check(np.isfinite(v).all(), "profile is not finite")
    ctx.check((d <= 1e-9).all() or not damped(rec), "profile %s of a feature declared decreasing after a damped update" % np.round(v, 4).tolist(), mech="damped-update-shape")
    ctx.check((d <= 1e-9).all() or damped(rec), "profile %s of a feature declared decreasing" % np.round(v, 4).tolist())


WORKLOADS = [
    Workload("direction", direction, 250, 3000),
    Workload("stepwise", stepwise, 120, 1500),
    Workload("auto", auto, 100, 1200),
    Workload("linear", linear, 200, 2500),
    Workload("seasonal", seasonal, 160, 1600),
    Workload("unordered", unordered, 120, 1500),
    Workload("precedence", precedence, 100, 1200),
    Workload("different", different, 6, 60),
    Workload("grouped", grouped, 140, 1800),
    Workload("damped_shape", damped_shape, 1, 2),
]
