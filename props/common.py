"""Pieces shared by the property modules."""
import logging
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

from cyclic_boosting.utils import ConvergenceError  # noqa: E402

from lib import gen, ref  # noqa: E402
from lib.rt import Violation, Workload  # noqa: E402,F401

NOSEASON = [s for s in gen.SHAPES if "SEASONAL" not in s]
SEASON = [s for s in gen.SHAPES if "SEASONAL" in s]
ADDITIVE = ("location", "locpoisson", "gbs", "aquantile")


def train(ctx, s, recorder=True, **over):
    """Trains the real estimator; returns (estimator, recorder) or (None, recorder) when rejected as diverging."""
    rec = gen.Recorder()
    ctx.describe(scenario=s.summary())
    try:
        est = s.fit([rec] if recorder else None, **over)
    except ConvergenceError:
        ctx.event("trainings_rejected_as_diverging")
        return None, rec
    ctx.event("trainings")
    ctx.event("iterations_observed", rec.n_iter)
    ctx.event("feature_updates_observed", sum(1 for e in rec.events if e[0] == "feature"))
    return est, rec


def scale_of(p):
    p = np.asarray(p, dtype=float)
    p = p[np.isfinite(p)]
    return float(np.max(np.abs(p))) if len(p) else 1.0


def ref_predict(s, r, cols, prior):
    b = ref.unlink(s.kind, ref.predict_link(s.spec, r, cols, prior))
    return np.maximum(b, 0) if s.kind == "locpoisson" else b


def ambiguous(s, r):
    """Decisions of the reference that rounding could turn."""
    if r.margin < 1e-6 or (s.kind == "nbinomc" and not s.spec.bayes and r.gap < 1e-3):
        return True
    if s.spec.aggregate is False or r.diverging:
        pass
    return r.losses[0] < 1e-18 * max(1.0, scale_of(s.y) ** 2)


def perturbed(s, n_iter):
    """The reference on data changed at the tenth digit."""
    rng = np.random.RandomState(5)
    sp = ref.Spec(**s.spec.__dict__)
    n = len(s.y)

    def noise(v):
        return v * (1 + 1e-10 * rng.normal(size=n))

    sp.w = noise(np.ones(n) if sp.w is None else sp.w)
    if sp.prior is not None:
        sp.prior = noise(sp.prior)
    if sp.mu is not None:
        sp.mu = noise(sp.mu)
    if s.kind not in ("classifier", "nbinomc"):
        sp.y = noise(sp.y)
    return ref.simulate(sp, n_iter)


def reference_case(ctx, s, rtol=1e-6, probe=True, small=1e-3):
    """Runs the scenario on the real code and on the reference and compares all that is observable."""
    if s.kind == "locpoisson":
        rtol = max(rtol, 1e-4)  # divides by predictions close to zero
    est, rec = train(ctx, s)
    if est is None:
        try:
            r = ref.simulate(s.spec)
        except ref.Diverged:
            ctx.event("rejections_confirmed")
            ctx.sig("diverged", s.signature())
            return None
        if ambiguous(s, r):
            ctx.event("ambiguous_skipped")
            return None
        ctx.fail("training was rejected as diverging although the reference converges")
    try:
        r = ref.simulate(s.spec, rec.n_iter)
    except ref.Diverged:
        ctx.fail("training returned although the reference diverges")
    if ambiguous(s, r):
        ctx.event("ambiguous_skipped")
        return None
    ctx.sig(s.signature())
    probes = gen.probe_rows(ctx.rng, s) if probe else None
    sc = max(scale_of(p) for p in r.preds)
    items = []

    def item(what, got, f, **tol):
        items.append((what, got, f, tol))

    tol = dict(rtol=rtol, scale=small * sc)
    for k, p in enumerate(rec.preds):
        item("prediction before iteration %d" % k, p, lambda r, k=k: r.preds[k], **tol)
    n = rec.n_iter
    item("final in-sample prediction", rec.final, lambda r: r.preds[n], **tol)
    item("loss history", rec.losses, lambda r: np.r_[r.losses[: n + 1]], rtol=max(rtol, 1e-6) * 10,
         atol=1e-12 * sc * sc + 1e-300)
    if probe:
        P, cols, pr = probes
        item("prediction of new rows", s.proba(est, P), lambda r: ref_predict(s, r, cols, pr), **tol)
        con = est.get_feature_contributions(P)
        for i, f in enumerate(r.feats):
            name = " ".join(f.group)
            item("contribution of feature %s" % name, con[name],
                 lambda r, i=i: ref.unlink(s.kind, ref.contribution(r.feats[i], r.profiles[i],
                                                                    [cols[c] for c in r.feats[i].group])),
                 rtol=rtol, scale=small * sc if s.kind in ADDITIVE else small)
            ctx.event("contributions_compared")
    other = None
    for what, got, f, tol in items:
        want = f(r)
        try:
            ctx.close(got, want, what, **tol)
        except Violation:
            # Is the training so sensitive that rounding explains the difference?
            if other is None:
                other = perturbed(s, n)
            got, dev = np.asarray(got, dtype=float), np.abs(f(other) - want)
            if got.shape != want.shape or not np.max(np.abs(got - want)) <= 10 * np.max(dev):
                raise
            ctx.event("ill_conditioned_skipped")
            return None
    return est, rec, r


def diverging_scenario(rng, kind=None, hier=None, aggregate=True):
    """Opposite corrections per bin with a few dominating rows make the first iterations overshoot."""
    s = gen.Scenario()
    s.kind = kind or str(rng.choice(["poisson", "nbinom"]))
    m = int(rng.randint(300, 1500))
    big = int(rng.randint(1, 6))
    level = float(rng.choice([200.0, 1000.0, 5000.0]))
    a = np.r_[np.zeros(m + big), np.ones(m)]
    y = np.r_[np.full(m, 20.0), np.full(big, level), np.full(m, 10.0)]
    prior = np.r_[np.full(m, 10.0), np.full(big, level), np.full(m, 20.0)]
    n = len(a)
    b = rng.randint(0, int(rng.randint(2, 6)), n).astype(float)
    miss = rng.rand(n) < rng.choice([0.0, 0.1])
    b[miss] = np.nan
    cols = dict(a=a, b=b)
    props = dict(a={"UNORDERED"}, b={"CONTINUOUS"} | ({"MNL"} if rng.rand() < 0.5 else set()))
    groups = [("a",), ("b",)] if rng.rand() < 0.5 else [("b",), ("a",), ("a", "b")]
    if rng.rand() < 0.25:
        groups = [("a", "b"), ("b",)]
    spec = ref.Spec(kind=s.kind, groups=groups, props=props, cols=cols, y=y, prior=prior)
    spec.smoother, spec.lr = ("wm", True, True), str(rng.choice(["half", "one", "linear"]))
    spec.max_iter, spec.aggregate = int(rng.choice([3, 5, 10])), aggregate
    spec.min_loss, spec.min_factor = (1e-3, 1e-3) if s.kind == "nbinom" else (1e-6, 1e-4)
    kw = dict(feature_groups=[g if len(g) > 1 else g[0] for g in groups], prior_prediction_column="prior",
              feature_properties={c: gen.flag_int(p) for c, p in props.items()}, learn_rate=spec.lr,
              maximal_iterations=spec.max_iter, aggregate=aggregate)
    if s.kind == "nbinom":
        spec.a, spec.c = 1.0, float(rng.choice([0.0, 0.1]))
        kw.update(a=spec.a, c=spec.c)
    if hier:
        spec.hier = [g for g in groups if g[0] == "a"][:1]
        kw["hierarchical_feature_groups"] = [g if len(g) > 1 else g[0] for g in spec.hier]
    s.X = pd.DataFrame(dict(a=a, b=b, prior=prior))
    s.y, s.kwargs, s.spec, s.cols, s.names = y, kw, spec, cols, ["a", "b"]
    return s


def overshooting(case):
    """The same case with trainings whose first iterations overshoot, so that they are undone and damped."""

    def source(rng):
        return diverging_scenario(rng, hier=rng.rand() < 0.2, aggregate=rng.rand() < 0.8)

    return gen.drawn_from(source, case)


# --- all estimators ---------------------------------------------------------

FAST = [k for k in gen.ZOO if k not in gen.SLOW]


def contribution_key(group, external=False):
    return " ".join(str(c) for c in group) + ("_external" if external else "")


def standard_keys(s):
    return [contribution_key(g) for g in s.spec.groups]


def external_keys(s):
    return [contribution_key(g, True) for g in getattr(s, "external", [])]


def raw_loss(s, prediction, y, w):
    """The documented training loss; None where a property module of its own computes it."""
    w = np.ones(len(y)) if w is None else w
    if s.kind in ("mquantile", "aquantile"):
        d = y - prediction
        return float(np.sum(w * np.where(d < 0, (s.quantile - 1) * d, s.quantile * d)) / np.sum(w))
    if s.kind in ("mgeneric", "ageneric"):
        return gen.squared_costs(prediction, y, w)
    if s.kind == "gclassifier":
        return gen.logistic_costs(prediction, y, w)
    if s.kind == "gbs":
        return float(np.sum(w * (prediction - y) ** 2) / np.sum(w[y != 0]))
    if s.kind == "nbinomc":
        return None
    return float(np.sum(w * (prediction - y) ** 2) / np.sum(w))


def composed(s, con, base_link, X):
    """Link-scale prediction put together from reported contributions."""
    out = np.array(base_link, dtype=float)
    for k in standard_keys(s):
        out = out + ref.link(s.kind, con[k])
    if s.kind == "exponential":
        e = np.zeros(len(X))
        for k in external_keys(s):
            e = e + np.log(con[k])
        out = out + np.exp(e) * price_term(X)
    return out


def price_term(X):
    """Prior exponent times (price ratio - 1)."""
    price = np.asarray(X["price"], dtype=float) - 1
    price = np.where(np.isfinite(price), price, 0.0)
    return price * (np.asarray(X["pexp"], dtype=float) if "pexp" in X else -1.0)


def output_step(s, p):
    return np.maximum(p, 0) if s.kind == "locpoisson" else p


def link_scale(s, p):
    """Size of numbers on the link scale, for tolerances."""
    return max(1e-3, scale_of(p)) if s.kind not in ref.LOG + ref.LOGIT else 1.0


def same_model(ctx, s, a, b, X, what, rtol=0.0, atol=0.0, scale=None):
    """Two trained estimators agree in predictions, contributions and importances."""
    pa, pb = s.proba(a, X.copy()), s.proba(b, X.copy())
    ctx.close(pa, pb, "%s: prediction" % what, rtol=rtol, atol=atol, scale=scale)
    ca, cb_ = a.get_feature_contributions(X.copy()), b.get_feature_contributions(X.copy())
    ctx.check(sorted(ca) == sorted(cb_), "%s: contributions of %s instead of %s" % (what, sorted(ca), sorted(cb_)))
    csc = scale if s.kind not in ref.LOG + ref.LOGIT else 1.0
    for k in ca:
        ctx.close(ca[k], cb_[k], "%s: contribution of %s" % (what, k), rtol=rtol, atol=atol, scale=csc)
    ia, ib = a.get_feature_importances(), b.get_feature_importances()
    ctx.check(sorted(ia) == sorted(ib), "%s: importances of %s instead of %s" % (what, sorted(ia), sorted(ib)))
    if rtol == 0.0 and atol == 0.0:
        for k in ia:
            ctx.same(ia[k], ib[k], "%s: importance of %s" % (what, k))
    ctx.event("models_compared")
