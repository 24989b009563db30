"""P19: the training loop obeys its iteration, convergence and hierarchy protocol."""
import warnings

import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import flags, learning_rate
from cyclic_boosting.utils import ConvergenceError

from lib import gen, ref
from props.common import FAST, NOSEASON, Workload, ambiguous, diverging_scenario, reference_case, train

RULE = "an evaluation trains an estimator while an observer records every event and a recording learning rate every request, and checks order, number and stop of iterations against the recorded losses and factor changes, the effect of exactly placed thresholds, hierarchical phases, or the undoing and rejection of diverging iterations; non-trivial if training returned or was rejected as expected"
ASSUMPTIONS = ["factor changes are accepted both as the documented change of the factors and as the change of the updates (see the known finding)"]
MIN_EVENTS = {"trainings": 200, "iterations_observed": 500, "stops_checked": 200, "placed_stops_checked": 60, "hierarchical_phases_checked": 30,
              "divergences_damped": 3, "rejections_confirmed": 3, "schedule_values_checked": 200}

REF = ["poisson", "nbinom", "location", "gbs", "classifier"]
SCALED = ["poisson", "nbinom", "location", "gbs", "aquantile", "mquantile", "exponential"]


def groups_of(s):
    """Groups in training order."""
    return list(s.spec.groups) + list(getattr(s, "external", []))


def close_to(a, b):
    return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b)) * 1e-3 or (b != 0 and abs(a / b - 1) < 1e-9)


def changes_of(losses):
    out = []
    for a, b in zip(losses, losses[1:]):
        c = a - b
        out.append(c / a if a != 0 else c)
    return out


def check_events(ctx, s, rec):
    """Every feature once per iteration in order; hierarchical ones alone at first."""
    n = rec.n_iter
    order = groups_of(s)
    h = s.spec.hier_iters if s.spec.hier is not None else 0
    want = []
    for it in range(n):
        want.append(("iteration", it))
        for i, g in enumerate(order):
            if s.spec.hier is not None and it < h and g not in s.spec.hier:
                continue
            want.append(("feature", it, i))
    want.append(("iteration", -1))
    if rec.events != want:
        k = [a == b for a, b in zip(rec.events, want)].index(False) if len(rec.events) == len(want) else min(len(rec.events), len(want))
        ctx.fail("order of training events differs at position %d: %s instead of %s" % (k, rec.events[k:k + 3], want[k:k + 3]))
    ctx.event("event_sequences_checked")


def check_stop(ctx, s, est, rec, thresholds=None):
    p = est.get_params(deep=False)
    ml, mf = (p["minimal_loss_change"], p["minimal_factor_change"]) if thresholds is None else thresholds
    top = p["maximal_iterations"]
    n = rec.n_iter
    L, ch, D = rec.losses, changes_of(rec.losses), rec.deltas[1:]
    ctx.check(len(L) == n + 1 and len(rec.deltas) == n + 1, "%d iterations with %d losses" % (n, len(L)))
    ctx.check(n >= 1, "no iteration")
    for k in range(1, n + 1):
        reasons = (k >= top, D[k - 1] <= mf, abs(ch[k - 1]) <= ml)
        unclear = close_to(D[k - 1], mf) and D[k - 1] != mf or close_to(abs(ch[k - 1]), ml) and abs(ch[k - 1]) != ml
        if unclear:
            ctx.event("rounding_skipped")
            return
        veto = s.spec.hier is not None and k <= s.spec.hier_iters
        diverging = L[k] > 2 * L[0]
        stop = any(reasons) and not veto and not diverging
        if k < n:
            ctx.check(not stop, "training goes on after iteration %d although %s" % (k, reasons))
        else:
            ctx.check(stop, "training stops after iteration %d: limit %s, factor change %r (threshold %r), loss change %r (threshold %r)"
                      % (k, top, D[k - 1], mf, ch[k - 1], ml))
            ctx.check(tuple(bool(v) for v in est.stop_criteria_) == reasons, "reported reasons %s instead of %s" % (est.stop_criteria_, reasons))
    ctx.event("stops_checked")


def configurable(s):
    """The length of the hierarchical phase is an option of this estimator."""
    return "training_iterations_hierarchical_features" in s.build().get_params(deep=False)


def distinct(seq):
    """Without direct repetitions."""
    return [v for i, v in enumerate(seq) if i == 0 or seq[i - 1] != v]


def with_recorder(s):
    """Replaces the learning rate by a recording one."""
    calls = []
    f = s.spec.lr if callable(s.spec.lr) else getattr(learning_rate, gen.LEARN[s.spec.lr])

    def lr(iteration, maximal_iteration, feature=None):
        v = f(iteration, maximal_iteration, feature)
        calls.append((iteration, maximal_iteration, tuple(feature.feature_group), v))
        return v

    return lr, calls


def zoo(ctx):
    rng = ctx.rng
    s = gen.zoo(rng)
    if s.spec.hier is not None and rng.rand() < 0.7 and configurable(s):
        s.spec.hier_iters = s.kwargs["training_iterations_hierarchical_features"] = int(rng.choice([0, 1, 2, 5]))
    over = {}
    calls = None
    if s.kind != "nbinomc" or "learn_rate" in s.kwargs:
        lr, calls = with_recorder(s)
        over["learn_rate"] = lr
    est, rec = train(ctx, s, **over)
    if est is None:
        return
    ctx.sig(s.signature())
    check_events(ctx, s, rec)
    check_stop(ctx, s, est, rec)
    if calls is None:
        return
    if s.spec.hier is not None:
        ctx.check(calls == [], "hierarchical training asks the schedule")
        return
    order = groups_of(s)
    want = distinct([(it + 1, s.spec.max_iter, g) for it in range(rec.n_iter) for g in order])
    got = distinct([c[:3] for c in calls])
    ctx.check(got == want, "learning rate asked for %s instead of %s" % (got[:4], want[:4]))
    ctx.event("learning_rates_checked", len(got))


def placed(ctx):
    """Thresholds placed exactly at, and closely around, observed changes."""
    rng = ctx.rng
    s = gen.zoo(rng, kinds=FAST + ["mgeneric"], stop="never", max_iter=int(rng.choice([4, 6, 9])))
    if rng.rand() < 0.3 and s.kind in SCALED:
        # changes are relative to the loss, however small or large the target is
        s.y = s.y * 2.0 ** int(rng.choice([-20, -12, -6, 6]))
    est, rec = train(ctx, s)
    if est is None:
        return
    L, ch, D = rec.losses, changes_of(rec.losses), rec.deltas[1:]
    n = rec.n_iter
    if max(L) > 2 * L[0] or not np.isfinite(ch).all():
        return
    check_events(ctx, s, rec)
    check_stop(ctx, s, est, rec, (-1.0, -1.0))
    k = int(rng.randint(n))
    which = rng.randint(2)
    t = abs(ch[k]) if which == 0 else D[k]
    if not t > 1e-10:
        return
    t *= [1.0, 1.001, 0.999][rng.randint(3)]
    th = (t, -1.0) if which == 0 else (-1.0, t)
    vals = [abs(c) for c in ch] if which == 0 else D
    first = n
    for i, v in enumerate(vals):
        if v <= t and not (s.spec.hier is not None and i + 1 <= s.spec.hier_iters):
            first = i + 1
            break
    rec2 = gen.Recorder()
    est2 = s.fit([rec2], minimal_loss_change=th[0], minimal_factor_change=th[1])
    ctx.check(rec2.n_iter == first, "threshold %r on the %s: %d iterations instead of %d (observed changes %s)"
              % (t, ["loss change", "factor change"][which], rec2.n_iter, first, vals))
    ctx.same(rec2.final, rec.preds[first] if first < n else rec.final, "prediction of the training stopped earlier")
    check_stop(ctx, s, est2, rec2, th)
    ctx.sig(s.signature(), k, which)
    ctx.event("placed_stops_checked")


def limits(ctx):
    """The iteration limit, from one upwards."""
    rng = ctx.rng
    m = int(rng.choice([1, 2, 3, 7, 30]))
    s = gen.zoo(rng, kinds=FAST, stop="never", max_iter=m, hier=False, n=60)
    est, rec = train(ctx, s)
    if est is None:
        return
    if max(rec.losses[-1:]) <= 2 * rec.losses[0] and max(rec.losses) <= 2 * rec.losses[0]:
        ctx.check(rec.n_iter == m, "%d iterations instead of %d" % (rec.n_iter, m))
    check_events(ctx, s, rec)
    check_stop(ctx, s, est, rec)
    ctx.sig(s.signature())


def hierarchy(ctx):
    """Only hierarchical groups are trained during the first iterations, with full learning rate."""
    rng = ctx.rng
    s = gen.scenario(rng, kinds=REF, shapes=NOSEASON, hier=True, n_cols=3, max_iter=int(rng.choice([1, 5, 8])), stop=str(rng.choice(["never", "loose"])))
    h = int(rng.choice([1, 2, 3, 3, 5]))
    if not configurable(s):
        h = 3
    s.spec.hier_iters = h
    if configurable(s) and (h != 3 or rng.rand() < 0.5):
        s.kwargs["training_iterations_hierarchical_features"] = h
    est, rec = train(ctx, s)
    if est is None:
        return
    check_events(ctx, s, rec)
    check_stop(ctx, s, est, rec)
    if max(rec.losses) > 2 * rec.losses[0]:
        return
    ctx.check(rec.n_iter > h, "training ends after %d iterations, within the hierarchical phase" % rec.n_iter)
    t = gen.Scenario()
    t.__dict__.update(s.__dict__)
    t.kwargs = dict(s.kwargs)
    only = [g for g in s.spec.groups if g in s.spec.hier]
    t.kwargs["feature_groups"] = [g if len(g) > 1 else g[0] for g in only]
    for k in ("hierarchical_feature_groups", "training_iterations_hierarchical_features"):
        t.kwargs.pop(k, None)
    t.kwargs.update(learn_rate="one", maximal_iterations=h, minimal_loss_change=-1.0, minimal_factor_change=-1.0)
    r2 = gen.Recorder()
    t.fit([r2])
    seq = r2.preds + [r2.final]
    for k in range(min(len(seq), h + 1)):
        ctx.close(rec.preds[k], seq[k], "prediction before iteration %d against hierarchical groups alone" % k, rtol=1e-9, atol=1e-12)
    ctx.sig(s.signature())
    ctx.event("hierarchical_phases_checked")


def factor_changes(ctx):
    """Reported factor changes against the reference."""
    rng = ctx.rng
    s = gen.scenario(rng, kinds=["poisson", "nbinom", "location", "classifier", "gbs"], shapes=NOSEASON)
    out = reference_case(ctx, s, probe=False)
    if out is None:
        return
    est, rec, r = out
    for k in range(1, rec.n_iter + 1):
        d = rec.deltas[k]
        ok = any(abs(d - v) <= 1e-5 * abs(v) + 1e-7 * max(1.0, r.moves[k]) for v in (r.deltas[k], r.moves[k]))
        ctx.check(ok, "factor change of iteration %d reported as %r; the factors change by %r, the updates by %r" % (k, d, r.moves[k], r.deltas[k]))
        ctx.event("factor_changes_checked")


def divergence(ctx):
    """Diverging iterations are undone, the next one damped; persistent divergence is an error."""
    rng = ctx.rng
    s = diverging_scenario(rng, hier=rng.rand() < 0.2, aggregate=rng.rand() < 0.75)
    out = reference_case(ctx, s)
    if out is None:
        return
    est, rec, r = out
    check_events(ctx, s, rec)
    check_stop(ctx, s, est, rec)
    ctx.check(rec.losses[-1] <= 2 * rec.losses[0] * (1 + 1e-12), "training returned with loss %r, initially %r" % (rec.losses[-1], rec.losses[0]))
    if r.diverging:
        ctx.event("divergences_damped", r.diverging)


def returned_loss(ctx):
    """Whatever the data: a training that returns has not doubled its initial loss."""
    rng = ctx.rng
    s = gen.zoo(rng, kinds=FAST, lr="one", stop="never", prior=True, weights="float", max_iter=6, hier=False, aggregate=rng.rand() < 0.6)
    k = np.arange(len(s.y)) % 7
    if s.kind in ("poisson", "nbinom", "exponential"):
        s.y = s.y * 10.0 ** (k - 3)
    est, rec = train(ctx, s)
    if est is None:
        ctx.event("rejections_observed")
        ctx.check(np.sum(np.array(rec.losses) > 2 * rec.losses[0]) >= 4, "training rejected without repeated divergence: losses %s" % rec.losses)
        return
    ctx.check(not rec.losses[-1] > 2 * rec.losses[0] * (1 + 1e-12), "training returned with loss %r, initially %r" % (rec.losses[-1], rec.losses[0]))
    check_events(ctx, s, rec)
    check_stop(ctx, s, est, rec)
    ctx.sig(s.signature())


class Blown(cb.CBPoissonRegressor):
    """Reports a loss that explodes in chosen iterations."""

    blow = ()

    def loss(self, prediction, y, weights):
        v = cb.CBPoissonRegressor.loss(self, prediction, y, weights)
        return 100.0 + v if getattr(self, "on", False) else v


class Switch(gen.Recorder):
    """Turns the exploding loss on while chosen iterations run."""

    def __init__(self, bad):
        gen.Recorder.__init__(self)
        self.bad = set(bad)

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        estimator_state["link_function"].on = iteration in self.bad
        gen.Recorder.observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta, quantile)


def persistent(ctx):
    """A loss that explodes in k iterations: five times is an error, fewer are undone and survived."""
    rng = ctx.rng
    n = 120
    X = pd.DataFrame(dict(a=rng.randint(0, 3, n), b=rng.randint(0, 4, n)))
    y = rng.poisson(1 + X["a"].values).astype(float)
    k = int(rng.randint(1, 8))
    start = int(rng.randint(0, 3))
    bad = range(start, start + k)
    rec = Switch(bad)
    est = Blown(feature_groups=["a", "b"], observers=[rec], maximal_iterations=int(rng.choice([1, 4, 20])), minimal_loss_change=-1.0,
                minimal_factor_change=-1.0, learn_rate=learning_rate.constant_learn_rate_one)
    ctx.describe(explosions=k, start=start, limit=est.maximal_iterations)
    if start >= est.maximal_iterations:
        return
    raised = False
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            est.fit(X.copy(), y.copy())
    except ConvergenceError:
        raised = True
    ctx.check(raised == (k >= 5), "%d diverging iterations: %s" % (k, "rejected" if raised else "accepted"))
    ctx.sig(k, start, est.maximal_iterations)
    if raised:
        ctx.check(rec.n_iter == start + 5, "rejected after %d iterations" % rec.n_iter)
        ctx.event("rejections_confirmed")
    else:
        ctx.check(rec.n_iter >= start + k + 1, "training stops in a diverged state")
        ctx.check(rec.n_iter == max(est.maximal_iterations, start + k + 1), "%d iterations" % rec.n_iter)


def schedules(ctx):
    rng = ctx.rng
    m = int(rng.choice([1, 2, 3, 4, 5, 7, 10, 11, 20, 50, 101]))
    ctx.describe(maximal_iterations=m)
    its = np.arange(1, m + 1)
    want = dict(one=np.ones(m), linear=its / float(m), half=np.minimum(1.0, its / (0.5 * m)),
                logistic=2 * (1 / (1 + np.exp(its * np.log((1 - 0.999999999) / (1 + 0.999999999)) / m)) - 0.5))
    for name, w in want.items():
        f = getattr(learning_rate, gen.LEARN[name])
        v = np.array([f(int(i), m) for i in its], dtype=float)
        ctx.check((v > 0).all() and (v <= 1).all(), "%s: rate outside of (0, 1]: %s" % (name, v))
        ctx.check((np.diff(v) >= 0).all(), "%s: rate decreases" % name)
        ctx.check(v[-1] >= 1 - 1e-8, "%s: final rate %r" % (name, v[-1]))
        ctx.close(v, w, "schedule %s" % name, rtol=1e-9)
        ctx.event("schedule_values_checked", m)
    if m > 1:
        h = np.array([learning_rate.half_linear_learn_rate(int(i), m) for i in its])
        ctx.check((h[its >= m / 2.0] == 1).all() and (h[its < m / 2.0] < 1).all(), "half-linear schedule reaches one at the wrong iteration")
    ctx.sig(m, ctx.index)


def documented_change(ctx):
    """Two bins that need eight and more times the prior: the factors double in every update, so training must go on."""
    n = 300
    a = np.r_[np.zeros(n), np.ones(n)]
    y = np.r_[np.full(n, 1.0), np.full(n, 40.0)]
    X = pd.DataFrame(dict(a=a, prior=np.r_[np.full(n, 40.0), np.full(n, 1.0)]))
    rec = gen.Recorder()
    ctx.describe(case="two bins with priors far from the targets")
    est = cb.CBPoissonRegressor(feature_groups=["a"], feature_properties={"a": flags.IS_UNORDERED}, prior_prediction_column="prior", observers=[rec],
                                learn_rate=learning_rate.constant_learn_rate_one)
    est.fit(X.copy(), y.copy())
    p = est.predict(X.copy())
    moved = abs(np.log(rec.final[0]) - np.log(rec.preds[-1][0]))
    ctx.check(rec.n_iter >= 2, "stopped after %d iterations" % rec.n_iter)
    ctx.event("trainings")
    ctx.check(not (est.stop_criteria_[1] and moved > 0.5), "stopped because of a factor change of %r although the last iteration changed the factors by %.3f: predictions %.2f and %.2f for means 1 and 40"
              % (rec.deltas[-1], moved, p[0], p[-1]), mech="factor-change-of-updates")


WORKLOADS = [
    Workload("large", gen.enlarged(zoo), 16, 200),
    Workload("zoo", zoo, 500, 6000),
    Workload("placed", placed, 220, 2500),
    Workload("limits", limits, 80, 800),
    Workload("hierarchy", hierarchy, 120, 1500),
    Workload("factor_changes", factor_changes, 200, 2500),
    Workload("divergence", divergence, 60, 500),
    Workload("returned_loss", returned_loss, 100, 1200),
    Workload("persistent", persistent, 40, 300),
    Workload("schedules", schedules, 22, 60),
    Workload("documented_change", documented_change, 1, 2),
]
