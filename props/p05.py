"""P05: predicting the training rows reproduces the in-sample fit."""
import numpy as np

from lib import gen, ref
from props.common import Workload, diverging_scenario, output_step, raw_loss, scale_of, train

RULE = "an evaluation trains one of the 13 estimators with random data and options under a recording observer and compares the final in-sample prediction with predict, fit_transform, the last loss and the stored profiles; non-trivial if training returned"
ASSUMPTIONS = ["bin numbers in training data are integers below 2^53 or missing",
               "the in-sample prediction is the one passed to observers with iteration -1"]
MIN_EVENTS = {"trainings": 100, "rows_checked": 1000, "fit_transforms": 20}


def verify(ctx, s, transform=True):
    est, rec = train(ctx, s)
    if est is None:
        return None
    ctx.sig(s.signature())
    X = s.frame()
    p = s.proba(est, X)
    final = output_step(s, rec.final)
    sc = scale_of(final)
    tol = dict(rtol=1e-9, scale=1e-2 * sc) if s.kind in gen.ref.LOG + gen.ref.LOGIT else dict(rtol=1e-8, scale=10 * sc)
    tol["atol"] = 1e-12 if s.kind in gen.ref.LOGIT else 1e-12 * sc
    ctx.close(p, final, "prediction of the training rows against the final in-sample prediction", **tol)
    ctx.event("rows_checked", len(p))
    loss = raw_loss(s, rec.final, s.y, s.spec.w)
    if loss is not None:
        ctx.close(rec.losses[-1], loss, "last reported loss against the loss of the final prediction", rtol=1e-8,
                  atol=1e-13 * (1 + sc * sc))
    if transform:
        rec2 = gen.Recorder()
        e2 = s.build([rec2], output_column="out")
        F = s.frame()
        G = e2.fit_transform(F, s.y.copy())
        ctx.event("fit_transforms")
        out = np.asarray(G["out"])
        if s.kind == "classifier":
            want = np.asarray(e2.predict(s.frame()))
            ctx.same(want, (output_step(s, rec2.final) > 0.5).astype(want.dtype) if not near(rec2.final) else want,
                     "class of the training rows against the final in-sample probability")
        else:
            want = output_step(s, rec2.final)
        if s.kind == "classifier":
            ctx.same(out, want, "fit_transform against fit and predict")
        else:
            ctx.close(out, want, "fit_transform against the in-sample prediction", **tol)
        T = e2.transform(s.frame())
        ctx.same(np.asarray(T["out"]), out, "transform of the training rows against fit_transform")
        ctx.check(list(G.columns) == list(s.X.columns) + ["out"], "fit_transform returns columns %s" % list(G.columns))
    return est, rec


def near(p):
    return bool((np.abs(p - 0.5) < 1e-9).any())


def zoo(ctx):
    verify(ctx, gen.zoo(ctx.rng), transform=ctx.index % 3 == 0)


def no_aggregation(ctx):
    verify(ctx, gen.zoo(ctx.rng, kinds=["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier", "mgeneric"],
                        aggregate=False), transform=False)


def hierarchical(ctx):
    verify(ctx, gen.zoo(ctx.rng, kinds=["poisson", "nbinom", "location", "classifier", "gbs", "ageneric"], hier=True,
                        n_cols=3), transform=False)


def damped(ctx):
    s = diverging_scenario(ctx.rng, hier=ctx.rng.rand() < 0.3, aggregate=ctx.rng.rand() < 0.7)
    verify(ctx, s, transform=False)


def profiles(ctx):
    """Stored profile (as kept for plots) at a row's bin against the reported contribution."""
    from cyclic_boosting.observers import PlottingObserver

    s = gen.zoo(ctx.rng)
    ctx.describe(scenario=s.summary())
    ob = PlottingObserver(iteration=-1)
    from cyclic_boosting.utils import ConvergenceError

    try:
        est = s.fit([ob])
    except ConvergenceError:
        return
    ctx.sig(s.signature())
    ctx.event("trainings")
    con = est.get_feature_contributions(s.frame())
    for f in ob.features:
        ext = f.feature_type is not None
        key = " ".join(f.feature_group) + ("_external" if ext else "")
        lex, nb = ref.cell_index([s.cols[c] for c in f.feature_group])[:2]
        prof = np.asarray(f.factors_link, dtype=float)
        ctx.check(len(prof) == int(np.prod(nb)) + 1, "profile of %s has %d entries for %s bins" % (key, len(prof), nb))
        want = ref.unlink(s.kind, prof[lex])
        ctx.close(con[key], want, "contribution of %s against its stored profile" % key, rtol=1e-9, atol=1e-12)
        ctx.event("rows_checked", len(lex))


WORKLOADS = [
    Workload("large", gen.enlarged(zoo), 24, 300),
    Workload("zoo", zoo, 700, 9000),
    Workload("no_aggregation", no_aggregation, 120, 1500),
    Workload("hierarchical", hierarchical, 120, 1500),
    Workload("damped", damped, 30, 300),
    Workload("profiles", profiles, 200, 2500),
]
