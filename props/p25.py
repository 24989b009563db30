"""P25: models survive persistence and cloning unchanged."""
import copy
import io
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import joblib
import numpy as np
import pandas as pd
from sklearn.base import clone as sk_clone

import cyclic_boosting.observers
from cyclic_boosting import quantile_matching as qm
from cyclic_boosting.binning import BinNumberTransformer, ECdfTransformer
from cyclic_boosting.utils import ConvergenceError, clone as cb_clone

from lib import gen, restore
from props.common import Workload, overshooting, train

RULE = "an evaluation trains an object, copies it (pickle, joblib, deep copy, clone, chains of them, partly in a process with another hash seed) and compares everything copy and original report bit for bit; non-trivial if training returned"
ASSUMPTIONS = ["one thread; option objects that can be pickled"]
MIN_EVENTS = {"copies_compared": 200, "restored_elsewhere": 40, "clones_trained": 60, "distributions_copied": 40}


def by_pickle(o, rng):
    return pickle.loads(pickle.dumps(o, protocol=int(rng.randint(2, pickle.HIGHEST_PROTOCOL + 1))))


def by_joblib(o, rng):
    b = io.BytesIO()
    joblib.dump(o, b)
    b.seek(0)
    return joblib.load(b)


WAYS = dict(pickle=by_pickle, joblib=by_joblib, deepcopy=lambda o, rng: copy.deepcopy(o))


def chain(rng, o):
    names = [str(k) for k in rng.choice(sorted(WAYS), rng.randint(1, 4))]
    for k in names:
        o = WAYS[k](o, rng)
    return o, "+".join(names)


def plain(v):
    """Options as comparable values."""
    if isinstance(v, dict):
        return sorted((repr(k), plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return ["array", v.tolist()]
    if v is None or isinstance(v, (str, bytes, int, float, bool, np.generic)):
        return repr(v)
    if callable(v) and hasattr(v, "__qualname__"):
        return v.__module__ + "." + v.__qualname__
    if hasattr(v, "get_params"):
        return [type(v).__name__, plain(v.get_params(deep=False))]
    return type(v).__name__


def same_answers(ctx, a, b, what):
    if isinstance(a, dict):
        ctx.check(sorted(a, key=repr) == sorted(b, key=repr), "%s: entries %s and %s" % (what, sorted(a, key=repr), sorted(b, key=repr)))
        for k in a:
            same_answers(ctx, a[k], b[k], "%s: %s" % (what, k))
    elif isinstance(a, (list, tuple)):
        ctx.check(len(a) == len(b), "%s: length" % what)
        for i, (x, y) in enumerate(zip(a, b)):
            same_answers(ctx, x, y, "%s[%d]" % (what, i))
    elif isinstance(a, pd.DataFrame):
        ctx.check(list(a.columns) == list(b.columns) and a.index.equals(b.index), "%s: labels" % what)
        ctx.same(np.asarray(a, dtype=float), np.asarray(b, dtype=float), what)
    elif a is None or isinstance(a, str):
        ctx.check(a == b, "%s: %r and %r" % (what, a, b))
    else:
        ctx.same(np.asarray(a, dtype=float), np.asarray(b, dtype=float), what)


def observers(rng):
    k = rng.randint(4)
    if k == 0:
        return None
    if k == 1:
        return [cyclic_boosting.observers.PlottingObserver()]
    if k == 2:
        return [cyclic_boosting.observers.PlottingObserver(iteration=1), cyclic_boosting.observers.PlottingObserver()]
    return [gen.Recorder()]


def fitted(ctx, s, obs):
    ctx.describe(scenario=s.summary())
    try:
        est = s.fit(obs)
    except ConvergenceError:
        ctx.event("trainings_rejected_as_diverging")
        return None
    ctx.event("trainings")
    return est


def copies(ctx):
    """In this process; the original stays as it is, also when the copy is trained on other data."""
    rng = ctx.rng
    s = gen.zoo(rng)
    obs = observers(rng)
    est = fitted(ctx, s, obs)
    if est is None:
        return
    ctx.sig(s.signature(), str(obs and [type(o).__name__ for o in obs]))
    X, _, _ = gen.probe_rows(rng, s, 40)
    params = plain(est.get_params())
    before = restore.answers(est, X)
    other, how = chain(rng, est)
    ctx.check(type(other) is type(est), "copy by %s is a %s" % (how, type(other).__name__))
    same_answers(ctx, before, restore.answers(other, X), "copy by %s" % how)
    ctx.check(plain(other.get_params()) == params, "copy by %s has other options" % how)
    if obs and isinstance(obs[0], cyclic_boosting.observers.PlottingObserver):
        o = WAYS["pickle"](obs[-1], rng)
        same_answers(ctx, list(obs[-1].loss), list(o.loss), "losses of a restored observer")
        ctx.check(len(o.features) == len(obs[-1].features), "features of a restored observer")
        for f, g in zip(obs[-1].features, o.features):
            ctx.check(f.feature_group == g.feature_group, "feature of a restored observer")
            same_answers(ctx, f.factors_link, g.factors_link, "factors of a restored observer")
    # training the copy on fewer rows must not reach the original
    keep = np.arange(len(s.y)) < max(1, len(s.y) // 2)
    ok = not ("w" in s.X and not s.X["w"].values[keep].sum() > 0) and not (s.kind == "gbs" and not (
        (s.X["w"].values if "w" in s.X else np.ones(len(s.y)))[keep & (s.y != 0)].sum() > 0))
    if ok and rng.rand() < 0.5:
        try:
            other.fit(s.frame()[keep], s.y[keep].copy())
        except ConvergenceError:
            pass
    same_answers(ctx, before, restore.answers(est, X), "original after copying by %s" % how)
    ctx.check(plain(est.get_params()) == params, "options of the original after copying by %s" % how)
    # trained again, the copy gives the model once more
    other, how = chain(rng, est)
    other.fit(s.frame(), s.y.copy())
    same_answers(ctx, before, restore.answers(other, X), "copy by %s trained again" % how)
    ctx.event("copies_compared", 2)


def before_fit(ctx):
    """Copies and clones of estimators never trained, or trained, give the same model when trained."""
    rng = ctx.rng
    s = gen.zoo(rng)
    obs = observers(rng)
    est = fitted(ctx, s, obs)
    if est is None:
        return
    ctx.sig(s.signature())
    X, _, _ = gen.probe_rows(rng, s, 40)
    want = restore.answers(est, X)
    params = plain(est.get_params())
    source = est if rng.rand() < 0.5 else s.build(observers(rng) if obs is not None else None)
    if rng.rand() < 0.4:
        source, _ = chain(rng, source)
    for name, f in (("sklearn", sk_clone), ("package", cb_clone)):
        c = f(source)
        if rng.rand() < 0.3:
            c, _ = chain(rng, c)
        ctx.check(type(c) is type(est), "%s clone is a %s" % (name, type(c).__name__))
        if source is est:
            ctx.check(plain(c.get_params()) == params, "%s clone has other options" % name)
        ctx.raises(lambda: s.proba(c, X.copy()), "prediction of an untrained %s clone" % name, Exception)
        c.fit(s.frame(), s.y.copy())
        same_answers(ctx, want, restore.answers(c, X), "%s clone trained" % name)
        ctx.event("clones_trained")
    if source is est:
        same_answers(ctx, want, restore.answers(est, X), "original after cloning")
        ctx.check(plain(est.get_params()) == params, "options of the original after cloning")
    # options read and set on another instance of the class
    e2 = s.build(None)
    e2.set_params(**{k: v for k, v in est.get_params(deep=False).items() if k != "observers"})
    e2.fit(s.frame(), s.y.copy())
    same_answers(ctx, want, restore.answers(e2, X), "estimator given the options of another")


def raw_frame(rng, n):
    cols = {}
    for c in "ab":
        v = rng.choice([rng.normal(size=n), rng.randint(0, 6, n).astype(float), np.exp(rng.normal(size=n))][rng.randint(3)], n)
        v[rng.rand(n) < 0.1] = np.nan
        cols[c] = v
    return pd.DataFrame(cols)


FLAGS = {"a": gen.flag_int({"CONTINUOUS"}), "b": gen.flag_int({"CONTINUOUS", "LINEAR"})}


def pipelines_and_chains(rng):
    """Trained objects other than single estimators: (object, rows to answer for, training data)."""
    import cyclic_boosting as cb

    n = int(rng.randint(60, 200))
    X = raw_frame(rng, n)
    y = rng.poisson(np.exp(np.nan_to_num(X["a"].values) * 0.1) * 3).astype(float)
    k = rng.randint(4)
    new = raw_frame(rng, 30)
    if k == 0:
        t = BinNumberTransformer(n_bins=int(rng.randint(2, 30)), feature_properties=dict(FLAGS))
        return t.fit(X.copy(), y), new, (X, y), "bins"
    if k == 1:
        t = ECdfTransformer(n_bins=int(rng.randint(2, 30)), feature_properties=dict(FLAGS))
        return t.fit(X.copy(), y), new, (X, y), "ecdf"
    if k == 2:
        name = str(rng.choice(["CBPoissonRegressor", "CBNBinomRegressor", "CBLocationRegressor", "CBClassifier"]))
        if name == "CBClassifier":
            y = (y > np.median(y)).astype(float)
        opts = dict(feature_groups=["a", ("a", "b")], feature_properties=dict(FLAGS), number_of_bins=int(rng.randint(3, 20)),
                    maximal_iterations=3)
        p = getattr(__import__("cyclic_boosting.pipelines", fromlist=["x"]), "pipeline_" + name)(**opts)
        return p.fit(X.copy(), y), new, (X, y), name
    Z = pd.DataFrame({c: np.floor(np.nan_to_num(X[c].values) % 4) for c in X})
    yc = np.exp(rng.normal(size=n) * 0.3 + 0.2 * Z["a"].values) + 0.1
    est = [cb.CBAdditiveQuantileRegressor(quantile=0.5, feature_groups=["a"], feature_properties={"a": FLAGS["a"]},
                                          maximal_iterations=2) for _ in range(3)]
    c = qm.QPD_RegressorChain(*est, bound="S" if rng.rand() < 0.5 else "B", l=0.0, u=float(yc.max() * 1.5))
    c.fit(Z.copy(), yc)
    return c, Z.iloc[:30].reset_index(drop=True), (Z, yc), "chain"


def composites(ctx):
    rng = ctx.rng
    obj, X, data, name = pipelines_and_chains(rng)
    ctx.describe(object=name)
    before = restore.answers(obj, X)
    other, how = chain(rng, obj)
    ctx.sig(name, how)
    same_answers(ctx, before, restore.answers(other, X), "%s copied by %s" % (name, how))
    ctx.check(plain(other.get_params()) == plain(obj.get_params()), "%s copied by %s: options" % (name, how))
    other.fit(data[0].copy(), data[1].copy())
    same_answers(ctx, before, restore.answers(other, X), "%s copied by %s and trained again" % (name, how))
    c = sk_clone(obj)
    if name != "chain":
        ctx.check(plain(c.get_params()) == plain(obj.get_params()), "%s cloned: options" % name)
    c.fit(data[0].copy(), data[1].copy())
    same_answers(ctx, before, restore.answers(c, X), "%s cloned and trained" % name)
    same_answers(ctx, before, restore.answers(obj, X), "%s after copying" % name)
    ctx.event("copies_compared", 2)


def distributions(ctx):
    """Quantile-parameterised distributions and fitted quantile functions."""
    rng = ctx.rng
    n = int(rng.choice([1, 5]))
    q = np.sort(rng.rand(3, n) * 8 + 1, axis=0) + np.array([[0.0], [0.1], [0.2]])
    alpha = float(rng.choice([0.1, 0.25, 0.05]))
    version = str(rng.choice(["normal", "logistic"]))
    k = int(rng.randint(5))
    if k == 0:
        d = qm.J_QPD_S(alpha, q[0], q[1], q[2], l=0.5, version=version)
    elif k == 1:
        d = qm.J_QPD_B(alpha, q[0], q[1], q[2], l=0.5, u=12.0, version=version)
    elif k == 2:
        d = qm.J_QPD_extended_U(alpha, *[float(v) for v in q[:, 0]])
    elif k == 3:
        d = qm.J_QPD_extended_S(alpha, *[float(v) for v in q[:, 0]], l=0.5)
    else:
        d = qm.J_QPD_extended_B(alpha, *[float(v) for v in q[:, 0]], l=0.5, u=12.0)
    ps = np.array([0.01, 0.2, 0.5, 0.77, 0.99])
    xs = np.array([1.0, 3.0, 7.0])
    want = [np.array(d.ppf(ps)), np.array(d.cdf(xs))]
    other, how = chain(rng, d)
    ctx.describe(object=type(d).__name__, how=how, version=version)
    ctx.sig(type(d).__name__, how, version, n)
    for o, what in ((other, "copy by %s" % how), (d, "original after %s" % how)):
        ctx.same(o.ppf(ps), want[0], "%s of %s: quantile function" % (what, type(d).__name__))
        ctx.same(o.cdf(xs), want[1], "%s of %s: distribution function" % (what, type(d).__name__))
    ctx.event("distributions_copied")


def elsewhere(ctx):
    """Restored in a fresh process with another hash seed."""
    rng = ctx.rng
    jobs, want, what = [], [], []
    for i in range(9):
        if i < 7:
            s = gen.zoo(rng)
            est = fitted(ctx, s, observers(rng) if rng.rand() < 0.5 else None)
            if est is None:
                continue
            X, _, _ = gen.probe_rows(rng, s, 30)
            ctx.sig(s.signature())
            data, name = (s.frame(), s.y.copy()), s.kind
        else:
            est, X, data, name = pipelines_and_chains(rng)
        again = rng.rand() < 0.5
        w = restore.answers(est, X)
        if again:
            w["again"] = dict(w)
        want.append(w)
        what.append(name)
        jobs.append((pickle.dumps(est, protocol=int(rng.randint(2, pickle.HIGHEST_PROTOCOL + 1))), X, data if again else None))
    ctx.describe(objects=what)
    d = tempfile.mkdtemp(prefix="p25-")
    try:
        with open(os.path.join(d, "in"), "wb") as f:
            pickle.dump(jobs, f)
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.randint(1, 10000))))
        r = subprocess.run([sys.executable, os.path.abspath(restore.__file__), os.path.join(d, "in"), os.path.join(d, "out")],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=300)
        ctx.check(r.returncode == 0, "the other process failed: %s" % r.stdout.decode("utf8", "replace")[-500:])
        with open(os.path.join(d, "out"), "rb") as f:
            out = pickle.load(f)
    finally:
        shutil.rmtree(d)
    for w, o, name in zip(want, out, what):
        ctx.check(not isinstance(o, str), "%s in another process: %s" % (name, o))
        same_answers(ctx, w, o, "%s in another process" % name)
        ctx.event("restored_elsewhere")


WORKLOADS = [
    Workload("large", gen.enlarged(copies), 8, 100),
    Workload("damped", overshooting(copies), 12, 150),
    Workload("elsewhere", elsewhere, 8, 160),
    Workload("copies", copies, 130, 3000),
    Workload("before_fit", before_fit, 70, 1500),
    Workload("composites", composites, 36, 800),
    Workload("distributions", distributions, 100, 1500),
]
