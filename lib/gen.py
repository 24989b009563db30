"""Random training scenarios and the wrapper that runs them on the real code."""
import numpy as np
import pandas as pd

import cyclic_boosting as cb
import cyclic_boosting.observers
from cyclic_boosting import common_smoothers, flags, learning_rate

from lib import ref

FLAGBITS = dict(
    CONTINUOUS=flags.IS_CONTINUOUS,
    ORDERED=flags.IS_ORDERED,
    UNORDERED=flags.IS_UNORDERED,
    MONOTONIC=flags.IS_MONOTONIC,
    INCREASING=flags.INCREASING,
    DECREASING=flags.DECREASING,
    LINEAR=flags.IS_LINEAR,
    SEASONAL=flags.IS_SEASONAL,
    MISSING=flags.HAS_MISSING,
    MNL=flags.MISSING_NOT_LEARNED,
)

SHAPES = [
    {"UNORDERED"},
    {"ORDERED"},
    {"CONTINUOUS"},
    {"CONTINUOUS", "LINEAR"},
    {"LINEAR"},
    {"CONTINUOUS", "SEASONAL"},
    {"ORDERED", "SEASONAL"},
    {"CONTINUOUS", "MONOTONIC"},
    {"CONTINUOUS", "MONOTONIC", "INCREASING"},
    {"CONTINUOUS", "MONOTONIC", "DECREASING"},
    {"CONTINUOUS", "LINEAR", "SEASONAL"},
    set(),
]

CLASSES = dict(
    poisson="CBPoissonRegressor",
    nbinom="CBNBinomRegressor",
    location="CBLocationRegressor",
    locpoisson="CBLocPoissonRegressor",
    gbs="CBGBSRegressor",
    classifier="CBClassifier",
    nbinomc="CBNBinomC",
    mquantile="CBMultiplicativeQuantileRegressor",
    aquantile="CBAdditiveQuantileRegressor",
    mgeneric="CBMultiplicativeGenericCRegressor",
    ageneric="CBAdditiveGenericCRegressor",
    gclassifier="CBGenericClassifier",
    exponential="CBExponential",
)
ZOO = list(CLASSES)
SLOW = ("mquantile", "aquantile", "mgeneric", "ageneric", "gclassifier")


def squared_costs(prediction, y, weights):
    return np.nansum(weights * (y - prediction) ** 2) / np.nansum(weights)


def logistic_costs(prediction, y, weights):
    p = np.clip(prediction, 1e-9, 1 - 1e-9)
    return -np.nansum(weights * (y * np.log(p) + (1 - y) * np.log(1 - p))) / np.nansum(weights)

REF_KINDS = ["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier"]

LEARN = dict(
    one="constant_learn_rate_one",
    linear="linear_learn_rate",
    half="half_linear_learn_rate",
    logistic="logistic_learn_rate",
)

DEFAULT_ORDER = dict(
    min_loss=dict(nbinom=1e-3, gbs=1e-10, mquantile=1e-10, aquantile=1e-10, nbinomc=1e-4),
    min_factor=dict(nbinom=1e-3, gbs=1e-10, mquantile=1e-10, aquantile=1e-10, nbinomc=1e-4),
)


def flag_int(names):
    v = 0
    for n in names:
        v |= FLAGBITS[n]
    return v


class Recorder(cyclic_boosting.observers.BaseObserver):
    """Records what training reports, at the time it is reported."""

    def __init__(self, limit=500):
        self.events = []
        self.preds = []
        self.deltas = []
        self.final = None
        self.losses = []
        self.limit = limit

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        if len(self.events) > self.limit * 50:
            raise RuntimeError("training does not end")
        self.events.append(("iteration", iteration))
        self.losses.append(float(estimator_state["insample_loss"]))
        self.deltas.append(delta)
        if iteration == -1:
            self.final = np.array(prediction, dtype=float)
        else:
            self.preds.append(np.array(prediction, dtype=float))
        self.n_rows = len(X)

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        self.events.append(("feature", iteration, feature_i))

    @property
    def n_iter(self):
        return sum(1 for e in self.events if e[0] == "iteration" and e[1] != -1)


class Scenario(object):
    """Data, options and the matching reference spec."""

    def frame(self):
        return self.X.copy()

    def build(self, observers=None, **over):
        k = dict(self.kwargs)
        k.update(over)
        if observers is not None:
            k["observers"] = observers
        if "learn_rate" in k and isinstance(k["learn_rate"], str):
            k["learn_rate"] = getattr(learning_rate, LEARN[k["learn_rate"]])
        if "smoother_choice" in k and isinstance(k["smoother_choice"], tuple):
            k["smoother_choice"] = make_choice(k["smoother_choice"])
        return getattr(cb, CLASSES[self.kind])(**k)

    def fit(self, observers=None, X=None, y=None, **over):
        est = self.build(observers=observers, **over)
        est.fit(self.frame() if X is None else X, self.y.copy() if y is None else y)
        return est

    def proba(self, est, X):
        """Prediction on the model's own scale (probability for classifiers)."""
        if self.kind == "classifier":
            return np.asarray(est.predict_proba(X))[:, 1]
        return np.asarray(est.predict(X))

    def summary(self):
        s = self.spec
        return dict(
            kind=self.kind,
            rows=len(self.y),
            groups=[list(g) for g in s.groups],
            props={c: sorted(v) for c, v in s.props.items()},
            smoother=list(s.smoother),
            lr=s.lr if isinstance(s.lr, str) else "custom",
            max_iter=s.max_iter,
            aggregate=s.aggregate,
            hierarchical=None if s.hier is None else [list(g) for g in s.hier],
            weighted=s.w is not None,
            prior=s.prior is not None,
            external=[list(g) for g in getattr(self, "external", [])],
        )

    def signature(self):
        return repr(sorted(self.summary().items(), key=str)) + repr(np.round(self.y[:5], 6).tolist())


def make_choice(t):
    kind, use_reg, use_norm = t
    cls = dict(
        wm=common_smoothers.SmootherChoiceWeightedMean,
        groupby=common_smoothers.SmootherChoiceGroupBy,
        none=common_smoothers.NoSmootherChoice,
    )[kind]
    return cls(use_regression_type=use_reg, use_normalization=use_norm)


def bin_column(rng, n, nb, style):
    if style == "skew":
        b = np.minimum(rng.geometric(0.4, n) - 1, nb - 1)
    elif style == "gaps":
        keep = rng.choice(nb, max(1, nb // 2), replace=False)
        b = rng.choice(keep, n)
        b[rng.randint(n)] = nb - 1
    elif style == "const":
        b = np.full(n, nb - 1)
    else:
        b = rng.randint(0, nb, n)
    return b.astype(float)


def put_missing(rng, col, frac, rep):
    m = rng.rand(len(col)) < frac
    reps = dict(nan=[np.nan], neg=[-1.0], inf=[np.inf, -np.inf], mix=[np.nan, -1.0, -5.0, np.inf, -np.inf])[rep]
    col = col.copy()
    col[m] = rng.choice(reps, int(m.sum()))
    return col


def target(rng, kind, signal, n):
    """Targets with structure and kind-specific domain."""
    if kind in ("poisson", "nbinom", "locpoisson", "nbinomc", "mquantile", "mgeneric", "exponential"):
        style = rng.choice(["poisson", "float", "sparse", "big", "const"], p=[0.5, 0.2, 0.15, 0.1, 0.05])
        lam = np.exp(0.7 * signal + rng.normal() * 0.8 + 0.5)
        if style == "poisson" or kind == "nbinomc":
            return rng.poisson(lam).astype(float)
        if style == "float":
            return rng.gamma(2.0, lam / 2.0) + (0.01 if kind in SLOW else 0.0)
        if style == "sparse":
            return rng.poisson(lam * 0.1).astype(float) + (0.5 if kind in SLOW else 0.0)
        if style == "big":
            return rng.poisson(lam * 10 ** rng.randint(2, 5)).astype(float)
        return np.full(n, float(rng.randint(1, 5)))
    if kind in ("classifier", "gclassifier"):
        p = 1.0 / (1.0 + np.exp(-(1.2 * signal + rng.normal() * 0.7)))
        return (rng.rand(n) < p).astype(float)
    scale = 10.0 ** rng.randint(-1, 3)
    y = scale * (signal + 0.5 * rng.normal(size=n) + rng.normal() * 2)
    if kind == "gbs":
        y = np.where(rng.rand(n) < 0.3, 0.0, y)
        if not (y != 0).any():
            y[0] = scale
    return y


# set while a case asks for much data, see enlarged()
LARGE = [False]


def enlarged(case):
    """The same case with thousands of rows, many bins, columns, dimensions and iterations."""

    def run(ctx):
        LARGE[0] = True
        try:
            return case(ctx)
        finally:
            LARGE[0] = False

    return run


SOURCE = [None]


def drawn_from(source, case):
    """The same case with scenarios of another source."""

    def run(ctx):
        SOURCE[0] = source
        try:
            return case(ctx)
        finally:
            SOURCE[0] = None

    return run


def zoo(rng, kinds=None, **kw):
    """Scenario of any estimator; the slow ones get small data."""
    if SOURCE[0] is not None:
        return SOURCE[0](rng)
    kinds = list(kinds or ZOO)
    p = np.array([0.35 if k in ("mquantile", "aquantile") else 1.0 for k in kinds])
    kind = str(rng.choice(kinds, p=p / p.sum()))
    if kind in SLOW:
        kw.setdefault("n", 1200 if LARGE[0] else int(rng.choice([20, 60, 120])))
        kw.setdefault("max_bins", 4)
        kw.setdefault("max_dim", 2)
        kw.setdefault("max_iter", int(rng.choice([1, 2, 4])))
    if kind == "exponential":
        kw.setdefault("max_dim", 2)
    return scenario(rng, kind=kind, **kw)


def scenario(rng, kind=None, kinds=None, n=None, weights=None, prior=None, missing=None, shapes=None, smoother=None,
             groups=None, max_dim=3, hier=None, aggregate=None, max_bins=9, props_everywhere=False, n_cols=None,
             lr=None, max_iter=None, stop=None, styles=None, reps=None):
    """Draws a random scenario; arguments pin or restrict single aspects."""
    s = Scenario()
    if kind is None:
        kind = str(rng.choice(kinds or REF_KINDS))
    s.kind = kind
    large = LARGE[0] and n is None
    if large:
        n = int(rng.choice([1500, 4000, 11000]))
        n_cols = n_cols or rng.randint(2, 7)
        max_bins = int(rng.choice([12, 40, 130, 270]))
        max_iter = max_iter or int(rng.choice([2, 5, 12, 24]))
        max_dim = 4 if max_dim == 3 else max_dim
    n = n or int(rng.choice([3, 20, 60, 150, 300], p=[0.05, 0.15, 0.3, 0.3, 0.2]))
    ncol = n_cols or rng.randint(1, 5)
    names = ["a", "b", "c", "d", "e", "f"][:ncol]
    cols, props = {}, {}
    signal = np.zeros(n)
    for c in names:
        nb = int(rng.choice([1, 2, 3, 4, 5, max_bins, max_bins + 3], p=[0.05, 0.2, 0.2, 0.15, 0.15, 0.15, 0.1]))
        col = bin_column(rng, n, nb, str(rng.choice(styles or ["uni", "skew", "gaps", "const"],
                                                    p=None if styles else [0.5, 0.25, 0.2, 0.05])))
        eff = rng.normal(size=nb)
        signal += eff[col.astype(int)]
        frac = 0.0
        if missing is None:
            frac = float(rng.choice([0.0, 0.1, 0.5, 1.0], p=[0.55, 0.3, 0.12, 0.03]))
        elif missing:
            frac = float(rng.choice([0.1, 0.4]))
        if frac > 0:
            miss = rng.rand(n) < frac
            reps_ = dict(nan=[np.nan], neg=[-1.0], inf=[np.inf, -np.inf], mix=[np.nan, -1.0, -5.0, np.inf, -np.inf])[
                str(rng.choice(reps or ["nan", "neg", "inf", "mix"]))]
            signal[miss] += rng.normal()
            col[miss] = rng.choice(reps_, int(miss.sum()))
        cols[c] = col
        pool = shapes or SHAPES
        p = set(pool[rng.randint(len(pool))])
        if props_everywhere and not p:
            p = {"UNORDERED"}
        p |= [set(), {"MISSING"}, {"MNL"}][rng.choice(3, p=[0.4, 0.25, 0.35])]
        props[c] = p
    if groups is None:
        groups = []
        highest = {c: np.max(cols[c], where=np.isfinite(cols[c]), initial=0.0) for c in names}
        for c in names:
            if rng.rand() < 0.8:
                groups.append((c,))
        for _ in range(rng.randint(0, 3)):
            if ncol >= 2:
                d = min(ncol, int(rng.choice([2, 3, 4] if large else [2, 2, 3])), max_dim)
                if d >= 2:
                    g = tuple(str(v) for v in rng.choice(names, d, replace=False))
                    while len(g) > 1 and np.prod([highest[c] + 1.0 for c in g]) > 4000:
                        g = g[1:]
                    if g not in groups:
                        groups.append(g)
        if not groups:
            groups = [(names[0],)]
        groups = [groups[i] for i in rng.permutation(len(groups))]
    y = target(rng, kind, signal, n)
    X = pd.DataFrame({c: cols[c] for c in names})
    for c in names:
        if np.isfinite(cols[c]).all() and rng.rand() < 0.6:
            X[c] = cols[c].astype([np.int64, np.int32, np.int16, np.float32][rng.randint(4)])
    kw = dict(feature_groups=[g if len(g) > 1 else (g[0] if rng.rand() < 0.7 else g) for g in groups])
    declared = {c: flag_int(p) for c, p in props.items() if p}
    kw["feature_properties"] = declared if declared or rng.rand() < 0.5 else None
    # undeclared columns behave as unordered with missing
    spec = ref.Spec(kind=kind, groups=groups, props=props, cols=cols, y=y)
    if weights is None:
        weights = rng.rand() < 0.4
    if weights and kind not in ("nbinomc",):
        wst = str(rng.choice(["int", "float", "zeros", "tiny", "wide"])) if weights is True else weights
        if wst == "int":
            w = rng.randint(1, 5, n).astype(float)
        elif wst == "zeros":
            w = rng.randint(0, 3, n).astype(float)
            w[rng.randint(n)] = 1.0
        elif wst == "tiny":
            w = rng.rand(n) * 1e-2 + 1e-3
        elif wst == "wide":
            w = 10.0 ** (rng.uniform(-2, 2, n) + rng.choice([-1, 0, 3]))
        else:
            w = rng.rand(n) * 3 + 0.1
        if kind == "gbs" and not np.sum(w[y != 0]) > 0:
            w[np.nonzero(y)[0][0]] = 1.0
        spec.w = w
        X["w"] = w
        kw["weight_column"] = "w"
    if prior is None:
        prior = rng.rand() < 0.25
    if prior and kind not in ("gbs",):
        if kind in ("classifier", "gclassifier", "nbinomc"):
            pr = rng.rand(n) * 0.9 + 0.05
        elif kind in ("location", "aquantile", "ageneric"):
            pr = rng.normal(size=n) * (np.std(y) + 0.1) + np.mean(y)
        else:
            pr = np.exp(rng.normal(size=n) * 0.7) * (np.mean(y) + 0.1)
        if rng.rand() < 0.4:
            m = rng.rand(n) < 0.2
            m[0] = False
            pr[m] = rng.choice([np.nan, np.inf, -1.0, 0.0] if kind in ref.LOG else [np.nan, np.inf], int(m.sum()))
        spec.prior = pr
        X["prior"] = pr
        kw["prior_prediction_column"] = "prior"
    if kind == "nbinomc":
        mu = np.exp(rng.normal(size=n) * 0.5) * (np.mean(y) + 0.2)
        spec.mu = mu
        X["mu"] = mu
        kw["mean_prediction_column"] = "mu"
        spec.gamma = float(rng.choice([0.0, 0.1, 1.0]))
        spec.bayes = bool(rng.rand() < 0.4)
        spec.n_steps = int(rng.choice([15, 8, 25]))
        kw.update(gamma=spec.gamma, bayes=spec.bayes, n_steps=spec.n_steps)
    if kind == "nbinom":
        spec.a, spec.c = float(rng.choice([1.0, 1.2, 2.0])), float(rng.choice([0.0, 0.1, 1.0]))
        kw.update(a=spec.a, c=spec.c)
    if kind == "gbs":
        spec.regalpha = float(rng.choice([0.0, 0.3, 2.0]))
        kw.update(regalpha=spec.regalpha)
    # options
    spec.smoother = smoother or [("wm", True, True), ("groupby", True, True), ("none", True, True),
                                 ("wm", False, True), ("wm", True, False), ("groupby", True, False),
                                 ("groupby", False, True), ("none", False, False)][
        rng.choice(8, p=[0.4, 0.18, 0.1, 0.07, 0.07, 0.07, 0.05, 0.06])]
    if spec.smoother != ("wm", True, True) or rng.rand() < 0.3:
        kw["smoother_choice"] = spec.smoother
    spec.lr = lr or str(rng.choice(["half", "one", "linear", "logistic"]))
    if spec.lr != "half" or kind == "nbinomc" or rng.rand() < 0.3:
        kw["learn_rate"] = spec.lr
    spec.max_iter = max_iter or int(rng.choice([1, 2, 3, 5, 10]))
    kw["maximal_iterations"] = spec.max_iter
    if stop is None:
        stop = str(rng.choice(["default", "never", "loose"]))
    if stop == "default":
        spec.min_loss = DEFAULT_ORDER["min_loss"].get(kind, 1e-6)
        spec.min_factor = DEFAULT_ORDER["min_factor"].get(kind, 1e-4)
    else:
        spec.min_loss, spec.min_factor = dict(never=(-1.0, -1.0), loose=(1e-2, 1e-2))[stop]
        kw.update(minimal_loss_change=spec.min_loss, minimal_factor_change=spec.min_factor)
    if aggregate is None:
        aggregate = rng.rand() < 0.8
    spec.aggregate = bool(aggregate) or kind in ("nbinomc", "exponential")
    if not spec.aggregate or (rng.rand() < 0.3 and kind not in ("nbinomc", "exponential")):
        kw["aggregate"] = spec.aggregate
    if hier is None:
        hier = rng.rand() < 0.15
    if hier and kind not in ("nbinomc", "exponential"):
        k = rng.randint(1, len(groups) + 1)
        spec.hier = [groups[i] for i in rng.choice(len(groups), k, replace=False)]
        kw["hierarchical_feature_groups"] = [g if len(g) > 1 else g[0] for g in spec.hier]
    if kind in ("mquantile", "aquantile"):
        s.quantile = float(rng.choice([0.1, 0.25, 0.5, 0.75, 0.9]))
        kw["quantile"] = s.quantile
    if kind in ("mgeneric", "ageneric"):
        kw["costs"] = squared_costs
    if kind == "gclassifier":
        kw["costs"] = logistic_costs
    if kind == "exponential":
        del kw["feature_groups"]
        k = rng.randint(1, len(groups) + 1)
        s.external = [groups[i] for i in rng.choice(len(groups), k, replace=False)]
        if max(len(g) for g in s.external) > 2:
            s.external = [groups[0][:1]]
        kw["standard_feature_groups"] = [g if len(g) > 1 else g[0] for g in groups]
        kw["external_feature_groups"] = [g if len(g) > 1 else g[0] for g in s.external]
        kw["external_colname"] = "price"
        X["price"] = rng.choice([1.0, 0.9, 0.75, 0.5, 1.1], n)
        if rng.rand() < 0.3:
            X.loc[X.index[rng.rand(n) < 0.2], "price"] = np.nan
        if rng.rand() < 0.5:
            X["pexp"] = rng.choice([-1.0, -2.5, -0.3], n)
            kw["prior_exponent_colname"] = "pexp"
        spec.a, spec.c = float(rng.choice([1.0, 1.5])), float(rng.choice([0.0, 0.2]))
        kw.update(a=spec.a, c=spec.c)
    s.X, s.y, s.kwargs, s.spec, s.cols, s.names = X, y, kw, spec, cols, names
    return s


def probe_rows(rng, s, m=40):
    """Rows to predict: known, unseen, out-of-range and missing bins in any mix."""
    cols = {}
    for c in s.names:
        v = s.cols[c]
        fin = v[np.isfinite(v) & (v >= 0)]
        top = int(fin.max()) + 1 if len(fin) else 1
        pool = np.r_[np.arange(top), np.arange(top), [top, top + 1, top + 7, 1e6], [np.nan, -1.0, np.inf, -np.inf, -7.0]]
        cols[c] = rng.choice(pool, m)
    X = pd.DataFrame(cols)
    extra = {}
    if s.spec.prior is not None:
        extra["prior"] = rng.choice(s.spec.prior, m)
        X["prior"] = extra["prior"]
    if s.spec.w is not None:
        X["w"] = 1.0
    if s.spec.mu is not None:
        X["mu"] = rng.choice(s.spec.mu, m)
    if s.kind == "exponential":
        X["price"] = rng.choice([1.0, 0.8, 0.5, 1.3, np.nan, 0.0, np.inf], m)
        if "pexp" in s.X:
            X["pexp"] = rng.choice([-1.0, -2.0, 0.5], m)
    return X, cols, extra.get("prior")
