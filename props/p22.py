"""P22: multi-dimensional and wrapping smoothers compose faithfully."""
import itertools
import warnings

import numpy as np
import pandas as pd

from cyclic_boosting import common_smoothers, flags, utils
from cyclic_boosting.smoothing import extrapolate, meta_smoother, multidim, onedim
from cyclic_boosting.smoothing.base import AbstractBinSmoother
from cyclic_boosting.smoothing.meta_smoother import RegressionType

from lib import gen, refsm
from props.common import Workload
from props.p21 import counts, errors, fitted, prior_shrink, values, warm

RULE = "an evaluation fits one multi-dimensional or wrapping smoother on one grid and compares its predictions cell by cell with a dictionary of the cells, with separately fitted parts, or with the unseen cells; non-trivial if predictions were compared"
ASSUMPTIONS = [
    "grids are given in lexicographic order as the estimators do, or incomplete where only the inner smoothers address positions",
    "uncertainties are positive and finite",
]
MIN_EVENTS = {"cells_compared": 30000, "groups_compared": 1500, "missing_cells": 3000, "sections": 200, "index_rows": 20000}


def warmup():
    warm()
    utils.arange_multi(np.array([2, 2]))
    utils.bin_steps(np.array([2, 2]))


WARMUP = warmup


class Plane(AbstractBinSmoother):
    """Always gives a finite value, so that every missing value is the wrapper's."""

    def fit(self, X, y):
        self.shift_ = float(np.mean(y))
        self.rows_ = (X.copy(), y.copy())
        return self

    def predict(self, X):
        return self.shift_ + np.nansum(np.where(np.isfinite(X), X, 0.0), axis=1)


def grid(rng, least=2, most=4):
    dim = int(rng.randint(least, most + 1))
    nb = [int(k) for k in rng.choice([1, 2, 3, 4, 5, 7], dim)]
    if rng.rand() < 0.1:
        nb[rng.randint(dim)] = 23
    cells = list(itertools.product(*[range(k) for k in nb]))
    n = len(cells)
    return nb, cells, counts(rng, n), errors(rng, n), values(rng, n)


def table(cells, w, u):
    return np.c_[np.array(cells, dtype=float), w, u]


def points(rng, nb, m=60):
    cols = []
    for k in nb:
        c = rng.randint(0, k, m).astype(float)
        style = rng.rand(m)
        c = np.where(style < 0.25, c + rng.uniform(0.01, 0.99, m), c)
        c = np.where((style > 0.85) & (style < 0.9), rng.choice([k, k + 1, 2 * k, 1e6], m), c)
        c = np.where((style > 0.9) & (style < 0.95), rng.choice([-1, -0.5, -3, -0.1, -1e-9], m), c)
        c = np.where(style > 0.97, rng.choice([np.nan, np.inf, -np.inf], m), c)
        cols.append(c)
    return np.array(cols).T


def cell_of(row, nb):
    if not all(np.isfinite(v) and 0 <= v < k for v, k in zip(row, nb)):
        return None
    return tuple(int(v) for v in row)


def neutralised(nb, y, u):
    v, u = np.array(y, dtype=float).reshape(nb), np.array(u, dtype=float).reshape(nb)
    for _ in range(4):
        for i in range(nb[0]):
            v[i] -= np.sum(v[i] * u[i]) / np.sum(u[i])
        for j in range(nb[1]):
            v[:, j] -= np.sum(v[:, j] * u[:, j]) / np.sum(u[:, j])
        off = sum(abs(np.sum(v[i] * u[i])) for i in range(nb[0])) + sum(abs(np.sum(v[:, j] * u[:, j])) for j in range(nb[1]))
        if abs(off - 0.01) < 1e-6:
            return None
        if off <= 0.01:
            break
    return v.ravel()


def cells_separate(ctx):
    rng = ctx.rng
    kind = rng.choice(["values", "prior", "one", "wm", "wm0", "meta", "neutral"])
    nb, cells, w, u, y = grid(rng, 2, 2 if kind == "neutral" else 4)
    ctx.describe(kind=kind, bins=nb)
    thr, prior = float(rng.choice([0.5, 2.5])), float(rng.choice([0.0, 1.0, -2.0]))
    if kind == "values":
        est, want = multidim.BinValuesSmoother(), y
    elif kind == "prior":
        est, want = multidim.RegularizeToPriorExpectationSmoother(prior, thr), prior_shrink(y, u, prior, thr)
    elif kind == "one":
        est, want = multidim.RegularizeToOneSmoother(thr), prior_shrink(y, u, 1.0, thr)
    elif kind == "wm":
        est, want = multidim.WeightedMeanSmoother(), refsm.shrink_to_mean(y, u)
    elif kind == "wm0":
        est, want = multidim.WeightedMeanSmoother(prior), refsm.shrink_to_mean(y, u, prior)
    elif kind == "meta":
        est, want = multidim.PriorExpectationMetaSmoother(multidim.WeightedMeanSmoother(0.0), prior, thr), prior_shrink(refsm.shrink_to_mean(y, u, 0.0), u, prior, thr)
    else:
        y = y - y.mean()
        est, want = multidim.Neutralize2DMetaSmoother(multidim.BinValuesSmoother()), neutralised(nb, y, u)
        if want is None:
            return
    if rng.rand() < 0.4:
        nb0, cells0, w0, u0, y0 = grid(rng, len(nb), len(nb))
        est.fit(table(cells0, w0, u0), y0)
        est.predict(np.array(cells0, dtype=float))
    X = table(cells, w, u)
    X0, y0 = X.copy(), y.copy()
    est.fit(X, y)
    ctx.check(np.array_equal(X, X0) and np.array_equal(y, y0), "%s changed the data given to fit" % kind)
    book = dict(zip(cells, want))
    P = np.concatenate([np.array(cells, dtype=float), points(rng, nb)])
    P = P[rng.permutation(len(P))]
    P0 = P.copy()
    got = np.asarray(est.predict(P), dtype=float)
    ctx.check(np.array_equal(P, P0, equal_nan=True), "%s changed the data given to predict" % kind)
    expect = np.array([np.nan if cell_of(r, nb) is None else book[cell_of(r, nb)] for r in P])
    scale = max(1e-3, np.abs(y).max())
    ctx.close(got, expect, "cells of %s on %s bins" % (kind, nb), rtol=1e-9, atol=1e-9 * scale)
    # row by row gives the same
    k = int(rng.randint(len(P)))
    ctx.same(est.predict(P[k:k + 1])[0], got[k], "prediction of a single row")
    if kind == "neutral":
        v = got_grid = np.array([est.predict(np.array([c], dtype=float))[0] for c in cells]).reshape(nb)
        uu = np.asarray(u).reshape(nb)
        off = np.abs((v * uu).sum(0)).sum() + np.abs((v * uu).sum(1)).sum()
        start = (y - y.mean()).reshape(nb)
        ctx.check(off <= 0.02 + np.abs((start * uu).sum(0)).sum() + np.abs((start * uu).sum(1)).sum(), "one-dimensional influence grew")
    ctx.sig(kind, tuple(nb), ctx.index)
    ctx.event("cells_compared", len(P))


# -------------------------------------------------------------------- grouped


def inner(rng, gaps):
    """(smoother factory, reference fit)"""
    kind = rng.choice(["linear", "extra", "up", "down", "poly0"] if gaps else ["values", "wm", "wm0", "neigh", "extra", "up", "season", "norm", "cut"])
    if kind == "values":
        return kind, onedim.BinValuesSmoother, refsm.fit_bin_values
    if kind == "wm":
        return kind, onedim.WeightedMeanSmoother, refsm.fit_weighted_mean
    if kind == "wm0":
        return kind, lambda: onedim.WeightedMeanSmoother(0.0), lambda x, w, u, y: refsm.fit_weighted_mean(x, w, u, y, 0.0)
    if kind == "neigh":
        return kind, onedim.WeightedMeanSmootherNeighbors, refsm.fit_neighbours
    if kind in ("extra", "linear"):
        return kind, extrapolate.LinearExtrapolator, refsm.fit_linear
    if kind == "up":
        return kind, lambda: onedim.IsotonicRegressor(True), lambda x, w, u, y: refsm.fit_isotonic(x, w, u, y, True)
    if kind == "down":
        return kind, lambda: onedim.IsotonicRegressor(False), lambda x, w, u, y: refsm.fit_isotonic(x, w, u, y, False)
    if kind == "poly0":
        return kind, lambda: onedim.PolynomialSmoother(0), lambda x, w, u, y: (lambda p: np.full(len(p), np.sum(y / u**4) / np.sum(1 / u**4)))
    if kind == "season":
        return kind, onedim.SeasonalSmoother, refsm.fit_seasonal
    if kind == "norm":
        def normed(x, w, u, y):
            m = refsm.norm_of(w, y)
            f = refsm.fit_weighted_mean(x, w, u, y - m, 0.0)
            return lambda p: f(p) + m

        return kind, lambda: meta_smoother.NormalizationSmoother(onedim.WeightedMeanSmoother(0.0)), normed

    def cut(x, w, u, y):
        f = refsm.fit_bin_values(x, w, u, y)
        unseen = {int(a) for a, b in zip(x, w) if b == 0}
        return lambda p: np.array([np.nan if int(np.rint(v)) in unseen else q for v, q in zip(p, f(p))])

    return kind, lambda: meta_smoother.RegressionTypeSmoother(onedim.BinValuesSmoother(), RegressionType.discontinuous), cut


def grouped(ctx):
    rng = ctx.rng
    gaps = rng.rand() < 0.3
    nb, cells, w, u, y = grid(rng, 2, 4)
    kind, make, want = inner(rng, gaps)
    if kind in ("season", "extra", "linear"):
        nb[-1] = int(rng.choice([4, 5, 7]))
        cells = list(itertools.product(*[range(k) for k in nb]))
        w, u, y = counts(rng, len(cells)), errors(rng, len(cells)), values(rng, len(cells))
    cells = np.array(cells, dtype=float)
    # whole groups without weight, single cells without weight
    outer = [tuple(c[:-1]) for c in cells]
    names = sorted(set(outer))
    for o in names:
        if rng.rand() < 0.2:
            w[[c == o for c in outer]] = 0.0
    w = np.where(rng.rand(len(w)) < 0.2, 0.0, w)
    if rng.rand() < 0.3:
        factor = {o: 10.0 ** rng.uniform(-6, 6) for o in names}
        w = w * np.array([factor[o] for o in outer])
    keep = np.ones(len(cells), dtype=bool)
    if gaps:
        keep = rng.rand(len(cells)) < 0.8
        for o in names:
            i = np.flatnonzero([c == o for c in outer])
            if keep[i].sum() < 3:
                keep[i] = len(i) < 3 and rng.rand() < 0.5 and kind in ("up", "down", "poly0")
        if not keep.any():
            return
    order = np.arange(len(cells))[keep]
    if rng.rand() < 0.3:
        # rows of different groups interleaved; inside of a group in order
        order = order[np.argsort(rng.rand(len(names))[[names.index(outer[i]) for i in order]], kind="stable")]
    X = np.c_[cells, w, u][order]
    yy = y[order]
    if kind == "poly0":
        X[:, -1] = np.clip(X[:, -1], 0.3, 2.0)
    cb = rng.rand() < 0.5
    n_dim = len(nb)
    ctx.describe(inner=kind, bins=nb, gaps=bool(gaps), cb=bool(cb))
    proto = make()
    before = repr(sorted(vars(proto).items(), key=str))
    est = multidim.GroupBySmootherCB(proto, n_dim) if cb else multidim.GroupBySmoother(proto, n_dim)
    groups = {}
    for i, r in enumerate(X):
        groups.setdefault(tuple(r[: n_dim - 1]), []).append(i)
    if cb:
        groups = {k: i for k, i in groups.items() if X[i, n_dim].sum() > 0}
    if not groups:
        return
    X0, yy0 = X.copy(), yy.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        est.fit(X, yy)
        P = np.concatenate([cells, points(rng, nb, 30)])
        P = P[np.isfinite(P[:, -1])]
        P = P[rng.permutation(len(P))]
        got = np.asarray(est.predict(P.copy()), dtype=float)
    ctx.check(np.array_equal(X, X0) and np.array_equal(yy, yy0), "grouped smoother changed the data given to fit")
    expect = np.full(len(P), np.nan)
    for k, i in groups.items():
        rows = np.all(P[:, :-1] == np.array(k), axis=1)
        if rows.any():
            f = want(X[i, n_dim - 1], X[i, n_dim], X[i, n_dim + 1], yy[i])
            expect[rows] = f(P[rows, -1])
            ctx.event("groups_compared")
    skip = np.zeros(len(P), dtype=bool)
    if kind in ("cut",):
        skip = np.abs(P[:, -1] - np.floor(P[:, -1]) - 0.5) < 1e-6
    tol = 1e-5 if kind == "season" else 1e-8
    scale = max(1e-3, np.abs(y).max(), np.nanmax(np.abs(expect)) if np.isfinite(expect).any() else 0.0)
    ctx.close(got[~skip], expect[~skip], "grouped %s on %s bins" % (kind, nb), rtol=1e-7, atol=tol * scale)
    ctx.check(repr(sorted(vars(proto).items(), key=str)) == before, "the smoother given as prototype was changed")
    ctx.sig(kind, tuple(nb), ctx.index)
    ctx.event("cells_compared", len(P))


# ---------------------------------------------------------------- wrappers


def sections(ctx):
    rng = ctx.rng
    n = int(rng.choice([2, 5, 9, 20]))
    x = np.arange(n, dtype=float)
    w, u, y = counts(rng, n), errors(rng, n), values(rng, n)
    split = float(rng.choice([-1.0, 0.0, 0.5, n // 2, n // 2 - 0.5, n - 1, n + 3]))
    lo, up = x <= split, x > split
    fill = float(rng.choice([np.nan, 0.0, 5.0]))
    parts = [(onedim.BinValuesSmoother, None), (onedim.WeightedMeanSmoother, None), (lambda: onedim.IsotonicRegressor(True), None), (lambda: onedim.IsotonicRegressor(False), None), (Plane, None)]
    if lo.sum() != 1 and up.sum() != 1:
        parts.append((extrapolate.LinearExtrapolator, None))
    a, b = (parts[rng.randint(len(parts))][0] for _ in range(2))
    est = meta_smoother.SectionSmoother(split, a(), b(), nan_representation=fill)
    X = np.c_[x, w, u]
    if rng.rand() < 0.5:
        # an earlier fit on both sides leaves nothing behind
        ctx.raises(lambda: est.predict(X[:, :1]), "section smoother used before fit", ValueError)
        est.fit(np.c_[np.arange(n + 8.0) - 3, np.ones(n + 8), np.ones(n + 8)], rng.normal(size=n + 8))
    est.fit(X.copy(), y.copy())
    P = np.concatenate([x, rng.uniform(-3, n + 3, 30), [split, split + 0.0005, split + 0.002, split - 0.002]])
    rng.shuffle(P)
    got = np.asarray(est.predict(np.c_[P]), dtype=float)
    expect = np.full(len(P), fill)
    for make, sel, rows in ((a, lo, P <= split + 0.001), (b, up, P > split + 0.001)):
        if sel.any() and rows.any():
            s = make()
            s.fit(X[sel], y[sel])
            expect[rows] = s.predict(np.c_[P[rows]])
    ctx.same(got, expect, "section smoother split at %r of %d bins" % (split, n))
    ctx.sig(ctx.index, split, n)
    ctx.event("sections")
    ctx.event("cells_compared", len(P))


def wrapped(ctx):
    """Normalisation around the weighted mean; cuts exactly where the regression type demands them."""
    rng = ctx.rng
    nb, cells, w, u, y = grid(rng, 1, 3)
    dim = len(nb)
    w = np.where(rng.rand(len(w)) < 0.25, 0.0, w)
    style = rng.randint(5)
    if style == 0:
        w[:] = 0.0
    X = table(cells, w, u)
    rt = [RegressionType.discontinuous, RegressionType.interpolating, RegressionType.extrapolating][rng.randint(3)]
    ctx.describe(bins=nb, type=rt.value)
    norm = rng.rand() < 0.5
    base = Plane()
    est = meta_smoother.NormalizationRegressionTypeSmoother(base, rt) if norm else meta_smoother.RegressionTypeSmoother(base, rt)
    if rng.rand() < 0.4:
        nb0, cells0, w0, u0, y0 = grid(rng, dim, dim)
        est.fit(table(cells0, w0, u0), y0)
        est.predict(np.array(cells0, dtype=float))
    X0, y0 = X.copy(), y.copy()
    est.fit(X, y)
    ctx.check(np.array_equal(X, X0) and np.array_equal(y, y0), "wrapper changed the data given to fit")
    m = 0.0
    if norm and w.sum() > 0:
        m = sum(a * b for a, b in zip(w, y)) / w.sum()
    scale = max(1e-3, np.abs(y).max())
    ctx.close(base.rows_[1], y - m, "values passed on by the normalising wrapper" if norm else "values passed on", rtol=1e-9, atol=1e-9 * scale)
    ctx.same(base.rows_[0], X, "data passed on to the wrapped smoother")
    P = np.concatenate([np.array(cells, dtype=float), points(rng, nb, 50)])
    weight = dict(zip(cells, w))
    expect, use = [], []
    plain = Plane().fit(X, y - m)
    for r, v in zip(P, plain.predict(P) + m):
        ok = True
        miss = False
        if rt is RegressionType.discontinuous:
            if dim == 1:
                k = np.rint(r[0]) if np.isfinite(r[0]) and r[0] >= 0 else None
                miss = k is None or k >= nb[0] or weight[(int(k),)] == 0
                ok = k is None or abs(abs(r[0] - np.floor(r[0])) - 0.5) > 1e-6
            else:
                c = cell_of(r, nb)
                miss = c is None or weight[c] == 0
        elif rt is RegressionType.interpolating:
            finite = np.isfinite(r).all()
            ok = finite and not any(k - 1 < a <= k - 0.5 for a, k in zip(r, nb))
            miss = any(a < 0 or a > k - 0.5 for a, k in zip(r, nb))
        expect.append(np.nan if miss else v)
        use.append(ok)
        if miss:
            ctx.event("missing_cells")
    use = np.array(use)
    got = np.asarray(est.predict(P.copy()), dtype=float)
    ctx.close(got[use], np.array(expect)[use], "%s wrapper on %s bins" % (rt.value, nb), rtol=1e-9, atol=1e-9 * scale)
    if rt is RegressionType.extrapolating:
        ctx.check(np.isfinite(got).all(), "an extrapolating wrapper returned missing")
    ctx.sig(rt.value, tuple(nb), ctx.index)
    ctx.event("cells_compared", len(P))
    n = meta_smoother.NormalizationSmoother(Plane())
    n.fit(X, y)
    mm = sum(a * b for a, b in zip(w, y)) / w.sum() if w.sum() > 0 else 0.0
    ctx.close(n.predict(P), Plane().fit(X, y - mm).predict(P) + mm, "normalising wrapper", rtol=1e-9, atol=1e-9 * scale)


def choices(ctx):
    """The smoother a choice gives for a group of features equals the documented composition."""
    rng = ctx.rng
    dim = int(rng.choice([1, 1, 2, 3]))
    names = tuple("abc"[:dim])
    nb = [int(k) for k in rng.choice([1, 2, 3, 5, 8], dim)]
    shapes = gen.SHAPES
    props = [set(shapes[rng.randint(len(shapes))]) for _ in names]
    kind = rng.choice(["wm", "groupby", "none"])
    if kind != "none" and ({"LINEAR", "SEASONAL"} & props[-1]):
        nb[-1] = 8
    fp = [gen.flag_int(p) for p in props]
    cells = list(itertools.product(*[range(k) for k in nb]))
    n = len(cells)
    w, u, y = counts(rng, n), np.clip(errors(rng, n), 0.05, 5.0), values(rng, n)
    if np.abs(y).max() > 100:
        y = rng.normal(size=n)
    reg, norm = bool(rng.randint(2)), bool(rng.randint(2))
    ctx.describe(kind=kind, props=[sorted(p) for p in props], bins=nb, reg=reg, norm=norm)
    cls = {"wm": common_smoothers.SmootherChoiceWeightedMean, "groupby": common_smoothers.SmootherChoiceGroupBy, "none": common_smoothers.NoSmootherChoice}[kind]
    choice = cls(use_regression_type=reg, use_normalization=norm)
    est = utils.clone(choice.choice_fct(names, tuple(fp)))
    X = table(cells, w, u)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            est.fit(X.copy(), y.copy())
            got = np.asarray(est.predict(np.array(cells, dtype=float)), dtype=float)
        except ValueError as e:
            if not (kind == "groupby" and dim > 1 and w.sum() == 0):
                raise
            return
    refsm.LEAST[0] = np.inf
    want = refsm.profile(kind, props, nb, w, u, y, use_reg=reg, use_norm=norm)
    if refsm.LEAST[0] < 1e-6 * (1 + np.abs(y / u).max() ** 2):
        ctx.event("ambiguous_degrees")
        return
    ctx.close(got, want, "%s choice for %s on %s bins" % (kind, [sorted(p) for p in props], nb), rtol=1e-6, atol=1e-5 * max(1e-3, np.abs(y).max()))
    ctx.sig(kind, tuple(nb), ctx.index)
    ctx.event("cells_compared", n)


def explicit(ctx):
    """A smoother given for a column or group is used there, and nowhere else."""
    rng = ctx.rng
    dim = int(rng.choice([1, 2, 2, 3]))
    names = tuple(str(c) for c in rng.permutation(list("abcd"))[:dim])
    nb = [int(k) for k in rng.choice([2, 3, 5], dim)]
    cells = list(itertools.product(*[range(k) for k in nb]))
    n = len(cells)
    w, u, y = rng.randint(0, 5, n).astype(float), rng.uniform(0.05, 2.0, n), rng.normal(size=n)
    w[rng.randint(n)] += 1
    props = [{"ORDERED"} if rng.rand() < 0.5 else {"UNORDERED"} for _ in names]
    kind = str(rng.choice(["wm", "groupby"]))
    reg, norm = bool(rng.randint(2)), bool(rng.randint(2))
    make = {"ORDERED": onedim.WeightedMeanSmootherNeighbors, "UNORDERED": lambda: onedim.WeightedMeanSmoother(prior_prediction=0)}
    given, used = {}, [set(p) for p in props]
    for c in "abcd":
        if rng.rand() < 0.5:
            p = str(rng.choice(["ORDERED", "UNORDERED"]))
            given[(c,)] = make[p]()
            if c in names:
                used[names.index(c)] = {p}
    want_kind = kind
    if dim > 1 and rng.rand() < 0.4:
        key = names if rng.rand() < 0.6 else tuple(rng.permutation(names))
        given[tuple(str(c) for c in key)] = multidim.BinValuesSmoother()
        want_kind = "none" if tuple(key) == names else kind
    ctx.describe(kind=kind, names=names, props=[sorted(p) for p in props], given=[(k, type(v).__name__) for k, v in given.items()], bins=nb, reg=reg, norm=norm)
    cls = {"wm": common_smoothers.SmootherChoiceWeightedMean, "groupby": common_smoothers.SmootherChoiceGroupBy}[kind]
    choice = cls(use_regression_type=reg, use_normalization=norm, explicit_smoothers=given)
    est = utils.clone(choice.choice_fct(names, tuple(gen.flag_int(p) for p in props)))
    est.fit(table(cells, w, u), y.copy())
    got = np.asarray(est.predict(np.array(cells, dtype=float)), dtype=float)
    want = refsm.profile(want_kind, used, nb, w, u, y, use_reg=reg, use_norm=norm)
    ctx.close(got, want, "%s choice with given smoothers on %s bins" % (kind, nb), rtol=1e-7, atol=1e-9)
    ctx.sig(kind, names, tuple(nb), ctx.index)
    ctx.event("given_smoothers", len(given))
    ctx.event("cells_compared", n)


# ---------------------------------------------------------------- index helpers


def indices(ctx):
    rng = ctx.rng
    dim = int(rng.randint(1, 6))
    nb = [int(k) for k in rng.choice([1, 2, 3, 4, 6, 11], dim)]
    cells = list(itertools.product(*[range(k) for k in nb]))
    number = {c: i for i, c in enumerate(cells)}
    total = len(cells)
    if total <= 20000:
        ctx.same(utils.arange_multi(np.array(nb)), np.array(cells), "enumeration of %s bins" % nb)
    steps = [int(np.prod(nb[i:])) for i in range(dim)] + [1]
    ctx.same(utils.bin_steps(np.array(nb)), np.array(steps), "bin steps of %s" % nb)
    P = points(rng, nb, 200)
    if rng.rand() < 0.5:
        P = np.where(np.isfinite(P), np.floor(P), P)
    expect = np.array([total if cell_of(r, nb) is None else number[cell_of(r, nb)] for r in P])
    arg = pd.DataFrame(P) if rng.rand() < 0.3 else P.copy()
    got, n2 = utils.multidim_binnos_to_lexicographic_binnos(arg, n_bins=np.array(nb))
    ctx.same(got, expect, "cell numbers for %s bins" % nb)
    ctx.same(np.asarray(n2), np.array(nb), "bin counts for %s bins" % nb)
    ok = np.array([np.isfinite(r).all() and (r >= 0).all() for r in P])
    if ok.any():
        top = [int(P[ok][:, i].max()) + 1 for i in range(dim)]
        if np.prod([float(t) for t in top]) < 1e15:
            got, n2 = utils.multidim_binnos_to_lexicographic_binnos(P.copy())
            ctx.same(np.asarray(n2), np.array(top), "bin counts found in the data")
            expect = []
            for r in P:
                c = cell_of(r, top)
                k = 0
                if c is not None:
                    for v, t in zip(c, top):
                        k = k * t + v
                expect.append(int(np.prod(top)) if c is None else k)
            ctx.same(got, np.array(expect), "cell numbers by counts found in the data")
    w = np.where(rng.rand(total) < 0.4, 0.0, 1.0)
    Q = np.where(np.isfinite(P), np.floor(P), P)
    if dim == 1:
        Q = Q[~(Q[:, 0] > 2**40)]
    seen = utils.not_seen_events(Q.copy(), w.copy(), np.array(nb))
    expect = np.array([cell_of(r, nb) is None or w[number[cell_of(r, nb)]] == 0 for r in Q])
    ctx.same(np.asarray(seen), expect, "unseen events of %s bins" % nb)
    ctx.sig(tuple(nb), ctx.index)
    ctx.event("index_rows", 3 * len(P))


WORKLOADS = [
    Workload("cells_separate", cells_separate, 400, 5000),
    Workload("grouped", grouped, 250, 2500),
    Workload("sections", sections, 300, 3000),
    Workload("wrapped", wrapped, 500, 6000),
    Workload("choices", choices, 400, 5000),
    Workload("explicit", explicit, 200, 2500),
    Workload("indices", indices, 300, 3000),
]
