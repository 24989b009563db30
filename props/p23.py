"""P23: interaction features address every cell separately."""
import itertools
import math

import numpy as np
import pandas as pd
from sklearn.feature_selection import f_classif, f_regression

from cyclic_boosting import flags, interaction_selection as isel, utils
from cyclic_boosting.binning import BinNumberTransformer

from lib import gen, ref
from props.common import ADDITIVE, Workload, contribution_key, link_scale, scale_of, train
from props.p22 import warmup

RULE = "an evaluation trains a model with an interaction group and compares it with the model of the pre-combined column, of the reordered group or cell by cell, or calls an interaction helper and compares with an enumeration; non-trivial if contributions or encodings were compared"
ASSUMPTIONS = [
    "the pre-combined column has the same smoothing: unordered, with the same missing-value declaration",
    "comparisons end where the different total limits on factors of one- and multi-dimensional features apply",
]
MIN_EVENTS = {"trainings": 120, "rows_compared": 4000, "cells_compared": 600, "terms_encoded": 150, "selections": 40}
WARMUP = warmup

KINDS = ["poisson", "nbinom", "location", "locpoisson", "gbs", "classifier", "poisson", "location", "classifier", "mquantile", "mgeneric", "ageneric"]
SHAPES = [{"UNORDERED"}, {"ORDERED"}, set()]


def interaction(rng, dims=None, kinds=None, **kw):
    """A scenario with one interaction group whose highest combination occurs."""
    d = dims or int(rng.choice([2, 2, 3, 4]))
    names = ["a", "b", "c", "d", "e"][: d + int(rng.randint(0, 2))]
    g = tuple(str(v) for v in rng.choice(names, d, replace=False))
    groups = [g] + [(c,) for c in names if rng.rand() < 0.4]
    groups = [groups[i] for i in rng.permutation(len(groups))]
    kind = str(rng.choice(kinds or KINDS))
    s = gen.scenario(rng, kind=kind, groups=groups, n_cols=len(names), shapes=SHAPES, n=int(rng.choice([20, 60, 150])), hier=False,
                     max_bins=6 if d < 4 else 3, smoother=[("wm", True, True), ("wm", True, False), ("none", True, True), ("wm", False, True)][rng.randint(4)], **kw)
    top = {}
    for c in g:
        v = s.cols[c]
        v = v[np.isfinite(v) & (v >= 0)]
        top[c] = int(v.max()) if len(v) else int(rng.randint(0, 3))
    for c in names:
        s.X[c] = s.X[c].astype(float)
    for c in g:
        s.X.loc[0, c] = float(top[c])
        s.cols[c] = np.asarray(s.X[c], dtype=float).copy()
    return s, g, [top[c] + 1 for c in g]


def encode(X, g, nb):
    """Number of the combination by counting through all combinations; -1 if missing, -2 above the known bins."""
    number = {c: i for i, c in enumerate(itertools.product(*[range(k) for k in nb]))}
    out = []
    for r in np.asarray(X[list(g)], dtype=float):
        if not all(np.isfinite(v) and v >= 0 for v in r):
            out.append(-1.0)
        else:
            out.append(float(number.get(tuple(int(v) for v in r), -2)))
    return np.array(out)


def combined(ctx):
    rng = ctx.rng
    s, g, nb = interaction(rng)
    est, rec = train(ctx, s)
    if est is None:
        return
    key = " ".join(g)
    c = np.asarray(est.get_feature_contributions(s.frame())[key], dtype=float)
    if s.kind in ref.LOG and ((c < 0.1001).any() or (c > 99).any()):
        ctx.event("limits_met")
        return
    Z = s.frame()
    Z["z"] = encode(Z, g, nb)
    props = {k: v for k, v in (s.kwargs.get("feature_properties") or {}).items()}
    p = [props.get(k, flags.HAS_MISSING) for k in g]
    props["z"] = flags.IS_UNORDERED | (flags.MISSING_NOT_LEARNED if any(flags.missing_not_learned_set(q) for q in p) else flags.HAS_MISSING)
    groups = ["z" if tuple(q) == g else q for q in [tuple(q) if isinstance(q, tuple) else (q,) for q in s.kwargs["feature_groups"]]]
    rec2 = gen.Recorder()
    est2 = s.fit([rec2], X=Z.copy(), feature_groups=groups, feature_properties=props)
    c2 = np.asarray(est2.get_feature_contributions(Z.copy())["z"], dtype=float)
    if s.kind in ref.LOG and ((c2 < 0.1001).any() or (c2 > 99).any()):
        ctx.event("limits_met")
        return
    ctx.sig(s.signature())
    ctx.check(rec.n_iter == rec2.n_iter, "%d iterations with the group, %d with the combined column" % (rec.n_iter, rec2.n_iter))
    sc = scale_of(s.y)
    csc = sc if s.kind in ADDITIVE + ("ageneric",) else 1.0
    ctx.close(c, c2, "contributions of group %s and of the combined column" % (g,), rtol=1e-8, atol=1e-9 * csc)
    ctx.close(rec.losses, rec2.losses, "loss history", rtol=1e-8, atol=1e-12 * sc * sc)
    P, cols, prior = gen.probe_rows(rng, s, 60)
    Q = P.copy()
    code = encode(P, g, nb)
    Q["z"] = np.where(code == -2, np.prod(nb) + 3.0, code)
    a, b = est.get_feature_contributions(P.copy())[key], est2.get_feature_contributions(Q.copy())["z"]
    ctx.close(a, b, "contributions of new rows", rtol=1e-8, atol=1e-9 * csc)
    ctx.close(s.proba(est, P.copy()), s.proba(est2, Q.copy()), "predictions of new rows", rtol=1e-8, atol=1e-9 * sc)
    ctx.event("rows_compared", len(P) + len(c))


def exact_cells(ctx):
    """With smoothing off and one feature the effect of a cell follows from that cell's rows alone."""
    rng = ctx.rng
    d = int(rng.choice([2, 3, 4]))
    names = tuple("abcd"[:d])
    nb = [int(k) for k in rng.choice([1, 2, 3, 4, 6, 13], d)]
    n = int(rng.choice([60, 200, 500]))
    X = pd.DataFrame({c: rng.randint(0, k, n).astype(float) for c, k in zip(names, nb)})
    for c in names:
        X.loc[rng.rand(n) < 0.1, c] = rng.choice([np.nan, -1.0, np.inf])
    cell = [tuple(r) if np.isfinite(r).all() and (r >= 0).all() else None for r in X.values]
    effect = {}
    kind = str(rng.choice(["location", "poisson"]))
    for c in cell:
        effect.setdefault(c, float(rng.choice([1.0, 2.0, 5.0, 9.0])))
    y = np.array([effect[c] for c in cell])
    import cyclic_boosting as cb
    from cyclic_boosting import common_smoothers, learning_rate

    kw = dict(feature_groups=[names], feature_properties={c: flags.IS_UNORDERED | flags.HAS_MISSING for c in names}, smoother_choice=common_smoothers.NoSmootherChoice(),
              learn_rate=learning_rate.constant_learn_rate_one, maximal_iterations=8, minimal_factor_change=0.0, minimal_loss_change=0.0)
    est = (cb.CBLocationRegressor if kind == "location" else cb.CBPoissonRegressor)(**kw).fit(X.copy(), y.copy())
    ctx.event("trainings")
    p = np.asarray(est.predict(X.copy()), dtype=float)
    con = np.asarray(est.get_feature_contributions(X.copy())[" ".join(names)], dtype=float)
    book = {}
    for c, v in zip(cell, con):
        book.setdefault(c, v)
        ctx.check(book[c] == v, "rows of the same cell %r have different contributions" % (c,))
    for c in book:
        k = sum(1 for q in cell if q == c)
        m = np.mean(p[[q == c for q in cell]])
        # the gamma prior pulls cells with few rows to the mean; order is preserved for equal counts
        if kind == "location":
            continue
        lo, hi = sorted([effect[c], y.mean()])
        ctx.check(lo - 0.05 - 3.0 / k <= m <= hi + 0.05 + 3.0 / k, "cell %r with target %r predicted as %r" % (c, effect[c], m))
    # the effect of a cell does not change when another cell's rows get another target within the same mean
    cells = [c for c in book if c is not None and sum(1 for q in cell if q == c) >= 2]
    if len(cells) >= 2:
        c = cells[rng.randint(len(cells))]
        rows = np.flatnonzero([q == c for q in cell])
        y2 = y.copy()
        y2[rows[0]] += 0.5
        y2[rows[1]] -= 0.5
        est2 = (cb.CBLocationRegressor if kind == "location" else cb.CBPoissonRegressor)(**kw).fit(X.copy(), y2.copy())
        con2 = np.asarray(est2.get_feature_contributions(X.copy())[" ".join(names)], dtype=float)
        other = np.array([q != c for q in cell])
        if kind == "poisson":
            ctx.close(con2[other], con[other], "other cells after a change inside of cell %r" % (c,), rtol=1e-9, atol=1e-9)
    # combinations that never occurred are neutral, one that misses any dimension is the missing one
    probe, want = [], []
    for _ in range(60):
        r = [float(rng.randint(0, k)) for k in nb]
        if rng.rand() < 0.3:
            r[rng.randint(d)] = float(rng.choice([np.nan, -1, np.inf, -np.inf, -3]))
            want.append(book.get(None, None))
        else:
            want.append(book.get(tuple(r), None))
        probe.append(r)
    got = np.asarray(est.get_feature_contributions(pd.DataFrame(probe, columns=list(names)))[" ".join(names)], dtype=float)
    neutral = 0.0 if kind == "location" else 1.0
    for r, w, v in zip(probe, want, got):
        if w is None:
            if kind == "poisson":
                ctx.check(abs(v - neutral) < 1e-12, "unseen combination %r has contribution %r" % (r, v))
        else:
            ctx.check(v == w, "combination %r has contribution %r, in training %r" % (r, v, w))
    ctx.sig(kind, tuple(nb), n, ctx.index)
    ctx.event("cells_compared", len(book))
    ctx.event("rows_compared", len(got))


def reordered(ctx):
    """The order of the dimensions of a group and additional never-used bin numbers do not matter."""
    rng = ctx.rng
    # the numerical search of quantile and custom-cost models picks any of several equal minima
    s, g, nb = interaction(rng, kinds=KINDS[:9])
    est, rec = train(ctx, s)
    if est is None:
        return
    h = tuple(g[i] for i in rng.permutation(len(g)))
    groups = [h if q == g else q for q in [tuple(q) if isinstance(q, tuple) else (q,) for q in s.kwargs["feature_groups"]]]
    est2 = s.fit(None, feature_groups=groups)
    P, cols, prior = gen.probe_rows(rng, s, 60)
    F = s.frame()
    sc = scale_of(s.y)
    csc = sc if s.kind in ADDITIVE + ("ageneric",) else 1.0
    # sums over cells are formed in another order
    tol = 1e-8
    for D, what in ((F, "training rows"), (P, "new rows")):
        a, b = est.get_feature_contributions(D.copy())[" ".join(g)], est2.get_feature_contributions(D.copy())[" ".join(h)]
        ctx.close(a, b, "contributions of %s and %s for %s" % (g, h, what), rtol=tol, atol=tol * csc)
    ctx.sig(s.signature())
    ctx.event("rows_compared", len(P) + len(F))


# ------------------------------------------------------------------- helpers


def enumerated(ctx):
    rng = ctx.rng
    k = int(rng.randint(2, 8))
    names = ["f%d" % i for i in rng.permutation(k)]
    dim = int(rng.randint(2, 6))
    got = isel.create_interactions(list(names), dim)
    want = {frozenset(c) for m in range(2, dim + 1) for c in itertools.combinations(names, m)}
    ctx.check(len(got) == len(want) and {frozenset(t) for t in got} == want, "interactions of %d features up to %d dimensions: %d instead of %d" % (k, dim, len(got), len(want)))
    ctx.check(all(len(set(t)) == len(t) for t in got), "a feature is used twice in an interaction")
    ctx.check(len(got) == sum(math.comb(k, m) for m in range(2, dim + 1)), "number of interactions")
    ctx.sig(k, dim)
    ctx.event("terms_enumerated", len(got))


def raw_data(rng, n, k):
    X, props = {}, {}
    for i in range(k):
        c = "f%d" % i
        if rng.rand() < 0.4:
            X[c] = rng.normal(size=n) * rng.choice([1.0, 100.0])
            props[c] = flags.IS_CONTINUOUS
        else:
            X[c] = rng.choice([2.0, 5.0, 7.0, 100.0, -3.0], n)[: n] if rng.rand() < 0.5 else rng.randint(0, 4, n).astype(float)
            props[c] = flags.IS_UNORDERED if rng.rand() < 0.5 else flags.IS_ORDERED
        if rng.rand() < 0.3:
            X[c] = np.where(rng.rand(n) < 0.15, np.nan, X[c])
            props[c] |= flags.HAS_MISSING
    return pd.DataFrame(X), props


def encoded(ctx):
    rng = ctx.rng
    n = int(rng.choice([30, 100, 300]))
    X, props = raw_data(rng, n, int(rng.randint(2, 5)))
    bins = int(rng.choice([2, 5, 20, 100]))
    names = list(props)
    terms = isel.create_interactions(names, int(rng.randint(2, 4)))
    X0 = X.copy()
    out = isel.build_binned_interaction_features(X, terms, props, bins)
    ctx.check(X.equals(X0), "the data were changed")
    ctx.check(out.shape == (n, len(terms)), "shape %r for %d rows and %d terms" % (out.shape, n, len(terms)))
    cols = [tuple(c) for c in out.columns]
    ctx.check([tuple(x for x in c if x == x and x != "") for c in cols] == [tuple(t) for t in terms], "columns %r for terms %r" % (cols[:3], terms[:3]))
    B = BinNumberTransformer(n_bins=bins, feature_properties=props, inplace=False).fit_transform(X.copy())
    for i, t in enumerate(terms):
        code = np.asarray(out.iloc[:, i])
        combos = [tuple(r) if (r >= 0).all() else None for r in np.asarray(B[list(t)], dtype=float)]
        fwd, back = {}, {}
        for c, v in zip(combos, code):
            ctx.check(fwd.setdefault(c, v) == v, "combination %r of %r is encoded as %r and %r" % (c, t, fwd[c], v))
            ctx.check(back.setdefault(v, c) == c, "code %r of %r stands for %r and %r" % (v, t, back[v], c))
        order = sorted(c for c in fwd if c is not None)
        ctx.check([fwd[c] for c in order] == sorted(fwd[c] for c in order), "codes of %r are not in lexicographic order" % (t,))
        ctx.event("terms_encoded")
    ctx.sig(n, len(terms), bins, ctx.index)


def wide(ctx):
    """Groups with more cells than rows by far; neighbouring cells must still differ."""
    rng = ctx.rng
    d = int(rng.choice([2, 3, 4]))
    n = int(rng.choice([2000, 5000]))
    k = {2: n, 3: 600, 4: 120}[d]
    cols = ["f%d" % i for i in range(d)]
    V = rng.randint(0, k, (n, d))
    V[:k] = np.array([rng.permutation(k) for _ in range(d)]).T  # every category occurs
    corner = rng.rand(n) < 0.3
    corner[:k] = False
    V[corner] = k - 1 - rng.randint(0, 3, (int(corner.sum()), d))
    near = np.flatnonzero(rng.rand(n) < 0.3)
    near = near[near >= k + 1]
    V[near] = V[near - 1]
    V[near, -1] = np.clip(V[near, -1] + rng.randint(-2, 3, len(near)), 0, k - 1)
    X = pd.DataFrame(V * 1.0, columns=cols)
    out = isel.build_binned_interaction_features(X, [tuple(cols)], {c: flags.IS_UNORDERED for c in cols})
    code = np.asarray(out.iloc[:, 0])
    pairs = len(set(map(tuple, V.tolist())))
    ctx.describe(dimensions=d, categories=k, rows=n, combinations=pairs)
    ctx.check(len(np.unique(code)) == pairs, "%d combinations have %d codes" % (pairs, len(np.unique(code))))
    order = np.lexsort(V.T[::-1])
    ctx.check((np.diff(code[order]) >= 0).all(), "codes are not in lexicographic order")
    want = np.zeros(n, dtype=object)
    for i in range(d):
        want = want * k + V[:, i].astype(object)
    ctx.check([int(c) for c in code] == list(want), "codes are not the positions of the cells")
    ctx.event("terms_encoded")
    ctx.sig(d, n, pairs, ctx.index)


def selected(ctx):
    rng = ctx.rng
    n = int(rng.choice([60, 200]))
    X, props = raw_data(rng, n, int(rng.randint(3, 5)))
    cl = bool(rng.randint(2))
    names = list(props)
    z = np.nan_to_num(X[names[0]].values) * np.nan_to_num(X[names[1]].values) + rng.normal(size=n)
    y = np.searchsorted(np.quantile(z, [[0.5], [0.3, 0.7], [0.2, 0.4, 0.8]][rng.randint(3)]), z).astype(float) if cl else z
    if cl:
        # classes are labels: their order means nothing
        y = rng.permutation(4)[y.astype(int)].astype(float)
    dim = int(rng.randint(2, 4))
    terms = isel.create_interactions(names, dim)
    k = int(rng.randint(1, len(terms) + 1))
    got = isel.select_interaction_terms_anova(X.copy(), y.copy(), dict(props), dim, k, classification=cl)
    norm = [tuple(t) if not isinstance(t, str) else t for t in got]
    norm = [tuple(x for x in t if x == x and x != "") if isinstance(t, tuple) else t for t in norm]
    ctx.check(len(norm) == k and len(set(norm)) == k, "%d terms selected instead of %d" % (len(norm), k))
    feats = isel.build_binned_interaction_features(X.copy(), terms, props)
    score = (f_classif if cl else f_regression)(feats.values.astype(float), y)[0]
    score = np.where(np.isfinite(score), score, -np.inf)
    book = dict(zip([tuple(t) for t in terms], score))
    ctx.check(set(norm) <= set(book), "unknown terms %r" % norm[:3])
    chosen = [book[t] for t in norm]
    left = [book[t] for t in book if t not in set(norm)]
    if left:
        ctx.check(min(chosen) >= max(left) - 1e-9 * abs(max(left)), "a term with score %r is selected, one with %r is not" % (min(chosen), max(left)))
    ctx.sig(n, dim, k, cl, ctx.index)
    ctx.event("selections")


WORKLOADS = [
    Workload("combined", combined, 160, 1500),
    Workload("exact_cells", exact_cells, 80, 800),
    Workload("reordered", reordered, 80, 800),
    Workload("enumerated", enumerated, 40, 200),
    Workload("encoded", encoded, 60, 600),
    Workload("wide", wide, 16, 200),
    Workload("selected", selected, 60, 600),
]
