"""Independent step-by-step reference of the whole training.

simulate(spec) recomputes a training from the data alone: base value, per-bin
estimates of every feature update, smoothing, learning rate, limits, aggregation,
divergence handling and stopping. It shares no code with the package.
"""
import numpy as np
import scipy.special
import scipy.stats

from lib import refsm


class Spec(object):
    kind = "poisson"
    smoother = ("wm", True, True)
    lr = "half"
    max_iter = 10
    min_loss = 1e-6
    min_factor = 1e-4
    aggregate = True
    hier = None
    hier_iters = 3
    w = None
    prior = None
    mu = None
    a, c = 1.0, 0.0
    gamma, bayes, n_steps = 0.0, False, 15
    regalpha = 0.0
    explicit = None

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Diverged(Exception):
    pass


def learning_rate(name, it, max_iter):
    """it counts from 1."""
    if callable(name):
        return name(it, max_iter, None)
    if name == "one":
        return 1.0
    if name == "linear":
        return float(it) / max_iter
    if name == "half":
        half = max_iter / 2.0
        return 1.0 if it > half else it / half
    if name == "logistic":
        s = 0.999999999
        xt = max_iter / np.log((1.0 - s) / (1.0 + s))
        return (1.0 / (1.0 + np.exp(it / xt)) - 0.5) * 2
    raise KeyError(name)


LOG = ("poisson", "nbinom", "mquantile", "mgeneric", "exponential")
LOGIT = ("classifier", "nbinomc", "gclassifier")


def link(kind, v):
    v = np.asarray(v, dtype=float)
    with np.errstate(all="ignore"):
        if kind in LOG:
            return np.log(v)
        if kind in LOGIT:
            return np.log(v / (1.0 - v))
        return v.copy()


def unlink(kind, v):
    v = np.asarray(v, dtype=float)
    with np.errstate(all="ignore"):
        if kind in LOG:
            return np.exp(v)
        if kind in LOGIT:
            return 1.0 / (1.0 + np.exp(-v))
        return v.copy()


def cell_index(cols, nb=None):
    """Row-major cell of every row, missing = number of cells; and the bin numbers."""
    M = np.array([np.asarray(c, dtype=float) for c in cols]).T
    ok = np.array([all(np.isfinite(v) and v >= 0 for v in row) for row in M], dtype=bool)
    if nb is None:
        nb = [int(M[ok][:, d].max()) + 1 if ok.any() else 0 for d in range(M.shape[1])]
    total = int(np.prod(nb))
    idx = np.full(len(M), total, dtype=int)
    beyond = np.zeros(len(M), dtype=bool)
    for i in np.nonzero(ok)[0]:
        k = 0
        for d, n in enumerate(nb):
            b = int(M[i, d])
            if b >= n:
                beyond[i] = True
            k = k * n + b
        idx[i] = k if not beyond[i] else -1
    return idx, nb, ok, beyond


def sums(idx, n, *vals):
    out = []
    for v in vals:
        s = np.zeros(n)
        np.add.at(s, idx, v)
        out.append(s)
    return out


class FeatureState(object):
    pass


def base_value(spec, y, w):
    if spec.kind == "nbinomc":
        return 0.0
    mean = np.sum(y * w) / np.sum(w)
    if spec.kind == "gbs":
        return float(mean)
    mean += 0.001
    if spec.kind in LOGIT:
        mean = min(mean, 0.999)
    return float(link(spec.kind, mean))


def base_rows(spec, glob, prior, offset):
    """Base value on the link scale per row."""
    if prior is None:
        return None
    with np.errstate(all="ignore"):
        if spec.kind == "nbinomc":
            r = link("nbinomc", np.clip(prior, 0, 1))
        else:
            r = link(spec.kind, prior) + offset
    r[~np.isfinite(r)] = glob
    return r


def loss(spec, p, y, w):
    if spec.kind == "gbs":
        return np.sum(w * (p - y) ** 2) / np.sum(w[y != 0])
    if spec.kind == "nbinomc":
        pp = np.minimum(1.0 / (1.0 + p * spec.mu), 1.0 - 1e-8)
        n = spec.mu * pp / (1.0 - pp)
        l = -nb_logpmf(y, n, pp)
        l[~np.isfinite(l)] = 400.0
        return np.mean(l + spec.gamma * np.abs(p))
    return np.sum(w * (p - y) ** 2) / np.sum(w)


def nb_logpmf(x, n, p):
    with np.errstate(all="ignore"):
        return (scipy.special.gammaln(n + x) - scipy.special.gammaln(x + 1) - scipy.special.gammaln(n)
                + n * np.log(p) + x * np.log(1 - p))


def gamma_update(alpha, beta):
    a, b = alpha + 2.0, beta + 1.67834
    med = np.where((a <= 1e12) & (b <= 1e12), scipy.special.gammaincinv(a, 0.5), a)
    return np.log(med / b), np.sqrt(np.log(1 + a) - np.log(a))


def estimate(spec, f, y, pl, w, it):
    """Per-bin estimate and uncertainty of feature state f (missing bin last)."""
    k, n = spec.kind, f.n
    p = unlink(k, pl)
    with np.errstate(all="ignore"):
        if k == "poisson":
            a, b = sums(f.idx, n, w * y, w * p)
            return gamma_update(a, b)
        if k == "nbinom":
            v = spec.a + spec.c * p
            a, b = sums(f.idx, n, w * y / v, w * p / v)
            return gamma_update(a, b)
        if k == "classifier":
            p = np.where(p == 0, 1e-12, np.where(p == 1, 1 - 1e-12, p))
            bw = w * np.where(y == 1, 1 - p, p)
            a, b = sums(f.idx, n, bw * y, bw * (1 - y))
            a, b = np.maximum(a, 0) + 1.001, np.maximum(b, 0) + 1.001
            shift = 0.4 * (a / (a + b) - 0.5)
            q1, q2 = scipy.stats.beta.ppf(0.75 - shift, a, b), scipy.stats.beta.ppf(0.25 - shift, a, b)
            l1, l2 = np.log(q1 / (1 - q1)), np.log(q2 / (1 - q2))
            z1, z2 = scipy.stats.norm.ppf(0.75 - shift), scipy.stats.norm.ppf(0.25 - shift)
            s = (l1 - l2) / (z1 - z2)
            return l1 - s * z1, s
        if k == "location":
            mean = np.sum(w * y) / np.sum(w)
            v0 = np.sum(w * (y - mean) ** 2) / np.sum(w)
            v0 = 1.0 if v0 <= 1e-9 else v0
            sw, swy = sums(f.idx, n, w, w * y)
            mb = np.where(sw > 0, swy / np.where(sw > 0, sw, 1.0), 0.0)
            (rss,) = sums(f.idx, n, w * (y - mb[f.idx]) ** 2)
            var = (0.5 * v0 + 0.5 * rss) / (0.5 + 0.5 * sw)
            q = w / var[f.idx]
            num, den, vv = sums(f.idx, n, q * (y - pl), q, w * q)
            den = den + 1e-2
            return num / den, np.sqrt((vv + 1e-2) / den ** 2)
        if k == "locpoisson":
            mean = np.sum(w * y) / np.sum(w)
            gs = np.sqrt(np.sum(w * (y - mean) ** 2) / np.sum(w))
            gs = gs if gs > 1e-10 * np.max(np.abs(y)) else 1.0
            if np.any(np.abs(p) < 1e-9 * np.max(np.abs(p))):
                refsm.LEAST[0] = 0.0  # which side of zero is decided by rounding
            p = np.where(p > 0, p, 0.0)
            var = np.where(p <= 0, 1.0, p)
            num, den, un, cnt = sums(f.idx, n, w * (y - p) / var, w / var, w * w / var, w)
            den = np.where(den > 0, den, 1.0)
            s, u = num / den, un / den
            u = np.where(u > 0, u, gs)
            return (cnt * s / u ** 2) / (cnt / u ** 2 + 1.0 / gs ** 2), u
        if k == "gbs":
            nn, d = (y - pl) * w, w * (1 + spec.regalpha)
            N, D, ND, N2, D2 = sums(f.idx, n, nn, d, nn * d, nn * nn, d * d)
            D, D2 = D + 1, D2 + 1
            u = np.sqrt((D ** 2 * N2 - 2 * N * D * ND + N ** 2 * D2) / D ** 4)
            spread = np.sqrt(np.sum(w * (y - pl) ** 2) / np.sum(w))
            return N / D, np.where(u > 0, u, spread if spread > 0 else 1.0)
        if k == "nbinomc":
            half = np.logspace(-3, 1.0 / it, spec.n_steps // it)
            grid = np.concatenate([-half[::-1], [0.0], half])
            L = np.zeros((len(grid), n))
            for gi, g in enumerate(grid):
                c = 1.0 / (1.0 + np.exp(-(g + pl)))
                pp = np.minimum(1.0 / (1.0 + c * spec.mu), 1.0 - 1e-8)
                l = -nb_logpmf(y, spec.mu * pp / (1 - pp), pp) + spec.gamma * np.abs(c)
                l = np.where(np.isfinite(l), l, 400 + spec.gamma * np.abs(c))
                (L[gi],) = sums(f.idx, n, l)
            (cnt,) = sums(f.idx, n, np.ones(len(y)))
            if spec.bayes:
                e = np.exp(-(L - L.min(axis=0)))
                est = (e * grid[:, None]).sum(axis=0) / e.sum(axis=0)
            else:
                est = grid[np.argmin(L, axis=0)]
                # how clearly the minimum stands out, to detect ties within rounding
                srt = np.sort(L, axis=0)
                gap = np.where(cnt > 0, srt[1] - srt[0], np.inf) if len(grid) > 1 else np.inf
                f.gap = min(f.gap, float(np.min(gap)))
            return np.where(cnt > 0, est, 0.0), 1.0 / np.sqrt(np.maximum(cnt, 1))
    raise KeyError(k)


def limits(group):
    return (0.01, 1000.0) if len(group) == 1 else (0.1, 100.0)


class Result(object):
    pass


def simulate(spec, n_iter=None):
    y = np.asarray(spec.y, dtype=float)
    N = len(y)
    w = np.ones(N) if spec.w is None else np.asarray(spec.w, dtype=float)
    kind = spec.kind
    glob = base_value(spec, y, w)
    offset = 0.0
    if spec.prior is not None and kind != "nbinomc":
        pr = np.asarray(spec.prior, dtype=float)
        fin = np.isfinite(pr)
        with np.errstate(all="ignore"):
            lm = float(link(kind, np.sum(pr[fin] * w[fin]) / np.sum(w[fin])))
        offset = glob - lm if np.isfinite(lm) else np.nan
    rows = base_rows(spec, glob, None if spec.prior is None else np.asarray(spec.prior, dtype=float), offset)
    pl = np.full(N, glob) if rows is None else rows.copy()
    feats = []
    for g in spec.groups:
        f = FeatureState()
        f.group = g
        f.idx, f.nb, _, _ = cell_index([spec.cols[c] for c in g])
        f.n = int(np.prod(f.nb)) + 1
        f.props = [spec.props.get(c, set()) for c in g]
        f.mnl = any("MNL" in p for p in f.props)
        (f.w,) = sums(f.idx, f.n, w)
        f.cur = np.zeros(f.n)
        f.old = np.zeros(f.n)
        f.agg = None
        f.zero = False
        f.gap = np.inf
        feats.append(f)
    r = Result()
    refsm.LEAST[0] = np.inf
    r.preds, r.losses, r.deltas, r.changes = [unlink(kind, pl)], [], [np.inf], [np.inf]
    r.visits = []
    r.moves = [np.inf]
    initial = loss(spec, r.preds[0], y, w)
    r.losses.append(initial)
    diverging, is_div = 0, False
    it = 0
    lr_name = "one" if spec.hier is not None else spec.lr
    while True:
        if n_iter is not None:
            if it >= n_iter:
                break
        else:
            stop = it >= spec.max_iter or r.deltas[-1] <= spec.min_factor or abs(r.changes[-1]) <= spec.min_loss
            if spec.hier is not None and it <= spec.hier_iters:
                stop = False
            if stop and not is_div:
                break
        for f in feats:
            if spec.hier is not None and it < spec.hier_iters and f.group not in spec.hier:
                f.old = f.cur.copy()
                continue
            r.visits.append((it, f.group))
            if not spec.aggregate:
                pl = pl - f.cur[f.idx]
            est, unc = estimate(spec, f, y, pl, w, it + 1)
            lr = learning_rate(lr_name, it + 1, spec.max_iter)
            f.old = f.cur.copy()
            new = np.zeros(f.n)
            if f.n > 1:
                if f.zero:
                    v = np.zeros(f.n - 1)
                else:
                    v = refsm.profile(spec.smoother[0], f.props, f.nb, f.w[:-1], unc[:-1], est[:-1],
                                      spec.smoother[1], spec.smoother[2])
                new[:-1] = lr * v
            new[-1] = 0.0 if f.mnl else est[-1] * lr
            new[~np.isfinite(new)] = 0.0
            if kind == "location":
                if f.mnl:
                    new[:-1] -= np.sum(new[:-1] * f.w[:-1]) / np.sum(f.w[:-1])
                    new[-1] = 0.0
                else:
                    new -= np.sum(new * f.w) / np.sum(f.w)
            if kind in LOG and spec.aggregate:
                new = np.minimum(np.maximum(new, np.log(0.5)), np.log(2.0))
                if f.agg is not None:
                    lo, hi = limits(f.group)
                    new = np.minimum(np.maximum(new, np.log(lo) - f.agg), np.log(hi) - f.agg)
                if is_div:
                    trial = loss(spec, unlink(kind, pl + new[f.idx]), y, w)
                    if trial > 2 * initial:
                        if diverging > 1:
                            new = -f.agg if f.agg is not None else np.zeros(f.n)
                            f.zero = True
                        else:
                            new = np.minimum(np.maximum(new, est + np.log(0.8)), est + np.log(1.2))
                            if f.mnl:
                                new[-1] = 0.0
            f.cur = new
            if f.agg is None or not spec.aggregate:
                f.agg = new.copy()
            else:
                f.agg = f.agg + new
            pl = pl + new[f.idx]
        r.preds.append(unlink(kind, pl))
        L = loss(spec, r.preds[-1], y, w)
        ch = r.losses[-1] - L
        if r.losses[-1] != 0:
            ch /= r.losses[-1]
        r.losses.append(L)
        r.changes.append(ch)
        r.deltas.append(float(np.mean([np.mean(np.abs(f.cur - f.old)) for f in feats])))
        trained = [spec.hier is None or it >= spec.hier_iters or f.group in spec.hier for f in feats]
        r.moves.append(float(np.mean([np.mean(np.abs(f.cur if spec.aggregate else f.cur - f.old)) if t else 0.0
                                      for f, t in zip(feats, trained)])))
        if L > 2 * initial:
            is_div = True
            diverging += 1
            if diverging >= 5:
                raise Diverged()
            for f in feats:
                if f.agg is None:
                    continue
                pl = pl - f.cur[f.idx]
                f.agg = f.agg - f.cur
                if not spec.aggregate:
                    f.cur = np.zeros(f.n)
        else:
            is_div = False
        it += 1
    r.n_iter = it
    r.diverging = diverging
    r.glob = glob
    r.offset = offset
    r.feats = feats
    r.pl = pl
    r.margin = refsm.LEAST[0]
    r.gap = min([f.gap for f in feats] + [np.inf])
    r.profiles = [f.agg if f.agg is not None else np.zeros(f.n) for f in feats]
    return r


def contribution(f, agg, cols):
    """Link-scale contribution of a trained feature to new rows."""
    idx, _, ok, beyond = cell_index(cols, f.nb)
    out = np.zeros(len(idx))
    for i in range(len(idx)):
        if not ok[i]:
            out[i] = agg[-1]
        elif beyond[i] or f.n == 1:
            out[i] = 0.0
        else:
            out[i] = agg[idx[i]]
    return out


def predict_link(spec, r, cols, prior=None):
    n = len(next(iter(cols.values())))
    rows = base_rows(spec, r.glob, None if prior is None else np.asarray(prior, dtype=float), r.offset)
    pl = np.full(n, r.glob) if rows is None else rows
    for f, agg in zip(r.feats, r.profiles):
        pl = pl + contribution(f, agg, [cols[c] for c in f.group])
    return pl
