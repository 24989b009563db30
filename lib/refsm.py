"""Independent reference implementations of the smoothers.

Every fit_* function takes the bin positions x (n,), bin weights w, uncertainties
u and values y and returns a function of prediction points. They are written from
the documented estimates, with other algorithms than the code under test
(explicit loops, QR instead of recurrences, pool-adjacent-violators).
"""
import itertools

import numpy as np

NAN = float("nan")


def shrink_to_mean(y, u, prior=None):
    """Bins shrunk to the error-weighted mean (or prior); the shrinkage strength is the
    inverse error-weighted variance of the values around it."""
    y = [float(v) for v in y]
    u = [float(v) for v in u]
    n = len(y)
    if n < 1 or (prior is None and n == 1):
        return np.array(y)
    wx = [1.0 / (v * v) if v != 0 else np.inf for v in u]
    tot = sum(wx)
    ref = y[0] if prior is None else prior
    if all(abs(v - ref) <= 1e-8 + 1e-5 * abs(ref) for v in y):
        return np.array(y)
    mean = sum(a * b for a, b in zip(wx, y)) / tot if prior is None else prior
    var = sum(a * (b - mean) ** 2 for a, b in zip(wx, y)) / tot
    return np.array([(a * b + mean / var) / (a + 1.0 / var) for a, b in zip(wx, y)])


def shrink_to_neighbours(y, u):
    """Each bin shrunk to the error-weighted mean of itself and its direct neighbours."""
    n = len(y)
    if n < 3:
        return shrink_to_mean(y, u)
    wx = [1.0 / float(v) ** 2 if v > 0 else 0.0 for v in u]
    out = []
    for i in range(n):
        js = [j for j in (i - 1, i, i + 1) if 0 <= j < n]
        tot = sum(wx[j] for j in js)
        mean = sum(wx[j] * y[j] for j in js) / tot
        var = sum(wx[j] * (y[j] - mean) ** 2 for j in js) / tot
        out.append((wx[i] * y[i] * var + mean) / (wx[i] * var + 1.0))
    return np.array(out)


def lookup(values):
    """Bin value at the nearest bin number; missing outside of the bins."""
    values = np.asarray(values, dtype=float)

    def predict(p):
        out = np.full(len(p), NAN)
        for i, v in enumerate(np.asarray(p, dtype=float)):
            if np.isfinite(v) and v >= 0:
                k = int(np.rint(v))
                if k < len(values):
                    out[i] = values[k]
        return out

    return predict


def fit_bin_values(x, w, u, y):
    return lookup(y)


def fit_weighted_mean(x, w, u, y, prior=None):
    return lookup(shrink_to_mean(y, u, prior))


def fit_neighbours(x, w, u, y):
    return lookup(shrink_to_neighbours(y, u))


def ortho_parts(x, u, y, max_par=21):
    """Weighted least-squares polynomials of increasing degree by QR."""
    x, y, u = (np.asarray(v, dtype=float) for v in (x, y, u))
    n = len(x)
    m = min(max_par, n)
    lo, hi = x.min(), x.max()
    scale = (lambda p: 2.0 * (p - lo) / (hi - lo) - 1.0) if hi > lo else (lambda p: p * 0.0)
    sw = 1.0 / u
    V = np.polynomial.chebyshev.chebvander(scale(x), m - 1)
    Q, R = np.linalg.qr(V * sw[:, None])
    delta = Q.T.dot(sw * y)
    ss = [max(0.0, float(np.sum((sw * y - Q[:, 0] * delta[0]) ** 2)))]
    for k in range(1, m):
        ss.append(max(0.0, ss[-1] - delta[k] ** 2))
    return scale, R, delta, ss, m


# the closest decision so far, to recognise ties within rounding
LEAST = [np.inf]


def ortho_degree(delta, ss, m, n):
    """Number of significant parameters; also how close any decision was."""
    res, npp, margin = m, 0, np.inf
    if m >= 3:
        for k in range(2, m):
            res = k + 1
            margin = min(margin, abs(ss[k] - (n - (k + 1))))
            if ss[k] < n - (k + 1):
                break
            d1, d2 = delta[k] ** 2, delta[k] ** 2 + delta[k - 1] ** 2
            margin = min(margin, abs(d1 - 3.84), abs(d2 - 6.0))
            npp += int(d1 < 3.84) + int(d2 < 6.0)
            if npp >= 4:
                break
    deg = min(m, res)
    if deg == n:
        deg = min(max(int(n * 0.2), 2), 21) if n > 2 else 1
    return deg, margin


def fit_orthogonal(x, w, u, y, info=None):
    scale, R, delta, ss, m = ortho_parts(x, u, y)
    deg, margin = ortho_degree(delta, ss, m, len(x))
    LEAST[0] = min(LEAST[0], margin)
    if np.max(u) > 1e7 * np.min(u):
        LEAST[0] = 0.0  # the bins of large uncertainty are lost in rounding
    if info is not None:
        info["margin"] = margin
        info["degree"] = deg
    coef = np.linalg.solve(R[:deg, :deg], delta[:deg])
    lo, hi = float(np.min(x)), float(np.max(x))

    def predict(p):
        p = np.clip(np.asarray(p, dtype=float), lo, hi)
        return np.polynomial.chebyshev.chebval(scale(p), coef)

    return predict


def fit_linear(x, w, u, y, eps=1e-4):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    wt = 1.0 / (np.asarray(u, dtype=float) ** 2 + eps)
    if len(x) < 2 or np.all(x == x[0]):
        return lambda p: np.full(len(p), NAN)
    xm, ym = np.sum(wt * x) / np.sum(wt), np.sum(wt * y) / np.sum(wt)
    slope = np.sum(wt * (x - xm) * (y - ym)) / np.sum(wt * (x - xm) ** 2)
    return lambda p: ym + slope * (np.asarray(p, dtype=float) - xm)


def season_matrix(t, order):
    cols = [np.ones(len(t))]
    for k in range(1, order + 1):
        cols += [np.sin(k * t), np.cos(k * t)]
    return np.array(cols).T


def fit_seasonal(x, w, u, y, offset_tozero=True, order=1, fallback=0.0):
    n = len(x)
    if n < 2 * order + 1:
        return lambda p: np.full(len(p), float(fallback))
    t = 2 * np.pi * np.asarray(x, dtype=float) / n
    sw = 1.0 / np.asarray(u, dtype=float)
    par = np.linalg.lstsq(season_matrix(t, order) * sw[:, None], np.asarray(y, dtype=float) * sw, rcond=None)[0]
    if offset_tozero:
        par[0] = 0.0
    return lambda p: season_matrix(2 * np.pi * np.asarray(p, dtype=float) / n, order).dot(par)


def pava(y, w):
    """Pool adjacent violators: the weighted least-squares non-decreasing sequence."""
    blocks = []
    for v, k in zip(y, w):
        blocks.append([float(v), float(k), 1])
        while len(blocks) > 1 and blocks[-2][0] > blocks[-1][0]:
            b = blocks.pop()
            a = blocks.pop()
            t = a[1] + b[1]
            blocks.append([(a[0] * a[1] + b[0] * b[1]) / t, t, a[2] + b[2]])
    return np.array([b[0] for b in blocks for _ in range(b[2])])


def spearman_sign(x, y):
    import scipy.stats

    return scipy.stats.spearmanr(x, y)[0]


def fit_isotonic(x, w, u, y, increasing="auto"):
    x = np.asarray(x, dtype=float)
    y = np.asarray(y, dtype=float)
    wt = np.array([1.0 / (v * v) if v > 0 else 1e-24 for v in np.asarray(u, dtype=float)])
    if increasing == "auto":
        increasing = spearman_sign(x, y) >= 0
        # near-ties are ranked either way: is the direction the same?
        scale = np.max(np.abs(y)) if len(y) else 0.0
        z = np.round(y / scale, 6) if scale > 0 else np.zeros(len(y))
        ranks = [np.argsort(np.lexsort((t, z))).astype(float) for t in (x, -x)]
        signs = [np.sum((x - x.mean()) * (k - k.mean())) for k in ranks]
        if len(y) > 1 and not (min(signs) > 1e-9 or max(signs) < -1e-9):
            LEAST[0] = 0.0
    v = pava(y, wt) if increasing else -pava(-y, wt)

    def predict(p):
        p = np.asarray(p, dtype=float)
        return np.interp(np.clip(p, x[0], x[-1]), x, v)

    return predict


# ---------------------------------------------------------------- choices


def simplify(prop):
    """Shape demanded by the declared flags, in their documented precedence.
    prop is a set of flag names."""
    if "LINEAR" in prop:
        return "linear"
    if "SEASONAL" in prop:
        return "seasonal"
    if "MONOTONIC" in prop:
        return "up" if "INCREASING" in prop else ("down" if "DECREASING" in prop else "monotonic")
    if "CONTINUOUS" in prop:
        return "continuous"
    if "ORDERED" in prop:
        return "ordered"
    return "unordered"


def reg_type(props):
    def one(prop):
        if "LINEAR" in prop:
            return "extra"
        if "SEASONAL" in prop or "CONTINUOUS" in prop:
            return "inter"
        return "disc"

    types = [one(p) for p in props]
    for t in ("disc", "inter", "extra"):
        if t in types:
            return t


def fit_onedim(shape, x, w, u, y, normalized=True):
    if shape == "linear":
        return fit_linear(x, w, u, y)
    if shape == "seasonal":
        return fit_seasonal(x, w, u, y, offset_tozero=not normalized)
    if shape == "up":
        return fit_isotonic(x, w, u, y, True)
    if shape == "down":
        return fit_isotonic(x, w, u, y, False)
    if shape == "monotonic":
        return fit_isotonic(x, w, u, y, "auto")
    if shape == "continuous":
        return fit_orthogonal(x, w, u, y)
    if shape == "ordered":
        return fit_neighbours(x, w, u, y)
    if shape == "values":
        return fit_bin_values(x, w, u, y)
    return fit_weighted_mean(x, w, u, y, 0.0)


def norm_of(w, y):
    w, y = np.asarray(w, dtype=float), np.asarray(y, dtype=float)
    s = float(np.sum(w))
    if s > 0:
        n = float(np.sum(w * y)) / s
        return n if np.isfinite(n) else 0.0
    return 0.0


def profile(kind, props, nb, w, u, y, use_reg=True, use_norm=True):
    """Smoothed values of all finite bins of a feature group.

    kind: 'wm' (default), 'groupby' or 'none'; props: flag-name sets per dimension;
    nb: bin numbers per dimension; w, u, y: per cell in row-major order.
    NaN where the smoother gives no value.
    """
    w, u, y = (np.asarray(v, dtype=float) for v in (w, u, y))
    n = len(y)
    dim = len(nb)
    cells = list(itertools.product(*[range(k) for k in nb]))

    def cut(vals, ww, rt):
        vals = np.array(vals, dtype=float)
        if use_reg and rt == "disc":
            vals[np.asarray(ww) == 0.0] = NAN
        return vals

    if kind == "groupby" and dim > 1:
        out = np.full(n, NAN)
        shape = simplify(props[-1])
        rt = reg_type([props[-1]])
        for outer in itertools.product(*[range(k) for k in nb[:-1]]):
            idx = [i for i, c in enumerate(cells) if c[:-1] == outer]
            if not np.sum(w[idx]) > 0:
                continue
            x = np.array([cells[i][-1] for i in idx], dtype=float)
            nrm = norm_of(w[idx], y[idx]) if use_norm else 0.0
            v = fit_onedim(shape, x, w[idx], u[idx], y[idx] - nrm, use_norm)(x) + nrm
            out[idx] = cut(v, w[idx], rt)
        return out
    rt = reg_type(props[-1:] if kind == "groupby" else props)
    nrm = norm_of(w, y) if use_norm else 0.0
    if kind == "none":
        v = y.copy()
    elif dim > 1:
        v = shrink_to_mean(y - nrm, u, 0.0) + nrm
    else:
        x = np.arange(n, dtype=float)
        v = fit_onedim(simplify(props[0]), x, w, u, y - nrm, use_norm)(x) + nrm
    return cut(v, w, rt)
