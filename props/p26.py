"""P26: quantile-parameterised distributions are valid and hit their quantiles."""
import numpy as np
from scipy.special import expit, logit, ndtr, ndtri

from cyclic_boosting import quantile_matching as qm

from lib.rt import Workload

RULE = "an evaluation builds a distribution from a random triplet (symmetric, nearly symmetric, skewed), evaluates quantile and distribution function on a grid and compares with the definition of the family on the transformed scale; all are non-trivial"
ASSUMPTIONS = ["triplets strictly ordered and strictly inside the bounds, by more than rounding", "probabilities from 1e-6 to 1-1e-6 and the end points 0 and 1"]
MIN_EVENTS = {"quantiles_hit": 3000, "grid_values": 50000, "inverses": 20000, "symmetric_triplets": 200, "vector_rows": 2000}

PS = np.r_[1e-6, 1e-4, 0.001, 0.01, 0.05, np.linspace(0.1, 0.9, 17), 0.95, 0.99, 0.999, 1 - 1e-4, 1 - 1e-6]


# --- the definition, independent of the code ---------------------------------

def base(version, shape):
    """Quantile and distribution function of the base distribution."""
    if version == "normal":
        return ndtri, ndtr
    if version == "logistic":
        return logit, expit

    def ppf(p):
        v = logit(p) / 4
        if shape > 0:
            return np.arcsinh(shape * v) / shape
        return np.sinh(-shape * v) / -shape if shape < 0 else v

    def cdf(x):
        if shape > 0:
            x = np.sinh(shape * x) / shape
        elif shape < 0:
            x = np.arcsinh(-shape * x) / -shape
        return expit(4 * x)

    return ppf, cdf


def johnson(L, B, H, b):
    """Through (-1, L), (0, B), (1, H): a hyperbolic sine, a line when symmetric."""
    small = min(B - L, H - B)
    r = (H - L) / (2 * small)
    if r <= 1 + 1e-14:
        return B + (H - L) / 2 * b
    d = np.arccosh(r)
    k = small / np.sinh(d)
    return L + k * np.sinh(d * (b + 1)) if H - B > B - L else H + k * np.sinh(d * (b - 1))


def johnson_inverse(L, B, H, z):
    small = min(B - L, H - B)
    r = (H - L) / (2 * small)
    if r <= 1 + 1e-14:
        return (z - B) / ((H - L) / 2)
    d = np.arccosh(r)
    k = small / np.sinh(d)
    return np.arcsinh((z - L) / k) / d - 1 if H - B > B - L else np.arcsinh((z - H) / k) / d + 1


def lognormal_like(L, B, H, c, q):
    """Semi-bounded family: the sinh of a shifted arcsinh of the base quantile q; c = base quantile of 1 - alpha."""
    small = min(B - L, H - B)
    r = (H - L) / (2 * small)
    if r <= 1 + 1e-14:
        return B + (H - L) / 2 * q / c
    d = np.sqrt((r - 1) * (r + 1)) / c
    s = np.arcsinh(c * d)
    k = small / (c * d)
    return L + k * np.sinh(np.arcsinh(d * q) + s) if H - B > B - L else H + k * np.sinh(np.arcsinh(d * q) - s)


def lognormal_inverse(L, B, H, c, z):
    small = min(B - L, H - B)
    r = (H - L) / (2 * small)
    if r <= 1 + 1e-14:
        return (z - B) / ((H - L) / 2) * c
    d = np.sqrt((r - 1) * (r + 1)) / c
    s = np.arcsinh(c * d)
    k = small / (c * d)
    if H - B > B - L:
        return np.sinh(np.arcsinh((z - L) / k) - s) / d
    return np.sinh(np.arcsinh((z - H) / k) + s) / d


class Model(object):
    """A distribution as defined; kind S, B (original) or eU, eS, eB (extended)."""

    def __init__(self, kind, alpha, t, l, u, version, shape=0.0):
        self.kind, self.alpha, self.t, self.l, self.u = kind, alpha, t, l, u
        self.ppf0, self.cdf0 = base(version, shape)
        self.c = float(self.ppf0(1 - alpha))
        # the original bounded family uses the base distribution as transformation
        self.to01, self.from01 = (self.ppf0, self.cdf0) if kind == "B" else (logit, expit)
        self.z = [float(self.inner(v)) for v in t]

    def inner(self, x):
        if self.kind in ("S", "eS"):
            return np.log(x - self.l)
        if self.kind in ("B", "eB"):
            return self.to01((x - self.l) / (self.u - self.l))
        return x

    def outer(self, z):
        if self.kind in ("S", "eS"):
            return self.l + np.exp(z)
        if self.kind in ("B", "eB"):
            return self.l + (self.u - self.l) * self.from01(z)
        return z

    def zppf(self, p):
        q = self.ppf0(p)
        return lognormal_like(*self.z, self.c, q) if self.kind == "S" else johnson(*self.z, q / self.c)

    def ppf(self, p):
        return self.outer(self.zppf(p))

    def cdf(self, x):
        z = self.inner(x)
        if self.kind == "S":
            return self.cdf0(lognormal_inverse(*self.z, self.c, z))
        return self.cdf0(johnson_inverse(*self.z, z) * self.c)


def real(kind, alpha, t, l, u, version, shape):
    if kind == "S":
        return qm.J_QPD_S(alpha, *t, l=l, version=version)
    if kind == "B":
        return qm.J_QPD_B(alpha, *t, l=l, u=u, version=version)
    if kind == "eU":
        return qm.J_QPD_extended_U(alpha, *t, version=version, shape=shape)
    if kind == "eS":
        return qm.J_QPD_extended_S(alpha, *t, l=l, version=version, shape=shape)
    return qm.J_QPD_extended_B(alpha, *t, l=l, u=u, version=version, shape=shape)


# --- inputs -----------------------------------------------------------------

def case(rng, kind=None):
    kind = kind or str(rng.choice(["S", "B", "eU", "eS", "eB"]))
    alpha = float(rng.choice([0.25, 0.1, 0.05, 0.2, 0.4, 0.01]))
    versions = ["normal", "logistic"] + (["sinhlogistic"] * 3 if kind[0] == "e" else [])
    version = str(rng.choice(versions))
    shape = float(rng.choice([0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -0.1, 0.005, -0.005])) if version == "sinhlogistic" else 0.0
    return kind, alpha, version, shape


def triplet(rng, kind, l, u):
    """Skewed to either side, nearly symmetric or exactly symmetric on the scale of the family."""
    how = str(rng.choice(["skewed", "skewed", "symmetric", "nearly", "tiny"]))
    if kind in ("B", "eB"):
        m = 0.5 if how == "symmetric" else rng.rand() * 0.8 + 0.1
        d = min(m, 1 - m) * float(rng.choice([0.2, 0.5, 0.9, 0.01]))
        a, b = d, d
        if how == "skewed":
            a, b = d * (rng.rand() * 0.95 + 0.02), d
        elif how == "tiny":
            a, b = d * 1e-3, d
        if rng.rand() < 0.5 and how != "symmetric":
            a, b = b, a
        t = [l + (u - l) * v for v in (m - a, m, m + b)]
        if how == "symmetric":
            k = float(rng.choice([0.25, 0.125, 0.0625]))
            t = [l + (u - l) * (0.5 - k), l + (u - l) * 0.5, l + (u - l) * (0.5 + k)]
        return t, how
    if kind in ("S", "eS"):
        m = float(np.exp(rng.normal()))
        s = float(rng.choice([0.05, 0.3, 1.0, 2.0]))
        a = b = s
        if how in ("skewed", "tiny"):
            a = s * (1e-3 if how == "tiny" else rng.rand() * 0.95 + 0.02)
            a, b = (a, b) if rng.rand() < 0.5 else (b, a)
        elif how == "nearly":
            b = s * (1 + float(rng.choice([-1, 1])) * 10.0 ** -rng.randint(2, 5))
        if how == "symmetric":
            f = float(rng.choice([2.0, 4.0, 1.5]))
            m = float(rng.choice([1.0, 2.0, 0.5]))
            return [l + m / f, l + m, l + m * f], how
        return [l + m * np.exp(-a), l + m, l + m * np.exp(b)], how
    m = float(rng.normal() * rng.choice([0.0, 1.0, 10.0]))
    s = float(rng.choice([0.1, 1.0, 10.0]))
    a = b = s
    if how in ("skewed", "tiny"):
        a = s * (1e-3 if how == "tiny" else rng.rand() * 0.95 + 0.02)
        a, b = (a, b) if rng.rand() < 0.5 else (b, a)
    elif how == "nearly":
        b = s * (1 + float(rng.choice([-1, 1])) * 10.0 ** -rng.randint(2, 5))
    if how == "symmetric":
        m, a, b = float(round(m)), 1.0, 1.0
    return [m - a, m, m + b], how


def bounds(rng, kind):
    if kind == "eU":
        return 0.0, 1.0
    l = float(rng.choice([0.0, 0.0, 1.0, -2.0, -10.5]))
    return l, l + float(rng.choice([1.0, 0.5, 12.0, 100.0]))


# --- checks -----------------------------------------------------------------

def zscale(m):
    return max(abs(v) for v in m.z) + 1


def usable(m, z):
    """Points that doubles can tell from the bounds and from infinity."""
    ok = np.isfinite(z) & (np.abs(z) < 250)
    with np.errstate(all="ignore"):
        x = m.outer(np.where(ok, z, 0.0))
        if m.kind in ("B", "eB"):
            f = (x - m.l) / (m.u - m.l)
            ok &= (f > 1e-7) & (f < 1 - 1e-7)
        elif m.kind in ("S", "eS"):
            ok &= (x - m.l) > 1e-7 * (1 + abs(m.l))
    return ok


def verify(ctx, d, m, what):
    kind = m.kind
    t = np.array(m.t)
    span = t[2] - t[0]
    hit = np.array([float(np.squeeze(d.ppf(p))) for p in (m.alpha, 0.5, 1 - m.alpha)])
    ctx.close(hit, t, "%s: values at the three given probabilities" % what, rtol=1e-9, atol=1e-9 * span + 1e-12 * np.abs(t).max())
    ctx.event("quantiles_hit", 3)
    back = np.array([float(np.squeeze(d.cdf(np.float64(v)))) for v in t])
    ctx.close(back, [m.alpha, 0.5, 1 - m.alpha], "%s: distribution function at the three given values" % what, rtol=0, atol=1e-7)
    got = np.asarray(d.ppf(PS), dtype=float)
    ctx.check(got.shape == PS.shape, "%s: shape %s of quantiles" % (what, got.shape))
    with np.errstate(all="ignore"):
        z = m.zppf(PS)
        want = m.outer(z)
    ok = usable(m, z)
    zt = 1e-8 * (np.abs(z) + zscale(m)) ** 1
    tol = 1e-9 * (np.abs(want) + span) + zt * (np.abs(want - m.l) if kind in ("S", "eS") else (m.u - m.l) if kind in ("B", "eB") else 1.0)
    bad = ok & ~(np.abs(got - want) <= tol)
    ctx.check(not bad.any(), "%s: quantile function at %s is %s instead of %s" % (what, PS[bad][:3], got[bad][:3], want[bad][:3]))
    ctx.event("grid_values", int(ok.sum()))
    # order and bounds at all probabilities
    fin = got[np.isfinite(got)]
    ctx.check(not np.isnan(got).any(), "%s: undefined quantiles" % what)
    ctx.check((np.diff(got[ok]) > 0).all(), "%s: quantile function does not increase" % what)
    ctx.check((np.diff(fin) >= 0).all(), "%s: quantile function decreases" % what)
    if kind != "eU":
        ctx.check((fin >= m.l).all(), "%s: quantile below the lower bound" % what)
    if kind in ("B", "eB"):
        ctx.check((fin <= m.u).all(), "%s: quantile above the upper bound" % what)
    with np.errstate(all="ignore"):
        lo, hi = (float(np.squeeze(d.ppf(p))) for p in (0.0, 1.0))
    if kind != "eU":
        ctx.close(lo, m.l, "%s: quantile function at 0" % what, rtol=0, atol=1e-9 * (1 + abs(m.l) + span))
    else:
        ctx.check(lo <= got[0], "%s: quantile function at 0" % what)
    if kind in ("B", "eB"):
        ctx.close(hi, m.u, "%s: quantile function at 1" % what, rtol=0, atol=1e-9 * (1 + abs(m.u) + span))
    else:
        ctx.check(hi >= got[-1], "%s: quantile function at 1" % what)
    # inverse
    xs = got[ok]
    if len(xs):
        c = np.atleast_1d(np.asarray(d.cdf(xs), dtype=float))
        ctx.close(c, PS[ok], "%s: distribution function of quantiles" % what, rtol=0, atol=1e-6)
        ctx.event("inverses", len(xs))
    # any value of the support
    grid = grid_of(m, t)
    c = np.atleast_1d(np.asarray(d.cdf(grid), dtype=float))
    with np.errstate(all="ignore"):
        want = m.cdf(grid)
    ctx.close(c, want, "%s: distribution function" % what, rtol=0, atol=1e-6)
    ctx.check((np.diff(c) >= -1e-12).all(), "%s: distribution function decreases" % what)
    ctx.check(((c >= 0) & (c <= 1)).all(), "%s: distribution function outside [0, 1]" % what)
    ctx.event("grid_values", len(grid))


def grid_of(m, t):
    if m.kind in ("B", "eB"):
        return m.l + (m.u - m.l) * np.linspace(0.01, 0.99, 25)
    if m.kind in ("S", "eS"):
        return m.l + (t[1] - m.l) * np.exp(np.linspace(-4, 4, 25))
    return t[1] + (t[2] - t[0]) * np.linspace(-6, 6, 25)


def single(ctx):
    rng = ctx.rng
    for _ in range(6):
        kind, alpha, version, shape = case(rng)
        l, u = bounds(rng, kind)
        t, how = triplet(rng, kind, l, u)
        ctx.describe(kind=kind, alpha=alpha, version=version, shape=shape, triplet=t, bounds=[l, u])
        ctx.sig(kind, alpha, version, shape, how, l)
        m = Model(kind, alpha, t, l, u, version, shape)
        verify(ctx, real(kind, alpha, t, l, u, version, shape), m, "%s %s" % (kind, how))
        if how == "symmetric":
            ctx.event("symmetric_triplets")


def vector(ctx):
    """Rows together and one by one, probabilities crossed or paired with them."""
    rng = ctx.rng
    kind, alpha, version, _ = case(rng, kind=str(rng.choice(["S", "B"])))
    l, u = bounds(rng, kind)
    n = int(rng.choice([2, 3, 7, 20]))
    rows = [triplet(rng, kind, l, u) for _ in range(n)]
    T = np.array([r[0] for r in rows])
    ctx.describe(kind=kind, alpha=alpha, version=version, triplets=T, bounds=[l, u])
    ctx.sig(kind, alpha, version, n, sorted({r[1] for r in rows}))
    d = real(kind, alpha, [T[:, 0], T[:, 1], T[:, 2]], l, u, version, 0.0)
    one = [real(kind, alpha, [float(v) for v in t], l, u, version, 0.0) for t in T]
    tol = dict(rtol=1e-12, atol=1e-300)
    p = float(rng.rand() * 0.9 + 0.05)
    ctx.close(d.ppf(p), [float(np.squeeze(o.ppf(p))) for o in one], "one probability for all rows", **tol)
    ps = np.sort(rng.rand(int(rng.choice([2, 5, n])))) * 0.98 + 0.01
    got = np.asarray(d.ppf(ps))
    ctx.check(got.shape == (len(ps), n), "crossed quantiles of shape %s" % (got.shape,))
    ctx.close(got, np.array([[float(np.squeeze(o.ppf(float(q)))) for o in one] for q in ps]), "crossed probabilities", **tol)
    pr = rng.rand(n) * 0.98 + 0.01
    ctx.close(d.ppf(pr, inner=True), [float(np.squeeze(o.ppf(float(q)))) for o, q in zip(one, pr)], "paired probabilities", **tol)
    x = np.asarray(d.ppf(pr, inner=True))
    with np.errstate(all="ignore"):
        models = [Model(kind, alpha, [float(v) for v in t], l, u, version) for t in T]
        ok = np.array([bool(usable(o, o.zppf(np.array([q])))[0]) for o, q in zip(models, pr)])
    back = np.asarray(d.cdf(x, inner=True))
    ctx.close(back[ok], pr[ok], "paired inverse", rtol=0, atol=1e-6)
    ctx.close(back[ok], np.array([float(np.squeeze(o.cdf(np.float64(v)))) for o, v in zip(one, x)])[ok], "paired values", rtol=0, atol=1e-7)
    xs = np.asarray(d.ppf(0.5))[rng.permutation(n)[: max(2, n // 2)]]
    got = np.asarray(d.cdf(xs))
    ctx.check(got.shape == (len(xs), n), "crossed distribution function of shape %s" % (got.shape,))
    ctx.close(got, np.array([[float(np.squeeze(o.cdf(np.float64(v)))) for o in one] for v in xs]), "crossed values", rtol=0, atol=1e-7)
    for i in rng.permutation(n)[:3]:
        verify(ctx, one[i], Model(kind, alpha, [float(v) for v in T[i]], l, u, version), "%s row" % kind)
    ctx.event("vector_rows", n)


def scaled(ctx):
    """Scaling and shifting of triplet and bounds; mirroring where the family allows it."""
    rng = ctx.rng
    kind, alpha, version, shape = case(rng)
    l, u = bounds(rng, kind)
    t, how = triplet(rng, kind, l, u)
    ctx.describe(kind=kind, alpha=alpha, version=version, shape=shape, triplet=t, bounds=[l, u])
    ctx.sig(kind, alpha, version, shape, how)
    d = real(kind, alpha, t, l, u, version, shape)
    m = Model(kind, alpha, t, l, u, version, shape)
    with np.errstate(all="ignore"):
        ok = usable(m, m.zppf(PS))
    ok &= (PS > 0.005) & (PS < 0.995)
    p = PS[ok]
    f = float(rng.choice([2.0, 0.5, 1000.0, 1e-3, 3.0]))
    s = float(rng.choice([0.0, 0.0, 1.0, -5.0])) * f
    e = real(kind, alpha, [v * f + s for v in t], l * f + s, u * f + s, version, shape)
    x = np.atleast_1d(np.asarray(d.ppf(p)))
    tol = 1e-6 * (np.abs(x) * f + abs(s) + (t[2] - t[0]) * f)
    got = np.atleast_1d(np.asarray(e.ppf(p)))
    ctx.check((np.abs(got - (x * f + s)) <= tol).all(), "scaled by %g and shifted by %g: %s instead of %s" % (f, s, got[:3], (x * f + s)[:3]))
    ctx.event("scalings")
    if kind in ("eU", "B", "eB"):
        lo, hi = (l, u) if kind != "eU" else (0.0, 0.0)
        e = real(kind, alpha, [lo + hi - t[2], lo + hi - t[1], lo + hi - t[0]], l, u, version, shape)
        got = np.atleast_1d(np.asarray(e.ppf(1 - p)))
        tol = 1e-6 * (np.abs(x) + abs(lo) + abs(hi) + (t[2] - t[0]))
        ctx.check((np.abs(got - (lo + hi - x)) <= tol).all(), "mirrored: %s instead of %s" % (got[:3], (lo + hi - x)[:3]))
        ctx.event("mirrorings")


def bases(ctx):
    """Base distributions: inverse, symmetric, density is the derivative."""
    rng = ctx.rng
    shape = float(rng.choice([0.0, 1.0, -1.0, 0.3, -0.3, 2.5, -2.5]))
    alpha = float(rng.choice([0.25, 0.1, 0.05]))
    ctx.describe(shape=shape, alpha=alpha)
    ctx.sig(shape, alpha)
    d = qm.SinhLogistic(shape=shape)
    ppf, cdf = base("sinhlogistic", shape)
    ps = np.sort(rng.rand(30)) * 0.998 + 0.001
    ctx.close(d.ppf(ps), ppf(ps), "quantiles of the sinh-logistic", rtol=1e-9, atol=1e-12)
    ctx.close(d.cdf(d.ppf(ps)), ps, "inverse of the sinh-logistic", rtol=1e-9, atol=1e-12)
    x = np.linspace(-2, 2, 41)
    ctx.close(d.cdf(x), cdf(x), "distribution function of the sinh-logistic", rtol=1e-9, atol=1e-15)
    h = 1e-5
    ctx.close(d.pdf(x), (cdf(x + h) - cdf(x - h)) / (2 * h), "density of the sinh-logistic", rtol=1e-4, atol=1e-7)
    b = qm.BaseDist(d, alpha)
    ctx.close(b.ppf(np.array([alpha, 0.5, 1 - alpha])), [-1.0, 0.0, 1.0], "scaled base distribution", rtol=0, atol=1e-9)
    ctx.close(b.cdf(b.ppf(ps)), ps, "inverse of the scaled base distribution", rtol=1e-9, atol=1e-12)
    ctx.close(b.pdf(x), (np.asarray(b.cdf(x + h)) - np.asarray(b.cdf(x - h))) / (2 * h), "density of the scaled base distribution",
              rtol=1e-4, atol=1e-7)
    ctx.event("base_distributions")


WORKLOADS = [
    Workload("single", single, 500, 8000),
    Workload("vector", vector, 400, 6000),
    Workload("scaled", scaled, 600, 8000),
    Workload("bases", bases, 120, 1500),
]
