"""Densities, numerical convolutions, histograms, weighted means and numerical inverses against closed forms, quadrature and direct counting.
Non-trivial: at least two locations or scales, or a strictly monotonic function with at least one value."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 600 if tier == 'quick' else 12000

def g1(x, m, s):
    return math.exp(-.5 * ((x - m) / s) ** 2) / (s * math.sqrt(2 * math.pi))

def l1(x, m, s):
    t = abs(x - m) / s
    return math.exp(-t) / (s * (1 + math.exp(-t)) ** 2)

def u2(x, m1, s1, m2, s2):
    # overlap of [x - m2 - s2/2, x - m2 + s2/2] with [m1 - s1/2, m1 + s1/2]
    lo, hi = max(x - m2 - s2 / 2, m1 - s1 / 2), min(x - m2 + s2 / 2, m1 + s1 / 2)
    return max(0.0, hi - lo) / (s1 * s2)

def trap(y, x):
    y, x = np.asarray(y, float), np.asarray(x, float)
    return float(np.sum((y[1:] + y[:-1]) * np.diff(x)) / 2)

def densities(ctx, rng):
    from sureal.tools import stats as T
    shape = [(7,), (3, 4), (), (2, 2, 3)][int(rng.integers(0, 4))]
    wide = 3 if rng.random() < .7 else 12
    loc, sc = rng.normal(0, 5, shape), np.exp(rng.uniform(-wide, wide, shape))
    xs = loc + sc * rng.normal(0, 2 if rng.random() < .7 else 12, shape)
    if shape and rng.random() < .4:
        loc, sc = float(rng.normal()), float(np.exp(rng.normal()))       # broadcast
        xs = loc + sc * rng.normal(0, 2 if rng.random() < .7 else 12, shape)
    for f, want in ((T.vectorized_gaussian, g1), (T.vectorized_logistic, l1)):
        got = np.asarray(f(xs, loc, sc))
        ctx.check(got.shape == np.shape(xs), 'shape of the density', got=got.shape)
        eq(ctx, got, np.vectorize(want, otypes=[float])(xs, loc, sc), f.__name__ + ' is not the density', 1e-9, 1e-300)
        m, s = float(rng.normal(0, 20)), float(np.exp(rng.uniform(-wide, min(wide, 5))))
        if s < 1e-2:
            m = 0.0
        grid = m + s * np.linspace(-40, 40, 8001)
        y = f(grid, m, s)
        ctx.check(np.all(y >= 0), 'negative density')
        eq(ctx, trap(y, grid), 1.0, f.__name__ + ' does not integrate to one', 1e-6, 1e-6)
        eq(ctx, trap(y * grid, grid), m, f.__name__ + ': mean', 1e-6, 1e-6 * (1 + s))
        var = s * s * (1 if want is g1 else math.pi ** 2 / 3)
        eq(ctx, trap(y * (grid - m) ** 2, grid), var, f.__name__ + ': variance', 1e-5, 0)
    x = float(rng.uniform(-30, 30))
    eq(ctx, T.sech(x), 1 / math.cosh(x), 'sech', 1e-9, 0)
    # two uniforms
    s1, s2 = np.exp(rng.uniform(-2, 2, 2))
    if rng.random() < .2:
        s2 = s1
    if rng.random() < .2:
        s1, s2 = float(rng.integers(1, 5)), float(rng.integers(1, 5))
    m1, m2 = rng.normal(0, 3, 2)
    if rng.random() < .3:
        m1, m2 = float(round(m1)), float(round(m2))
    h = (s1 + s2) / 2
    pts = np.concatenate([rng.uniform(-1.3 * h, 1.3 * h, 40), [0.0]]) + m1 + m2
    # at the corners of the trapezoid, with numbers exact in binary
    a, b = (int(x) / 4. for x in rng.integers(1, 20, 2))
    c1, c2 = (int(x) / 4. for x in rng.integers(-9, 9, 2))
    for z, w in ((-abs(a - b) / 2, 1 / max(a, b)), (abs(a - b) / 2, 1 / max(a, b)), (-(a + b) / 2, 0.0), ((a + b) / 2, 0.0), (0.0, 1 / max(a, b))):
        eq(ctx, T.convolution_of_two_uniforms(z + c1 + c2, c1, a, c2, b), w, 'density of the sum of two uniforms at a corner', 1e-12, 1e-12, s=(a, b), at=z)
    got = T.vectorized_convolution_of_two_uniforms(pts, m1, s1, m2, s2)
    want = [u2(float(x), m1, s1, m2, s2) for x in pts]
    eq(ctx, got, want, 'density of the sum of two uniforms', 1e-7, 1e-9, s=(s1, s2))
    for x in pts[:5]:
        eq(ctx, T.convolution_of_two_uniforms(float(x), m1, s1, m2, s2), u2(float(x), m1, s1, m2, s2), 'density of the sum of two uniforms at one point', 1e-7, 1e-9)
        eq(ctx, T.convolution_of_two_uniforms(float(x), m2, s2, m1, s1), u2(float(x), m1, s1, m2, s2), 'density of the sum of two uniforms, exchanged', 1e-7, 1e-9)
    grid = np.linspace(-1.2 * h, 1.2 * h, 4001) + m1 + m2
    eq(ctx, trap(T.vectorized_convolution_of_two_uniforms(grid, m1, s1, m2, s2), grid), 1.0, 'sum of two uniforms does not integrate to one', 2e-3, 2e-3)
    ctx.check(T.convolution_of_two_uniforms(m1 + m2 + 1.01 * h, m1, s1, m2, s2) == 0 and T.convolution_of_two_uniforms(m1 + m2 - 1.01 * h, m1, s1, m2, s2) == 0, 'density outside of the support')
    ctx.event('densities', 3)
    ctx.sig('den', shape, round(float(s1), 6), round(float(s2), 6))

def pdf(kind, s):
    if kind == 'g':
        return lambda x: np.exp(-.5 * (np.asarray(x, float) / s) ** 2) / (s * math.sqrt(2 * math.pi))
    def f(x):
        t = np.exp(-np.abs(np.asarray(x, float)) / s)
        return t / (s * (1 + t) ** 2)
    return f

def truth(k1, s1, k2, s2, xs):
    f, g = pdf(k1, s1), pdf(k2, s2)
    n, w = (f, s1) if s1 < s2 else (g, s2)
    o = g if s1 < s2 else f
    u = np.linspace(-40 * w, 40 * w, 8001)
    d = u[1] - u[0]
    nu = n(u)
    return np.array([float(np.sum(nu * o(x - u)) * d) for x in xs])

def convolution(ctx, rng, i):
    from sureal.tools import stats as T
    k1, k2 = str(rng.choice(['g', 'l'])), str(rng.choice(['g', 'l']))
    s1, s2 = (float(x) for x in np.exp(rng.uniform(math.log(.1), math.log(4), 2)))
    tr = float(rng.choice([1e-5, 1e-8, 1e-12]))
    de = float(rng.choice([1e-2, 3e-3]))
    o = {} if (tr == 1e-5 and de == 1e-2 and rng.random() < .5) else {'delta': de, 'f_truncation': tr, 'g_truncation': tr}
    c = T.ConvolveTwoPdf(pdf(k1, s1), pdf(k2, s2), **o)
    r = {'g': 1.0, 'l': math.pi / math.sqrt(3)}
    s = math.hypot(s1 * r[k1], s2 * r[k2])
    xs = np.concatenate([[0.0], s * rng.uniform(-5, 5, 12)])
    want = truth(k1, s1, k2, s2, xs)
    slope = .6 / s ** 2
    # where the narrower of the two has decayed to the truncation, the tail beyond is cut
    def reach(k, s):
        if k == 'g':
            return s * math.sqrt(2 * max(1e-9, math.log(1 / (tr * s * math.sqrt(2 * math.pi)))))
        return s * max(.1, math.log(1 / (tr * s)))
    R = max(reach(k1, s1), reach(k2, s2))
    cut = float(truth(k1, s1, k2, s2, [.95 * R])[0])
    tol = de * slope * 1.5 + 1.5 * cut + 1e-6 / s
    if de > .2 * min(s1, s2):
        tol += .02 / s
    got = np.array([float(c.pdf(float(x))) for x in xs])
    ctx.check(np.all(np.abs(got - want) <= tol), 'numerical convolution is not the density of the sum', kinds=(k1, k2), scales=(s1, s2), tol=tol,
              got=got[np.abs(got - want) > tol][:3], want=want[np.abs(got - want) > tol][:3])
    eq(ctx, c.pdf(xs), got, 'convolution on an array', 1e-9, 1e-12)
    rev = T.ConvolveTwoPdf(pdf(k2, s2), pdf(k1, s1), **o)
    ctx.check(np.all(np.abs(rev.pdf(xs) - want) <= tol), 'exchanged convolution is not the density of the sum')
    grid = np.linspace(-12 * s, 12 * s, 4001)
    y = c.pdf(grid)
    ctx.check(np.all(y >= -1e-9), 'negative density', low=float(np.min(y)))
    eq(ctx, trap(y, grid), 1.0, 'numerical convolution does not integrate to one', 2e-2, 2e-2)
    ctx.event('convolutions', 2)
    if i % 24 == 5:
        sh = [(3,), (2, 2)][int(rng.integers(0, 2))]
        a, b = np.exp(rng.uniform(math.log(.1), math.log(2), (2,) + sh))
        m1, m2 = rng.normal(0, 2, (2,) + sh)
        x = m1 + m2 + rng.normal(0, 1, sh) * np.hypot(a, b) * 1.8
        got = np.asarray(T.vectorized_convolution_of_two_logistics(x, m1, a, m2, b))
        ctx.check(got.shape == sh, 'shape of the convolution of two logistics', got=got.shape)
        for idx in np.ndindex(*sh):
            w = float(truth('l', a[idx], 'l', b[idx], [x[idx] - m1[idx] - m2[idx]])[0])
            ss = math.hypot(a[idx], b[idx]) * 1.81
            t = 3e-3 * .9 / ss ** 2 + 1e-5 / ss + (.02 / ss if min(a[idx], b[idx]) < .02 else 0)
            ctx.check(abs(float(got[idx]) - w) <= t, 'convolution of two logistics', got=float(got[idx]), want=w, tol=t, scales=(a[idx], b[idx]))
        ctx.event('vectorised_convolutions')
    ctx.sig('conv', k1, k2, round(s1, 6), round(s2, 6))

def histograms(ctx, rng):
    from sureal.tools import stats as T
    n = int(rng.integers(1, 60))
    x = rng.integers(1, 6, n).astype(float) if rng.random() < .6 else np.round(rng.normal(0, 3, n), 1)
    y = x.copy()
    y[rng.random(n) < .3] = np.nan
    form = list(y) if rng.random() < .5 else y
    h = T.histc(form)
    want = {}
    for v in y:
        if v == v:
            want[float(v)] = want.get(float(v), 0) + 1
    ctx.check({float(k): int(v) for k, v in h.items()} == want, 'histogram counts', got=h, want=want)
    ctx.check(T.histc([]) == {} and T.histc([float('nan')]) == {}, 'histogram of nothing')
    bins = int(rng.integers(1, 40))
    cdf, edge = T.get_cdf(list(x) if rng.random() < .5 else x, bins=bins)
    ctx.check(len(cdf) == len(edge) == bins, 'size of the empirical distribution')
    ctx.check(np.all(np.diff(cdf) >= 0), 'empirical distribution decreases')
    eq(ctx, cdf[-1], 1.0, 'empirical distribution does not end at one', 1e-12, 1e-12)
    for c, e in list(zip(cdf, edge))[:-1]:
        if np.any(np.abs(x - e) < 1e-9):
            lo, hi = float(np.mean(x < e - 1e-9)), float(np.mean(x <= e + 1e-9))
            ctx.check(lo - 1e-9 <= c <= hi + 1e-9, 'empirical distribution', at=e, got=c)
        else:
            eq(ctx, c, float(np.mean(x < e)), 'empirical distribution', 1e-9, 1e-9)
    if n > 3:
        # missing samples and edges of the caller's
        ed = np.linspace(-20.5, 20.5, 30)
        cdf2 = T.get_cdf(y, bins=ed)[0] if np.any(y == y) else None
        if cdf2 is not None:
            eq(ctx, cdf2, [float(np.mean(y[y == y] < e)) for e in ed[1:]], 'empirical distribution with missing samples', 1e-9, 1e-9)
            k2 = T.get_pdf(y, bins=ed, density=False)[0]
            ctx.check(int(np.sum(k2)) == int(np.sum(y == y)), 'histogram with missing samples loses some', got=int(np.sum(k2)))
    ctx.check(len(T.get_cdf(x)[0]) == 100, 'default number of bins of the empirical distribution')
    p, mid = T.get_pdf(x, bins=bins)
    k, mid2 = T.get_pdf(x, bins=bins, density=False)
    eq(ctx, mid, mid2, 'bin centres', 0, 0)
    ctx.check(int(np.sum(k)) == n, 'histogram loses samples', got=int(np.sum(k)), want=n)
    lo, hi = (x.min(), x.max()) if x.max() > x.min() else (x.min() - .5, x.max() + .5)
    w = (hi - lo) / bins
    eq(ctx, mid, [lo + w * (j + .5) for j in range(bins)], 'bin centres', 1e-9, 1e-9)
    eq(ctx, float(np.sum(p)) * w, 1.0, 'histogram density does not integrate to one', 1e-9, 1e-9)
    eq(ctx, p, np.asarray(k) / (n * w), 'histogram density', 1e-9, 1e-9)
    # weighted mean, missing entries ignored
    from sureal.tools.misc import weighed_nanmean_2d
    A = rng.normal(0, 2, (int(rng.integers(1, 7)), int(rng.integers(1, 7))))
    A[rng.random(A.shape) < .3] = np.nan
    for ax in (0, 1):
        wt = rng.uniform(.1, 3, A.shape[ax])
        if len(wt) > 1 and rng.random() < .3:
            wt[0] = [0.0, -.05][int(rng.integers(0, 2))]
            A[:, :][np.isnan(A)] = 1.5
        with np.errstate(all='ignore'):
            got = weighed_nanmean_2d(A, wt, ax)
        ref_ = []
        B = A if ax == 0 else A.T
        for c in range(B.shape[1]):
            num = [(wt[r], B[r, c]) for r in range(B.shape[0]) if B[r, c] == B[r, c]]
            ref_.append(sum(a * b for a, b in num) / sum(a for a, b in num) if num else float('nan'))
        eq(ctx, got, ref_, 'weighted mean', 1e-9, 1e-9)
    ctx.event('histograms', 4)
    ctx.sig('hist', bins, tuple(x.tolist()))

def inverses(ctx, rng):
    from sureal.tools.inverse import inversefunc
    a, b = float(np.exp(rng.uniform(-1, 1))), float(rng.normal())
    sg = float(rng.choice([-1, 1]))
    cases = [
        ('cube', lambda x: sg * x ** 3 + b, {}, lambda: rng.uniform(-1e3, 1e3), None),
        ('linear', lambda x: sg * a * x + b, {}, lambda: rng.uniform(-1e4, 1e4), None),
        ('exp', lambda x: np.exp(sg * x), {}, lambda: 10 ** rng.uniform(-3, 3), None),
        ('sinh', np.sinh, {}, lambda: rng.uniform(-1e3, 1e3), None),
        ('log10', np.log10, dict(domain=0, open_domain=True), lambda: rng.uniform(-3, 3), None),
        ('square', lambda x: x ** 2, dict(domain=0), lambda: 10 ** rng.uniform(-3, 4), (0.0, None)),
        ('square-', lambda x: a * x ** 2, dict(domain=[None, 0]), lambda: 10 ** rng.uniform(-3, 4), (0.0, None)),
        ('cos', np.cos, dict(domain=[0, np.pi]), lambda: rng.uniform(-1, 1), (-1.0, 1.0)),
        ('sin', np.sin, dict(domain=(-np.pi / 2, np.pi / 2)), lambda: rng.uniform(-1, 1), (-1.0, 1.0)),
        ('tan', np.tan, dict(domain=[-np.pi / 2, np.pi / 2], open_domain=[True, True]), lambda: rng.normal() * 10 ** rng.uniform(-2, 1.5), None),
        ('arctan', lambda x: np.arctan(x) + 0 * b, dict(image=[-np.pi / 2, np.pi / 2]), lambda: rng.uniform(-1.5, 1.5), (-np.pi / 2, np.pi / 2)),
        ('exp-half', lambda x: np.exp(sg * x), dict(image=[0, None]), lambda: 10 ** rng.uniform(-3, 3), (0.0, None)),
        ('-exp-half', lambda x: b - np.exp(sg * x), dict(image=[None, b]), lambda: b - 10 ** rng.uniform(-3, 3), (None, b)),
        ('power', np.power, dict(args=(3,), domain=[0, 10]), lambda: rng.uniform(0, 1000), (0.0, 1000.0)),
        ('affine-args', lambda x, p, q: p * x + q, dict(args=(sg * a, b), domain=[-3, 5]), lambda: sg * a * rng.uniform(-3, 5) + b, (min(sg * a * -3, sg * a * 5) + b, max(sg * a * -3, sg * a * 5) + b)),
        ('decreasing', lambda x: 1 / (1 + x), dict(domain=[0, 4], open_domain=[False, True]), lambda: 1 / (1 + rng.uniform(0, 3.9)), (0.2, 1.0)),
    ]
    name, f, o, draw, image = cases[int(rng.integers(0, len(cases)))]
    args = o.get('args', ())
    F = lambda x: f(x, *args)
    ys = np.array([float(draw()) for _ in range(int(rng.integers(1, 7)))])
    sh = ys.shape
    if len(ys) == 6:
        ys = ys.reshape(2, 3)
        sh = (2, 3)
    ctx.describe(function=name, values=ys)
    inv = inversefunc(f, **o)
    x = np.asarray(inv(ys))
    ctx.check(x.shape == sh, 'shape of the inverse')
    dom = o.get('domain')
    lo = hi = None
    if dom is not None:
        lo, hi = (dom, None) if not hasattr(dom, '__len__') else dom
        ctx.check((lo is None or np.all(x >= lo - 1e-9)) and (hi is None or np.all(x <= hi + 1e-9)), 'inverse outside of the domain', got=x)
    slope = np.abs(F(x * (1 + 1e-6) + 1e-7) - F(x * (1 - 1e-6) - 1e-7)) if lo is None and hi is None else 0
    tol = 3e-6 * (1 + np.abs(ys)) + 3 * slope
    ctx.check(np.all(np.abs(F(x) - ys) <= tol), 'f(inverse(y)) is not y', function=name, y=ys, back=F(x))
    eq(ctx, inversefunc(f, y_values=ys, **o), x, 'inverse of given values', 1e-9, 1e-9)
    y0 = float(ys.ravel()[0])
    eq(ctx, float(inv(y0)), float(x.ravel()[0]), 'inverse of one value', 1e-7, 1e-7)
    eq(ctx, inv(list(ys.ravel())), x.ravel(), 'inverse of a list', 1e-7, 1e-7)
    if image is not None:
        op = o.get('open_domain', [False, False])
        for y, dx in ((image[0], -1), (image[1], 1)):
            if y is None:
                continue
            for e in (.1, 1e-3, 10):
                raises(ctx, lambda: inv([y0, y + dx * e * (1 + abs(y))]), 'a value outside of the image was inverted', function=name, y=y + dx * e * (1 + abs(y)), kinds=(ValueError,))
        if not any(op) and name not in ('arctan', 'square', 'square-', 'exp-half', '-exp-half'):
            for end in o['domain']:
                eq(ctx, float(inv(float(F(float(end))))), float(end), 'inverse at the end of the domain', 1e-6, 1e-6)
        if name == 'decreasing':
            raises(ctx, lambda: inv(.2), 'the value at an open end was inverted', kinds=(ValueError,))
            eq(ctx, float(inv(1.0)), 0.0, 'inverse at the closed end', 1e-9, 1e-9)
    for bad in (dict(domain=[2, 1]), dict(domain=[1, 1]), dict(domain=[1, 2, 3]), dict(image=[3, 1]), dict(image=[1]), dict(open_domain=[True]), dict(domain=[[1, 2]])):
        raises(ctx, lambda: inversefunc(lambda x: x, **bad), 'impossible interval accepted', bad=str(bad), kinds=(ValueError,))
    c = float(rng.normal())
    raises(ctx, lambda: inversefunc(lambda x: c), 'a constant function was inverted', kinds=(ValueError,))
    raises(ctx, lambda: inversefunc(lambda x: (x - .5) ** 2), 'a function that is not monotonic was inverted', kinds=(ValueError,))
    raises(ctx, lambda: inversefunc(lambda x: x ** 2, domain=[-2, 2]), 'a function that is not monotonic was inverted', kinds=(ValueError,))
    ctx.event('inverses')
    ctx.event('inverse_of_' + name)
    ctx.sig('inv', name, tuple(np.round(ys.ravel(), 9)))

def run_case(ctx, rng, i):
    with np.errstate(all='ignore'):
        if i % 4 == 3:
            for _ in range(4):
                inverses(ctx, rng)
        else:
            [densities, lambda c, r: convolution(c, r, i // 4), histograms][i % 4](ctx, rng)
