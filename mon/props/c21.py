"""Performance metrics on generated pairs of sequences against statistics coded from their definitions, and their invariances. Non-trivial: at
least three items; ties, raw-score lists and mappings are counted."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 1500 if tier == 'quick' else 40000

def ranks(x):
    x = list(x)
    o = sorted(range(len(x)), key=lambda k: x[k])
    r = [0.0] * len(x)
    k = 0
    while k < len(o):
        j = k
        while j + 1 < len(o) and x[o[j + 1]] == x[o[k]]:
            j += 1
        for t in range(k, j + 1):
            r[o[t]] = (k + j) / 2.0 + 1
        k = j + 1
    return r

def pcc(x, y):
    n = len(x)
    mx, my = math.fsum(x) / n, math.fsum(y) / n
    sxy = math.fsum((a - mx) * (b - my) for a, b in zip(x, y))
    sxx, syy = math.fsum((a - mx) ** 2 for a in x), math.fsum((b - my) ** 2 for b in y)
    return sxy / math.sqrt(sxx * syy)

def tau(x, y):
    n = len(x)
    s = tx = ty = 0
    for a in range(n):
        for b in range(a + 1, n):
            u, v = (x[a] > x[b]) - (x[a] < x[b]), (y[a] > y[b]) - (y[a] < y[b])
            s += u * v
            tx += u != 0
            ty += v != 0
    return s / math.sqrt(tx * ty)

def rmse(x, y):
    return math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(x, y)) / len(x))

DEF = {'RMSE': rmse, 'PCC': pcc, 'SRCC': lambda x, y: pcc(ranks(x), ranks(y)), 'KENDALL': tau}

def logistic(pred, gt):
    hi, lo = max(gt) + .1, min(gt) - .1
    z = [math.log((g - lo) / (hi - g)) for g in gt]
    n = len(z)
    mz, mp = math.fsum(z) / n, math.fsum(pred) / n
    szz = math.fsum((a - mz) ** 2 for a in z)
    b = math.fsum((a - mz) * (p - mp) for a, p in zip(z, pred)) / szz
    a = mp - b * mz
    if b == 0:
        return pred, 0.0
    return [lo + (hi - lo) / (1 + math.exp(-max(-700, min(700, (p - a) / b)))) for p in pred], b

def run_case(ctx, rng, i):
    import sureal.perf_metric as pm
    cls = {'RMSE': pm.RmsePerfMetric, 'PCC': pm.PccPerfMetric, 'SRCC': pm.SrccPerfMetric, 'KENDALL': pm.KendallPerfMetric}
    n = int(rng.integers(3, 30)) if i % 20 else int(rng.integers(60, 200))
    kind = str(rng.choice(['cont', 'int', 'int', 'wide', 'mono']))
    if kind == 'int':
        g, p = rng.integers(1, 6, n).astype(float), rng.integers(1, 6, n).astype(float)
    elif kind == 'wide':
        g, p = 10 ** rng.uniform(-2, 2, n), 10 ** rng.uniform(-3, 3, n)
    elif kind == 'mono':
        g = rng.uniform(1, 5, n)
        p = 20 * g + float(rng.choice([0, 1, 10])) * rng.normal(size=n)
    else:
        g, p = rng.uniform(0, 100, n), rng.normal(50, 30, n)
        if rng.random() < .5:
            p = g + rng.normal(0, 10, n)
    if rng.random() < .15:
        p = -p
    raw = bool(rng.random() < .35)
    opts = {}
    G = [float(x) for x in g]
    gt = list(G)
    if raw:
        gt, G = [], []
        agg = str(rng.choice(['default', 'mean', 'median', 'max', 'len']))
        fn = {'default': np.mean, 'mean': np.mean, 'median': np.median, 'max': max, 'len': lambda x: float(sum(x) - min(x))}[agg]
        if agg != 'default':
            opts['aggr_method'] = fn
        for x in g:
            if rng.random() < .15:
                gt.append(float(x))
                G.append(float(x))
            else:
                vs = [float(x + e) for e in rng.integers(-1, 2, int(rng.integers(1, 6)))]
                gt.append({0: list, 1: tuple, 2: np.array}[int(rng.integers(0, 3))](vs))
                G.append(float(fn(vs)))
        ctx.event('raw_score_inputs')
    P = [float(x) for x in p]
    if len(set(G)) < 2 or len(set(P)) < 2:
        ctx.skip('constant sequence')
    form = int(rng.integers(0, 4))
    if form == 1:
        pin = np.array(P)
    elif form == 2:
        pin = tuple(P)
    elif form == 3 and all(x.is_integer() for x in P):
        pin = [int(x) for x in P]
    else:
        pin = list(P)
    if not raw:
        gt = np.array(gt) if rng.random() < .4 else (tuple(gt) if rng.random() < .3 else gt)
    before = gen.snapshot([list(gt), list(pin)])
    if len(set(G)) < n or len(set(P)) < n:
        ctx.event('tied_inputs')
    ctx.describe(n=n, kind=kind, raw=raw, first=list(zip(G, P))[:4])
    ctx.sig(tuple(G), tuple(P), raw)
    def ev(t, a, b, **o):
        ctx.event('evaluations_' + t)
        r = cls[t](a, b).evaluate(**dict(opts, **o))
        ctx.check(isinstance(r, dict) and 'score' in r, 'no score in the result')
        return float(r['score'])
    for t in cls:
        want = DEF[t](G, P)
        s = ev(t, gt, pin)
        eq(ctx, s, want, t + ' is not the defined statistic', 1e-8, 1e-9)
        eq(ctx, ev(t, gt, pin, enable_mapping=False), want, t + ' without mapping', 1e-8, 1e-9)
        # order of the items does not matter
        o = [int(x) for x in rng.permutation(n)]
        eq(ctx, ev(t, [gt[k] for k in o], [pin[k] for k in o]), s, t + ' depends on the order of the items', 1e-8, 1e-9)
        # symmetric
        eq(ctx, ev(t, list(P), list(G)), s, t + ' is not symmetric', 1e-8, 1e-9)
        a, b = float(rng.uniform(.2, 5)), float(rng.normal(0, 10))
        if t != 'RMSE':
            ctx.check(-1 - 1e-9 <= s <= 1 + 1e-9, t + ' outside of [-1, 1]', got=s)
            tol = 1e-8 if t == 'PCC' else 1e-9
            Q = [round(a * x + b, 9) for x in P] if kind == 'int' else [a * x + b for x in P]
            if t == 'PCC' or ranks(Q) == ranks(P):
                eq(ctx, ev(t, gt, Q), s, t + ' is not invariant to an affine map', tol, tol)
                eq(ctx, ev(t, gt, [-x for x in Q]), -s, t + ' does not change sign under reversal', tol, tol)
            eq(ctx, ev(t, G, G), 1.0, t + ' of a sequence with itself', 1e-9, 1e-9)
        else:
            ctx.check(s >= 0, 'negative RMSE')
            eq(ctx, ev(t, G, G), 0.0, 'RMSE of a sequence with itself', 0, 1e-12)
            eq(ctx, ev(t, [x + b for x in G], [x + b for x in P]), s, 'RMSE changes under a common shift', 1e-7, 1e-7)
            eq(ctx, ev(t, [x * a for x in G], [x * a for x in P]), a * s, 'RMSE does not scale', 1e-8, 1e-9)
        if t in ('SRCC', 'KENDALL'):
            m = max(map(abs, P))
            Q = [math.exp(x / m) for x in P]
            if ranks(Q) == ranks(P):
                eq(ctx, ev(t, gt, Q), s, t + ' is not invariant to an increasing map', 1e-9, 1e-9)
    # mapping
    M, slope = logistic(P, G)
    lo, hi = min(G) - .1, max(G) + .1
    inside = all(lo < x < hi for x in M) and slope != 0
    if inside and abs(pcc(P, G)) > 1e-3 and abs(slope) > 1e-6 * (max(P) - min(P)):
        m = np.asarray(cls['RMSE'].sigmoid_adjust(list(pin), list(G)), float)
        ctx.check(m.shape == (n,) and np.all(m >= lo - 1e-9) and np.all(m <= hi + 1e-9), 'mapped predictions leave the range of the ground truth', lo=lo, hi=hi, got=[float(m.min()), float(m.max())])
        o = sorted(range(n), key=lambda k: P[k])
        dm = np.diff(m[o]) * (1 if slope > 0 else -1)
        ctx.check(np.all(dm >= -1e-9), 'the mapping is not monotonic')
        for t in cls:
            if t == 'RMSE' or t == 'PCC':
                cond = len(set(np.round(M, 9))) >= 2 and (np.std(M) > 1e-4 * (hi - lo))
                if cond:
                    eq(ctx, ev(t, gt, pin, enable_mapping=True), DEF[t](G, M), t + ' with mapping', 1e-5, 1e-6)
                    a, b = float(rng.uniform(.2, 5)), float(rng.normal(0, 10))
                    eq(ctx, ev(t, gt, [a * x + b for x in P], enable_mapping=True), DEF[t](G, M), t + ' with mapping depends on the unit of the predictions', 1e-5, 1e-6)
            else:
                if ranks(np.round(M, 10)) == ranks(M) == (ranks(P) if slope > 0 else ranks([-x for x in P])):
                    eq(ctx, ev(t, gt, pin, enable_mapping=True), DEF[t](G, P) * (1 if slope > 0 else -1), t + ' with mapping', 1e-8, 1e-9)
        ctx.event('mappings')
    # refusal
    for t in cls:
        raises(ctx, lambda: cls[t](list(gt)[:-1], pin).evaluate(), 'sequences of different lengths accepted', metric=t)
        raises(ctx, lambda: cls[t](gt, list(pin) + [1.0]).evaluate(), 'sequences of different lengths accepted', metric=t)
        raises(ctx, lambda: cls[t](gt, list(pin)[:1]).evaluate(enable_mapping=False), 'sequences of different lengths accepted', metric=t)
        raises(ctx, lambda: cls[t](list(gt)[:1], pin).evaluate(enable_mapping=False), 'sequences of different lengths accepted', metric=t)
    ctx.check(gen.snapshot([list(gt), list(pin)]) == before, 'the inputs changed')
    for t in cls:
        ctx.check(pm.PerfMetric.find_subclass(t) is cls[t], 'metric name resolves otherwise', name=t)
