"""The maximum-likelihood models on random studies, judged by an independently coded Gaussian log-likelihood: gradient, starting point,
curvature, disabled parameters, agreement of gradient methods. Non-trivial: converged solution whose smallest vote deviation is above 0.03."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 400 if tier == 'quick' else 5000

NAMES = [('MLE', 'full'), ('MLE_CO', 'co'), ('MLE', 'full'), ('MLE_SO', 'so'), ('DMOS_MLE', 'full'), ('MLE_CO', 'co'), ('DMOS_MLE_CO', 'co'), ('MLE', 'full')]

def second(ctx, name, d, opts):
    try:
        with quiet():
            return model(name)(raw_reader(d)).run_modeling(**opts)
    except ValueError as e:
        if 'infs or NaNs' in str(e):
            ctx.skip('the second iteration diverged (refused by the package)')
        raise

def densities(ctx, rng):
    """the log-likelihood of the selectable vote densities, summed over videos or observers, against quadrature"""
    from scipy.integrate import quad
    fcn = getattr(model('MLE'), 'loglikelihood_fcn', None)
    if fcn is None:
        ctx.skip('no such entry point')
    E, S, C = int(rng.integers(2, 5)), int(rng.integers(2, 4)), int(rng.integers(1, 4))
    x, b = rng.normal(3, 1, E), rng.normal(0, .4, S)
    v, a = rng.uniform(.3, 1.3, S), rng.uniform(.3, 1.3, C)
    ce = [int(rng.integers(0, C)) for _ in range(E)]
    for pdf in ('gaussian', 'logistic', 'uniform'):
        R = int(rng.integers(1, 4)) if pdf == 'gaussian' else 1
        X = np.empty((E, S, R))
        L = np.full((E, S, R), np.nan)
        for e in range(E):
            for s in range(S):
                for k in range(R):
                    va, vb = v[s], a[ce[e]]
                    # inside the support of the uniform density
                    y = float(rng.uniform(-1, 1)) * (va + vb) * (math.sqrt(3) * .97 if pdf == 'uniform' else 2)
                    X[e, s, k] = x[e] + b[s] + y
                    if pdf == 'gaussian':
                        if rng.random() < .2:
                            X[e, s, k] = np.nan
                            continue
                        q = va ** 2 + vb ** 2
                        L[e, s, k] = -.5 * math.log(2 * math.pi * q) - y * y / 2 / q
                    elif pdf == 'logistic':
                        q1, q2 = va * math.sqrt(3) / math.pi, vb * math.sqrt(3) / math.pi
                        f = lambda t, q: 1 / (4 * q) / math.cosh(t / 2 / q) ** 2
                        L[e, s, k] = math.log(quad(lambda t: f(t, q1) * f(y - t, q2), -40, 40, points=[0, y], limit=400)[0])
                    else:
                        w1, w2 = va * math.sqrt(12), vb * math.sqrt(12)
                        L[e, s, k] = math.log((min(w1 / 2, y + w2 / 2) - max(-w1 / 2, y - w2 / 2)) / w1 / w2)
        for axis in (0, 1):
            with quiet():
                got = fcn(X, x, b, v, a, ce, axis, pdf)
            n = (E if axis == 0 else S) * R
            eq(ctx, got, np.nansum(L, axis=(axis, 2)), 'log-likelihood of %s votes along axis %d' % (pdf, axis), 0, n * (2e-2 if pdf == 'logistic' else 1e-9))
        ctx.event('densities_' + pdf)
    ctx.describe(kind='densities', E=E, S=S, C=C)
    ctx.sig('densities', E, S, C, tuple(x))

def run_case(ctx, rng, i):
    if i == 0:         # a study on which the known finding shows
        from mon.core import case_rng
        i, rng = 74, case_rng('C09', 1, 74)
    if i % 40 == 5:
        return densities(ctx, rng)
    name, kind = NAMES[i % len(NAMES)]
    opts = {}
    ds = name.startswith('DMOS')
    zs = False
    u = rng.random()
    method = 'simplified'
    if u < .25:
        opts['gradient_method'] = method = 'original'
    elif u < .3:
        opts['gradient_method'] = 'simplified'
    if rng.random() < .1 and not ds:
        opts['dscore_mode'] = ds = True
    if rng.random() < .1:
        opts['zscore_mode'] = zs = True
    zero = True
    if rng.random() < .4:
        zero = bool(rng.random() < .3)
        opts['force_subjbias_zeromean'] = zero
    if rng.random() < .15:
        opts['delta_thr'] = 1e-9
    for _ in range(40):
        big = i % 13 == 6
        st = gen.make_study(rng, E_range=(28, 45) if big else (7, 16), S_range=(18, 30) if big else (6, 14), C=int(rng.integers(5, 10) if big else rng.integers(1, 5)), missing=float(rng.choice([0, 0, .1, .3])), refs=True if ds else None,
                            min_per_observer=5, erratic=int(rng.integers(0, 3)), nan_votes=bool(rng.random() < .3), spread=float(rng.choice([.5, 1., 1.5])))
        if not ds or ref.has_unique_refs(st):
            break
    else:
        ctx.skip('no suitable study')
    style = str(rng.choice(['list', 'dict', 'tuple']))
    X, names = gen.table(st, style)
    if zs and any(ref.fstd(ref.present(X[:, s]), 1) < 1e-3 for s in range(st.S)):
        ctx.skip('constant observer')
    T = ref.prep(X, st, dscore=ds, zscore=zs)['X']
    ce = np.array([v['content_id'] for v in st.videos])
    C = max(c['content_id'] for c in st.contents) + 1
    d = gen.dataset(st, style, rng, 'mixed')
    ctx.describe(model=name, options=sorted(map(str, opts.items())), style=style, study=st.brief())
    def excuse(why, **what):
        # no solution is excused only where the documented iteration finds none either
        V0, V1 = ref.Votes(X), ref.Votes(T)
        q = ref.mle_iter(T, ce, C, kind, V0.by_e(V0.x) / V0.ne, max_itr=3000)
        fine = q['ok'] and q['it'] < 2500 and np.all(np.isfinite(q['v'])) and np.all(np.isfinite(q['x'])) and np.sqrt(q['v'][V1.s] ** 2 + q['a'][ce[V1.e]] ** 2).min() > .1
        for k in range(4):      # chaotic on the way, if rounding-sized changes of the votes lead elsewhere
            if fine:
                N = np.random.default_rng(k).uniform(-1e-11, 1e-11, T.shape) * (np.nanmax(np.abs(T)) + 1)
                p = ref.mle_iter(T + N, ce, C, kind, V0.by_e(V0.x) / V0.ne, max_itr=3000)
                fine = p['ok'] and p['it'] < 2500 and np.allclose(p['x'], q['x'], 1e-3, 1e-3)
        if fine and max(q['v'].max(), q['a'].max()) < 10 * (np.nanmax(T) - np.nanmin(T)):
            ctx.fail('no solution (%s) where the documented iteration converges' % why, iterations=q['it'], **what)
        ctx.event('excused')
        ctx.skip(why)
    try:
        with quiet():
            r = model(name)(raw_reader(d)).run_modeling(**opts)
    except ValueError as e:
        if 'infs or NaNs' in str(e):
            excuse('the iteration diverged (refused by the package)')
        raise
    ctx.event('runs_' + name)
    S, E = T.shape[1], T.shape[0]
    x = np.asarray(r['quality_scores'], float)
    b = np.asarray(r['observer_bias'], float) if kind != 'so' else np.zeros(S)
    v = np.asarray(r['observer_inconsistency'], float) if kind != 'so' else np.zeros(S)
    a = np.asarray(r['content_ambiguity'], float) if kind != 'co' else np.zeros(C)
    ctx.check(len(x) == E and len(b) == S and len(v) == S and len(a) == C, 'one value per video, observer and content', got=[len(x), len(b), len(v), len(a)], want=[E, S, S, C])
    for k in ('content_ambiguity',) if kind == 'co' else ():
        ctx.check(k not in r or not np.any(np.asarray(r[k], float)), 'content-oblivious model reports an ambiguity')
    for k in ('observer_bias', 'observer_inconsistency') if kind == 'so' else ():
        ctx.check(k not in r or not np.any(np.asarray(r[k], float)), 'subject-oblivious model reports ' + k)
    used = sorted(set(ce))
    a0 = a.copy()
    a0[[c for c in range(C) if c not in used]] = 0
    if r['num_iter'] >= 9000:
        excuse('not converged')
    if not (np.all(np.isfinite(x)) and np.all(np.isfinite(a0)) and np.all(np.isfinite(v))):
        excuse('degenerate likelihood')
    ctx.check(np.all(v >= 0) and np.all(a0 >= 0), 'negative inconsistency or ambiguity')
    V = ref.Votes(T)
    sdv = np.sqrt(v[V.s] ** 2 + a0[ce[V.e]] ** 2)
    if sdv.min() < 3e-2:
        excuse('vanishing variance (the likelihood is unbounded)', inconsistency=v, ambiguity=a)
    rng_votes = float(np.nanmax(T) - np.nanmin(T)) + 1e-3
    big = max(v.max(), a0.max(), np.abs(x).max() - np.abs(T[~np.isnan(T)]).max())
    if big > 1e2 * rng_votes:
        # the undamped tail of the Newton iteration: a known finding only where the documented iteration itself runs away
        V0 = ref.Votes(X)
        q = ref.mle_iter(T, ce, C, kind, V0.by_e(V0.x) / V0.ne)
        runaway = not q['ok'] or not np.all(np.isfinite(q['v'])) or max(q['v'].max(), q['a'].max()) > 1e2 * rng_votes
        if not runaway and np.sqrt(q['v'][V.s] ** 2 + q['a'][ce[V.e]] ** 2).min() < 3e-2:
            ctx.skip('vanishing variance (the likelihood is unbounded)')
        ctx.check(runaway, 'an inconsistency or ambiguity far outside the range of the votes', inconsistency=v, ambiguity=a)
        ctx.event('runaway_iterations')
        if kind == 'full':
            ctx.finding('mle-runaway', 'the Newton iteration of the full maximum-likelihood model ran away')
            return
        ctx.fail('an inconsistency far outside the range of the votes', inconsistency=v)
    ctx.sig(name, sorted(map(str, opts.items())), st.signature())
    sc = float(np.nanmax(np.abs(T))) + 1
    g = ref.mle_grads(V, ce, C, x, b, v, a0)
    step = lambda gg, hh: np.max(np.abs(gg)) / np.min(np.abs(hh))
    tol = 3e-5 * sc
    def newton(gr, he, what, idx=None):
        gr, he = (gr, he) if idx is None else (gr[idx], he[idx])
        # distance to the stationary point; where the curvature nearly vanishes the gradient itself must
        st_ = np.abs(gr) / np.maximum(np.abs(he), 1.0 / sc ** 2)
        ctx.check(np.all(st_ < tol), 'the likelihood is not stationary in ' + what, worst=float(st_.max()), at=int(st_.argmax()), gradient=gr, curvature=he)
        ctx.event('gradients_checked', len(gr))
    newton(g['gx'], g['hx'], 'quality')
    if kind != 'so':
        newton(g['gb'], g['hb'], 'bias')
        newton(g['gv'], g['hv'], 'inconsistency')
    if kind != 'co':
        newton(g['ga'], g['ha'], 'ambiguity', used)
    # starting point
    mos = V.by_e(V.x) / V.ne
    res = V.x - mos[V.e]
    ms = V.by_s(res) / V.ns
    v0 = np.sqrt(V.by_s((res - ms[V.s]) ** 2) / V.ns) if kind != 'so' else np.zeros(S)
    am = np.zeros(C)
    if kind != 'co':
        for c in used:
            rr = res[ce[V.e] == c]
            am[c] = rr.std()
    if np.all(v0[V.s] ** 2 + am[ce[V.e]] ** 2 > 0):
        ll0 = ref.mle_grads(V, ce, C, mos, np.zeros(S), v0, am)['ll']
        ctx.check(g['ll'] >= ll0 - 1e-6 * abs(ll0) - 1e-6, 'the likelihood is below that of the starting point', got=g['ll'], start=ll0)
    # curvature
    rms = math.sqrt(np.mean((V.x - x[V.e] - b[V.s]) ** 2))
    def dev(key, he, idx=None, n=None):
        got = np.asarray(r[key + '_std'], float)
        ci = np.asarray(r[key + '_ci95'], float)
        idx = range(len(got)) if idx is None else idx
        for k in idx:
            h = he[k]
            if h < -0.3 / rms ** 2:
                want = 1 / math.sqrt(-h)
                ctx.check(abs(got[k] - want) <= 2e-3 * want, 'deviation of %s is not the inverse root of the curvature' % key, at=k, got=got[k], want=want)
                if key != 'observer_inconsistency':
                    ctx.check(np.all(np.abs(ci[:, k] - 1.95996 * got[k]) < 1e-9 * (1 + got[k])), 'interval of ' + key, at=k)
    dev('quality_scores', g['hx'])
    if kind != 'so':
        dev('observer_bias', g['hb'])
        dev('observer_inconsistency', g['hv'])
        w = ref.v_ci(v, V.ns)
        for k in (0, 1):
            eq(ctx, r['observer_inconsistency_ci95'][k], w[k], 'inconsistency interval', 1e-6, 1e-9)
        if zero:
            eq(ctx, b.mean(), 0.0, 'biases average to zero', 0, 1e-9 * sc)
    if kind != 'co':
        dev('content_ambiguity', g['ha'], used)
    # other gradient method / zero-mean option
    j = i // len(NAMES)
    if j % 4 in (0, 1) and kind != 'so' and not zero and np.isnan(T).any():
        V0 = ref.Votes(X)
        q = ref.mle_iter(T, ce, C, kind, V0.by_e(V0.x) / V0.ne)
        if q['ok'] and abs(q['b'].mean()) > 1e-3 * sc:
            ctx.check(abs(b.mean()) > 1e-9 * sc, 'the biases average to zero although that is switched off', documented_iteration=float(q['b'].mean()))
            ctx.event('offset_not_forced')
    if j % 4 == 1:
        o2 = dict(opts, gradient_method='original' if method != 'original' else 'simplified')
        r2 = second(ctx, name, d, o2)
        for k in ('quality_scores', 'observer_bias', 'observer_inconsistency', 'quality_scores_std'):
            if k in r:
                dd = same(r[k], r2[k], 1e-5, 1e-6 * sc)
                ctx.check(dd is None, 'the simplified and original gradient methods disagree on ' + k, diff=dd)
        ctx.event('gradient_method_pairs')
    elif j % 4 == 2 and kind != 'so':
        o2 = dict(opts, force_subjbias_zeromean=not zero)
        r2 = second(ctx, name, d, o2)
        dx = np.asarray(r2['quality_scores']) - x
        db = np.asarray(r2['observer_bias']) - b
        eq(ctx, dx, np.full(E, dx[0]), 'zero-mean option changes relative qualities', 0, 1e-8 * sc)
        eq(ctx, db, np.full(S, -dx[0]), 'zero-mean option: bias does not move opposite to quality', 0, 1e-8 * sc)
        for k in ('observer_inconsistency', 'quality_scores_std', 'loglikelihood', 'content_ambiguity'):
            if k in r:
                dd = same(r[k], r2[k], 1e-8, 1e-9)
                ctx.check(dd is None, 'zero-mean option changes ' + k, diff=dd)
        ctx.event('offset_option_pairs')
    elif j % 4 == 3 and sdv.min() > .1 and r['num_iter'] < 1500:
        o2 = dict(opts, gradient_method='numerical')
        o2.pop('delta_thr', None)
        r2 = second(ctx, name, d, o2)
        x2 = np.asarray(r2['quality_scores'], float)
        v2 = np.asarray(r2['observer_inconsistency'], float) if kind != 'so' else v
        a2 = np.asarray(r2['content_ambiguity'], float) if kind != 'co' else a0
        s2 = np.sqrt(v2[V.s] ** 2 + a2[ce[V.e]] ** 2)
        if kind == 'full' and not (np.all(np.isfinite(x2)) and np.all(np.isfinite(s2)) and s2.max() < 1e2 * rng_votes):
            ctx.skip('the numerical method ran away')
        ctx.check(r2['num_iter'] <= 3 * r['num_iter'] + 300, 'the numerical gradient method does not converge where the closed form does',
                  closed=r['num_iter'], numerical=r2['num_iter'])
        eq(ctx, s2, sdv, 'deviation of the votes by the numerical gradient method', 1e-3, 1e-4 * sc)
        for k in ('quality_scores', 'observer_bias'):
            if k in r:
                dd = same(r2[k], r[k], 1e-3, 1e-4 * sc)
                ctx.check(dd is None, 'the numerical gradient method disagrees on ' + k, diff=dd)
        for k, he, ok in (('quality_scores', g['hx'], None), ('observer_bias', g['hb'], None), ('observer_inconsistency', g['hv'], v > .1),
                          ('content_ambiguity', g['ha'], a0 > .1)):
            if k + '_std' in r and not (kind == 'so' and k.startswith('obs')) and not (kind == 'co' and k.startswith('con')):
                p, q = np.asarray(r[k + '_std'], float), np.asarray(r2[k + '_std'], float)
                m = he < -0.3 / rms ** 2
                m = m if ok is None else m & ok
                if m.any():
                    eq(ctx, q[m], p[m], 'deviation of %s by the numerical gradient method' % k, 1e-2, 1e-3)
        ctx.event('numerical_method_pairs')
