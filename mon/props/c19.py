"""Paired-comparison scales against an independently coded maximum-likelihood solution, its curvature and its invariances, on strongly connected designs.
Non-trivial: at least three videos; ties, partial designs and unbalanced counts are counted."""
import math
import numpy as np
from scipy.stats import norm as gauss
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 300 if tier == 'quick' else 4000

def connected(A):
    M = len(A)
    for B in (A, A.T):
        seen, todo = {0}, [0]
        while todo:
            x = todo.pop()
            for y in range(M):
                if B[x, y] > 0 and y not in seen:
                    seen.add(y)
                    todo.append(y)
        if len(seen) < M:
            return False
    return True

def fit(A, kind):
    """damped Newton on the centred scale"""
    M = len(A)
    v = np.zeros(M)
    def ll(v):
        D = v[:, None] - v[None]
        L = -np.logaddexp(0, -D) if kind == 'bt' else gauss.logcdf(D)
        return float(np.sum(A * L))
    def gh(v):
        D = v[:, None] - v[None]
        if kind == 'bt':
            s = 1 / (1 + np.exp(D))          # d log sigma
            g1, g2 = s, -s * (1 - s)
        else:
            r = np.exp(gauss.logpdf(D) - gauss.logcdf(D))
            g1, g2 = r, -r * (D + r)
        P = A * g1
        g = P.sum(1) - P.sum(0)
        Q = A * g2
        Q = Q + Q.T
        np.fill_diagonal(Q, 0)
        return g, np.diag(Q.sum(1)) - Q
    for _ in range(500):
        g, H = gh(v)
        step = np.linalg.lstsq(-H + np.ones((M, M)), g, rcond=None)[0]
        t, l0 = 1.0, ll(v)
        while ll(v + t * step) < l0 - 1e-13 * abs(l0) and t > 1e-8:
            t /= 2
        v = v + t * step
        v = v - v.mean()
        if np.max(np.abs(step)) < 1e-12:
            break
    return v, ll, gh

def bordered(L):
    M = len(L)
    return np.linalg.pinv(np.vstack([np.hstack([-L, np.ones([M, 1])]), np.hstack([np.ones([1, M]), np.zeros((1, 1))])]))

def closecov(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.nanmax(np.abs(b)) if np.any(np.isfinite(b)) else 1
    return ref.close(a, b, 1e-5, 1e-6 * s + 1e-12)

def run_case(ctx, rng, i):
    from sureal.dataset_reader import PairedCompDatasetReader
    M = int(rng.integers(2, 9)) if i % 7 else 2
    if i % 30 == 11:
        M = int(rng.integers(14, 24))
    for _ in range(60):
        pc = gen.make_pc(rng, M=M, S=int(rng.integers(3, 14)) if i % 6 else int(rng.integers(20, 60)), beta=float(rng.choice([.2, .5, 1.0])) if i % 6 else float(rng.choice([1.0, 2.0])), ties=float(rng.choice([0, .1, .4])), density=float(rng.choice([1, .8, .5])))
        if rng.random() < .3:
            drop = [(a, b) for a in range(M) for b in range(a + 1, M) if rng.random() < .3]
            pc['out'] = {k: v for k, v in pc['out'].items() if (k[1], k[2]) not in drop}
        if i % 9 == 4:       # a chain: every video compared with its neighbours only
            M = int(rng.integers(8, 14))
            pc = gen.make_pc(rng, M=M, S=int(rng.integers(14, 24)), beta=.4, ties=.1, density=1.0)
            line = [int(x) for x in rng.permutation(M)]
            near = {(min(a, b), max(a, b)) for a, b in zip(line, line[1:])}
            pc['out'] = {k: v for k, v in pc['out'].items() if (k[1], k[2]) in near}
        if not pc['out']:
            continue
        A = np.nansum(gen.pc_table(pc)[0], 2)
        if connected(A):
            vb, llb, ghb = fit(A, 'bt')
            if np.ptp(vb) < 5.5 and (i % 9 != 4 or np.ptp(vb) < 3.5):
                break
    else:
        ctx.skip('no connected design')
    d = gen.pc_dataset(pc, rng, str(rng.choice(['wins', 'first', 'random'])))
    n = A + A.T
    ctx.describe(videos=M, observers=len(pc['subs']), listed=pc['perm'], counts=A.tolist() if M < 6 else None)
    ctx.sig(tuple(pc['perm']), tuple(sorted(pc['out'].items())))
    for key, c in (('ties', 0.5 in pc['out'].values()), ('partial_designs', np.any(n + np.eye(M) == 0)), ('unbalanced_designs', np.ptp(n[~np.eye(M, dtype=bool)]) > 0 if M > 2 else False)):
        if c:
            ctx.event(key)
    rd = PairedCompDatasetReader(d)
    def go(name, reader=None, **o):
        ctx.event('fits_' + name)
        with quiet(), nosleep():
            return model(name)(reader or rd).run_modeling(**o)
    # Bradley-Terry, Newton-Raphson
    try:
        r = go('BT_NR')
        g = np.asarray(r['quality_scores'], float)
    except (ValueError, np.linalg.LinAlgError) as e:
        # Newton's iteration without damping can leave the domain on very uneven counts
        if np.ptp(vb) < 3:
            raise
        g = None
    if g is not None:
        ctx.check(len(g) == M and g[-1] == 0, 'the last video is the origin of the Newton-Raphson scale', got=g)
        eq(ctx, g - g.mean(), vb, 'Newton-Raphson scale is not the maximum-likelihood scale', 1e-6, 1e-6, counts=A)
        if i % 5 == 0:
            for off in (False, None):
                eq(ctx, go('BT_NR', zscore_output=off)['quality_scores'], g, 'z-scored output switched off explicitly', 0, 0)
        if np.std(g) > 1e-6:
            z = np.asarray(go('BT_NR', zscore_output=True)['quality_scores'], float)
            eq(ctx, [z.mean(), z.std()], [0, 1], 'z-scored output', 1e-9, 1e-9)
            eq(ctx, z, (g - g.mean()) / g.std(), 'z-scored output is the standardised scale', 1e-8, 1e-8)
    # Bradley-Terry, minorise-maximise
    r = go('BT_MLE')
    v, p = np.asarray(r['quality_scores'], float), np.asarray(r['quality_scores_p'], float)
    eq(ctx, p.sum(), 1.0, 'probabilities sum to one', 1e-12, 1e-12)
    ctx.check(np.all(p > 0), 'negative probability')
    eq(ctx, v, np.log(p), 'scores are the logarithms of the probabilities', 1e-10, 1e-10)
    # linear convergence: the stopping rule bounds the last change, not the error; the slow directions have curvature ratio rho
    g_, H = ghb(vb)
    w = np.linalg.eigvalsh(-H / np.sqrt(np.outer(n.sum(1), n.sum(1)))) if M > 2 else np.array([0, 1.0])
    gap = max(1e-6, float(np.sort(w)[1]) * 2)
    slow = 1e-8 / max(1e-4, float(np.exp(vb - vb.max()).min() / np.exp(vb - vb.max()).sum())) / gap * 50
    tol = max(1e-5, slow)
    if tol < 5e-2:
        eq(ctx, v - v.mean(), vb, 'minorise-maximise scale is not the maximum-likelihood scale', tol, tol, counts=A)
        ctx.event('mm_compared')
    sd, sdp = np.asarray(r['quality_scores_std'], float), np.asarray(r['quality_scores_p_std'], float)
    eq(ctx, sd, sdp / p, 'deviation of the scores from that of the probabilities', 1e-9, 1e-12)
    eq(ctx, r['quality_scores_ci95'], [1.95996 * sd] * 2, 'intervals', 1e-9, 1e-12)
    cv, cp = np.asarray(r['quality_scores_v_cov'], float), np.asarray(r['quality_scores_p_cov'], float)
    eq(ctx, cv, cp / np.outer(p, p), 'covariance of the scores from that of the probabilities', 1e-9, 1e-12)
    with np.errstate(invalid='ignore'):
        eq(ctx, sdp, np.sqrt(np.diagonal(cp)), 'deviations are the diagonal of the covariance', 1e-9, 1e-12)
    pp = p[:, None] + p[None]
    dii = np.sum(-A / p[:, None] ** 2 + n / pp ** 2, axis=1)
    true = bordered(n / pp ** 2 * (1 - np.eye(M)) + np.diag(dii))[:-1, :-1]
    asis = bordered(n / pp * 2 + np.diag(dii))[:-1, :-1]
    if closecov(cp, true):
        ctx.event('covariance_of_the_likelihood')
    elif closecov(cp, asis):
        ctx.finding('bt-mle-covariance', 'BT_MLE covariance is not that of the likelihood')
        ctx.event('covariance_as_listed_finding')
    else:
        ctx.fail('BT_MLE covariance', got=cp[:3], true=true[:3])
    # Thurstone
    vt, llt, ght = fit(A, 'thurstone')
    extreme = np.max(np.abs(vt[:, None] - vt[None])) > 3.5
    if not extreme:
        simple = bool(rng.random() < .5)
        with_opt = {} if rng.random() < .4 else {'use_simplified_lbda': simple}
        try:
            r = go('THURSTONE_MLE', **with_opt)
        except AssertionError as e:
            if 'unsuccessful' in str(e):
                r = None
                ctx.event('thurstone_refused')
            else:
                raise
        if r is not None:
            v = np.asarray(r['quality_scores'], float)
            ctx.check(len(v) == M, 'one score per video')
            c = v - v.mean()
            short = llt(vt) - llt(v)
            ctx.check(-1e-6 < short < 1e-5 * (1 + .01 * n.sum()), 'Thurstone scale is not the maximum-likelihood scale', lacking=short, got=c, want=vt)
            eq(ctx, c, vt, 'Thurstone scale is not the maximum-likelihood scale', 1e-3, 1e-3, counts=A)
            sd = np.asarray(r['quality_scores_std'], float)
            eq(ctx, r['quality_scores_ci95'], [1.95996 * sd] * 2, 'intervals', 1e-9, 1e-12)
            D = v[:, None] - v[None]
            F, f = gauss.cdf(D), gauss.pdf(D)
            G = (-D * F * f - f ** 2) / F ** 2
            B = A * G + (A * G).T
            np.fill_diagonal(B, 0)
            with np.errstate(invalid='ignore'):
                true = np.sqrt(np.diagonal(bordered(np.diag(B.sum(1)) - B))[:-1])
                B1 = n * G
                asis = np.sqrt(np.diagonal(bordered(np.diag(B1.sum(1)) - B1))[:-1])
            if closecov(sd, true):
                ctx.event('deviation_of_the_likelihood')
            elif closecov(sd, asis):
                ctx.finding('thurstone-covariance', 'Thurstone deviations are not those of the likelihood')
                ctx.event('deviation_as_listed_finding')
            else:
                ctx.fail('Thurstone deviations', got=sd, true=true)
            if np.std(v) > 1e-2 and i % 3 == 0:
                z = go('THURSTONE_MLE', zscore_output=True, **with_opt)
                q = np.asarray(z['quality_scores'], float)
                eq(ctx, [q.mean(), q.std()], [0, 1], 'z-scored output', 1e-9, 1e-9)
                eq(ctx, q, c / v.std(), 'z-scored output is the standardised scale', 1e-8, 1e-8)
                eq(ctx, z['quality_scores_std'], sd / v.std(), 'z-scored deviations', 1e-8, 1e-8)
                eq(ctx, z['quality_scores_ci95'], [1.95996 * np.asarray(z['quality_scores_std'])] * 2, 'z-scored intervals', 1e-9, 1e-12)
    # relabelling: videos listed in another order, other ids, other observer names
    if i % 2 == 0:
        perm = [int(x) for x in rng.permutation(M)]       # new id of old id
        ren = {s: 'r%02d' % k for k, s in enumerate(rng.permutation(pc['subs']))}
        out = {}
        for (s, a, b), x in pc['out'].items():
            a2, b2 = perm[a], perm[b]
            out[(ren[s], min(a2, b2), max(a2, b2))] = x if a2 < b2 else 1 - x
        pc2 = dict(pc, out=out, subs=sorted(ren.values()), perm=[int(x) for x in rng.permutation(M)])
        rd2 = PairedCompDatasetReader(gen.pc_dataset(pc2, rng, 'first'))
        at1 = {a: k for k, a in enumerate(pc['perm'])}
        at2 = {a: k for k, a in enumerate(pc2['perm'])}
        for name, t in (('BT_NR', 1e-6), ('BT_MLE', 2 * tol), ('THURSTONE_MLE', 2e-3)):
            if name == 'THURSTONE_MLE' and (extreme or i % 4):
                continue
            if name == 'BT_NR' and g is None:
                continue
            try:
                a, b = (np.asarray(go(name, x)['quality_scores'], float) for x in (rd, rd2))
            except AssertionError as e:
                if 'unsuccessful' in str(e):
                    continue
                raise
            a, b = a - a.mean(), b - b.mean()
            eq(ctx, [b[at2[perm[k]]] for k in range(M)], [a[at1[k]] for k in range(M)], name + ': scores depend on labels', t, t)
            ctx.event('relabelled')
    # counts given directly, also fractional
    if i % 3 == 1:
        A2 = A + rng.uniform(0, 2, size=(M, M)) * (n > 0)
        np.fill_diagonal(A2, 0)
        v2 = fit(A2, 'bt')[0]
        with quiet(), nosleep():
            o = model('BT_MLE').resolve_model(A2)
            o2 = model('BT_MLE').resolve_model(A2, display=False)
        ctx.check(same(list(o), list(o2)) is None, 'display option changes the result')
        x = np.asarray(o[0], float)
        if tol < 5e-2:
            eq(ctx, x - x.mean(), v2, 'minorise-maximise scale of given counts', 5 * tol, 5 * tol)
