"""Models run on data simulated (by the monitor) from known parameters; error, interval coverage and interval width are pooled over many draws
per case and judged with margins of at least six standard errors. Non-trivial: at least 24 videos, 12 observers, 6 draws."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

MIN_EVALS = 50

def num_cases(tier):
    return 56 if tier == 'quick' else 640

def sim(rng, E, S, R=1, C=4, amb=0.0, missing=0.0, vr=(.45, .9), spam=0, bad=None, truth=None):
    st = gen.make_study(rng, E=E, S=S, C=C, missing=0, reps=1, scale='cont', refs=False, erratic=0, unused_content=False, cgap=False)
    q = rng.uniform(1.5, 4.5, E)
    b = rng.normal(0, .4, S)
    b -= b.mean()
    v = rng.uniform(vr[0], vr[1], S)
    if bad is not None:
        v[bad] = 2.6
    a = rng.uniform(0, 1, C) * amb
    if truth is not None:
        q, b, v, a = truth
    ce = np.array([x['content_id'] for x in st.videos])
    X = q[:, None, None] + b[None, :, None] + rng.normal(size=(E, S, R)) * np.sqrt(v[None, :, None] ** 2 + a[ce][:, None, None] ** 2)
    if spam:
        X[:, :spam, :] = rng.uniform(1, 5, size=(E, spam, R))
    for e in range(E):
        for s in range(S):
            st.votes[e][s] = None if rng.random() < missing else [float(x) for x in X[e, s]]
    for e in range(E):
        if all(x is None for x in st.votes[e]):
            st.votes[e][0] = [float(X[e, 0, 0])]
    return st, q, b, v, a, ce

def go(name, st, rng, shape='list'):
    # list-style votes keep the observers in the order of the truth
    with quiet():
        return run(name, raw_reader(gen.dataset(st, 'list', None)))

def cover(r, key, truth):
    y = np.asarray(r[key], float)
    l, u = np.asarray(r[key + '_ci95'], float)
    return (y - l <= truth) & (truth <= y + u)

def rmse(a, b):
    return math.sqrt(float(np.mean((np.asarray(a, float) - b) ** 2)))

def collapsed(r):
    # the likelihood has singular points at zero inconsistency; a draw that ends in one says nothing about the truth
    return 'observer_inconsistency' in r and float(np.min(r['observer_inconsistency'])) < .15

P910S = ['P910', 'Subject_MLE_Projection', 'MLE_CO_AP', 'MLE_CO_AP2']

def run_case(ctx, rng, i):
    kind = i % 8
    E, S = int(rng.integers(40, 70)), int(rng.integers(22, 30))
    R = 1 if rng.random() < .7 else 2
    missing = float(rng.choice([0, .1, .25]))
    ctx.sig(kind, E, S, R, missing, i)
    if kind in (0, 1, 2):
        # recovery and coverage of the observer-bias models
        name = str(rng.choice(P910S)) if kind == 0 else ('MLE_CO' if kind == 1 else 'BR_MOS')
        K = {0: 50, 1: 14, 2: 50}[kind]
        ctx.describe(kind='recovery', model=name, E=E, S=S, R=R, missing=missing, draws=K)
        cov = {k: [] for k in 'qbv'}
        err = {k: [] for k in 'qbv'}
        ncol = 0
        plain, theo = [], {'b': [], 'v': []}
        for _ in range(K):
            st, q, b, v, a, ce = sim(rng, E, S, R, missing=missing)
            r = go(name, st, rng)
            ctx.event('simulated_studies')
            if collapsed(r):
                ncol += 1
                continue
            err['q'].append(rmse(r['quality_scores'], q))
            cov['q'] += list(cover(r, 'quality_scores', q))
            err['b'].append(rmse(r['observer_bias'], b))
            n = E * (1 - missing) * R
            theo['b'].append(math.sqrt(np.mean(v ** 2) / n))
            theo['v'].append(math.sqrt(np.mean(v ** 2) / (2 * n)))
            m = go('MOS', st, rng)
            plain.append(rmse(m['quality_scores'], q))
            if name != 'BR_MOS':
                err['v'].append(rmse(r['observer_inconsistency'], v))
                cov['b'] += list(cover(r, 'observer_bias', b))
                cov['v'] += list(cover(r, 'observer_inconsistency', v))
        ctx.check(ncol <= .3 * K, 'the inconsistency of some observer vanished in most draws', collapsed=ncol, draws=K, model=name)
        ctx.event('collapsed_draws', ncol)
        for k, c in cov.items():
            if c:
                p, n = float(np.mean(c)), len(c)
                marg = 6 * math.sqrt(.92 * .08 / n)
                ctx.event('interval_coverages', n)
                floor = {'q': .91 if name in ('P910', 'MLE_CO_AP2', 'BR_MOS') else .88, 'b': .90, 'v': .875}[k] - marg
                ctx.check(floor <= p <= .95 + marg + .015, 'the 95%% intervals of %s contain the truth %.1f%% of the time' % (k, 100 * p), model=name, n=n, floor=floor)
        for k in ('b', 'v'):
            if err[k]:
                ratio = float(np.mean(err[k]) / np.mean(theo[k]))
                ctx.check(.75 < ratio < 1.35, 'error of the recovered %s is %.2f times what the number of votes allows' % (k, ratio), model=name)
        ctx.check(np.mean(err['q']) <= 1.03 * np.mean(plain), 'quality is recovered worse than by plain averaging', model=name, got=float(np.mean(err['q'])), plain=float(np.mean(plain)))
        if name != 'BR_MOS':
            ctx.check(np.mean(err['q']) <= .99 * np.mean(plain), 'weighting observers by consistency gains nothing', model=name, got=float(np.mean(err['q'])), plain=float(np.mean(plain)))
        else:
            if missing > 0:
                ctx.check(np.mean(err['q']) <= .995 * np.mean(plain), 'removing the bias gains nothing on an incomplete design', got=float(np.mean(err['q'])), plain=float(np.mean(plain)))
    elif kind == 3:
        # the full model
        K = 7
        C = 3
        ctx.describe(kind='full model', E=E, S=S, R=R, missing=missing, draws=K)
        eq_, eb, ev, pl, cov, dv = [], [], [], [], [], []
        for _ in range(K):
            st, q, b, v, a, ce = sim(rng, E, S, R, C=C, amb=.8, missing=missing)
            try:
                r = go('MLE', st, rng)
            except ValueError:
                continue
            ctx.event('simulated_studies')
            eq_.append(rmse(r['quality_scores'], q))
            eb.append(rmse(r['observer_bias'], b))
            tot = np.asarray(r['observer_inconsistency'], float)[:, None] ** 2 + np.asarray(r['content_ambiguity'], float)[None] ** 2
            true = v[:, None] ** 2 + a[None] ** 2
            ev.append(float(np.median(np.abs(tot / true - 1))))
            dv.append(float(np.median(tot / true)))
            pl.append(rmse(go('MOS', st, rng)['quality_scores'], q))
            cov += list(cover(r, 'quality_scores', q))
        ctx.check(len(eq_) >= 4, 'the full model failed on most simulated studies')
        p, n = float(np.mean(cov)), len(cov)
        ctx.check(p >= .88 - 6 * math.sqrt(.9 * .1 / n), 'the 95%% intervals of the full model contain the truth %.1f%% of the time' % (100 * p), n=n)
        ctx.check(np.mean(eq_) <= 1.05 * np.mean(pl), 'quality is recovered worse than by plain averaging', got=eq_, plain=pl)
        th = math.sqrt(np.mean(true) / (E * (1 - missing) * R))
        ctx.check(np.mean(eb) < 1.6 * th, 'biases are not recovered', got=eb, expected=th)
        ctx.check(np.mean(ev) < 6 * math.sqrt(1.0 / (E * R * (1 - missing))), 'inconsistency and ambiguity are not recovered', relative_error=ev)
        ctx.check(.8 < np.mean(dv) < 1.2, 'the total variance is not recovered', ratio=dv)
    elif kind == 4:
        # more votes, smaller errors; more observers, narrower intervals
        name = str(rng.choice(P910S + ['BR_MOS', 'SR_MOS', 'MOS']))
        e0, s0, K = 30, 20, 24
        ctx.describe(kind='scaling', model=name, draws=K)
        e1, e4, w1, w4, b1, b4, wb1, wb4 = ([] for _ in range(8))
        for _ in range(K):
            for (E_, S_, er, wi) in ((e0, s0, e1, w1), (e0, 4 * s0, e4, w4)):
                st, q, b, v, a, ce = sim(rng, E_, S_, 1)
                r = go(name, st, rng)
                if collapsed(r):
                    ctx.event('collapsed_draws')
                    continue
                er.append(rmse(r['quality_scores'], q))
                wi.append(float(np.mean(r['quality_scores_ci95'])))
                ctx.event('simulated_studies')
            if name in P910S:
                for (E_, S_, er, wi) in ((e0, s0, b1, wb1), (4 * e0, s0, b4, wb4)):
                    st, q, b, v, a, ce = sim(rng, E_, S_, 1)
                    r = go(name, st, rng)
                    if collapsed(r):
                        ctx.event('collapsed_draws')
                        continue
                    er.append(rmse(r['observer_bias'], b))
                    wi.append(float(np.mean(r['observer_bias_ci95'])))
                    ctx.event('simulated_studies')
        ctx.check(min(len(e1), len(e4)) >= .6 * K, 'the inconsistency of some observer vanished in most draws', model=name)
        ctx.check(.35 < np.mean(e4) / np.mean(e1) < .68, 'four times the observers do not halve the error', ratio=float(np.mean(e4) / np.mean(e1)), model=name)
        ctx.check(.43 < np.mean(w4) / np.mean(w1) < .59, 'four times the observers do not halve the intervals', ratio=float(np.mean(w4) / np.mean(w1)), model=name)
        if b1:
            ctx.check(.35 < np.mean(b4) / np.mean(b1) < .68, 'four times the videos do not halve the error of the biases', ratio=float(np.mean(b4) / np.mean(b1)), model=name)
            ctx.check(.43 < np.mean(wb4) / np.mean(wb1) < .59, 'four times the videos do not halve the intervals of the biases', ratio=float(np.mean(wb4) / np.mean(wb1)), model=name)
    elif kind == 5:
        # single unreliable observer
        for _ in range(12):
            bad = int(rng.integers(0, S))
            st, q, b, v, a, ce = sim(rng, E, S, R, missing=missing, bad=bad)
            for name in (str(rng.choice(P910S)), 'MLE_CO' if _ % 4 == 0 else 'P910'):
                r = go(name, st, rng)
                ctx.event('simulated_studies')
                w = np.asarray(r['observer_inconsistency'], float)
                ctx.check(int(np.argmax(w)) == bad, 'the unreliable observer is not the one of the largest inconsistency', model=name, bad=bad, inconsistency=w)
                ctx.check(1.4 < w[bad] < 3.8, 'inconsistency of the unreliable observer', model=name, got=float(w[bad]))
        ctx.describe(kind='unreliable observer', E=E, S=S, R=R, missing=missing)
    elif kind == 6:
        # spammers
        K = 16
        sp = int(rng.integers(3, 7))
        name = str(rng.choice(P910S))
        d1, d0 = [], []
        for _ in range(K):
            st, q, b, v, a, ce = sim(rng, E, S, R, missing=missing, spam=sp)
            r = go(name, st, rng)
            m = go('MOS', st, rng)
            ctx.event('simulated_studies')
            d1.append(rmse(r['quality_scores'] - np.mean(r['quality_scores']), q - q.mean()))
            d0.append(rmse(m['quality_scores'] - np.mean(m['quality_scores']), q - q.mean()))
            w = np.asarray(r['observer_inconsistency'], float)
            ctx.check(np.median(w[:sp]) > np.median(w[sp:]), 'spammers are not the more inconsistent observers', w=w)
        ctx.describe(kind='spammers', model=name, spammers=sp, E=E, S=S, error=float(np.mean(d1)), plain=float(np.mean(d0)))
        ctx.check(np.mean(d1) < .85 * np.mean(d0), 'spammers damage the result as much as plain averaging', got=float(np.mean(d1)), plain=float(np.mean(d0)), model=name)
    else:
        # no systematic error: the mean estimate over draws of one truth is the truth
        name = str(rng.choice(P910S + ['BR_MOS']))
        K = 40
        base = sim(rng, E, S, R)
        q, b, v, a = base[1], base[2], base[3], base[4]
        Q, B, V, SQ, SB, SV = [], [], [], [], [], []
        for _ in range(K):
            st = sim(rng, E, S, R, truth=(q, b, v, a))[0]
            r = go(name, st, rng)
            ctx.event('simulated_studies')
            if collapsed(r):
                ctx.event('collapsed_draws')
                continue
            Q.append(r['quality_scores']); B.append(r['observer_bias'])
            if name != 'BR_MOS':
                V.append(r['observer_inconsistency'])
                SQ.append(r['quality_scores_std']); SB.append(r['observer_bias_std']); SV.append(r['observer_inconsistency_std'])
        ctx.check(len(Q) >= .6 * K, 'the inconsistency of some observer vanished in most draws', model=name)
        K = len(Q)
        ctx.describe(kind='systematic error', model=name, E=E, S=S, draws=K)
        for est, tr, what in ((Q, q, 'quality'), (B, b, 'bias')):
            z = (np.mean(est, 0) - tr) / (np.std(est, 0, ddof=1) / math.sqrt(K))
            ctx.check(np.max(np.abs(z)) < 8.5, 'systematic error of ' + what, model=name, z=float(np.max(np.abs(z))))
        if V:
            ratio = np.mean(V, 0) / v
            # the ML deviation is biased low by about (1 - 1/(2E) - ...): a few percent
            ctx.check(np.all(ratio > .8) and np.all(ratio < 1.12), 'systematic error of inconsistency', model=name, ratio=ratio)
            for est, sd, what in ((Q, SQ, 'quality'), (B, SB, 'bias'), (V, SV, 'inconsistency')):
                ratio = float(np.mean(np.mean(sd, 0)) / np.mean(np.std(est, 0, ddof=1)))
                ctx.check(.82 < ratio < (1.45 if what == 'quality' and name in ('P910', 'MLE_CO_AP2') else 1.18), 'reported standard deviation of %s is %.2f times the scatter over draws' % (what, ratio), model=name)
        ctx.event('oracle_evaluations', 2)
