"""The P.910 solver on random studies (missing votes, ragged repetitions, spammers, near-perfect observers, long scales), judged twice:
the returned values must satisfy the defining equations vote by vote, and equal an independent alternating solution started from mean
opinion scores; intervals against the documented formulas. Non-trivial: a solution that
rounding does not decide (unchanged to 1e-8 when the votes are perturbed by 1e-11)."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 900 if tier == 'quick' else 9000

VARIANTS = [('P910', 'j'), ('Subject_MLE_Projection', 'i'), ('Subject_MLE_Projection2', 'j'), ('MLE_CO_AP', 'i'), ('MLE_CO_AP2', 'j'), ('P910', 'j')]

def run_case(ctx, rng, i):
    name, kind = VARIANTS[i % len(VARIANTS)]
    opts = {}
    z = [None, True, False, 'absent'][int(rng.integers(0, 4))]
    if z != 'absent':
        opts['force_subjbias_zeromean'] = z
    zero = z is not False
    pre = {}
    u = rng.random()
    ds = False
    if u < .1:
        opts['dscore_mode'] = ds = True
    elif u < .2:
        opts['zscore_mode'] = True
        pre['zscore'] = True
    elif u < .3:
        opts['subject_rejection'] = True
        pre['rejection'] = 'kurtosis'
    elif u < .35:
        opts['bias_offset'] = True
        pre['bias'] = True
    pre['dscore'] = ds
    big = i % 45 == 0
    lo = 3 if i % 3 == 0 else 6
    for _ in range(30):
        st = gen.make_study(rng, E_range=(lo, 40 if big else 16), S_range=(lo - 1, 30 if big else 14), outsize=.01, refs=True if ds else None, C=int(rng.integers(1, 4)) if ds else None,
                            nan_votes=bool(rng.random() < .3), min_per_observer=3, erratic=int(rng.integers(0, 3)), spread=float(rng.choice([.3, 1., 1.5])))
        if not ds or ref.has_unique_refs(st):
            break
    else:
        ctx.skip('no suitable study')
    style = str(rng.choice(['list', 'dict', 'tuple']))
    X, names = gen.table(st, style)
    if any(len(ref.present(X[:, s])) < 2 for s in range(st.S)) or any(not ref.present(X[e]) for e in range(st.E)):
        ctx.skip('too few votes')
    if pre.get('zscore') and any(ref.fstd(ref.present(X[:, s]), 1) < 1e-3 for s in range(st.S)):
        ctx.skip('constant observer')
    try:
        P = ref.prep(X, st, **pre)
    except ref.Ambiguous as e:
        ctx.skip(str(e))
    T = P['X'][:, P['keep'], :]
    if any(not ref.present(T[e]) for e in range(st.E)):
        ctx.skip('a video lost all votes')
    d = gen.dataset(st, style, rng, 'mixed')
    ctx.describe(model=name, options=sorted(map(str, opts.items())), style=style, study=st.brief())
    with np.errstate(all='ignore'):
        Q = ref.p910(T)
        near = [ref.p910(T + rng.uniform(-1, 1, T.shape) * 1e-11 * (1 + np.nanmax(np.abs(T)))) for _ in range(2)]
    with quiet():
        r = model(name)(raw_reader(d)).run_modeling(**opts)
    ctx.event('runs_' + name)
    sc = float(np.nanmax(np.abs(T))) + 1
    n = len(Q['b'])
    ctx.check(len(r['quality_scores']) == st.E and len(r['observer_bias']) == n and len(r['observer_inconsistency']) == n, 'one value per video and observer')
    def stable(key, rt, at):
        return all(ref.close(p[key], Q[key], rt, at) for p in near)
    if not (all(stable(k, 1e-8, 1e-8 * sc) for k in ('s', 'b', 'v'))):
        # rounding decides the solution (weights explode as an inconsistency vanishes): only plausibility is decidable
        ctx.check(np.all(np.isfinite(np.asarray(r['quality_scores'], float))), 'finite scores')
        ctx.skip('ill-conditioned solution')
    ctx.sig(name, sorted(map(str, opts.items())), st.signature())
    V = Q['V']
    s, b, v = (np.asarray(r[k], float) for k in ('quality_scores', 'observer_bias', 'observer_inconsistency'))
    # (1) the defining equations, with the common offset undone
    res = V.x - s[V.e] - b[V.s]
    tol = 2e-6 * sc
    conv = Q['it'] < 1000
    eq(ctx, V.by_s(res) / V.ns, np.zeros(n), 'bias is not the mean residual', 0, tol)
    ms = V.by_s(res) / V.ns
    if conv:
        eq(ctx, np.sqrt(V.by_s((res - ms[V.s]) ** 2) / V.ns), v, 'inconsistency is not the deviation of the residuals', 1e-5, tol)
    w = 1.0 / (v ** 2 + 1e-8)
    if conv:
        eq(ctx, V.by_e(w[V.s] * (V.x - b[V.s])) / V.by_e(w[V.s]), s, 'quality is not the weighted mean of bias-corrected votes', 0, tol)
    # (2) the solution reached from mean opinion scores
    off = Q['b'].mean() if zero else 0.0
    eq(ctx, s, Q['s'] + off, 'quality differs from the alternating solution', 1e-6, 2e-6 * sc)
    eq(ctx, b, Q['b'] - off, 'bias differs from the alternating solution', 1e-6, 2e-6 * sc)
    eq(ctx, v, Q['v'], 'inconsistency differs from the alternating solution', 1e-5, 2e-6 * sc)
    if zero:
        eq(ctx, b.mean(), 0.0, 'biases average to zero', 0, 1e-9 * sc)
    # (3) deviations and intervals
    sd = Q['s_std_j'] if kind == 'j' else Q['s_std_i']
    rt = 1e-4
    sdok = stable('s_std_j' if kind == 'j' else 's_std_i', 1e-6, 1e-9 * sc)
    if sdok:
        eq(ctx, r['quality_scores_std'], sd, 'deviation of quality', rt, 1e-6 * sc)
        ctx.event('deviations_compared', st.E)
    eq(ctx, r['observer_bias_std'], Q['b_std'], 'deviation of bias', rt, 1e-6 * sc)
    for k in (0, 1):
        if sdok:
            eq(ctx, r['quality_scores_ci95'][k], 1.95996 * sd, 'quality interval', rt, 1e-6 * sc)
        eq(ctx, r['observer_bias_ci95'][k], 1.95996 * Q['b_std'], 'bias interval', rt, 1e-6 * sc)
        eq(ctx, r['observer_inconsistency_ci95'][k], ref.v_ci(Q['v'], V.ns)[k], 'inconsistency interval', rt, 1e-6 * sc)
        eq(ctx, r['quality_scores_ci95'][k], 1.95996 * np.asarray(r['quality_scores_std']), 'quality interval from deviation', 1e-9, 1e-12)
    if Q['v'].min() > 1e-6 and stable('v_std', 1e-5, 1e-9 * sc):
        eq(ctx, r['observer_inconsistency_std'], Q['v_std'], 'deviation of inconsistency', 1e-3, 1e-6)
    ctx.event('parameters_compared', st.E + 2 * n)
    # (4) switching the zero-mean option moves only the common offset
    if i % 4 == 0:
        o2 = dict(opts, force_subjbias_zeromean=not zero)
        with quiet():
            r2 = model(name)(raw_reader(d)).run_modeling(**o2)
        ds_ = np.asarray(r2['quality_scores']) - s
        db_ = np.asarray(r2['observer_bias']) - b
        eq(ctx, ds_, np.full(st.E, ds_[0]), 'zero-mean option changes relative qualities', 0, 1e-9 * sc)
        eq(ctx, db_, np.full(n, -ds_[0]), 'zero-mean option: bias does not move opposite to quality', 0, 1e-9 * sc)
        for k in r:
            if k not in ('quality_scores', 'observer_bias') and (Q['v'].min() > 1e-2 or k not in ('loglikelihood', 'aic', 'bic')):
                dd = same(r[k], r2[k], 1e-9, 1e-9)
                ctx.check(dd is None, 'zero-mean option changes ' + k, diff=dd)
        ctx.event('offset_option_pairs')
