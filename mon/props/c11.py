"""Metamorphic pairs of runs: the same study relabelled, reordered, shifted or rescaled must give correspondingly transformed results.
Non-trivial: a pair whose first run is well conditioned (iterative models converged away from vanishing variance)."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 1100 if tier == 'quick' else 11000

# name -> (differential, zscored, rejection, bias-removal, iterative kind)
F = {'MOS': (0, 0, None, 0, None), 'ZS_MOS': (0, 1, None, 0, None), 'DMOS': (1, 0, None, 0, None), 'LIVE_DMOS': (1, 1, None, 0, None), 'PERSUBJECT': (0, 0, None, 0, None),
     'SR_MOS': (0, 0, 'kurtosis', 0, None), 'BT500': (0, 0, 'kurtosis', 0, None), 'ZS_SR_MOS': (0, 1, 'kurtosis', 0, None), 'SR_DMOS': (1, 0, 'kurtosis', 0, None),
     'ZS_SR_DMOS': (1, 1, 'kurtosis', 0, None), 'SR_MOS_PCC': (0, 0, 'pearson', 0, None), 'SR_MOS_SRCC': (0, 0, 'spearman', 0, None),
     'BR_MOS': (0, 0, None, 1, None), 'P913': (0, 0, 'kurtosis', 1, None), 'BR_SR_MOS': (0, 0, 'kurtosis', 1, None), 'BR_SR_MOS_PCC': (0, 0, 'pearson', 1, None), 'BR_SR_MOS_SRCC': (0, 0, 'spearman', 1, None),
     'LS': (0, 0, None, 0, None), 'P910': (0, 0, None, 0, 'p910'), 'Subject_MLE_Projection': (0, 0, None, 0, 'p910'), 'MLE_CO_AP2': (0, 0, None, 0, 'p910'),
     'MLE': (0, 0, None, 0, 'full'), 'MLE_CO': (0, 0, None, 0, 'co'), 'MLE_SO': (0, 0, None, 0, 'so'), 'DMOS_MLE_CO': (1, 0, None, 0, 'co'), 'DMOS_MLE': (1, 0, None, 0, 'full')}
ORDER = ['MOS', 'P910', 'SR_MOS', 'BR_MOS', 'ZS_MOS', 'P910', 'DMOS', 'P913', 'BT500', 'Subject_MLE_Projection', 'LIVE_DMOS', 'SR_MOS_PCC', 'MLE_CO', 'BR_SR_MOS', 'ZS_SR_MOS', 'PERSUBJECT',
         'MLE_CO_AP2', 'SR_MOS_SRCC', 'LS', 'SR_DMOS', 'MLE', 'BR_SR_MOS_PCC', 'ZS_SR_DMOS', 'BR_SR_MOS_SRCC', 'MLE_SO', 'DMOS_MLE_CO', 'P910', 'MLE_CO', 'DMOS_MLE', 'BR_MOS', 'MLE']
TRANS = ['perm_videos', 'perm_observers', 'rename', 'contents', 'assets', 'shift', 'scale', 'one_observer', 'everything']

VID = ['quality_scores', 'quality_scores_std', 'quality_ambiguity']
OBS = ['observer_bias', 'observer_bias_std', 'observer_inconsistency', 'observer_inconsistency_std', 'observer_rejected', 'observer_rejected_1st_stats', 'observer_rejected_2nd_stats',
       'observer_scores_mean', 'observer_scores_std']
CON = ['content_ambiguity', 'content_ambiguity_std']

def transform(rng, st, kind, style):
    t = st.copy()
    E, S = st.E, st.S
    pv, po = list(range(E)), list(range(S))
    nC = len(st.contents)
    cm = {c['content_id']: c['content_id'] for c in st.contents}
    c, k, one = 0.0, 1.0, None
    if kind in ('perm_videos', 'everything'):
        pv = [int(x) for x in rng.permutation(E)]
    if kind in ('perm_observers', 'everything'):
        po = [int(x) for x in rng.permutation(S)]
    if kind in ('contents', 'everything'):
        p = rng.permutation(nC)
        ids = sorted(cm)
        cm = {ids[j]: ids[int(p[j])] for j in range(nC)}
    t.videos = [dict(st.videos[e]) for e in pv]
    t.votes = [[None if st.votes[e][s] is None else list(st.votes[e][s]) for s in po] for e in pv]
    t.observers = [st.observers[s] for s in po]
    if kind == 'rename':
        names = ['n%03d' % int(x) for x in rng.permutation(S)]
        t.observers = names
    for v in t.videos:
        v['content_id'] = cm[v['content_id']]
    t.contents = [dict(x, content_id=cm[x['content_id']]) for x in st.contents]
    if kind in ('contents', 'everything'):
        t.contents = [t.contents[int(j)] for j in rng.permutation(nC)]
    if kind in ('assets', 'everything'):
        ids = [int(x) for x in rng.choice(np.arange(0, 5 * E + 3), size=E, replace=False)]
        for v, a in zip(t.videos, ids):
            v['asset_id'] = a
    if kind in ('shift', 'everything'):
        c = float(rng.choice([1, -2, 10, 64, -3.5]))
    if kind in ('scale', 'everything'):
        k = float(rng.choice([2, 0.5, 4, 20, 0.1, 0.1]))
        t.ref_score = st.ref_score * k
    if kind == 'one_observer':
        one = (int(rng.integers(0, S)), float(rng.choice([1, -2, 3.5])))
    t.votes = [[None if v is None else [k * x + c + (one[1] if one and one[0] == s else 0) for x in v] for s, v in enumerate(r)] for r in t.votes]
    return t, pv, po, cm, c, k, one

def run_case(ctx, rng, i):
    name = ORDER[i % len(ORDER)]
    kind = TRANS[(i // len(ORDER)) % len(TRANS)]
    ds, zs, rej, br, it = F[name]
    biasy = name in ('BR_MOS', 'LS') or it in ('p910', 'full', 'co')
    if kind == 'one_observer' and (not biasy or ds):
        kind = str(rng.choice(['perm_videos', 'perm_observers', 'everything']))
    complete = kind == 'one_observer' or name == 'LS'
    for _ in range(40):
        big = rng.random() < .04
        st = gen.make_study(rng, E_range=(28, 45) if big else (7, 15) if it else (3, 12), S_range=(18, 30) if big else (6, 12) if it else (3, 10), missing=0 if complete else float(rng.choice([0, 0, .1, .3])),
                            reps=1 if name == 'LS' else None, balanced=complete, refs=True if ds else None, C=int(rng.integers(5, 10) if big else rng.integers(1, 4)) if (ds or it) else None, min_per_observer=4,
                            erratic=int(rng.integers(0, 3)), spread=float(rng.choice([.6, 1., 1.4])) if it else 1.0, scale='cont' if rej == 'spearman' and rng.random() < .7 else None)
        if not ds or ref.has_unique_refs(st):
            break
    else:
        ctx.skip('no suitable study')
    style = 'dict' if kind == 'rename' else str(rng.choice(['list', 'dict', 'tuple']))
    t, pv, po, cm, c, k, one = transform(rng, st, kind, style)
    XA, na = gen.table(st, style)
    XB, nb = gen.table(t, style)
    ctx.describe(model=name, transformation=kind, shift=c, factor=k, one=one, style=style, study=st.brief())
    if rej or zs:
        for X, s_ in ((XA, st), (XB, t)):
            try:
                P0 = ref.prep(X, s_, dscore=bool(ds))['X']
                if zs and any(ref.fstd(ref.present(P0[:, s]), 1) < 1e-3 for s in range(st.S)):
                    ctx.skip('constant observer')
                P = ref.prep(X, s_, dscore=bool(ds), zscore=bool(zs), bias=bool(br), rejection=rej)
            except ref.Ambiguous as e:
                ctx.skip(str(e))
            if P.get('undefined_correlation'):
                ctx.skip('undefined correlation')
    def go(s_):
        try:
            with quiet():
                return model(name)(raw_reader(gen.dataset(s_, style, rng, 'mixed'))).run_modeling()
        except ValueError as e:
            if it and 'infs or NaNs' in str(e):
                ctx.skip('the iteration diverged (refused by the package)')
            raise
    A = go(st)
    if it == 'p910':
        v = np.asarray(A['observer_inconsistency'], float)
        if not v.min() > 3e-2 or A['num_iter'] > 600 or not np.min(A['quality_scores_std']) > 1e-4:
            ctx.skip('ill-conditioned')
    elif it:
        if A['num_iter'] > 3000:
            ctx.skip('slow convergence')
        v = np.asarray(A.get('observer_inconsistency', np.zeros(st.S)), float)
        am = np.asarray(A.get('content_ambiguity', np.zeros(max(x['content_id'] for x in st.contents) + 1)), float)
        sd = np.sqrt(v[None, :] ** 2 + np.array([am[x['content_id']] for x in st.videos])[:, None] ** 2)
        if not sd.min() > 5e-2 or sd.max() > 50 * (np.nanmax(XA) - np.nanmin(XA)):
            ctx.skip('ill-conditioned')
    B = go(t)
    ctx.event('pairs_' + kind)
    ctx.event('pairs_model_' + name)
    ctx.sig(name, kind, c, k, one, style, st.signature())
    ctx.check(set(A) == set(B), 'the transformed study reports other fields', fields=sorted(set(A) ^ set(B)))
    ctx.event('oracle_evaluations')
    sc = float(np.nanmax(np.abs(XA))) + 1
    rt, at = (2e-4, 2e-5 * sc) if it else (1e-7, 1e-8 * sc)
    gauge = False     # squared inconsistency and ambiguity can trade a common amount: only their sum is determined by the data
    if it in ('full', 'co', 'so'):
        la, lb = A['loglikelihood'], B['loglikelihood'] + math.log(k)
        same_opt = abs(la - lb) < 1e-6 * (1 + abs(la))
        gauge = it == 'full' and (ds and kind in ('shift', 'scale', 'everything') or kind == 'one_observer')
        if gauge and abs(la - lb) > 1e-10 * (1 + abs(la)):
            ctx.skip('another local optimum reached from another starting point')
        ctx.check(same_opt, 'log-likelihood', got=lb, want=la)
    # observer index maps: position in A's output -> position in B's output
    oldname = {s: n for s, n in enumerate(na)}
    if style in ('list', 'tuple'):
        om = {po[j]: j for j in range(st.S)}
    else:
        newname = {st.observers[po[j]]: t.observers[j] for j in range(st.S)}
        om = {a: nb.index(newname[na[a]]) for a in range(st.S)}
        if 'observers' in A:
            ctx.check(list(A['observers']) == na and list(B['observers']) == nb, 'observer names', got=[A['observers'], B['observers']], want=[na, nb])
    vm = {pv[j]: j for j in range(st.E)}
    add = 0.0 if (ds or zs) else c
    mul = 1.0 if zs else k
    S, E = st.S, st.E
    def cmp(a, b, what):
        # the P.910 weights are 1 / (v^2 + 1e-8): equivariant up to the relative size of that guard
        guard = sc * mul * 3e-8 / (v.min() * min(1, mul)) ** 2 if it == 'p910' and mul < 1 else 0
        eq(ctx, b, a, '%s does not follow the %s' % (what, kind), rt, at * (mul if it == 'p910' else max(1, mul)) + 1e-6 * abs(add) + guard if it else at * max(1, mul, abs(c)))
    if name == 'PERSUBJECT':
        qa = np.asarray(A['quality_scores'], float) * mul + add
        qb = np.asarray(B['quality_scores'], float)
        ctx.check(qa.shape == qb.shape, 'shape')
        eq(ctx, qb[[vm[e] for e in range(E)]][:, [om[s] for s in range(S)]], qa, 'per-subject scores', 1e-7, 1e-7 * sc)
        return
    q = np.asarray(A['quality_scores'], float)
    qb = np.asarray(B['quality_scores'], float)[[vm[e] for e in range(E)]]
    if one is None:
        cmp(q * mul + add, qb, 'quality')
    else:
        dq = qb - q
        eq(ctx, dq, np.full(E, dq[0]), 'a constant added to one observer changes relative qualities', 0, at * 5)
        ba, bb = np.asarray(A['observer_bias'], float), np.asarray(B['observer_bias'], float)[[om[s] for s in range(S)]]
        want = ba - dq[0]
        so = one[0] if style in ('list', 'tuple') else na.index(st.observers[one[0]])
        want[so] += one[1]
        eq(ctx, bb, want, "a constant added to one observer does not move that observer's bias alone", 0, at * 5)
    for key in VID[1:]:
        if key in A:
            cmp(np.asarray(A[key], float) * mul, np.asarray(B[key], float)[[vm[e] for e in range(E)]], key)
    for key in ('quality_scores_ci95', 'observer_bias_ci95', 'observer_inconsistency_ci95'):
        if key in A and not (gauge and 'incons' in key):
            n, m = (E, vm) if key.startswith('quality') else (S, om)
            for h in (0, 1):
                cmp(np.asarray(A[key][h], float) * mul, np.asarray(B[key][h], float)[[m[e] for e in range(n)]], key)
    if gauge:
        tot = lambda R, vids, o: np.asarray(R['observer_inconsistency'], float)[o][None, :] ** 2 + np.array([R['content_ambiguity'][v['content_id']] for v in vids])[:, None] ** 2
        eq(ctx, tot(B, [t.videos[vm[e]] for e in range(E)], [om[s] for s in range(S)]), tot(A, st.videos, list(range(S))) * mul ** 2, 'variance of the votes', 1e-3, 1e-4 * sc)
    for key in OBS:
        if key in A:
            a, b = np.asarray(A[key], float), np.asarray(B[key], float)
            ctx.check(len(a) == S and len(b) == S, 'one value per observer in ' + key)
            b = b[[om[s] for s in range(S)]]
            if key == 'observer_bias' and one is not None or key == 'observer_inconsistency_std' or gauge and 'incons' in key:
                continue
            if key == 'observer_scores_mean':
                a = a * mul + add
                if one is not None:
                    a[one[0] if style in ('list', 'tuple') else na.index(st.observers[one[0]])] += one[1]
            elif key.startswith('observer_rej'):
                pass
            else:
                a = a * mul
            cmp(a, b, key)
    if 'content_ambiguity' in A and not gauge:
        a, b = np.asarray(A['content_ambiguity'], float), np.asarray(B['content_ambiguity'], float)
        used = sorted(set(v['content_id'] for v in st.videos))
        eq(ctx, [b[cm[x]] for x in used], [a[x] * mul for x in used], 'content ambiguity does not follow the ' + kind, rt, at * max(1, mul) * 5)
    if k == 1.0 or zs:
        # votes that agree up to rounding: the likelihood is a function of rounding errors
        amb = [np.asarray(R_.get('quality_ambiguity', [1.0]), float) for R_ in (A, B)]
        degenerate = any(np.any((x > 0) & (x < 1e-7 * sc)) for x in amb if x.size)
        for key in ('loglikelihood', 'aic', 'bic', 'dof'):
            if key in A and (key == 'dof' or not degenerate):
                eq(ctx, B[key], A[key], key + ' does not follow the ' + kind, 1e-5, 1e-5)
