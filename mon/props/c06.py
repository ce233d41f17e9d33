"""Rejection models on crafted boundary patterns (votes exactly at two deviations, kurtosis exactly 2 or 4, shares of exactly 5%
and 30%, unanimous videos, everybody rejectable) and on random studies with unreliable observers, against a literal count in exact
arithmetic where the decision is exact, skipping decisions within rounding of a threshold. Non-trivial: at least two videos and three observers."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 1600 if tier == 'quick' else 16000

def from_matrix(rng, M, observers=None):
    """study from a list of vote rows (cells float, list of floats, or None)"""
    E, S = len(M), len(M[0])
    st = gen.make_study(rng, E=E, S=S, missing=0, reps=1, scale='int5', refs=bool(rng.random() < .4), C=int(rng.integers(1, 3)), erratic=0)
    for e in range(E):
        for s in range(S):
            v = M[e][s]
            st.votes[e][s] = None if v is None else ([float(x) for x in v] if isinstance(v, list) else [float(v)])
    st.kind = 'crafted'
    return st

def shuffle_cols(rng, M):
    p = [int(x) for x in rng.permutation(len(M[0]))]
    q = [int(x) for x in rng.permutation(len(M))]
    return [[M[e][s] for s in p] for e in q]

def crafted(rng, i):
    k = i % 8
    off = float(rng.integers(-3, 4)) * (0.5 if rng.random() < .5 else 1)
    scl = float(rng.choice([1, 2, 0.5]))
    if k == 0:      # p above, q below with the outlier exactly at two deviations; shares around 5% and 30%
        E = int(rng.choice([20, 40, 60, 10, 19, 21]))
        p, q = [(1, 0), (1, 1), (13, 7), (2, 1), (7, 13), (12, 8), (14, 6), (2, 2), (6, 7), (9, 5), (3, 3), (1, 2), (10, 10)][int(rng.integers(0, 13))]
        while p + q > E:
            p, q = p // 2, q // 2
        M = []
        for e in range(E):
            if e < p:
                M.append([0, 0, 0, 0, 5])
            elif e < p + q:
                M.append([0, 0, 0, 0, -5])
            else:
                M.append([-2, -1, 0, 1, 2])
    elif k == 1:    # kurtosis exactly 4: [-1,1,0x6]; exactly 2: [-2,-2,2,2,0,0,0,0]... votes at exactly two deviations
        E = int(rng.integers(3, 12))
        rows = [[-1, 1, 0, 0, 0, 0, 0, 0], [-2, -2, 2, 2, 0, 0, 0, 0], [-1, 1, 0, 0, 0, 0, 0, 0], [-3, 3, 1, -1, 0, 0, 1, -1], [-2, -1, 0, 1, 2, 0, 0, 0]]
        M = [rows[int(rng.integers(0, len(rows)))] for _ in range(E)]
        M = [[r[int(x)] for x in (rng.permutation(8) if rng.random() < .3 else range(8))] for r in M]
    elif k == 2:    # unanimous videos
        S = int(rng.integers(3, 8))
        E = int(rng.integers(2, 30))
        M = [[float(rng.integers(1, 6))] * S if rng.random() < .7 else [float(rng.integers(1, 6)) for _ in range(S)] for _ in range(E)]
        if rng.random() < .3:
            M = [[r[0]] * S for r in M]
    elif k == 3:    # repetitions: share counted over presentations times repetitions
        E = int(rng.integers(4, 20))
        M = []
        for e in range(E):
            r = rng.random()
            if r < .35:
                M.append([0, 0, 0, 0, [5 if rng.random() < .5 else -5]])
            elif r < .5:
                M.append([[0, 0], [0, 1], [0], [-1], [4, -4]])
            else:
                M.append([[-2, 1], -1, 0, 1, 2])
    elif k == 4:    # missing votes
        E = int(rng.integers(5, 25))
        M = []
        for e in range(E):
            row = [0, 0, 0, 0, 5 if rng.random() < .5 else -5] if rng.random() < .5 else [-2, -1, 0, 1, 2]
            row = row + [None]
            if rng.random() < .3 or e == 0:      # everybody votes at least once
                row[5] = row[0]
                row[0] = None
            M.append(row)
    elif k == 5:    # one balanced spammer among consistent observers on a 5 point scale
        S = int(rng.integers(6, 26))
        E = int(rng.integers(10, 41))
        M = []
        for e in range(E):
            qv = rng.uniform(2, 4)
            row = [float(np.clip(round(qv + 0.5 * rng.normal()), 1, 5)) for _ in range(S)]
            for s in range(int(rng.integers(1, 3))):
                if rng.random() < .6:
                    row[s] = float(1 if rng.random() < .5 else 5)
            M.append(row)
        return st_of(rng, M)
    elif k == 6:    # one-sided outlier: never rejected
        E = int(rng.integers(10, 30))
        M = [[0, 0, 0, 0, 5] if rng.random() < .6 else [-2, -1, 0, 1, 2] for _ in range(E)]
    else:
        E = int(rng.integers(10, 60))
        p = [0, 0, 0, 0, 5]
        q = [0, 0, 0, 0, -5]
        M = []
        for e in range(E):
            row = list([p, q, [-2, -1, 0, 1, 2]][int(rng.choice([0, 1, 2], p=[.2, .2, .6]))])
            if rng.random() < .5:     # the outlier is another observer
                row = row[1:] + row[:1]
            M.append(row)
    M = [[None if v is None else ([x * scl + off for x in v] if isinstance(v, list) else v * scl + off) for v in r] for r in M]
    return st_of(rng, shuffle_cols(rng, M))

def st_of(rng, M):
    return from_matrix(rng, M)

KM = [('SR_MOS', {}), ('BT500', {}), ('MOS', {'subject_rejection': True}), ('MOS', {'subject_rejection': True, 'subject_rejection_type': 'kurtosis'}),
      ('BT500', {}), ('ZS_SR_MOS', {}), ('SR_MOS', {'subject_rejection_type': 'kurtosis'}), ('SR_DMOS', {}), ('ZS_SR_DMOS', {}), ('PERSUBJECT', {'subject_rejection': True})]
CM = [('SR_MOS_PCC', {}, 'pearson'), ('SR_MOS_SRCC', {}, 'spearman'), ('MOS', {'subject_rejection': True, 'subject_rejection_type': 'pearson'}, 'pearson'),
      ('MOS', {'subject_rejection': True, 'subject_rejection_type': 'spearman'}, 'spearman'), ('SR_MOS_PCC', {'dscore_mode': True}, 'pearson'),
      ('SR_MOS_SRCC', {'zscore_mode': True}, 'spearman')]

def run_case(ctx, rng, i):
    corr = i % 3 == 2
    if corr:
        name, opts, rej = CM[(i // 3) % len(CM)]
        kind = (i // 3) % 4
        ts = float(rng.choice([0.3, 0.6, 1.0]))
        st = gen.make_study(rng, E_range=(3, 15), S_range=(3, 14), outsize=.02, refs=True if 'DMOS' in name or opts.get('dscore_mode') else None,
                            min_per_video=2, min_per_observer=3, erratic=int(rng.integers(0, 4)), spread=ts, C=2 if opts.get('dscore_mode') else None)
        if i % 18 in (5, 11) and not opts:       # a study close to the point where the threshold stops being capped
            for _ in range(150):
                s2 = gen.make_study(rng, E_range=(4, 15), S_range=(3, 9), outsize=.02, min_per_video=2, min_per_observer=3, erratic=0, spread=float(rng.choice([.2, .3, .4])))
                try:
                    P2 = ref.prep(gen.table(s2, 'list')[0], s2, rejection=rej)
                except ref.Ambiguous:
                    continue
                c = P2.get('stat1') or [0.]
                if not P2.get('undefined_correlation') and abs(ref.fmean(c) - ref.fstd(c) - .7) < .06:
                    st = s2
                    ctx.event('near_threshold_cap')
                    break
        if kind == 3 and rng.random() < .3:       # a constant rater
            for e in range(st.E):
                if st.votes[e][0] is not None:
                    st.votes[e][0] = [3.0]
    else:
        name, opts = KM[(i // 3) % len(KM)]
        rej = 'kurtosis'
        if (i // 3) % 2 and 'ZS' not in name:
            st = crafted(rng, i // 6)
        else:
            st = gen.make_study(rng, E_range=(3, 30), S_range=(3, 20), outsize=.02, refs=True if 'DMOS' in name else None, erratic=int(rng.integers(0, 4)), min_per_video=2,
                                min_per_observer=3, spread=float(rng.choice([0.4, 1.0])), C=2 if 'DMOS' in name else None)
    opts = dict(opts)
    ds = 'DMOS' in name or opts.get('dscore_mode') is True
    zs = name.startswith('ZS') or opts.get('zscore_mode') is True
    if ds and not ref.has_unique_refs(st):
        ctx.skip('no unique references')
    style = str(rng.choice(['list', 'dict', 'tuple']))
    X, names = gen.table(st, style)
    if zs:
        P0 = ref.prep(X, st, dscore=ds)['X']
        if any(not ref.fstd(ref.present(P0[:, s]), 1) > 1e-6 for s in range(st.S)):
            ctx.skip('constant observer under z-scoring')
    try:
        P = ref.prep(X, st, dscore=ds, zscore=zs, rejection=rej)
    except ref.Ambiguous as e:
        ctx.skip(str(e))
    ctx.describe(model=name, options=sorted(opts.items()), style=style, study=st.brief())
    with quiet():
        r = run(name, raw_reader(gen.dataset(st, style, rng, 'mixed')), **opts)
    if P.get('undefined_correlation'):
        fl = [bool(x) for x in r['observer_rejected']]
        if np.all(np.isnan(np.asarray(r['quality_scores'], float))) and not any(fl):
            ctx.finding('undefined-correlation', 'an observer with undefined correlation makes all scores NaN')
        ctx.event('undefined_correlation')
        return
    ctx.sig(name, sorted(opts.items()), style, st.signature())
    T = P['X'][:, P['keep'], :]
    if name == 'PERSUBJECT':
        eq(ctx, r['quality_scores'], T, 'scores of the accepted observers', 1e-9, 1e-9)
        ctx.event('observers_judged', st.S)
        ctx.event('observers_rejected', st.S - len(P['keep']))
        return
    ctx.event('observers_judged', st.S)
    ctx.event('observers_rejected', sum(P['flags']))
    if P.get('would_reject_all'):
        ctx.event('all_rejectable')
    ctx.check([bool(x) for x in r['observer_rejected']] == [bool(x) for x in P['flags']], 'rejected observers',
              got=[bool(x) for x in r['observer_rejected']], want=P['flags'], counts=P.get('counts'))
    eq(ctx, r['observer_rejected_1st_stats'], P['stat1'], 'first rejection statistic', 1e-7, 1e-9)
    eq(ctx, r['observer_rejected_2nd_stats'], P['stat2'], 'second rejection statistic', 1e-7, 1e-9)
    ms = ref.mos_stats(T)
    sc = float(np.nanmax(np.abs(X))) + 1
    eq(ctx, r['quality_scores'], ms['mos'], 'scores of the accepted observers', 1e-8, 1e-8 * sc)
    eq(ctx, r['quality_scores_std'], ms['sem'], 'standard errors of the accepted observers', 1e-7, 1e-8 * sc)
    eq(ctx, r['quality_ambiguity'], ms['std'], 'deviations of the accepted observers', 1e-7, 1e-8 * sc)
    eq(ctx, r['raw_scores'], T, 'votes of the accepted observers', 1e-9, 1e-9)
