"""Bootstrapped models: point estimates and intervals recomputed from plain-model runs on tables the monitor resamples itself (any numbering, both vote
forms, switches, resample counts). Non-trivial: at least three observers and three videos and two resamples; resampled fits are counted."""
import warnings
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 48 if tier == 'quick' else 500

def listed(st, X, vids, R):
    """dataset of the table X [E,S,R] whose rows are videos vids of the study"""
    d = gen.DatasetObj()
    d.dataset_name, d.ref_score = st.name, st.ref_score
    for k, v in st.extra.items():
        setattr(d, k, v)
    d.ref_videos = gen.ref_videos(st)
    d.dis_videos = []
    for k, e in enumerate(vids):
        v = dict(st.videos[e], asset_id=k, path='/d/%d.yuv' % k)
        v['os'] = [float(X[k, s, 0]) if R == 1 else [float(x) for x in X[k, s]] for s in range(X.shape[1])]
        d.dis_videos.append(v)
    return d

def run_case(ctx, rng, i):
    reps = int(rng.choice([1, 1, 1, 2]))
    full = i % 3 == 2
    mock = ['missing', 'select', 'corrupt', 'synthetic'][(i // 4) % 4] if i % 4 == 1 else None
    many, wide = i % 12 == 3, i % 12 == 7
    st = gen.make_study(rng, E_range=(7, 9) if many else (12, 19) if wide else (4, 8) if full else (3, 9), S_range=(7, 9) if many else (17, 24) if wide else (4, 8), reps=reps, missing=float(rng.choice([0, 0, .15])), min_per_video=3, min_per_observer=3,
                        scale=str(rng.choice(['int5', 'cont', 'int100'])), C=None if full else None, unused_content=False, cgap=False if mock else None, refs=bool(rng.random() < .5))
    style = str(rng.choice(['list', 'dict']))
    X, names = gen.table(st, style)
    R = X.shape[2]
    plain, boot = ('MLE', 'MLE_BSTP') if full else ('MLE_CO', 'MLE_CO_BSTP')
    o = {}
    if rng.random() < .4:
        o['force_subjbias_zeromean'] = bool(rng.random() < .5)
    if not full and i % 16 and rng.random() < .15:
        o['gradient_method'] = str(rng.choice(['original', 'numerical']))
    if not full and rng.random() < .2 and R == 1:
        o['zscore_mode'] = True
    if rng.random() < .8 or i % 16 == 0:
        o['delta_thr'] = float(10. ** rng.integers(-5, -2))
    bo = {}
    n = 30
    if i % 16:
        n = int(rng.integers(2, 4 if 'gradient_method' in o else 7))
        if many:
            n = int(rng.integers(41, 60))
            o['delta_thr'] = 1e-3
            o.pop('gradient_method', None)
        bo['n_bootstrap'] = n
    subs = vids = True
    if rng.random() < .4 and not many:
        subs = bo['bootstrap_subjects'] = bool(rng.random() < .5)
    if rng.random() < .4 and not many:
        vids = bo['boostrap_dis_videos'] = bool(rng.random() < .5)
    ctx.describe(model=boot, reader=mock, options=dict(o, **bo), style=style, study=st.brief())
    ctx.sig(boot, mock, str(o), str(bo), style, st.signature())
    def go(name, d, **k):
        with warnings.catch_warnings(), np.errstate(all='ignore'), quiet():
            warnings.simplefilter('ignore')
            return run(name, raw_reader(d) if isinstance(d, gen.DatasetObj) else d(), **k)
    ds = source = gen.dataset(st, style, rng, nan_prob=.5)
    if mock:
        import sureal.dataset_reader as DR
        cls = {'missing': DR.MissingDataRawDatasetReader, 'select': DR.SelectSubjectRawDatasetReader, 'corrupt': DR.CorruptSubjectRawDatasetReader, 'synthetic': DR.SyntheticRawDatasetReader}[mock]
        S2 = int(rng.integers(4, 8))
        inp = {'missing': {'missing_probability': .15, 'seed': int(rng.integers(0, 1000))},
               'select': {'selected_subjects': [int(x) for x in rng.permutation(st.S)[:max(3, st.S - 2)]]},
               'corrupt': {'selected_subjects': [int(rng.integers(0, st.S))], 'corrupt_behavior': 'flip'},
               'synthetic': {'quality_scores': rng.uniform(1, 5, st.E), 'observer_bias': rng.normal(size=S2) * .5, 'observer_inconsistency': rng.uniform(.3, .9, S2),
                             'content_bias': np.zeros(len(st.contents)), 'content_ambiguity': rng.uniform(.1, .5, len(st.contents)), 'seed': int(rng.integers(0, 1000))}}[mock]
        ds = lambda: cls(source, input_dict=inp)
        X = ds().opinion_score_3darray
        R = X.shape[2]
        ctx.event('mocked_readers')
    nS = X.shape[1]
    try:
        p = go(plain, ds, **o)
        r0 = go(plain, listed(st, X, range(st.E), R), **dict(o, force_subjbias_zeromean=False))
    except (ValueError, FloatingPointError):
        ctx.skip('the plain model refused')
    def bad(r):
        s = [r['quality_scores'], r['observer_bias'], r['observer_inconsistency']]
        return not all(np.all(np.isfinite(np.asarray(x, float))) for x in s) or (full and r['num_iter'] > 2000)
    if bad(r0):
        ctx.skip('plain model diverged')
    q0, b0, v0 = [np.asarray(r0[k], float) for k in ('quality_scores', 'observer_bias', 'observer_inconsistency')]
    Q, B, V = [], [], []
    try:
        for k in range(n):
            if subs:
                np.random.seed(k)
                sel = np.random.choice(range(nS), size=nS, replace=True)
                r = go(plain, listed(st, X[:, sel], range(st.E), R), **dict(o, force_subjbias_zeromean=False))
                if bad(r):
                    ctx.skip('resampled fit diverged')
                off = np.mean(np.asarray(r['observer_bias']) - b0[sel])
                Q.append(np.asarray(r['quality_scores']) + off)
            if vids:
                np.random.seed(k)
                sel = np.random.choice(range(st.E), size=st.E, replace=True)
                r = go(plain, listed(st, X[sel], [int(e) for e in sel], R), **dict(o, force_subjbias_zeromean=False))
                if bad(r):
                    ctx.skip('resampled fit diverged')
                off = np.mean(np.asarray(r['quality_scores']) - q0[sel])
                B.append(np.asarray(r['observer_bias']) + off)
                V.append(np.asarray(r['observer_inconsistency']))
    except (ValueError, FloatingPointError, AssertionError):
        ctx.skip('a resampled table cannot be fitted')
    r = go(boot, ds, **dict(o, **bo))
    tol = 1e-6
    for key in ('quality_scores', 'observer_bias', 'observer_inconsistency', 'content_ambiguity'):
        ctx.check((key in p) == (key in r), 'field of the plain model', key=key)
        if key in p:
            eq(ctx, r[key], p[key], 'point estimate %s differs from the plain model' % key, tol, tol)
    eq(ctx, r['quality_scores'], q0 + (np.mean(b0) if o.get('force_subjbias_zeromean', True) else 0), 'quality scores', tol, tol)
    for key, on, A, c in (('quality_scores', subs, Q, q0), ('observer_bias', vids, B, b0), ('observer_inconsistency', vids, V, v0)):
        if not on:
            ctx.check(key + '_ci95' not in r, 'interval present although its resampling is off', key=key)
            ctx.event('switched_off')
            continue
        ctx.check(key + '_ci95' in r, 'interval is missing', key=key)
        ci = r[key + '_ci95']
        lo, hi = np.percentile(np.array(A), 2.5, axis=0), np.percentile(np.array(A), 97.5, axis=0)
        ctx.check(len(ci) == 2, 'shape of the interval', key=key)
        eq(ctx, ci[0], c - lo, 'lower interval of %s' % key, tol, tol)
        eq(ctx, ci[1], hi - c, 'upper interval of %s' % key, tol, tol)
        ctx.check(np.all(np.asarray(ci[0], float) + np.asarray(ci[1], float) >= -1e-9), 'interval of negative width', key=key)
        ctx.event('intervals', len(c))
        ctx.event('resampled_fits', n)
    np.random.seed(int(rng.integers(0, 1000)))
    if n == 30 or 'gradient_method' in o:
        return
    d = same(go(boot, ds if mock else gen.dataset(st, style, rng, nan_prob=.5), **dict(o, **bo)), r)
    ctx.check(d is None, 'second run differs', diff=d)
    for badn in (0, -1, 2.5):
        if i % 5 == 0:
            raises(ctx, lambda: go(boot, ds, **dict(o, n_bootstrap=badn)), 'resample count %r was accepted' % badn)
