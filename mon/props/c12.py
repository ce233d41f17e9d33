"""Goodness-of-fit numbers recomputed vote by vote from the returned parameters, through run_subjective_models (several models per study)
and direct runs. Non-trivial: finite likelihood, at least two videos and observers."""
import math
import numpy as np
from scipy.special import logsumexp
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 420 if tier == 'quick' else 4200

# differential, zscore, rejection, bias, family
F = {'MOS': (0, 0, None, 0, 'mos'), 'SR_MOS': (0, 0, 'kurtosis', 0, 'mos'), 'BT500': (0, 0, 'kurtosis', 0, 'mos'), 'ZS_MOS': (0, 1, None, 0, 'mos'), 'ZS_SR_MOS': (0, 1, 'kurtosis', 0, 'mos'),
     'DMOS': (1, 0, None, 0, 'mos'), 'SR_DMOS': (1, 0, 'kurtosis', 0, 'mos'), 'SR_MOS_PCC': (0, 0, 'pearson', 0, 'mos'), 'SR_MOS_SRCC': (0, 0, 'spearman', 0, 'mos'),
     'BR_MOS': (0, 0, None, 1, 'br'), 'BR_SR_MOS': (0, 0, 'kurtosis', 1, 'br'), 'P913': (0, 0, 'kurtosis', 1, 'br'), 'BR_SR_MOS_PCC': (0, 0, 'pearson', 1, 'br'),
     'P910': (0, 0, None, 0, 'p910'), 'Subject_MLE_Projection': (0, 0, None, 0, 'p910'), 'MLE_CO_AP': (0, 0, None, 0, 'p910'),
     'MLE': (0, 0, None, 0, 'full'), 'MLE_CO': (0, 0, None, 0, 'co'), 'MLE_SO': (0, 0, None, 0, 'so'), 'DMOS_MLE': (1, 0, None, 0, 'full'), 'DMOS_MLE_CO': (1, 0, None, 0, 'co')}
NAMES = list(F)

def run_case(ctx, rng, i):
    from sureal.routine import run_subjective_models
    k = int(rng.integers(2, 5))
    names = [NAMES[i % len(NAMES)]] + [str(x) for x in rng.choice([n for n in NAMES if F[n][4] not in ('full', 'co')], size=k - 1, replace=False)]
    names = list(dict.fromkeys(names))
    mode = str(rng.choice(['', '', '', 'd', 'z', 'r', 'dz']))      # preprocessing asked for by option, where the models do not bring their own
    plain = [n for n in names if F[n][:3] == (0, 0, None) or (mode in 'dz' and not F[n][0] and not F[n][1] and F[n][2] in (None, 'kurtosis'))]
    plain = [n for n in plain if not (mode == 'r' and F[n][4] in ('full', 'co', 'so')) and not ('z' in mode and F[n][3])]   # combinations the package refuses
    if mode and names[0] in plain:
        names = plain
    else:
        mode = ''
    ds = any(F[n][0] for n in names) or 'd' in mode
    for _ in range(40):
        big = i % 17 == 5
        st = gen.make_study(rng, E_range=(28, 45) if big else (4, 12), S_range=(18, 30) if big else (4, 11), refs=True if ds else None, C=int(rng.integers(5, 10) if big else rng.integers(1, 4)), min_per_observer=3, min_per_video=3,
                            missing=float(rng.choice([0, .1, .3])), nan_votes=bool(rng.random() < .3), erratic=int(rng.integers(0, 3)), scale='cont' if rng.random() < .4 else None)
        if not ds or ref.has_unique_refs(st):
            break
    else:
        ctx.skip('no suitable study')
    style = str(rng.choice(['list', 'dict', 'tuple']))
    X, onames = gen.table(st, style)
    for n in names:
        if F[n][2] in ('pearson', 'spearman'):
            try:
                if ref.prep(X, st, bias=bool(F[n][3]), rejection=F[n][2]).get('undefined_correlation'):
                    ctx.skip('undefined correlation (finding of C06)')
            except ref.Ambiguous:
                ctx.skip('rejection decided by rounding')
    if 'z' in mode:
        P0 = ref.prep(X, st, dscore=ds)['X']
        if any(not ref.fstd(ref.present(P0[:, s]), 1) > 1e-3 for s in range(st.S)):
            ctx.skip('constant observer under z-scoring')
    d = gen.dataset(st, style, rng, 'list')
    opts = {}
    if rng.random() < .15:
        opts['force_subjbias_zeromean'] = False
    if 'd' in mode:
        opts['dscore_mode'] = True
    if 'z' in mode:
        opts['zscore_mode'] = True
    if mode == 'r':
        opts['subject_rejection'] = True
    js = rng.random() < .5 and style != 'tuple'
    path = fixed_tmp(ctx, 'ds', '.json' if js else '.py')
    (gen.write_json if js else gen.write_py)(d, path)
    ctx.describe(models=names, options=sorted(opts), style=style, file=path[-5:], study=st.brief())
    try:
        with quiet():
            ds_, models_, results = run_subjective_models(path, [model(n) for n in names], **opts)
    except ValueError as e:
        if 'infs or NaNs' in str(e):
            ctx.skip('the iteration diverged (refused by the package)')
        if F[names[0]][4] in ('full', 'co', 'so') and 'unpack' in str(e):
            with quiet():
                r0 = run(names[0], raw_reader(d), **opts)
            if np.all(np.isnan(np.asarray(r0['quality_scores'], float))):
                ctx.skip('the iteration diverged (all values missing)')
        raise
    ctx.check(len(results) == len(names), 'one result per model')
    E, S, R = X.shape
    C = max(c['content_id'] for c in st.contents) + 1
    ce = np.array([v['content_id'] for v in st.videos])
    n_all = int(np.sum(~np.isnan(X)))
    sc = float(np.nanmax(np.abs(X))) + 1
    judged = 0
    for name, r in zip(names, results):
        dsc, zs, rej, br, fam = F[name]
        dsc, zs, rej = dsc or 'd' in mode, zs or 'z' in mode, 'kurtosis' if mode == 'r' else rej
        ctx.check(list(r['dis_video_names']) == [v['path'] for v in st.videos], 'names of the videos')
        try:
            P0 = ref.prep(X, st, dscore=bool(dsc))['X']
            if zs and any(ref.fstd(ref.present(P0[:, s]), 1) < 1e-3 for s in range(S)):
                continue
            P = ref.prep(X, st, dscore=bool(dsc), zscore=bool(zs), bias=bool(br), rejection=rej)
        except ref.Ambiguous:
            ctx.event('ambiguous_rejection')
            continue
        if P.get('undefined_correlation'):
            continue
        T = P['X'][:, P['keep'], :]
        if any(not ref.present(T[e]) for e in range(E)):
            continue
        ctx.event('results_' + name)
        eq(ctx, r['raw_scores'], T, name + ': raw scores are not the votes used', 1e-8, 1e-8 * sc)
        q = np.asarray(r['quality_scores'], float)
        V = ref.Votes(T)
        n = len(V.x)
        rec = np.asarray(r['reconstructions'], float)
        ctx.check(rec.shape == T.shape, name + ': shape of the reconstructions', got=rec.shape, want=T.shape)
        if fam in ('mos', 'br'):
            want = np.repeat(np.repeat(q[:, None, None], T.shape[1], 1), T.shape[2], 2)
            sd = np.array(ref.mos_stats(T)['std'])[V.e]
            mu = q[V.e]
            dof = 2 * E if fam == 'mos' else 2 * E + S * R
        else:
            b = np.asarray(r['observer_bias'], float) if fam != 'so' else np.zeros(T.shape[1])
            v = np.asarray(r['observer_inconsistency'], float) if fam != 'so' else np.zeros(T.shape[1])
            a = np.asarray(r['content_ambiguity'], float) if fam in ('full', 'so') else np.zeros(C)
            a = np.where(np.isin(np.arange(C), ce), a, 0.0)
            want = np.repeat((q[:, None] + b[None, :])[:, :, None], T.shape[2], 2)
            sd = np.sqrt(v[V.s] ** 2 + a[ce[V.e]] ** 2)
            mu = q[V.e] + b[V.s]
            dof = {'p910': E + 2 * S * R, 'full': E + 2 * S * R + C, 'co': E + 2 * S * R, 'so': E + C}[fam]
        if not np.all(np.isfinite(want)):
            continue
        eq(ctx, rec, want, name + ': reconstructions are not the prediction of the model', 1e-8, 1e-8 * sc)
        eq(ctx, r['dof'], dof / float(n_all), name + ': degrees of freedom', 1e-10, 1e-12)
        if np.all(np.isfinite(sd)) and sd.min() > 1e-3:
            z = (V.x - mu) / sd
            if np.max(np.abs(z)) < 25:
                ll = math.fsum(-0.5 * z ** 2 - np.log(sd) - 0.5 * math.log(2 * math.pi)) / n
                eq(ctx, r['loglikelihood'], ll, name + ': log-likelihood per vote', 1e-7, 1e-7)
                ctx.sig(name, st.signature(), sorted(opts))
                judged += 1
        if np.isfinite(r['loglikelihood']):
            eq(ctx, r['aic'], 2 * r['dof'] - 2 * r['loglikelihood'], name + ': AIC', 1e-9, 1e-9)
            eq(ctx, r['bic'], math.log(n_all) * r['dof'] - 2 * r['loglikelihood'], name + ': BIC', 1e-9, 1e-9)
        if fam == 'p910':
            eq(ctx, r['observer_scores_mean'], [ref.fmean(ref.present(T[:, s])) for s in range(T.shape[1])], name + ': mean vote of the observers', 1e-9, 1e-9 * sc)
            eq(ctx, r['observer_scores_std'], [ref.fstd(ref.present(T[:, s])) for s in range(T.shape[1])], name + ': deviation of the votes of the observers', 1e-7, 1e-8 * sc)
        rs = r['reconstruction_stats']
        pr = want[V.e, V.s, V.r]
        eq(ctx, rs['rmse'], math.sqrt(math.fsum((pr - V.x) ** 2) / n), name + ': reconstruction RMSE', 1e-7, 1e-8 * sc)
        if np.std(pr) > 1e-6 and np.std(V.x) > 1e-6:
            eq(ctx, rs['cc'], ref.pearson(list(V.x), list(pr)), name + ': reconstruction correlation', 1e-6, 1e-7)
            near = False
            for vals in (V.x, pr):
                u = np.sort(vals)
                dd = np.diff(u)
                near = near or bool(np.any((dd < 1e-9) & (dd > 0)))
            if fam == 'mos' and not zs and not dsc and not near:
                eq(ctx, rs['srocc'], ref.pearson(ref.ranks(list(V.x)), ref.ranks(list(pr))), name + ': reconstruction rank correlation', 1e-6, 1e-7)
    if not judged:
        ctx.skip('no model with a finite likelihood')
