"""Simulated, thinned, selected and corrupted score tables against their specification: exact where deterministic (zero noise, untouched votes,
selection), pooled statistics at seven standard errors elsewhere. Non-trivial: at least two videos and two observers."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 360 if tier == 'quick' else 6000

def readers():
    import sureal.dataset_reader as r
    return r

def binom_ok(k, n, p):
    return n == 0 or abs(k - n * p) <= 7 * math.sqrt(n * p * (1 - p)) + 1

def study(rng, E_range=(2, 12), S_range=(2, 10), **kw):
    kw.setdefault('min_per_video', 1)
    kw.setdefault('min_per_observer', 1)
    return gen.make_study(rng, E_range=E_range, S_range=S_range, **kw)

def table_of(ds):
    return readers().RawDatasetReader(ds).opinion_score_3darray

def reread(ctx, rd, want, what):
    """to_dataset, in memory and through a file, holds the same votes"""
    ds = rd.to_dataset()
    got = table_of(ds)
    R = want.shape[2]
    if np.any(np.isfinite(got)) and got.shape[2] != R:
        pad = np.full(want.shape, np.nan)
        pad[:, :, :got.shape[2]] = got
        got = pad
    eq(ctx, got, want, what + ': the dataset re-read gives other votes', 0, 0)
    path = fixed_tmp(ctx, 'sim', '.py')
    rd.write_out_dataset(ds, path)
    from sureal.tools.misc import import_python_file
    got2 = table_of(import_python_file(path))
    eq(ctx, got2, got[:, :, :got2.shape[2]], what + ': the written dataset re-read gives other votes', 1e-9, 1e-9)
    ctx.event('datasets_reread', 2)
    return ds

def synthetic(ctx, rng, i, logistic):
    R = readers()
    big = i % 2
    st = study(rng, E_range=(8, 30) if big else (2, 9), S_range=(5, 25) if big else (2, 9), reps=1, unused_content=bool(rng.random() < .3), cgap=False)
    E, C = st.E, len(st.contents)
    S = int(rng.integers(2, 25))
    style = str(rng.choice(['list', 'dict']))
    d = gen.dataset(st, style, rng)
    before = gen.snapshot(d)
    zero = str(rng.choice(['none', 'none', 'observer', 'content', 'all', 'some']))
    q, b, mu = rng.uniform(1, 5, E), rng.normal(0, 1, S), rng.normal(0, 1, C)
    sg, de = rng.uniform(.3, 1.5, S), rng.uniform(.3, 1.5, C)
    if zero in ('observer', 'all'):
        sg[:] = 0
    if zero in ('content', 'all'):
        de[:] = 0
    if zero == 'some':
        sg[rng.random(S) < .5] = 0
        de[rng.random(C) < .5] = 0
    inp = dict(quality_scores=q, observer_bias=b, observer_inconsistency=sg, content_bias=mu, content_ambiguity=de)
    ph = np.zeros(E)
    if not logistic and rng.random() < .4:
        ph = rng.uniform(.3, 1.5, E) * (rng.random(E) < .7)
        inp['quality_ambiguity'] = ph
    if rng.random() < .3:
        inp = {k: (list(v) if k in ('quality_scores', 'content_bias', 'content_ambiguity') else v) for k, v in inp.items()}
    cls = R.SyntheticLogisticRawDatasetReader if logistic else R.SyntheticRawDatasetReader
    given = gen.snapshot(inp)
    rd = cls(d, input_dict=inp)
    ctx.check(rd.num_observers == S and rd.num_dis_videos == E and rd.num_ref_videos == C, 'shape of the simulated study')
    c = np.array([v['content_id'] for v in st.videos])
    mean = q[:, None] + b[None] + mu[c][:, None]
    var = sg[None] ** 2 + de[c][:, None] ** 2 + ph[:, None] ** 2
    sd = np.sqrt(var)
    fixed = sd == 0
    K = max(2, min(60, int(6000 // (E * S)) + 1))
    Z, last = [], None
    for _ in range(K):
        X = rd.opinion_score_3darray
        ctx.check(X.shape == (E, S, 1), 'shape of the simulated scores', got=X.shape)
        ctx.check(np.all(np.isfinite(X)), 'simulated scores are not all numbers')
        X = X[:, :, 0]
        eq(ctx, X[fixed], mean[fixed], 'a noise-free simulated vote is not the sum of its parts', 1e-12, 1e-12)
        with np.errstate(divide='ignore', invalid='ignore'):
            z = (X - mean) / sd
        z[fixed] = np.nan
        Z.append(z)
        if last is not None and not fixed.all():
            ctx.check(not np.array_equal(last, X), 'two unseeded draws are equal')
        last = X
    ctx.event('simulated_votes', K * E * S)
    Z = np.array(Z)
    live = ~fixed
    N = int(live.sum()) * K
    if N:
        kurt = 3.0
        w = 3.0
        if logistic:
            r = (sg[None] ** 4 + de[c][:, None] ** 4)[live] / var[live] ** 2
            kurt = 3 + 1.2 * r
            w = float(np.mean(kurt))
        tot = float(np.nansum(Z))
        ctx.check(abs(tot) <= 7 * math.sqrt(N), 'mean of the simulated votes', deviation=tot / math.sqrt(N), n=N)
        ss = float(np.nansum(Z ** 2))
        vs = (w - 1) * N
        ctx.check(abs(ss - N) <= 7 * math.sqrt(vs) + 8, 'deviation of the simulated votes', ratio=ss / N, n=N)
        # every group on its own: observers, videos, contents
        groups = [('observer', k, (slice(None), slice(None), k)) for k in range(S)] + [('video', e, (slice(None), e)) for e in range(E)] + \
                 [('content', int(x), (slice(None), np.where(c == x)[0])) for x in set(c.tolist())]
        for kind, k, sl in groups:
            z = Z[sl]
            n = int(np.isfinite(z).sum())
            if n < 20:
                continue
            ctx.check(abs(float(np.nansum(z))) <= 7 * math.sqrt(n), 'mean of the simulated votes of one ' + kind, which=k, deviation=float(np.nansum(z)) / math.sqrt(n), n=n)
            lim = 7 * math.sqrt((w - 1) * n) + (8 if not logistic else 40)
            ctx.check(abs(float(np.nansum(z ** 2)) - n) <= lim, 'deviation of the simulated votes of one ' + kind, which=k, ratio=float(np.nansum(z ** 2)) / n, n=n)
        # independence: sums over one draw's rows and columns have the variance of independent terms
        for ax, kind in ((2, 'video'), (1, 'observer')):
            n = np.isfinite(Z).sum(axis=ax)
            ok = n >= 2
            t = np.nansum(Z, axis=ax)[ok] ** 2 / n[ok]
            m = t.size
            if m >= 30:
                ctx.check(abs(float(t.sum()) - m) <= 7 * math.sqrt(2.5 * m) + 20, 'simulated votes of one %s are not independent' % kind, ratio=float(t.sum()) / m, n=m)
        if logistic:
            pure = live & ((sg[None] == 0) ^ (de[c][:, None] == 0))
            p1, what = math.tanh(math.pi / 2 / math.sqrt(3)), 'logistic'
        else:
            pure, p1, what = live, math.erf(1 / math.sqrt(2)), 'normal'
        n = int(pure.sum()) * K
        if n > 500:
            k = int((np.abs(Z[:, pure]) < 1).sum())
            ctx.check(binom_ok(k, n, p1), 'simulated noise is not %s' % what, inside=k / n, expected=p1, n=n)
    # repeatable
    seed = int(rng.integers(0, 2 ** 31 - 1)) if rng.random() < .7 else int(rng.integers(0, 3))
    r1, r2 = (cls(d, input_dict=dict(inp, seed=seed)) for _ in range(2))
    A = r1.opinion_score_3darray
    np.random.uniform(size=3)
    eq(ctx, r1.opinion_score_3darray, A, 'the same seed gives other votes (same reader)', 0, 0)
    np.random.uniform(size=5)
    eq(ctx, r2.opinion_score_3darray, A, 'the same seed gives other votes', 0, 0)
    if not fixed.all():
        r3 = cls(d, input_dict=dict(inp, seed=(seed + 1) % (2 ** 31)))
        ctx.check(not np.array_equal(r3.opinion_score_3darray, A), 'another seed gives the same votes')
    ds = reread(ctx, r1, A, 'simulated dataset')
    for a, v in zip(st.videos, ds.dis_videos):
        ctx.check({k: x for k, x in v.items() if k != 'os'} == a, 'fields of a simulated video', got=v, want=a)
    ctx.check(norm(ds.ref_videos) == norm(gen.ref_videos(st)), 'references of the simulated dataset')
    # refusals
    for k, bad in (('quality_scores', np.append(q, 1.0)), ('observer_inconsistency', np.append(sg, 1.0)), ('content_bias', np.append(mu, 0.0)), ('content_ambiguity', de[:-1])):
        raises(ctx, lambda: cls(d, input_dict=dict(inp, **{k: bad})), 'ground truth of the wrong length accepted', which=k)
    raises(ctx, lambda: cls(d, input_dict={k: v for k, v in inp.items() if k != 'content_bias'}), 'incomplete ground truth accepted')
    ctx.check(gen.snapshot(d) == before and gen.snapshot(inp) == given, 'the source changed')
    ctx.sig('syn', logistic, zero, E, S, C)

def thinning(ctx, rng, i):
    R = readers()
    st = study(rng, outsize=.03)
    style = str(rng.choice(['list', 'dict']))
    d = gen.dataset(st, style, rng)
    before = gen.snapshot(d)
    X = gen.table(st, style)[0]
    p = float(rng.choice([0, .1, .5, .9, 1]))
    rd = R.MissingDataRawDatasetReader(d, input_dict={'missing_probability': p})
    have = np.isfinite(X)
    n = k = 0
    per = np.zeros(X.shape)
    K = 40
    for _ in range(K):
        Y = rd.opinion_score_3darray
        ctx.check(Y.shape == X.shape, 'shape of the thinned scores')
        keep = np.isfinite(Y)
        ctx.check(not np.any(keep & ~have), 'thinning invented a vote')
        eq(ctx, Y[keep], X[keep], 'thinning changed a vote', 0, 0)
        n, k = n + int(have.sum()), k + int((have & ~keep).sum())
        per += keep
        if p == 0:
            ctx.check(keep.sum() == have.sum(), 'probability zero removed votes')
        if p == 1:
            ctx.check(keep.sum() == 0, 'probability one kept votes')
    ctx.check(binom_ok(k, n, p), 'share of removed votes', removed=k, of=n, probability=p)
    # every observer and video alike
    for ax, kind in (((1, 2), 'video'), ((0, 2), 'observer')):
        nn, kk = have.sum(axis=ax) * K, per.sum(axis=ax)
        for j in range(len(nn)):
            ctx.check(binom_ok(float(kk[j]), int(nn[j]), 1 - p), 'share of removed votes of one ' + kind, kept=float(kk[j]), of=int(nn[j]), probability=p)
    ctx.event('thinned_tables', K)
    seed = int(rng.integers(0, 10 ** 6)) if rng.random() < .7 else int(rng.integers(0, 3))
    a = R.MissingDataRawDatasetReader(d, input_dict={'missing_probability': .5, 'seed': seed})
    A = a.opinion_score_3darray
    np.random.uniform(size=3)
    eq(ctx, R.MissingDataRawDatasetReader(d, input_dict={'missing_probability': .5, 'seed': seed}).opinion_score_3darray, A, 'the same seed thins otherwise', 0, 0)
    if np.isfinite(A).any():
        reread(ctx, a, A, 'thinned dataset')
    raises(ctx, lambda: R.MissingDataRawDatasetReader(d, input_dict={}), 'thinning without a probability accepted')
    ctx.check(gen.snapshot(d) == before, 'the source changed')
    ctx.sig('thin', p, st.signature())

def selection(ctx, rng, i):
    R = readers()
    st = study(rng, outsize=.03)
    style = str(rng.choice(['list', 'dict']))
    d = gen.dataset(st, style, rng)
    before = gen.snapshot(d)
    X, names = gen.table(st, style)
    # observers
    k = int(rng.integers(1, st.S + 1))
    sel = [int(x) for x in rng.permutation(st.S)[:k]]
    if rng.random() < .2:
        sel = sel + [sel[0]]
    given = list(sel)
    rd = R.SelectSubjectRawDatasetReader(d, input_dict={'selected_subjects': sel})
    eq(ctx, rd.opinion_score_3darray, X[:, given], 'votes of the selected observers', 0, 0, selected=given)
    ctx.check(rd.num_observers == len(given), 'number of selected observers')
    ctx.check(rd.num_dis_videos == st.E, 'selecting observers changes the videos')
    if np.isfinite(X[:, given]).any():
        reread(ctx, rd, X[:, given], 'selected dataset')
    full = np.isfinite(X[:, given]).any(axis=(1, 2)).all() and np.isfinite(X[:, given]).any(axis=(0, 2)).all()
    if full:
        for name in ('MOS', 'BR_SR_MOS'):
            with np.errstate(all='ignore'):
                r = run(name, rd)
            eq(ctx, r['quality_scores'], np.nanmean(X[:, given], axis=(1, 2)), 'scores of the selected observers', 1e-9, 1e-9) if name == 'MOS' else None
            if style == 'dict' and 'observers' in r:
                ctx.check(list(r['observers']) == [names[s] for s in given], name + ': names of the selected observers', got=r['observers'], want=[names[s] for s in given])
                ctx.event('selected_names')
            if 'observer_bias' in r and name == 'BR_SR_MOS':
                ctx.check(len(r['observer_bias']) == len(given), 'one bias per selected observer')
    for bad in ([st.S], [-1], [0, st.S + 3]):
        raises(ctx, lambda: R.SelectSubjectRawDatasetReader(d, input_dict={'selected_subjects': bad}), 'selection of an observer that does not exist accepted', bad=bad)
    # videos
    k = int(rng.integers(1, st.E + 1))
    vs = [int(x) for x in rng.permutation(st.E)[:k]]
    rd = R.SelectDisVideoRawDatasetReader(d, input_dict={'selected_dis_videos': list(vs)})
    if style == 'list':
        W, wn = X[vs], names
    else:
        s = [j for j in range(st.S) if any(names[j] in d.dis_videos[e]['os'] for e in vs)]
        W, wn = X[vs][:, s], [names[j] for j in s]
    got = rd.opinion_score_3darray
    W = W[:, :, :got.shape[2]] if got.shape[2] <= W.shape[2] and not np.isfinite(W[:, :, got.shape[2]:]).any() else W
    eq(ctx, got, W, 'votes of the selected videos', 0, 0, selected=vs)
    ctx.check([v['asset_id'] for v in rd.dis_videos] == [st.videos[e]['asset_id'] for e in vs] and rd.num_dis_videos == k, 'selected videos', got=[v['asset_id'] for v in rd.dis_videos])
    ctx.check(list(rd.content_id_of_dis_videos) == [st.videos[e]['content_id'] for e in vs], 'contents of the selected videos')
    ctx.check(list(rd.disvideo_is_refvideo) == [ref.is_ref(st)[e] for e in vs], 'references among the selected videos')
    ctx.check(rd.num_observers == len(wn), 'observers of the selected videos')
    if np.isfinite(W).any(axis=(1, 2)).all():
        r = run('MOS', rd)
        eq(ctx, r['quality_scores'], np.nanmean(W, axis=(1, 2)), 'scores of the selected videos', 1e-9, 1e-9)
        agg = rd.to_aggregated_dataset(r['quality_scores'])
        ctx.check([v['asset_id'] for v in agg.dis_videos] == [st.videos[e]['asset_id'] for e in vs], 'aggregated selected videos')
        eq(ctx, [v['groundtruth'] for v in agg.dis_videos], r['quality_scores'], 'aggregated scores of the selected videos', 1e-9, 1e-9)
    for bad in ([st.E], [-1]):
        raises(ctx, lambda: R.SelectDisVideoRawDatasetReader(d, input_dict={'selected_dis_videos': bad}), 'selection of a video that does not exist accepted', bad=bad)
    ctx.check(gen.snapshot(d) == before, 'the source changed')
    ctx.event('selections', 2)
    ctx.sig('sel', tuple(given), tuple(vs), st.signature())

def rows(x):
    return sorted(map(repr, np.round(x, 9).tolist()))

def corruption(ctx, rng, i):
    R = readers()
    beh = str(rng.choice(['shuffle', 'shuffle', 'flip', 'min', 'mid', 'max', 'constant']))
    st = study(rng, outsize=.03, scale=str(rng.choice(['int5', 'cont', 'cont', 'int100'])))
    style = str(rng.choice(['list', 'dict']))
    d = gen.dataset(st, style, rng)
    before = gen.snapshot(d)
    X = gen.table(st, style)[0]
    lo, hi = float(np.nanmin(X)), float(np.nanmax(X))
    sel = [int(x) for x in rng.permutation(st.S)[:int(rng.integers(0, st.S + 1))]]
    p = [None, None, 0.0, 1.0, .3, .7][int(rng.integers(0, 6))]
    inp = {'selected_subjects': list(sel)}
    if beh != 'shuffle' or rng.random() < .6:
        inp['corrupt_behavior'] = beh
    elif rng.random() < .3:
        inp['corrupt_behavior'] = None
    if p is not None or rng.random() < .3:
        inp['corrupt_probability'] = p
    rd = R.CorruptSubjectRawDatasetReader(d, input_dict=inp)
    others = [s for s in range(st.S) if s not in sel]
    have = np.isfinite(X)
    K = 30
    pe = 1.0 if p is None else p
    touched = np.zeros(X.shape[:2])
    total = 0
    moved, consts = 0, []
    for _ in range(K):
        Y = rd.opinion_score_3darray
        ctx.check(Y.shape == X.shape, 'shape of the corrupted scores')
        eq(ctx, Y[:, others], X[:, others], 'corruption touched an observer that was not selected', 0, 0, behaviour=beh, selected=sel)
        for s in sel:
            x, y = X[:, s], Y[:, s]
            if p == 0:
                eq(ctx, y, x, 'corruption with probability zero', 0, 0)
                continue
            if beh == 'shuffle':
                ctx.check(rows(x) == rows(y), 'shuffling does not keep the votes of the observer', before=x, after=y)
                moved += int(np.sum(np.any((x != y) & ~(np.isnan(x) & np.isnan(y)), axis=1)))
                continue
            if beh == 'constant':
                h = np.isfinite(y) & ((y != x))
                vals = set(y[h].tolist())
                ctx.check(len(vals) <= 1, 'constant corruption uses several values', got=sorted(vals)[:5])
                t = next(iter(vals)) if vals else None
                if t is not None:
                    ctx.check(lo <= t <= hi, 'constant outside of the scale', got=t)
                    consts.append((t - lo) / (hi - lo) if hi > lo else .5)
                target = np.full(x.shape, np.nan if t is None else t)
            elif beh == 'flip':
                target = hi + lo - x
            else:
                target = np.full(x.shape, {'min': lo, 'mid': (lo + hi) / 2, 'max': hi}[beh])
            hx = np.isfinite(x)
            a = np.isclose(y, x, rtol=0, atol=1e-9)
            b = np.isclose(y, target, rtol=0, atol=1e-9)
            ctx.check(np.all((a | b)[hx]), 'a corrupted vote is neither the vote nor its corruption', behaviour=beh, got=y[hx][~(a | b)[hx]], votes=x[hx][~(a | b)[hx]])
            if p in (None, 1.0):
                ctx.check(np.all(b[hx]) or (beh == 'constant' and t is None), 'a vote of a selected observer was not corrupted', behaviour=beh)
            elif beh == 'flip':
                ctx.check(not np.any(np.isfinite(y) & ~hx), 'flipping invented a vote')
            # videos where corruption is visible
            diff = ~np.isclose(target, x, rtol=0, atol=1e-9) & hx
            vis = diff.any(axis=1)
            touched[vis, s] += (b & diff).any(axis=1)[vis]
            total += int(vis.sum())
    if beh == 'shuffle' and sel and p != 0 and st.kind == 'cont':
        m = len(sel) * K
        E = st.E
        exp = E * pe - (1 - (1 - pe) ** E)
        nolike = all(len(set(rows(X[:, s]))) == E for s in sel)
        if nolike:
            ctx.check(abs(moved - m * exp) <= 7 * math.sqrt(m * (E * pe * (1 - pe) + 1.5)) + 2, 'share of shuffled votes', moved=moved, expected=m * exp)
    elif sel and p not in (0, None) and beh != 'constant':
        ctx.check(binom_ok(float(touched.sum()), total, pe), 'share of corrupted votes', corrupted=float(touched.sum()), of=total, probability=p)
    if len(consts) >= 20:
        m = float(np.mean(consts))
        ctx.check(abs(m - .5) <= 7 / math.sqrt(12 * len(consts)), 'constants are not uniform on the scale', mean=m, n=len(consts))
        ctx.check(len(set(consts)) > 1, 'every observer got the same constant')
    ctx.event('corrupted_tables', K)
    ctx.event('behaviour_' + beh)
    if p in (None, 1.0) and beh in ('flip', 'min', 'mid', 'max'):
        reread(ctx, rd, rd.opinion_score_3darray, 'corrupted dataset')
    # an unknown behaviour, an observer twice or out of range
    for bad in ({'selected_subjects': [0, 0]}, {'selected_subjects': [st.S]}, {'selected_subjects': [-1]}, {'selected_subjects': [0], 'corrupt_behavior': 'nope'}, {}):
        raises(ctx, lambda: R.CorruptSubjectRawDatasetReader(d, input_dict=bad), 'impossible corruption accepted', bad=str(bad))
    # random corruption of any vote
    p = float(rng.choice([0, .2, .6, 1]))
    rd = R.CorruptDataRawDatasetReader(d, input_dict={'corrupt_probability': p})
    n = k = 0
    vals = []
    for _ in range(K):
        Y = rd.opinion_score_3darray
        same_ = Y[have] == X[have]
        n, k = n + int(have.sum()), k + int((~same_).sum())
        vals += Y[have][~same_].tolist()
        ctx.check(np.all(np.isfinite(Y[have])), 'corruption removed a vote')
    ctx.check(binom_ok(k, n, p), 'share of randomly corrupted votes', corrupted=k, of=n, probability=p)
    if vals:
        ctx.check(min(vals) >= 1 and max(vals) <= st.ref_score, 'corrupted votes outside of the scale', lo=min(vals), hi=max(vals))
        m = (np.mean(vals) - 1) / (st.ref_score - 1)
        ctx.check(abs(m - .5) <= 7 / math.sqrt(12 * len(vals)), 'corrupted votes are not uniform', mean=float(m), n=len(vals))
    ctx.check(gen.snapshot(d) == before, 'the source changed')
    ctx.sig('cor', beh, p, tuple(sel), st.signature())

def run_case(ctx, rng, i):
    kind = i % 6
    ctx.describe(kind=['simulated', 'simulated logistic', 'thinned', 'selected', 'corrupted', 'corrupted'][kind])
    if kind < 2:
        synthetic(ctx, rng, i // 6, kind == 1)
    elif kind == 2:
        thinning(ctx, rng, i)
    elif kind == 3:
        selection(ctx, rng, i)
    else:
        corruption(ctx, rng, i)
