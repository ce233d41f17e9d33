"""The mean-opinion-score family on random studies and options, against a per-vote reference with exact summation.
Non-trivial: at least two videos and two observers."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 1500 if tier == 'quick' else 15000

NAMES = [('MOS', {}), ('ZS_MOS', {}), ('DMOS', {}), ('LIVE_DMOS', {}), ('MOS', {'dscore_mode': True}), ('MOS', {'zscore_mode': True}),
         ('MOS', {'dscore_mode': True, 'zscore_mode': True}), ('DMOS', {'zscore_mode': True}), ('ZS_MOS', {'dscore_mode': True}), ('MOS', {'dscore_mode': False, 'zscore_mode': False}),
         ('PERSUBJECT', {}), ('PERSUBJECT', {'dscore_mode': True, 'zscore_mode': True})]

def run_case(ctx, rng, i):
    name, opts = NAMES[i % len(NAMES)]
    opts = dict(opts)
    ds = name in ('DMOS', 'LIVE_DMOS') or opts.get('dscore_mode') is True
    zs = name in ('ZS_MOS', 'LIVE_DMOS') or opts.get('zscore_mode') is True
    big = i % 50 == 0
    for _ in range(20):
        lo = 1 if not ds and not zs and rng.random() < .2 else 2
        st = gen.make_study(rng, E_range=(lo, 40 if big else 4 if lo == 1 else 12), S_range=(lo, 40 if big else 4 if lo == 1 else 12), outsize=.01, refs=True if ds else None, nan_votes=bool(rng.random() < .3),
                            min_per_video=1 if rng.random() < .2 else 2, min_per_observer=2, C=int(rng.integers(1, 4)) if ds else None, scale='micro' if i % 17 == 5 else None)
        if i % 11 == 3:
            st.ref_score = float(rng.choice([0, 0, -3, 2.5]))
        if ds and len(st.contents) > 1 and rng.random() < .2:      # a test video that is the reference file of another content
            fl = ref.is_ref(st)
            for e, v in enumerate(st.videos):
                if not fl[e] and rng.random() < .5:
                    v['path'] = str(rng.choice([c['path'] for c in st.contents if c['content_id'] != v['content_id']]))
        if ds and not zs and len(st.contents) > 1 and i % 7 == 4:  # a reference nobody voted on: its content has no differential scores
            fl = ref.is_ref(st)
            e = int(rng.choice([e for e in range(st.E) if fl[e]] or [0]))
            st.votes[e] = [None] * st.S
        style = str(rng.choice(['list', 'dict', 'tuple']))
        X, names = gen.table(st, style)
        bad = [s for s in range(st.S) if len(ref.present(X[:, s])) < 2 or ref.fstd(ref.present(X[:, s]), 1) < 1e-6] if zs else []
        if (not ds or ref.has_unique_refs(st)) and not bad:
            break
    else:
        ctx.skip('no suitable study')
    d = gen.dataset(st, style, rng, 'mixed')
    if rng.random() < .15:
        gen.numpyize(d, rng)
    post = int(rng.integers(0, 6))
    unvoted = any(all(v is None for v in r) for r in st.votes)
    if name != 'PERSUBJECT':
        if post in (1, 2) and not unvoted:
            opts['normalize_final'] = True
        if post in (2, 3, 4):
            co = {'p2': float(rng.normal()), 'p1': float(rng.normal()), 'p0': float(rng.normal())}
            for k in list(co):
                if rng.random() < .35 and not (k == 'p1' and 'p2' not in co and unvoted):
                    del co[k]
            opts['transform_final'] = co
    ctx.describe(model=name, options=sorted(opts), style=style, study=st.brief())
    ctx.sig(name, sorted(opts), style, st.signature())
    if zs:       # a dscored constant observer must not be judged
        P = ref.prep(X, st, dscore=ds)
        if any(ref.fstd(ref.present(P['X'][:, s]), 1) < 1e-6 for s in range(st.S)):
            ctx.skip('constant observer after differential scoring')
    P = ref.prep(X, st, dscore=ds, zscore=zs)
    with quiet():
        m = model(name)(raw_reader(d))
        r = m.run_modeling(**opts)
    ctx.event('runs_' + name)
    if name == 'PERSUBJECT':
        eq(ctx, r['quality_scores'], P['X'], 'per-subject scores', 1e-8, 1e-8)
        return
    T = P['X']
    if name == 'LIVE_DMOS':
        T = (T + 3.0) * 100.0 / 6.0
    ms = ref.mos_stats(T)
    q = np.array(ms['mos'])
    if opts.get('normalize_final'):
        sd = ref.fstd(list(q))
        if not sd > 1e-6:
            ctx.skip('normalising equal scores')
        q = (q - ref.fmean(list(q))) / sd
    if 'transform_final' in opts:
        co = opts['transform_final']
        q = co.get('p2', 0.) * q * q + co.get('p1', 0.) * q + co.get('p0', 0.)
    sc = float(np.nanmax(np.abs(T))) + 1
    eq(ctx, r['quality_scores'], q, 'quality scores', 1e-8, 1e-8 * sc)
    ctx.event('scores_compared', len(q))
    if name == 'LIVE_DMOS':
        return
    eq(ctx, r['quality_scores_std'], ms['sem'], 'standard error', 1e-7, 1e-8 * sc)
    ci = 1.95996 * np.array(ms['sem'])
    ctx.check(len(r['quality_scores_ci95']) == 2, 'two interval bounds')
    eq(ctx, r['quality_scores_ci95'][0], ci, '95% interval (lower)', 1e-7, 1e-8 * sc)
    eq(ctx, r['quality_scores_ci95'][1], ci, '95% interval (upper)', 1e-7, 1e-8 * sc)
    eq(ctx, r['quality_ambiguity'], ms['std'], 'standard deviation', 1e-7, 1e-8 * sc)
    # the exported dataset carries the same numbers
    if i % 9 == 0:
        ag = m.to_aggregated_dataset()
        eq(ctx, [v['groundtruth'] for v in ag.dis_videos], q, 'exported scores', 1e-8, 1e-8 * sc)
