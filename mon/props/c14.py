"""Exports of modelled studies compared field by field with the study and the model's own scores, with filters, overrides, files and selection
readers. Non-trivial: at least two videos; filters that keep a proper subset are counted."""
import copy
import numpy as np
from mon import gen, ref
from mon.util import *

FAST = ['MOS', 'DMOS', 'SR_MOS', 'ZS_MOS', 'BR_MOS', 'BR_SR_MOS', 'P910', 'P913', 'BT500', 'Subject_MLE_Projection', 'ZS_SR_MOS', 'LIVE_DMOS', 'MLE_SO', 'SR_DMOS', 'LS', 'MLE', 'MLE_CO']
PC = ['BT_NR', 'BT_MLE', 'THURSTONE_MLE']

def num_cases(tier):
    return 420 if tier == 'quick' else 6000

def load(path):
    ns = {}
    with open(path, encoding='utf-8') as f:
        exec(compile(f.read(), path, 'exec'), ns)
    return {k: v for k, v in ns.items() if not k.startswith('__')}

def compare(ctx, out, want, what):
    """all fields, exactly (scores to the last bit are compared separately)"""
    a, b = norm(out), norm(want)
    ctx.check(set(a) == set(b), what + ': fields differ', got=sorted(a), want=sorted(b))
    for k in b:
        if k == 'dis_videos':
            ctx.check(len(a[k]) == len(b[k]), what + ': number of videos', got=len(a[k]), want=len(b[k]))
            for j, (x, y) in enumerate(zip(a[k], b[k])):
                ctx.check(set(x) == set(y), what + ': fields of video %d' % j, got=sorted(x), want=sorted(y))
                for f in y:
                    ctx.check(x[f] == y[f], what + ': field %s of video %d' % (f, j), got=x[f], want=y[f])
        else:
            ctx.check(a[k] == b[k], what + ': field ' + k, got=a[k], want=b[k])

def run_case(ctx, rng, i):
    if i % 9 == 8:
        return pc_case(ctx, rng, i)
    if i % 9 in (2, 5):
        return persubject(ctx, rng, i)
    name = FAST[(i // 2) % len(FAST)]
    diff = name in ('DMOS', 'SR_DMOS', 'LIVE_DMOS')
    for _ in range(60):
        st = gen.make_study(rng, E_range=(3, 14), S_range=(3, 10), outsize=.02, refs=True if diff else None, C=int(rng.integers(1, 5)), min_per_video=2, min_per_observer=2,
                            reps=1 if name in ('LS', 'MLE', 'MLE_CO', 'MLE_SO') else None, missing=0.0 if name == 'LS' else None)
        if name == 'LIVE_DMOS' and any(v is None for r in st.votes for v in r):
            continue
        if not diff or ref.has_unique_refs(st):
            break
    else:
        ctx.skip('no suitable study')
    style = str(rng.choice(['list', 'dict', 'tuple']))
    extra = {}
    if rng.random() < .3:
        extra['resampling_type'] = 'bicubic'
    if rng.random() < .3:
        extra['license'] = 'all rights'
    if rng.random() < .3:
        extra['note'] = {'a': [1, 2.5], 'b': ('x', None)}
    d = gen.dataset(st, style, rng, 'list', **extra)
    for v in d.dis_videos:
        if rng.random() < .4:
            v['resampling_type'] = 'lanczos'
        if rng.random() < .3:
            v['extra'] = {'crf': int(rng.integers(0, 50)), 'k': [1, 'ß']}
        if rng.random() < .2:
            v['groundtruth_old'] = float(rng.random())
    no_q = rng.random() < .2
    if no_q:
        del d.quality_width, d.quality_height
    before = gen.snapshot(d)
    kind = str(rng.choice(['plain', 'plain', 'select_videos', 'select_subjects'])) if name not in ('DMOS', 'SR_DMOS', 'LIVE_DMOS') else 'plain'
    idx = list(range(st.E))
    if kind == 'plain':
        rd = raw_reader(d)
    elif kind == 'select_videos':
        from sureal.dataset_reader import SelectDisVideoRawDatasetReader
        idx = [int(x) for x in rng.choice(st.E, size=int(rng.integers(2, st.E + 1)), replace=False)]
        rd = SelectDisVideoRawDatasetReader(d, input_dict={'selected_dis_videos': idx})
    else:
        from sureal.dataset_reader import SelectSubjectRawDatasetReader
        sub = [int(x) for x in rng.choice(st.S, size=int(rng.integers(max(2, st.S - 1), st.S + 1)), replace=False)]
        rd = SelectSubjectRawDatasetReader(d, input_dict={'selected_subjects': sub})
    m = model(name)(rd)
    raises(ctx, lambda: m.to_aggregated_dataset(), name + ': exported before modelling')
    p0 = fixed_tmp(ctx, 'pre', '.py')
    raises(ctx, lambda: m.to_aggregated_dataset_file(p0), name + ': exported to a file before modelling')
    import os
    ctx.check(not os.path.exists(p0), name + ': a refused export left a file')
    try:
        with quiet():
            r = m.run_modeling()
    except (ValueError, AssertionError) as e:
        ctx.skip('the model does not apply to this study')
    q = [float(x) for x in np.asarray(r['quality_scores'], float)]
    sd = [float(x) for x in np.asarray(r['quality_scores_std'], float)] if r.get('quality_scores_std') is not None else None
    ctx.check(len(q) == len(idx), 'one score per video')
    if name == 'MOS' and kind != 'select_subjects':
        X, _ = gen.table(st, style)
        eq(ctx, q, [ref.fmean(ref.present(X[e])) for e in idx], 'scores of plain averaging', 1e-10, 1e-9)
    opts = {}
    c = [int(x) for x in rng.choice([cc['content_id'] for cc in st.contents], size=int(rng.integers(0, len(st.contents) + 1)), replace=False)]
    a = [int(v['asset_id']) for v in st.videos if rng.random() < .5] + ([987654] if rng.random() < .3 else [])
    if rng.random() < .5:
        opts['aggregate_content_ids'] = c if rng.random() < .7 else set(c)
    if rng.random() < .5:
        opts['aggregate_asset_ids'] = a if rng.random() < .7 else tuple(a)
    if rng.random() < .2:
        opts['aggregate_content_ids'] = None
    for k, val in (('quality_width', 720), ('quality_height', 480), ('resampling_type', 'lanczos')):
        u = rng.random()
        if u < .35:
            opts[k] = val if k == 'resampling_type' else val + int(rng.integers(0, 9)) if rng.random() < .8 else 0
        elif u < .45:
            opts[k] = None
    want = {k: copy.deepcopy(v) for k, v in clean(d).items()}
    for k in ('quality_width', 'quality_height', 'resampling_type'):
        if opts.get(k) is not None:
            want[k] = opts[k]
    vs = []
    for n_, e in enumerate(idx):
        v = copy.deepcopy(d.dis_videos[e])
        del v['os']
        v['groundtruth'] = q[n_]
        if sd is not None:
            v['groundtruth_std'] = sd[n_]
        if opts.get('aggregate_content_ids') is not None and v['content_id'] not in opts['aggregate_content_ids']:
            continue
        if opts.get('aggregate_asset_ids') is not None and v['asset_id'] not in opts['aggregate_asset_ids']:
            continue
        vs.append(v)
    want['dis_videos'] = vs
    ctx.describe(model=name, style=style, reader=kind, options=str(opts), kept=len(vs), study=st.brief())
    out = m.to_aggregated_dataset(**opts)
    compare(ctx, clean(out), want, 'export')
    ctx.event('exports')
    if 0 < len(vs) < len(idx):
        ctx.event('proper_subsets')
    ctx.sig(name, kind, style, sorted(map(str, opts.items())), st.signature())
    ctx.check(gen.snapshot(d) == before, 'the source changed')
    path = fixed_tmp(ctx, 'out', '.py')
    m.to_aggregated_dataset_file(path, **opts)
    compare(ctx, load(path), want, 'export file')
    ctx.check(gen.snapshot(d) == before, 'the source changed')
    out2 = m.to_aggregated_dataset()
    ctx.check(len(out2.dis_videos) == len(idx), 'a filtered export affects the next one', got=len(out2.dis_videos))
    eq(ctx, [v['groundtruth'] for v in out2.dis_videos], q, 'scores of the unfiltered export', 0, 0)
    # the export is the caller's
    for v in out.dis_videos + out.ref_videos + out2.dis_videos:
        for k in list(v):
            if isinstance(v[k], list):
                v[k].append('changed')
            elif isinstance(v[k], dict):
                v[k]['k'] = 'changed'
            else:
                v[k] = 'changed'
    ctx.check(gen.snapshot(d) == before, 'the source changed with its export')
    # a reader's own export of given scores
    gs = [float(x) for x in rng.normal(size=len(idx))]
    o3 = rd.to_aggregated_dataset(gs, **opts)
    kept = {id(v): n_ for n_, v in enumerate(vs)}
    sel = [(n_, e) for n_, e in enumerate(idx) if (opts.get('aggregate_content_ids') is None or st.videos[e]['content_id'] in opts['aggregate_content_ids'])
           and (opts.get('aggregate_asset_ids') is None or st.videos[e]['asset_id'] in opts['aggregate_asset_ids'])]
    ctx.check([v['asset_id'] for v in o3.dis_videos] == [st.videos[e]['asset_id'] for _, e in sel], 'videos of the export of given scores')
    eq(ctx, [v['groundtruth'] for v in o3.dis_videos], [gs[n_] for n_, _ in sel], 'given scores', 0, 0)
    ctx.check(all('groundtruth_std' not in v for v in o3.dis_videos), 'deviations that were not given')
    # several scores per video
    k = int(rng.integers(1, 4))
    ga = rng.normal(size=(len(idx), k))
    o4 = rd.to_aggregated_dataset(ga, **opts)
    for v, (n_, _) in zip(o4.dis_videos, sel):
        g = v['groundtruth']
        ctx.check(isinstance(g, float) if k == 1 else isinstance(g, list) and len(g) == k, 'several scores given for a video', got=g, want=ga[n_])
        eq(ctx, [g] if k == 1 else g, ga[n_], 'several scores given for a video', 0, 0)
    ctx.check(len(o4.dis_videos) == len(sel), 'videos of the export of several scores')
    raises(ctx, lambda: rd.to_aggregated_dataset(gs[:-1]), 'too few scores accepted')
    raises(ctx, lambda: rd.to_aggregated_dataset(gs + [1.0]), 'too many scores accepted')

def persubject_reps(ctx, rng, i):
    """every observer voted R times on every video: one entry per observer, with all repetitions"""
    E, S, R = (int(rng.integers(2, 7)) for _ in range(3))
    st = gen.make_study(rng, E=E, S=S, reps=1, missing=0)
    A = rng.integers(1, 6, size=(E, S, R)).astype(float)
    d = gen.dataset(st, 'list')
    for e, v in enumerate(d.dis_videos):
        v['os'] = [list(map(float, A[e, s])) for s in range(S)]
    m = model('PERSUBJECT')(raw_reader(d))
    with quiet():
        m.run_modeling()
    ctx.describe(model='PERSUBJECT', repetitions=R, E=E, S=S)
    ctx.sig('persubject-reps', A.tobytes())
    path = fixed_tmp(ctx, 'per', '.py')
    m.to_aggregated_dataset_file(path)
    for what, out in (('per-observer export', clean(m.to_aggregated_dataset())), ('per-observer file', load(path))):
        ctx.check(len(out['dis_videos']) == E * S, what + ': one entry per observer', got=len(out['dis_videos']), want=E * S)
        for n, x in enumerate(out['dis_videos']):
            e, s = divmod(n, S)
            ctx.check(x['asset_id'] == d.dis_videos[e]['asset_id'] and x['path'] == d.dis_videos[e]['path'], what + ': the video of an entry', at=n)
            eq(ctx, x['groundtruth'], A[e, s], what + ': the votes of an entry', 0, 0)
        ctx.event('exports')

def persubject(ctx, rng, i):
    if rng.random() < .3:
        return persubject_reps(ctx, rng, i)
    style = str(rng.choice(['list', 'dict', 'tuple']))
    st = gen.make_study(rng, E_range=(2, 10), S_range=(32, 70) if rng.random() < .15 else (2, 9), outsize=.03, reps=1, missing=float(rng.choice([0, .3])) if style == 'dict' else 0, min_per_video=1, min_per_observer=1)
    d = gen.dataset(st, style, None if rng.random() < .5 else rng, 'list')
    for v in d.dis_videos:
        if rng.random() < .3:
            v['extra'] = int(rng.integers(0, 9))
        o = v['os']
        v['os'] = {k: (x[0] if isinstance(x, (list, tuple)) else x) for k, x in o.items()} if isinstance(o, dict) else type(o)(x[0] if isinstance(x, (list, tuple)) else x for x in o)
    before = gen.snapshot(d)
    m = model('PERSUBJECT')(raw_reader(d))
    raises(ctx, lambda: m.to_aggregated_dataset(), 'exported before modelling')
    opts = {}
    if rng.random() < .3:
        opts['zscore_mode'] = True
    X, names = gen.table(st, style)
    if opts:
        if any(len(ref.present(X[:, s])) < 2 or ref.fstd(ref.present(X[:, s]), 1) < 1e-3 for s in range(st.S)):
            opts = {}
    T = ref.prep(X, st, zscore=bool(opts))['X']
    with quiet():
        m.run_modeling(**opts)
    want = clean(d)
    vs = []
    for e in range(st.E):
        for s in range(st.S):
            if T[e, s, 0] == T[e, s, 0]:
                v = copy.deepcopy(d.dis_videos[e])
                del v['os']
                vs.append((v, float(T[e, s, 0])))
    ctx.describe(model='PERSUBJECT', style=style, options=sorted(opts), study=st.brief())
    ctx.sig('persubject', style, sorted(opts), st.signature())
    eo = {'quality_width': 33} if rng.random() < .4 else {}
    path = fixed_tmp(ctx, 'per', '.py')
    m.to_aggregated_dataset_file(path, **eo)
    for what, out in (('per-observer export', clean(m.to_aggregated_dataset(**eo))), ('per-observer file', load(path))):
        ctx.check(len(out['dis_videos']) == len(vs), what + ': one entry per vote', got=len(out['dis_videos']), want=len(vs))
        for x, (v, sc) in zip(out['dis_videos'], vs):
            x = dict(x)
            eq(ctx, x.pop('groundtruth'), sc, what + ': the vote', 1e-9, 1e-9)
            ctx.check(norm(x) == norm(v), what + ': fields of an entry', got=x, want=v)
        for k in want:
            if k != 'dis_videos':
                ctx.check(norm(out[k]) == norm(eo.get(k, want[k])), what + ': field ' + k)
        ctx.event('exports')
    ctx.check(gen.snapshot(d) == before, 'the source changed')

def pc_case(ctx, rng, i):
    from sureal.dataset_reader import PairedCompDatasetReader
    name = PC[(i // 9) % 3]
    pc = gen.make_pc(rng, M=int(rng.integers(3, 7)), S=int(rng.integers(5, 9)), density=1.0, beta=.5)
    d = gen.pc_dataset(pc, rng, str(rng.choice(['wins', 'first', 'random'])))
    T, subs = gen.pc_table(pc)
    W = np.nansum(T, 2)
    if np.any(W + np.eye(pc['M']) <= 0):
        ctx.skip('one-sided pair')
    before = gen.snapshot(d)
    m = model(name)(PairedCompDatasetReader(d))
    raises(ctx, lambda: m.to_aggregated_dataset(), name + ': exported before modelling')
    with quiet(), nosleep():
        r = m.run_modeling()
    out = m.to_aggregated_dataset()
    q = list(r['quality_scores'])
    ctx.check([v['asset_id'] for v in out.dis_videos] == pc['perm'], 'videos of the export')
    eq(ctx, [v['groundtruth'] for v in out.dis_videos], q, name + ': scores of the export', 0, 0)
    if r.get('quality_scores_std') is not None:
        eq(ctx, [v['groundtruth_std'] for v in out.dis_videos], list(r['quality_scores_std']), name + ': deviations of the export', 0, 0)
    ctx.check(all('os' not in v for v in out.dis_videos), 'raw outcomes in the export')
    ctx.check(gen.snapshot(d) == before, 'the source changed')
    ctx.describe(model=name, videos=pc['M'], observers=len(subs))
    ctx.sig(name, sorted(pc['out'].items()))
    ctx.event('exports')
