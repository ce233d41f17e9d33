"""Combinations of two generated studies and conversions to name-keyed votes against the union of votes computed from the studies. Non-trivial: at
least one shared video; shared observers, repetitions and mixed forms are counted."""
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 500 if tier == 'quick' else 8000

def votes_of(cell):
    if isinstance(cell, (list, tuple, np.ndarray)):
        return [float(x) for x in cell if x == x]
    return [float(cell)] if cell == cell else []

def named(st, style, name):
    """votes per path and observer name"""
    obs = st.observers if style == 'dict' else ['%s_subject%d' % (name, k) for k in range(st.S)]
    return {st.videos[e]['path']: {obs[s]: [x for x in st.votes[e][s] if x == x] for s in range(st.S) if st.votes[e][s] is not None} for e in range(st.E)}, obs

def other(rng, a):
    """a second study sharing some videos and observers of a"""
    b = gen.make_study(rng, E_range=(2, 10), S_range=(1, 8), outsize=.06, min_per_video=1, min_per_observer=1, nan_votes=bool(rng.random() < .2))
    k = int(rng.integers(0, min(a.E, b.E) + 1))
    mine, yours = [int(x) for x in rng.permutation(b.E)[:k]], [int(x) for x in rng.permutation(a.E)[:k]]
    for e, v in enumerate(b.videos):
        v['path'] = '/b' + v['path']
    for c in b.contents:
        c['path'] = '/b' + c['path']
        c['content_name'] = 'B' + c['content_name']
    for x, y in zip(mine, yours):
        b.videos[x]['path'] = a.videos[y]['path']
    n = int(rng.integers(0, min(a.S, b.S) + 1))
    keep = [o + '@b' for o in b.observers]
    for x, y in zip(rng.permutation(b.S)[:n], rng.permutation(a.S)[:n]):
        keep[int(x)] = a.observers[int(y)]
    b.observers = keep
    b.name = a.name if rng.random() < .15 else a.name + '_second'
    return b

def flat(os):
    return {k: votes_of(v) for k, v in os.items() if votes_of(v)}

def combine(ctx, rng, i):
    a = gen.make_study(rng, E_range=(1, 12), S_range=(1, 8), outsize=.06, min_per_video=1, min_per_observer=1, nan_votes=bool(rng.random() < .2))
    if rng.random() < .15 and len(a.contents) > 1:      # a test video that is the reference file of another content
        v = a.videos[int(rng.integers(0, a.E))]
        free = [c['path'] for c in a.contents if c['content_id'] != v['content_id'] and c['path'] not in [w['path'] for w in a.videos]]
        if free:
            v['path'] = str(rng.choice(free))
    b = other(rng, a)
    sa, sb = (str(rng.choice(['list', 'dict', 'dict', 'tuple'])) for _ in range(2))
    da = gen.dataset(a, sa, rng, str(rng.choice(['list', 'tuple', 'mixed'])), nan_prob=.3)
    db = gen.dataset(b, sb, rng, str(rng.choice(['list', 'tuple', 'mixed'])), nan_prob=.3)
    for k, v in enumerate(da.dis_videos):
        v['note'] = 'n%d' % k
    ba, bb = gen.snapshot(da), gen.snapshot(db)
    ra, rb = raw_reader(da), raw_reader(db)
    va, oa = named(a, sa, a.name)
    vb, ob = named(b, sb, b.name)
    shared = [v['path'] for v in a.videos if v['path'] in vb]
    kw = {'quality_width': 111, 'quality_height': 222, 'resampling_type': 'lanczos'} if rng.random() < .3 else {}
    out = ra.to_combined_overlap_dataset(rb, **kw)
    ctx.describe(first=a.brief(), second=b.brief(), styles=(sa, sb), shared=len(shared))
    ctx.sig('comb', a.signature(), b.signature(), sa, sb)
    ctx.event('shared_videos', len(shared))
    ctx.event('shared_observers', len(set(oa) & set(ob)))
    ctx.event('styles_%s_%s' % (sa, sb))
    got = [v['path'] for v in out.dis_videos]
    ctx.check(sorted(got) == sorted(shared), 'videos of the combination', got=got, want=shared)
    src = {v['path']: v for v in da.dis_videos}
    refs = {r['content_id']: r for r in da.ref_videos}
    new = {r['content_id']: r for r in out.ref_videos}
    ctx.check(len(new) == len(out.ref_videos), 'references of the combination share an id')
    ctx.check(sorted(new) == list(range(len(new))), 'references are not renumbered consecutively', got=sorted(new))
    used = set()
    for v in out.dis_videos:
        p = v['path']
        want = {}
        for n in list(va[p]) + [n for n in vb[p] if n not in va[p]]:
            w = va[p].get(n, []) + vb[p].get(n, [])
            if w:
                want[n] = w
        ctx.check(isinstance(v['os'], dict) and flat(v['os']) == want, 'votes of a combined video', path=p, got=flat(v['os']), want=want)
        ctx.event('combined_votes', sum(map(len, want.values())))
        s = src[p]
        ctx.check({k: x for k, x in v.items() if k not in ('os', 'content_id')} == {k: x for k, x in s.items() if k not in ('os', 'content_id')}, 'fields of a combined video', got={k: x for k, x in v.items() if k != 'os'})
        ctx.check(v['content_id'] in new and {k: x for k, x in new[v['content_id']].items() if k != 'content_id'} == {k: x for k, x in refs[s['content_id']].items() if k != 'content_id'},
                  'a combined video points to another reference', path=p)
        used.add(v['content_id'])
    ctx.check(used == set(new), 'a reference without video was kept', used=sorted(used), references=sorted(new))
    so, oo = clean(da), clean(out)
    ctx.check(set(oo) == set(so) | set(kw), 'fields of the combined dataset', got=sorted(oo))
    for k in oo:
        if k not in ('dis_videos', 'ref_videos'):
            ctx.check(norm(oo[k]) == norm(kw.get(k, so.get(k))), 'field %s of the combined dataset' % k)
    ctx.check(gen.snapshot(da) == ba and gen.snapshot(db) == bb, 'combining changed a source study')
    if shared:
        path = fixed_tmp(ctx, 'comb', '.py')
        ra.to_combined_overlap_dataset_file(path, rb, **kw)
        from sureal.tools.misc import import_python_file
        d2 = import_python_file(path)
        ctx.check([flat(v['os']) for v in d2.dis_videos] == [flat(v['os']) for v in out.dis_videos] and [v['path'] for v in d2.dis_videos] == got, 'written combination differs')
        ctx.check(norm(d2.ref_videos) == norm(out.ref_videos), 'references of the written combination differ')
        # the result reads as a study
        rd = raw_reader(out)
        with np.errstate(all='ignore'):
            q = run('MOS', rd)['quality_scores']
        for v, x in zip(out.dis_videos, q):
            w = [y for l in flat(v['os']).values() for y in l]
            if w:
                eq(ctx, x, sum(w) / len(w), 'score of a combined video', 1e-9, 1e-9)
    if i % 4 == 0:
        # combining a study with itself doubles every vote
        same_ = ra.to_combined_overlap_dataset(raw_reader(da))
        ctx.check([flat(v['os']) for v in same_.dis_videos] == [{n: w * 2 for n, w in va[v['path']].items() if w} for v in same_.dis_videos] and len(same_.dis_videos) == a.E, 'a study combined with itself')
    raises(ctx, lambda: ra.to_combined_overlap_dataset(db), 'something that is not a reader was combined')
    ctx.check(gen.snapshot(da) == ba and gen.snapshot(db) == bb, 'combining changed a source study')

def dictionary(ctx, rng, i):
    st = gen.make_study(rng, E_range=(1, 10), S_range=(1, 14), outsize=.06, min_per_video=2, min_per_observer=2, nan_votes=False)
    style = str(rng.choice(['list', 'list', 'tuple', 'dict']))
    d = gen.dataset(st, style, rng, str(rng.choice(['list', 'tuple', 'mixed'])))
    before = gen.snapshot(d)
    rd = raw_reader(d)
    kw = {'quality_width': 111, 'quality_height': 222, 'resampling_type': 'lanczos'} if rng.random() < .4 else {}
    out = rd.to_dictionary_style_dataset(**kw)
    ctx.describe(style=style, study=st.brief())
    ctx.sig('dict', style, st.signature())
    ctx.check(len(out.dis_videos) == st.E, 'number of videos')
    names = None
    ctx.event('conversions')
    full = named(st, style, st.name)[0]
    for e, v in enumerate(out.dis_videos):
        ctx.check(isinstance(v['os'], dict), 'votes are not keyed by name')
        ctx.check({k: x for k, x in v.items() if k != 'os'} == st.videos[e], 'fields of a converted video', got={k: x for k, x in v.items() if k != 'os'})
        if style != 'dict':
            o = list(v['os'])
            ctx.check(len(set(o)) == st.S == len(o), 'observers are not named distinctly', got=o[:5])
            names = o if names is None else names
            ctx.check(o == names, 'observer names differ between videos')
            for s in range(st.S):
                w = [] if st.votes[e][s] is None else st.votes[e][s]
                ctx.check(votes_of(v['os'][o[s]]) == w, 'votes of an observer', got=v['os'][o[s]], want=w)
        else:
            ctx.check(flat(v['os']) == {k: x for k, x in full[v['path']].items() if x}, 'votes of an observer')
    ctx.check(norm(out.ref_videos) == norm(d.ref_videos), 'references changed')
    so, oo = clean(d), clean(out)
    ctx.check(set(so) | set(kw) == set(oo) and all(norm(kw.get(k, so.get(k))) == norm(oo[k]) for k in oo if k not in ('dis_videos', 'ref_videos')), 'fields of the converted dataset', got=sorted(oo))
    path = fixed_tmp(ctx, 'dict', '.py')
    rd.to_dictionary_style_dataset_file(path, **kw)
    from sureal.tools.misc import import_python_file
    d2 = import_python_file(path)
    ctx.check([flat(v['os']) for v in d2.dis_videos] == [flat(v['os']) for v in out.dis_videos], 'written conversion differs')
    for k in kw:
        ctx.check(getattr(d2, k, None) == kw[k], 'option %s is not in the written conversion' % k, got=getattr(d2, k, None))
    # results
    r2 = raw_reader(out)
    ctx.check(r2.num_observers == rd.num_observers and r2.max_repetitions == rd.max_repetitions, 'shape of the converted study')
    reps = gen.max_reps(st) > 1
    for name in ['MOS', 'BR_SR_MOS', 'ZS_MOS', 'SR_MOS'][:2 + 2 * (i % 2)] if st.S > 1 and st.E > 1 else ['MOS']:
        with np.errstate(all='ignore'):
            try:
                a = run(name, rd)
            except Exception as e:
                ctx.event('model_refusals')
                continue
            b = run(name, r2)
        # ties in the rejection thresholds aside, sums are merely reordered
        eq(ctx, b['quality_scores'], a['quality_scores'], name + ': quality changed by naming the observers', 1e-8, 1e-8)
        if style != 'dict' and 'observer_bias' in a:
            o = sorted(names)
            ix = [names.index(n) for n in (b.get('observers') or o)]
            eq(ctx, b['observer_bias'], np.asarray(a['observer_bias'])[ix], name + ': bias changed by naming the observers', 1e-8, 1e-8)
        ctx.event('models_compared')
    ctx.check(gen.snapshot(d) == before, 'converting changed the source')

def repeated_path(ctx, rng, i):
    """the first study shows one video in several entries (e.g. several sessions): each entry receives the second study's votes"""
    a = gen.make_study(rng, E_range=(3, 12), S_range=(1, 8), min_per_video=1, min_per_observer=1)
    b = other(rng, a)
    sa, sb = (str(rng.choice(['list', 'dict'])) for _ in range(2))
    n = int(rng.integers(2, a.E + 1))
    for e in rng.permutation(a.E)[:n]:
        a.videos[int(e)]['path'] = a.videos[0]['path']
    shared = [v['path'] for v in b.videos]
    if a.videos[0]['path'] not in shared:
        k = int(rng.integers(0, b.E))
        b.videos[k]['path'] = a.videos[0]['path']
    ctx.describe(repeated=n, first=a.brief(), second=b.brief(), styles=(sa, sb))
    ctx.sig('rep', a.signature(), b.signature(), sa, sb, n)
    out = raw_reader(gen.dataset(a, sa, rng)).to_combined_overlap_dataset(raw_reader(gen.dataset(b, sb, rng)))
    vb, ob = named(b, sb, b.name)
    oa = a.observers if sa == 'dict' else ['%s_subject%d' % (a.name, k) for k in range(a.S)]
    want = []
    for e in range(a.E):
        p = a.videos[e]['path']
        if p in vb:
            w = {}
            for s in range(a.S):
                if a.votes[e][s] is not None:
                    w[oa[s]] = list(a.votes[e][s])
            for s, x in vb[p].items():
                w[s] = w.get(s, []) + x
            want.append((p, a.videos[e]['asset_id'], sorted((str(k), x) for k, x in w.items() if x)))
    got = [(v['path'], v['asset_id'], sorted((str(k), x) for k, x in flat(v['os']).items())) for v in out.dis_videos]
    ctx.check(sorted(got, key=repr) == sorted(want, key=repr), 'entries of a video listed several times', got=got[:3], want=want[:3])
    ctx.event('repeated_paths', n)

def run_case(ctx, rng, i):
    if i % 12 == 4:
        return repeated_path(ctx, rng, i)
    (dictionary if i % 3 == 2 else combine)(ctx, rng, i)
