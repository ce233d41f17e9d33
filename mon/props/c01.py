"""Random studies (list/tuple/name-keyed votes, ragged repetitions, missing votes, unordered ids, up to 40 observers)
are read by the raw reader; its table and counts are compared cell by cell with the abstract study.
Non-trivial: at least two videos and two observers."""
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 1200 if tier == 'quick' else 12000

def run_case(ctx, rng, i):
    big = i % 40 == 0
    st = gen.make_study(rng, E_range=(1, 60 if big else 12), S_range=(1, 45 if big else 16), outsize=.01, nan_votes=(i % 3 == 0),
                        min_per_video=0 if i % 4 == 1 else 1, min_per_observer=1)
    if i % 120 == 7:      # a long study in which hardly anybody repeats, and late
        st = gen.make_study(rng, E=int(rng.integers(210, 420)), S=int(rng.integers(2, 6)), reps=1, missing=.2)
        e, s = st.E - 1 - int(rng.integers(0, 9)), int(rng.integers(0, st.S))
        st.votes[e][s] = [float(x) for x in range(1, int(rng.integers(3, 6)))]
    if i % 7 == 3 and st.S > 1:      # integer observer names
        st.observers = [int(x) for x in rng.permutation(st.S * 2)[:st.S]]
    style = ['list', 'dict', 'tuple', 'dict'][i % 4]
    container = ['list', 'tuple', 'mixed'][(i // 4) % 3]
    if rng.random() < .25 and len(st.contents) > 1:      # a content whose test video is the reference file of another content
        fl = ref.is_ref(st)
        for e, v in enumerate(st.videos):
            other = [c['path'] for c in st.contents if c['content_id'] != v['content_id']]
            if not fl[e] and rng.random() < .4:
                v['path'] = str(rng.choice(other))
    d = gen.dataset(st, style, rng, container, nan_prob=0.3)
    if i % 3 == 1:      # a vote that was not given, written as nothing
        for e, v in enumerate(d.dis_videos):
            o = dict(v['os']) if style == 'dict' else list(v['os'])
            for s in range(st.S):
                if st.votes[e][s] is None and rng.random() < .5:
                    o[st.observers[s] if style == 'dict' else s] = None if rng.random() < .6 else []
            v['os'] = o if style == 'dict' else type(v['os'])(o)
        ctx.event('votes_written_as_nothing')
    if rng.random() < .2:      # a study of the same name, with further observers, was read before
        s2 = st.copy()
        s2.observers = s2.observers + ([max(st.observers) + 1] if isinstance(st.observers[0], int) else ['further'])
        for r in s2.votes:
            r.append([2.5, 1.5])
        T = raw_reader(gen.dataset(s2, style, rng)).opinion_score_3darray
        ctx.check(T.shape[1] == s2.S, 'observers of the earlier study')
    X, names = gen.table(st, style)
    ctx.describe(style=style, container=container, study=st.brief())
    if st.E > 1 and st.S > 1:
        ctx.sig(style, container, st.signature())
    via = i % 5
    if via == 3:
        from sureal.tools.misc import import_python_file
        d = import_python_file(gen.write_py(d, fixed_tmp(ctx, 'd', '.py')))
    elif via == 4 and not isinstance(st.observers[0], int):
        from sureal.tools.misc import import_json_file
        d = import_json_file(gen.write_json(d, fixed_tmp(ctx, 'd', '.json')))
    elif via < 3 and rng.random() < .2:
        gen.numpyize(d, rng)
    rd = raw_reader(d)
    T = rd.opinion_score_3darray
    ctx.event('tables_read')
    ctx.check(tuple(T.shape) == X.shape, 'table shape', got=T.shape, want=X.shape)
    bad = ~((T == X) | (np.isnan(T) & np.isnan(X)))
    ctx.event('cells_compared', X.size)
    ctx.check(not bad.any(), 'a cell of the score table does not hold the vote given for it',
              cell=np.argwhere(bad)[:3].tolist(), got=[T[tuple(c)] for c in np.argwhere(bad)[:3]], want=[X[tuple(c)] for c in np.argwhere(bad)[:3]])
    ctx.check(rd.num_dis_videos == st.E, 'number of distorted videos', got=rd.num_dis_videos)
    ctx.check(rd.num_observers == st.S, 'number of observers', got=rd.num_observers, want=st.S)
    ctx.check(rd.max_repetitions == X.shape[2], 'number of repetitions', got=rd.max_repetitions, want=X.shape[2])
    ctx.check(rd.num_ref_videos == len(st.contents), 'number of references', got=rd.num_ref_videos)
    ctx.check(rd.max_content_id_of_ref_videos == max(c['content_id'] for c in st.contents), 'largest content id')
    ctx.check(sorted(rd.content_ids) == sorted(c['content_id'] for c in st.contents), 'content ids')
    ctx.check(sorted(rd.asset_ids) == sorted(v['asset_id'] for v in st.videos), 'asset ids')
    ctx.check(list(rd.content_id_of_dis_videos) == [v['content_id'] for v in st.videos], 'content of each video')
    ctx.check([bool(x) for x in rd.disvideo_is_refvideo] == ref.is_ref(st), 'reference flags', got=rd.disvideo_is_refvideo, want=ref.is_ref(st))
    ctx.check(rd.ref_score == st.ref_score, 'reference score')
    # observers by name through a public model result
    if style == 'dict' and i % 3 == 0:
        r = run('MOS', rd)
        ctx.check(list(r['observers']) == names, 'observer names of a result', got=r['observers'], want=names)
    if i % 10 == 0:      # reading again gives the same table, and the table handed out is the caller's
        T2 = rd.opinion_score_3darray
        ctx.check(ref.close(T2, T, 0, 0), 'second read differs')
        d2 = gen.dataset(st, style, rng, container, ref_score=False)
        ctx.check(raw_reader(d2).ref_score is None, 'reference score of a dataset without one')
