"""Restricted loads, selections and added votes on generated studies: restricted results against files the monitor writes with only those videos, with several
differently restricted loads of one file alive at once. Non-trivial: at least two videos and a proper restriction; restrictions are counted."""
import copy, warnings
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 420 if tier == 'quick' else 6000

LOCAL = ['MOS', 'MOS', 'DMOS', 'PERSUBJECT']
ALL = ['MOS', 'P910', 'SR_MOS', 'ZS_MOS', 'BR_MOS', 'BR_SR_MOS', 'P913', 'DMOS', 'LIVE_DMOS', 'SR_DMOS', 'ZS_SR_DMOS', 'MLE_SO', 'MLE_CO', 'MLE', 'SR_MOS_PCC', 'SR_MOS_SRCC', 'ZS_SR_MOS', 'Subject_MLE_Projection', 'PERSUBJECT', 'DMOS_MLE_CO',
       'MLE_CO_AP', 'MLE_CO_AP2', 'BR_SR_MOS_PCC', 'LS', 'BT500']

def attempt(fn):
    with warnings.catch_warnings(), np.errstate(all='ignore'), quiet():
        warnings.simplefilter('ignore')
        try:
            return 'ok', fn()
        except (ValueError, FloatingPointError, AssertionError, IndexError, KeyError, ZeroDivisionError) as e:
            return 'refused', type(e).__name__

def sub_study(st, keep):
    s = st.copy()
    s.videos = [s.videos[e] for e in keep]
    s.votes = [s.votes[e] for e in keep]
    return s

def run_case(ctx, rng, i):
    kind = i % 7
    if kind == 4:
        return added(ctx, rng, i)
    if kind == 5:
        return selections(ctx, rng, i)
    if kind == 6:
        return comparisons(ctx, rng, i) if i % 3 == 0 else aggregated(ctx, rng, i)
    name = ALL[(i // 7 * 4 + kind) % len(ALL)]
    st, style = study(rng, name)
    path = fixed_tmp(ctx, 'all', '.py')
    ds = gen.dataset(st, style, rng)
    gen.write_py(ds, path)
    loads = [restriction(rng, st) for _ in range(int(rng.integers(1, 4)))] + [({}, list(range(st.E)))]
    loads = [loads[int(k)] for k in rng.permutation(len(loads))]
    ctx.describe(model=name, style=style, loads=[str(l[0]) for l in loads], study=st.brief())
    ctx.sig(name, style, st.signature(), str([l[0] for l in loads]))
    cls = model(name)
    made = [attempt(lambda: cls.from_dataset_file(path, **copy.deepcopy(k))) for k, keep in loads]
    got = [None] * len(loads)
    for k in rng.permutation(len(loads)):
        t, m = made[int(k)]
        got[int(k)] = (t, m) if t != 'ok' else attempt(lambda: m.run_modeling())
    for (k, keep), (t, r), (t0, m) in zip(loads, got, made):
        p2 = fixed_tmp(ctx, 'part%d' % len(keep), '.py')
        d2 = copy.copy(ds)
        d2.dis_videos = [ds.dis_videos[e] for e in keep]
        gen.write_py(d2, p2)
        t2, w = attempt(lambda: cls.from_dataset_file(p2).run_modeling())
        ctx.check(t == t2, 'restricted load and restricted file differ in being accepted', restriction=str(k), got=t, want=t2, errors=[str(r)[:60], str(w)[:60]])
        if t != 'ok':
            ctx.event('refused_alike')
            continue
        df = same(r, w, 1e-9, 1e-9)
        ctx.check(df is None, 'restricted load differs from the file of those videos', restriction=str(k), diff=df)
        ctx.check([v['asset_id'] for v in m.dataset_reader.dataset.dis_videos] == [st.videos[e]['asset_id'] for e in keep], 'videos of the restricted load', restriction=str(k))
        ctx.check(len(r['quality_scores']) == len(keep), 'number of results of the restricted load', got=len(r['quality_scores']), want=len(keep))
        ctx.event('restrictions')
        if name == 'MOS':
            eq(ctx, r['quality_scores'], np.nanmean(gen.table(sub_study(st, keep), 'list')[0], axis=(1, 2)), 'MOS of the remaining videos', 1e-9, 1e-9)
    t, r = attempt(lambda: cls.from_dataset_file(path).run_modeling())
    tw, w = attempt(lambda: cls(raw_reader(ds)).run_modeling())
    ctx.check(t == tw and (t != 'ok' or same(r, w, 1e-9, 1e-9) is None), 'a later unrestricted load is not the whole study', model=name)
    if t == 'ok' and name in LOCAL:
        for (k, keep), (t2, x) in zip(loads, got):
            if t2 != 'ok':
                continue
            if name == 'PERSUBJECT':
                if style == 'dict' and np.shape(x['quality_scores'])[1:] != np.shape(r['quality_scores'])[1:]:
                    continue
                a, b = np.asarray(x['quality_scores']), np.asarray(r['quality_scores'])[keep]
                n = min(a.shape[2], b.shape[2])
                eq(ctx, a[:, :, :n], b[:, :, :n], 'scores of the remaining videos changed', 1e-9, 1e-9)
            else:
                for f in ('quality_scores', 'quality_scores_std'):
                    eq(ctx, x[f], np.asarray(r[f], float)[keep], '%s of the remaining videos changed' % f, 1e-9, 1e-9)
            ctx.event('unchanged_remaining')

def study(rng, name, E=(3, 9), **k):
    slow = name in ('MLE', 'MLE_CO', 'DMOS_MLE_CO', 'MLE_SO')
    single = name == 'LS'
    diff = 'DMOS' in name
    big = rng.random() < .03
    st = gen.make_study(rng, E_range=(3, 6) if slow else (26, 40) if big else E, S_range=(3, 6) if slow else (20, 30) if big else (3, 9), reps=1 if single or rng.random() < .6 else 3, missing=0. if single else float(rng.choice([0, 0, .3])), min_per_video=2, min_per_observer=2,
                        refs=True if diff else None, scale='int5' if slow else None, unused_content=False, **k)
    if not diff and rng.random() < .15:      # one file shown under several asset ids
        for e in range(1, st.E):
            if rng.random() < .5 and not any(c['path'] == st.videos[x]['path'] for c in st.contents for x in (0, e)):
                st.videos[e]['path'] = st.videos[0]['path']
    return st, str(rng.choice(['list', 'dict']))

def restriction(rng, st):
    cids = sorted(set(v['content_id'] for v in st.videos))
    aids = [v['asset_id'] for v in st.videos]
    k = {}
    if rng.random() < .6:
        n = int(rng.integers(1, len(cids) + 1))
        k['content_ids'] = [int(cids[int(x)]) for x in rng.permutation(len(cids))[:n]]
    if rng.random() < .5 or not k:
        n = int(rng.integers(1, len(aids) + 1))
        k['asset_ids'] = [int(aids[int(x)]) for x in rng.permutation(len(aids))[:n]]
        if rng.random() < .3:
            k['asset_ids'].append(987654)
    if rng.random() < .15:
        k = {a: tuple(b) for a, b in k.items()}
    keep = [e for e, v in enumerate(st.videos) if ('content_ids' not in k or v['content_id'] in k['content_ids']) and ('asset_ids' not in k or v['asset_id'] in k['asset_ids'])]
    if not keep:
        e = int(rng.integers(0, st.E))
        k, keep = {'asset_ids': [aids[e]]}, [x for x, v in enumerate(st.videos) if v['asset_id'] == aids[e]]
    return k, keep

def added(ctx, rng, i):
    """one more observer votes on one video only"""
    name = str(rng.choice(['MOS', 'DMOS', 'PERSUBJECT']))
    st, style = study(rng, name)
    st2 = st.copy()
    e = int(rng.integers(0, st.E))
    votes = float(rng.choice([1, 2, 3, 4, 5]))
    st2.observers = st2.observers + ['zz_new']
    for k, r in enumerate(st2.votes):
        r.append([votes] if k == e else None)
    ctx.describe(model=name, style=style, video=e, vote=votes, study=st.brief())
    ctx.sig('added', name, style, e, votes, st.signature())
    a, b = run(name, raw_reader(gen.dataset(st, style, rng))), run(name, raw_reader(gen.dataset(st2, style, rng)))
    if name == 'PERSUBJECT':
        x, y = np.asarray(a['quality_scores']), np.asarray(b['quality_scores'])
        new = sorted(st2.observers).index('zz_new') if style == 'dict' else st.S
        eq(ctx, np.delete(y, new, axis=1), x, 'scores of the other observers changed', 1e-9, 1e-9)
        n = np.asarray(y[:, new], float)
        ctx.check(int(np.sum(~np.isnan(n))) == 1 and n[e][~np.isnan(n[e])][0] == votes, 'the added vote')
    else:
        fl = ref.is_ref(st)
        dep = [k == e or (name == 'DMOS' and fl[e] and st.videos[k]['content_id'] == st.videos[e]['content_id']) for k in range(st.E)]
        ok = [k for k in range(st.E) if not dep[k]]
        for f in ('quality_scores', 'quality_scores_std'):
            eq(ctx, np.asarray(b[f], float)[ok], np.asarray(a[f], float)[ok], '%s of videos that do not depend on the added vote changed' % f, 1e-9, 1e-9)
        if name == 'MOS':
            X = gen.table(st2, style)[0]
            eq(ctx, b['quality_scores'][e], np.nanmean(X[e]), 'score of the video with the added vote', 1e-9, 1e-9)
    ctx.event('added_votes')

def selections(ctx, rng, i):
    """selected observers or videos through the selection readers against a dataset of just those"""
    from sureal.dataset_reader import SelectSubjectRawDatasetReader, SelectDisVideoRawDatasetReader
    name = ALL[(i // 7) % len(ALL)]
    st, style = study(rng, name, E=(4, 9))
    vids = bool(rng.random() < .5)
    ds = gen.dataset(st, style, rng)
    before = gen.snapshot(vars(ds))
    X, names = gen.table(st, style)
    order = list(range(st.S)) if style == 'list' else sorted(range(st.S), key=lambda s: st.observers[s])
    n = st.E if vids else st.S
    sel = [int(x) for x in rng.permutation(n)[:int(rng.integers(2, n + 1))]]
    if vids:
        sel = sorted(sel) if rng.random() < .5 else sel
        rd = SelectDisVideoRawDatasetReader(ds, input_dict={'selected_dis_videos': sel})
    else:
        rd = SelectSubjectRawDatasetReader(ds, input_dict={'selected_subjects': sel})
    ctx.describe(model=name, style=style, selected='videos' if vids else 'observers', selection=sel, study=st.brief())
    ctx.sig('selection', name, style, vids, tuple(sel), st.signature())
    d2 = copy.copy(ds)
    if vids:
        d2.dis_videos = [ds.dis_videos[e] for e in sel]
    else:
        s2 = st.copy()
        pos = [order[s] for s in sel]
        if style == 'dict' and pos != sorted(pos, key=lambda s: st.observers[s]):
            sel = sorted(sel)
            pos = [order[s] for s in sel]
            rd = SelectSubjectRawDatasetReader(ds, input_dict={'selected_subjects': sel})
        s2.observers = [st.observers[s] for s in pos]
        s2.votes = [[r[s] for s in pos] for r in st.votes]
        if style == 'dict' and any(all(r[s] is None for r in s2.votes) for s in range(len(pos))):
            ctx.skip('an observer without votes')
        d2.dis_videos = gen.dis_videos(s2, style, rng)
    cls = model(name)
    t, r = attempt(lambda: cls(rd).run_modeling())
    t2, w = attempt(lambda: cls(raw_reader(d2)).run_modeling())
    if t != t2 and np.isnan(gen.table(st, style)[0]).any():
        # a video that loses all its votes is not one of a study of its own
        ctx.skip('selection leaves a video without votes')
    ctx.check(t == t2, 'selection and study of the selected differ in being accepted', got=t, want=t2, errors=[str(r)[:60], str(w)[:60]])
    if t == 'ok':
        R1, R2 = X.shape[2], gen.table(s2, style)[0].shape[2] if not vids else gen.table(sub_study(st, sel), style)[0].shape[2]
        drop = set()
        if R1 != R2:
            drop = {'reconstructions', 'raw_scores', 'dof', 'aic', 'bic'}
            if name == 'PERSUBJECT' or 'SR' in name or name in ('P913', 'BT500'):
                ctx.skip('selection has fewer repetitions')
        drop.add('observers')
        if style == 'dict' and vids:
            S1, S2 = X.shape[1], len(set(o for v in d2.dis_videos for o in v['os']))
            if S1 != S2:
                ctx.skip('an observer without votes')
        df = same({k: v for k, v in r.items() if k not in drop}, {k: v for k, v in w.items() if k not in drop}, 1e-7, 1e-7)
        ctx.check(df is None, 'selection differs from the study of the selected', diff=df)
        if not vids and 'observers' in r and style == 'dict':
            ctx.check(list(r['observers']) == [names[s] for s in sel], 'observers of the selection', got=r['observers'], want=[names[s] for s in sel])
        ctx.event('selections')
    ctx.check(gen.snapshot(vars(ds)) == before, 'selecting changed the source dataset')
    t, r = attempt(lambda: cls(raw_reader(ds)).run_modeling())
    t2, w = attempt(lambda: cls(raw_reader(gen.dataset(st, style, rng))).run_modeling())
    ctx.check(t == t2 and (t != 'ok' or same(r, w, 1e-9, 1e-9) is None), 'selecting affected the whole study')

def aggregated(ctx, rng, i):
    """restricted aggregated datasets"""
    name = str(rng.choice(['MOS', 'P910', 'BR_SR_MOS', 'DMOS', 'SR_MOS']))
    st, style = study(rng, name)
    ds = gen.dataset(st, style, rng)
    m = model(name)(raw_reader(ds))
    t, r = attempt(lambda: m.run_modeling())
    if t != 'ok':
        ctx.skip('refused')
    k, keep = restriction(rng, st)
    ctx.describe(model=name, style=style, restriction=str(k), study=st.brief())
    ctx.sig('aggregated', name, style, str(k), st.signature())
    full = m.to_aggregated_dataset()
    part = m.to_aggregated_dataset(**{'aggregate_' + a: b for a, b in k.items()})
    ctx.check([v['asset_id'] for v in part.dis_videos] == [st.videos[e]['asset_id'] for e in keep], 'videos of the restricted aggregated dataset', got=[v['asset_id'] for v in part.dis_videos])
    df = same(part.dis_videos, [full.dis_videos[e] for e in keep], 1e-9, 1e-9)
    ctx.check(df is None, 'restricted aggregated dataset differs', diff=df)
    eq(ctx, [v['groundtruth'] for v in part.dis_videos], np.asarray(r['quality_scores'], float)[keep], 'scores of the restricted aggregated dataset', 1e-9, 1e-9)
    df = same(m.to_aggregated_dataset().dis_videos, full.dis_videos, 1e-9, 1e-9)
    ctx.check(df is None, 'restricting the aggregated dataset affected a later one', diff=df)
    ctx.event('aggregated')

def comparisons(ctx, rng, i):
    pc = gen.make_pc(rng)
    d = gen.pc_dataset(pc, rng, str(rng.choice(['wins', 'first', 'random'])))
    path, p2 = fixed_tmp(ctx, 'pc', '.py'), fixed_tmp(ctx, 'pcpart', '.py')
    gen.write_py(d, path)
    ids = [v['asset_id'] for v in d.dis_videos]
    keep = [int(ids[int(x)]) for x in rng.permutation(len(ids))[:int(rng.integers(1, len(ids) + 1))]]
    d2 = copy.copy(d)
    d2.dis_videos = [v for v in d.dis_videos if v['asset_id'] in keep]
    gen.write_py(d2, p2)
    name = str(rng.choice(['BT_MLE', 'THURSTONE_MLE']))
    cls = model(name)
    ctx.describe(model=name, kept=keep, comparisons=len(pc['out']))
    ctx.sig('pc', name, tuple(keep), tuple(sorted(pc['out'].items())))
    with nosleep():
        t, r = attempt(lambda: cls.from_dataset_file(path, asset_ids=keep).run_modeling())
        t2, w = attempt(lambda: cls.from_dataset_file(p2).run_modeling())
        t3, a = attempt(lambda: cls.from_dataset_file(path).run_modeling())
        from sureal.dataset_reader import PairedCompDatasetReader
        t4, b = attempt(lambda: cls(PairedCompDatasetReader(d)).run_modeling())
    ctx.check(t == t2, 'restricted load and restricted file differ in being accepted', got=t, want=t2)
    if t == 'ok':
        df = same(r, w, 1e-9, 1e-9)
        ctx.check(df is None, 'restricted load differs from the file of those videos', diff=df)
    ctx.check(t3 == t4 and (t3 != 'ok' or same(a, b, 1e-9, 1e-9) is None), 'a later unrestricted load is not the whole study')
    ctx.event('comparison_restrictions')
