"""Comparison tables read from generated paired-comparison datasets against the abstract outcomes. Non-trivial: at least two judged pairs; videos listed
out of id order are counted."""
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 900 if tier == 'quick' else 12000

def run_case(ctx, rng, i):
    from sureal.dataset_reader import PairedCompDatasetReader
    from sureal.tools.misc import import_python_file
    pc = gen.make_pc(rng, M=int(rng.integers(2, 12)), S=int(rng.integers(1, 12)), ties=float(rng.choice([0, .15, .5])), order='pos' if i % 5 == 0 else None, density=float(rng.choice([1, .8, .4, .1])))
    if rng.random() < .2:
        # observers who judged nothing of one video
        dead = int(rng.integers(0, pc['M']))
        pc['out'] = {k: v for k, v in pc['out'].items() if dead not in k[1:]}
    if rng.random() < .2:
        ren = {s: str(x) for s, x in zip(pc['subs'], rng.permutation([str(k) for k in range(len(pc['subs']))]))}
        pc['out'] = {(ren[s], a, b): v for (s, a, b), v in pc['out'].items()}
        pc['subs'] = [ren[s] for s in pc['subs']]
    if rng.random() < .2:
        # names a careless reader would merge
        pool = ['Ann', 'ann', 'ANN', ' Ann', 'Ann ', 'Ann1', 'Ann_1', 'Ann 1', '01', '1', '1.0', 'Änn']
        ren = {s: str(x) for s, x in zip(pc['subs'], rng.permutation(pool))}
        pc['out'] = {(ren[s], a, b): v for (s, a, b), v in pc['out'].items()}
        pc['subs'] = [ren[s] for s in pc['subs']]
        ctx.event('similar_names')
    if len(pc['out']) < 2:
        ctx.skip('nothing judged')
    style = str(rng.choice(['wins', 'first', 'random']))
    d = gen.pc_dataset(pc, rng, style)
    # ratings may be recorded as int or float, once or on both videos of the pair
    if rng.random() < .3:
        for v in d.dis_videos:
            v['os'] = {k: float(x) for k, x in v['os'].items()}
    if rng.random() < .3 and style != 'wins':
        pos = {a: k for k, a in enumerate(pc['perm'])}
        for (s, a, b), v in pc['out'].items():
            if rng.random() < .5:
                d.dis_videos[pos[a]]['os'][(s, b)] = v
                d.dis_videos[pos[b]]['os'][(s, a)] = 1 - v
        ctx.event('recorded_on_both_videos')
    T, subs = gen.pc_table(pc)
    # several contents
    C = int(rng.integers(1, 4))
    if C > 1:
        d.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': '/ref/%d.yuv' % c} for c in range(C)]
        for v in d.dis_videos:
            v['content_id'] = int(rng.integers(0, C))
    ctx.describe(videos=pc['M'], observers=subs[:5], listed=pc['perm'], style=style, outcomes=len(pc['out']))
    before = gen.snapshot(d)
    rd = PairedCompDatasetReader(d)
    readers = [('object', rd)]
    if i % 3 == 0:
        path = fixed_tmp(ctx, 'pc', '.py')
        gen.write_py(d, path)
        readers.append(('file', PairedCompDatasetReader(import_python_file(path))))
    for what, r in readers:
        ctx.check(r.num_dis_videos == pc['M'], 'number of videos', got=r.num_dis_videos)
        ctx.check(r.num_observers == len(subs), 'number of observers', got=r.num_observers, want=len(subs))
        ctx.check(r.num_ref_videos == C, 'number of references')
        for _ in range(2):
            X = r.opinion_score_3darray
            eq(ctx, X, T, 'comparison table (%s)' % what, 0, 0)
            ctx.event('tables')
        Y = np.asarray(r.opinion_score_3darray)
        # stated directly on the table: complement across the diagonal, nothing on it
        both = ~np.isnan(Y)
        ctx.check(np.array_equal(both, both.transpose(1, 0, 2)), 'an outcome without its complement')
        ctx.check(np.all((Y + Y.transpose(1, 0, 2))[both] == 1), 'outcome and complement do not add up to one')
        ctx.check(not both[np.arange(pc['M']), np.arange(pc['M'])].any(), 'a video compared with itself')
    ctx.check(gen.snapshot(d) == before, 'reading changed the dataset')
    # another dataset read in the same process has its own table
    if i % 4 == 1:
        pc2 = dict(pc, out={k: (1 - v if rng.random() < .5 else v) for k, v in pc['out'].items()})
        d2 = gen.pc_dataset(pc2, rng, 'first')
        eq(ctx, PairedCompDatasetReader(d2).opinion_score_3darray, gen.pc_table(pc2)[0], 'table of a second dataset', 0, 0)
        eq(ctx, rd.opinion_score_3darray, T, 'first table after reading a second dataset', 0, 0)
    # observers stay attached to their outcomes through the models
    if i % 6 == 2:
        bad = dict(d.dis_videos[0]['os'])
        if bad:
            k = list(bad)[0]
            import copy
            for wrong in (2, -1, .25, 1.5):
                d3 = gen.DatasetObj()
                d3.__dict__.update(copy.deepcopy(vars(d)))
                d3.dis_videos[0]['os'][k] = wrong
                raises(ctx, lambda: PairedCompDatasetReader(d3).opinion_score_3darray, 'an outcome outside 0, 0.5, 1 was counted', value=wrong)
            d3 = gen.DatasetObj()
            d3.__dict__.update(copy.deepcopy(vars(d)))
            d3.dis_videos[0]['os'][(k[0], pc['M'] + 3)] = 1
            raises(ctx, lambda: PairedCompDatasetReader(d3).opinion_score_3darray, 'an outcome against an unknown video was counted')
    if pc['perm'] != sorted(pc['perm']):
        ctx.event('out_of_order')
    if 0.5 in pc['out'].values():
        ctx.event('with_ties')
    ctx.sig(style, tuple(pc['perm']), tuple(sorted(pc['out'].items())))
