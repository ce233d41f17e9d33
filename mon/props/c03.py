"""Random histories of model runs (shared and fresh model objects), exports, conversions, failing runs and RNG scrambling on
one dataset and reader. Monitors: byte-level snapshots of dataset, option values and earlier results after every step; every result is
compared with that of the same run as the first action of a freshly forked process. Non-trivial: a history with at least two
model runs."""
import copy, os, random, pickle
import numpy as np
from mon import gen, ref
from mon.util import *

TECH = 'runtime monitoring: state snapshots around every call plus differential comparison with a fresh process'
MODELS = ['MOS', 'SR_MOS', 'SR_MOS_PCC', 'ZS_MOS', 'ZS_SR_MOS', 'BR_MOS', 'BR_SR_MOS', 'P913', 'BT500', 'P910', 'MLE_CO_AP', 'PERSUBJECT',
          'MLE', 'MLE_CO', 'MLE_SO', 'DMOS', 'LIVE_DMOS', 'SR_DMOS', 'ZS_SR_DMOS', 'LS']
HEAVY = {'MLE', 'MLE_CO', 'MLE_SO'}
PCM = ['BT_MLE', 'THURSTONE_MLE', 'BT_MLE', 'BT_NR']
_z = None

def num_cases(tier):
    return 400 if tier == 'quick' else 3000

def build(kind, fields, info):
    d = gen.DatasetObj()
    d.__dict__.update(fields)
    import sureal.dataset_reader as R
    if kind == 'pc':
        return d, R.PairedCompDatasetReader(d)
    if kind == 'select':
        return d, R.SelectSubjectRawDatasetReader(d, input_dict=info)
    if kind == 'missing':
        return d, R.MissingDataRawDatasetReader(d, input_dict=info)
    return d, R.RawDatasetReader(d)

def fresh_job(job):
    kind, fields, info, name, opts, scramble = job
    with quiet():
        d, r = build(kind, fields, info)
        np.random.seed(scramble)
        random.seed(scramble)
        with nosleep():
            res = model(name)(r).run_modeling(**opts)
    return res

def run_case(ctx, rng, i):
    global _z
    if _z is None:
        models()
        _z = Zygote(fresh_job)
    kind = ['raw', 'raw', 'raw', 'pc', 'select', 'raw', 'missing', 'raw'][i % 8]
    info = {}
    if kind == 'pc':
        pc = gen.make_pc(rng, M=int(rng.integers(3, 6)), S=int(rng.integers(3, 7)), density=1.0, ties=0.3)
        d0 = gen.pc_dataset(pc, rng, str(rng.choice(['wins', 'first', 'random'])))
        pool = PCM
        style = 'pc'
        st = None
        ctx.describe(kind=kind, M=pc['M'], S=len(pc['subs']))
    else:
        st = gen.make_study(rng, E_range=(4, 9), S_range=(4, 9), scale=str(rng.choice(['int5', 'cont', 'int100'])), refs=bool(rng.random() < .7),
                            min_per_video=3, min_per_observer=3, unused_content=False, reps=1 if rng.random() < .6 else 2)
        style = str(rng.choice(['list', 'dict', 'tuple']))
        d0 = gen.dataset(st, style, rng, 'mixed')
        for v in d0.dis_videos + d0.ref_videos:
            if rng.random() < .2:
                v['tags'] = ['a', 1] if rng.random() < .5 else {'a': 1}
        if kind == 'select':
            info = {'selected_subjects': [int(x) for x in rng.permutation(st.S)[:max(3, st.S - 1)]]}
        if kind == 'missing':
            info = {'missing_probability': 0.1, 'seed': int(rng.integers(0, 1000))}
        pool = list(MODELS)
        if not ref.has_unique_refs(st):
            pool = [m for m in pool if 'DMOS' not in m]
        if gen.max_reps(st) > 1 or kind == 'missing':
            pool = [m for m in pool if m != 'LS']
        ctx.describe(kind=kind, style=style, study=st.brief())
    fields = copy.deepcopy(d0.__dict__)
    infocopy = copy.deepcopy(info)
    d, rd = build(kind, d0.__dict__, info)
    insts = {}
    kept = []
    nmodel = 0
    heavy = 0
    hist = []
    steps = int(rng.integers(4, 9))
    for step in range(steps):
        op = str(rng.choice(['model', 'model', 'model', 'again', 'export', 'convert', 'fail', 'scramble', 'other'])) if step else 'model'
        pre = gen.snapshot(d.__dict__)
        preinfo = gen.snapshot(info)
        with quiet():
            if op in ('model', 'again'):
                n = pool[int(rng.integers(0, len(pool)))]
                if n in HEAVY:
                    heavy += 1
                    if heavy > (2 if i % 4 else 4):
                        n = 'P910'
                opts = {}
                if kind != 'pc':
                    if rng.random() < .25:
                        opts['transform_final'] = {'p2': 0.1, 'p1': 2.0, 'p0': -1.0} if rng.random() < .5 else {'p1': -1.0}
                    if rng.random() < .2 and n != 'PERSUBJECT':
                        opts['normalize_final'] = True
                    if n == 'PERSUBJECT':
                        opts = {}
                    if n in ('P910', 'MLE', 'MLE_CO') and rng.random() < .4:
                        opts['force_subjbias_zeromean'] = False
                    if n in HEAVY and rng.random() < .5:
                        opts['delta_thr'] = float(10. ** rng.integers(-6, -1))
                    if n in HEAVY and rng.random() < .15:
                        opts['use_log'] = True
                    if n in ('MLE_CO', 'MLE') and st.E * st.S < 50 and gen.max_reps(st) == 1 and rng.random() < .3:
                        opts.update(gradient_method=str(rng.choice(['original', 'numerical'])), delta_thr=1e-3)
                    if n in ('P910', 'MLE_CO_AP') and rng.random() < .3:
                        opts.update([[('subject_rejection', True)], [('zscore_mode', True)], [('bias_offset', True)]][int(rng.integers(0, 3))])
                    if n in ('MOS', 'P910', 'SR_MOS', 'BR_MOS', 'LS') and ref.has_unique_refs(st) and kind == 'raw' and rng.random() < .2:
                        opts['dscore_mode'] = True
                    if n == 'MOS' and rng.random() < .3:
                        opts['subject_rejection'] = True
                        opts['subject_rejection_type'] = str(rng.choice(['kurtosis', 'pearson', 'spearman']))
                    elif n == 'MOS' and rng.random() < .3:
                        opts['zscore_mode'] = True
                elif n != 'BT_MLE' and rng.random() < .3:
                    opts['zscore_output'] = True
                if op == 'again' and n in insts:
                    m = insts[n]
                else:
                    m = insts[n] = model(n)(rd)
                preo = gen.snapshot(opts)
                np.random.seed(int(rng.integers(0, 2 ** 31)))
                random.seed(int(rng.integers(0, 2 ** 31)))
                try:
                    with nosleep():
                        res = m.run_modeling(**opts)
                except Exception as e:      # e.g. a likelihood that diverges on this study
                    res = e
                nmodel += 1
                hist.append((op, n, sorted(opts)))
                ctx.event('model_runs')
                ctx.check(gen.snapshot(opts) == preo, 'the option values given to %s were changed' % n)
                want = _z((kind, copy.deepcopy(fields), copy.deepcopy(infocopy), n, copy.deepcopy(opts), int(rng.integers(0, 2 ** 31))))
                if isinstance(res, Exception):
                    ctx.check(want[0] == 'err', '%s fails only after a history: %r' % (n, res), history=hist)
                    ctx.event('consistent_failures')
                    insts.pop(n, None)
                    continue
                if want[0] != 'ok':
                    ctx.fail('a first run in a fresh process fails: ' + want[1], model=n, history=hist)
                df = same(res, want[1])
                ctx.check(df is None, 'the result of %s depends on the history: %s' % (n, df), history=hist)
                kept.append((n, res, gen.snapshot(res)))
            elif op == 'export':
                if insts:
                    n = sorted(insts)[int(rng.integers(0, len(insts)))]
                    m = insts[n]
                    hist.append((op, n))
                    if not (n == 'PERSUBJECT' and (kind != 'raw' or gen.max_reps(st) > 1)) and kind in ('raw', 'pc', 'missing'):
                        kw = {} if rng.random() < .5 or n == 'PERSUBJECT' else {'aggregate_content_ids': [0], 'quality_width': 640}
                        pk = gen.snapshot(kw)
                        if rng.random() < .5:
                            ds = m.to_aggregated_dataset(**kw)
                            # what the caller does with an export is his business
                            for v in ds.dis_videos:
                                scribble(v)
                            for v in ds.ref_videos:
                                scribble(v)
                            ds.quality_width = 7
                        else:
                            m.to_aggregated_dataset_file(fixed_tmp(ctx, 'x', '.py'), **kw)
                        ctx.check(gen.snapshot(kw) == pk, 'export options were changed')
                        ctx.event('exports')
            elif op == 'convert' and kind == 'raw':
                c = int(rng.integers(0, 4))
                hist.append((op, c))
                if c == 0 and gen.max_reps(st) == 1 and ref_complete(st, style) and not any(isinstance(x, (list, tuple)) for v in d.dis_videos for x in (v['os'].values() if style == 'dict' else v['os'])):
                    rd.to_pc_dataset(sampling_seed=3)
                elif c == 1:
                    rd.to_dictionary_style_dataset_file(fixed_tmp(ctx, 'y', '.py'))
                    rd.to_dictionary_style_dataset()
                elif c == 2:
                    st2 = gen.make_study(rng, E=st.E, S=50 if rng.random() < .15 else 4, reps=1)
                    for k in range(st.E):
                        st2.videos[k]['path'] = st.videos[k]['path']
                    st2.observers = list(st.observers[:2]) + ['other%d' % k for k in range(st2.S - 2)]
                    d2 = gen.dataset(st2, 'dict', rng)
                    p2 = gen.snapshot(d2.__dict__)
                    rd.to_combined_overlap_dataset(raw_reader(d2))
                    ctx.check(gen.snapshot(d2.__dict__) == p2, 'combining changed the second dataset')
                else:
                    from sureal.dataset_reader import SelectSubjectRawDatasetReader, CorruptSubjectRawDatasetReader
                    sel = SelectSubjectRawDatasetReader(d, input_dict={'selected_subjects': [0, 2, 1]})
                    run('MOS', sel)
                    sel.to_dataset()
                    cor = CorruptSubjectRawDatasetReader(d, input_dict={'selected_subjects': [1], 'corrupt_behavior': 'min'})
                    cor.to_dataset()
                ctx.event('conversions')
            elif op == 'fail':
                hist.append((op,))
                bad = [('MOS', {'zscore_mode': True, 'bias_offset': True}), ('MLE', {'subject_rejection': True}), ('SR_MOS', {'subject_rejection': True}),
                       ('MLE_CO', {'gradient_method': 'no'}), ('MOS', {'subject_rejection_type': 'kurtosis'}), ('BT500', {'subject_rejection_type': 'pcc'})]
                n, o = bad[int(rng.integers(0, len(bad)))]
                try:
                    (insts.get(n) or model(n)(rd)).run_modeling(**o)
                except BaseException:
                    ctx.event('failed_runs')
            elif op == 'other':
                # other study, other models, in the same process
                st2 = gen.make_study(rng, E_range=(4, 7), S_range=(4, 7), refs=False, reps=1, missing=0.1, scale='cont', min_per_observer=3, min_per_video=3)
                n = ['MOS', 'P910', 'BT500', 'P913', 'ZS_MOS', 'MLE_CO', 'MLE_SO'][int(rng.integers(0, 7))]
                style2 = 'dict'
                if st is not None and rng.random() < .6:      # one that looks the same from outside: name, videos, files, perhaps observers
                    st2, style2 = st.copy(), style
                    more = int(rng.integers(0, 3))
                    st2.observers = st2.observers + ['more%d' % k for k in range(more)]
                    lo, hi = min(x for r in st.votes for v in r if v for x in v if x == x), max(x for r in st.votes for v in r if v for x in v if x == x)
                    st2.votes = [[[float(rng.uniform(lo, hi))] for _ in range(st.S + more)] for _ in range(st.E)]
                    ctx.event('lookalike_studies')
                try:
                    run(n, raw_reader(gen.dataset(st2, style2, rng)), **({'delta_thr': 10. ** -float(rng.integers(1, 5))} if n.startswith('MLE') else {}))
                except ValueError:
                    pass
                hist.append((op, n))
            elif op == 'scramble':
                np.random.seed(int(rng.integers(0, 2 ** 31)))
                random.seed(5)
                np.seterr(all='ignore')
                hist.append((op,))
        ctx.check(gen.snapshot(d.__dict__) == pre, 'the dataset was changed by %s' % (hist[-1:],), history=hist)
        ctx.check(gen.snapshot(info) == preinfo, 'the reader options were changed')
        for n, r, s in kept:
            ctx.check(gen.snapshot(r) == s, 'an earlier result of %s changed' % n, history=hist)
        ctx.event('steps')
    if nmodel >= 2:
        ctx.sig(kind, hist, repr(pre))

def scribble(v):
    for k in list(v):
        if isinstance(v[k], list):
            v[k].append('changed')
        elif isinstance(v[k], dict):
            v[k]['changed'] = 1
        else:
            v[k] = 'changed'

def ref_complete(st, style):
    return not any(v is None or any(x != x for x in v) for row in st.votes for v in row)
