"""One defect is injected into an otherwise valid dataset, or one contradictory option set is given to a model; the
call must be refused (raise), and the same call without the defect must be served. Non-trivial: at least two videos and two
observers."""
import numpy as np, os
from mon import gen, ref
from mon.util import *

TECH = 'runtime monitoring with fault injection into inputs: refusal oracle with a positive control per case'
MOSLIKE = ['MOS', 'SR_MOS', 'SR_MOS_PCC', 'SR_MOS_SRCC', 'ZS_MOS', 'ZS_SR_MOS', 'BR_MOS', 'BR_SR_MOS', 'BR_SR_MOS_PCC', 'BR_SR_MOS_SRCC',
           'BT500', 'P913']
P910L = ['P910', 'Subject_MLE_Projection', 'Subject_MLE_Projection2', 'MLE_CO_AP', 'MLE_CO_AP2']
MLEL = ['MLE', 'MLE_CO', 'MLE_SO']
DOES = {  # step each name already performs
    'subject_rejection': ['SR_MOS', 'SR_MOS_PCC', 'SR_MOS_SRCC', 'ZS_SR_MOS', 'SR_DMOS', 'ZS_SR_DMOS', 'BR_SR_MOS', 'BR_SR_MOS_PCC',
                          'BR_SR_MOS_SRCC', 'BT500', 'P913'],
    'zscore_mode': ['ZS_MOS', 'ZS_SR_MOS', 'ZS_SR_DMOS', 'LIVE_DMOS'],
    'dscore_mode': ['DMOS', 'LIVE_DMOS', 'SR_DMOS', 'ZS_SR_DMOS', 'DMOS_MLE', 'DMOS_MLE_CO'],
    'bias_offset': ['BR_MOS', 'BR_SR_MOS', 'BR_SR_MOS_PCC', 'BR_SR_MOS_SRCC', 'P913'],
}
DS = ['no_os', 'bad_os', 'unequal', 'unequal_t', 'unknown_content', 'late_defect']
OPT = ['zs_br', 'type_wo_rej', 'bad_type', 'rej_in_ml', 'repeat', 'reps_ls', 'noref', 'tworefs', 'norefscore', 'name', 'gradient', 'filetype', 'numpdf', 'off', 'off']
PC = ['pc_asset_range', 'pc_outcome', 'pc_notdict', 'pc_model_on_ratings']
KINDS = DS * 2 + OPT * 2 + PC

def num_cases(tier):
    return 900 if tier == 'quick' else 8000

def load(ctx, d, via):
    if via == 0:
        return raw_reader(d)
    from sureal.tools.misc import import_python_file
    return raw_reader(import_python_file(gen.write_py(d, fixed_tmp(ctx, 'd', '.py'))))

def pick(rng, l):
    return l[int(rng.integers(0, len(l)))]

def served(n, rd, **o):
    try:
        run(n, rd, **o)
    except ValueError as e:
        if 'MLE' not in n or 'infs or NaNs' not in str(e):      # a likelihood may diverge on a given study
            raise

def run_case(ctx, rng, i):
    kind = KINDS[i % len(KINDS)]
    ctx.event('kind_' + kind)
    if kind in PC:
        return run_pc(ctx, rng, i, kind)
    st = gen.make_study(rng, E_range=(3, 9), S_range=(3, 9), outsize=.02 if kind not in DS else .12, cgap=True if kind == 'unknown_content' and rng.random() < .5 else None, reps=1, missing=0.0 if rng.random() < .5 else 0.15, refs=True,
                        min_per_video=3, min_per_observer=3, scale='cont')
    if kind in DS and rng.random() < .15:
        st = gen.make_study(rng, E=int(rng.integers(60, 300)), S_range=(3, 9), reps=1, missing=0.0, refs=True, min_per_video=3, min_per_observer=3, scale='cont')
        ctx.event('long_studies')
    style = 'list' if kind.startswith('unequal') or rng.random() < 0.5 else 'dict'
    d = gen.dataset(st, style, rng)
    ctx.describe(kind=kind, style=style, study=st.brief())
    ctx.sig(kind, st.signature())
    via = int(rng.integers(0, 2))
    if kind in DS:
        with quiet():
            load(ctx, d, via)        # control
        e = int(rng.integers(0, st.E))
        v = d.dis_videos[e]
        if kind == 'late_defect':
            e = st.E - 1
            v = d.dis_videos[e]
            kind = pick(rng, ['no_os', 'bad_os', 'unknown_content'])
        if kind == 'no_os':
            del v['os']
        elif kind == 'bad_os':
            v['os'] = pick(rng, [None, 3.5, 'abc', 4, True])
        elif kind == 'unequal':
            if rng.random() < 0.5:
                v['os'] = list(v['os']) + [3.0] * int(rng.integers(1, 3))
            else:
                v['os'] = list(v['os'])[:-1]
        elif kind == 'unequal_t':
            v['os'] = tuple(list(v['os'])[:-1])
        elif kind == 'unknown_content':
            have = [c['content_id'] for c in st.contents]
            gaps = [c for c in range(max(have)) if c not in have]
            v['content_id'] = pick(rng, gaps) if gaps and rng.random() < .6 else pick(rng, [max(have) + 1, -1, 997])
        def go():
            r = load(ctx, d, via)
            return run(pick(rng, ['MOS', 'P910', 'BT500']), r)
        with quiet():
            raises(ctx, go, 'a dataset with defect %s on video %d was accepted' % (kind, e))
        return
    ok = ref.has_unique_refs(st)
    with quiet():
        if kind == 'zs_br':
            n = pick(rng, ['MOS', 'BR_MOS', 'BR_SR_MOS', 'P913', 'ZS_MOS', 'SR_MOS', 'P910', 'MLE_CO'])
            o = {'zscore_mode': True, 'bias_offset': True}
            if n in DOES['zscore_mode']:
                del o['zscore_mode']
            if n in DOES['bias_offset']:
                del o['bias_offset']
            served(n, load(ctx, d, via))
            raises(ctx, lambda: run(n, load(ctx, d, via), **o), '%s accepted z-scoring together with bias removal' % n)
        elif kind == 'off':
            # switching a step off explicitly is no contradiction: it is the same request as not mentioning it
            n = pick(rng, ['MOS', 'ZS_MOS', 'LS', 'MLE_legacy'] + P910L + MLEL + sum(DOES.values(), []))
            if n in DOES['dscore_mode'] and not ok:
                ctx.skip('no suitable study')
            try:
                a = run(n, load(ctx, d, via))
            except Exception:
                ctx.skip('not served by this method')
            o = {k: v for k, v in dict(subject_rejection=False, zscore_mode=False, dscore_mode=False, bias_offset=False, normalize_final=False,
                                       transform_final=None, subject_rejection_type=None).items() if rng.random() < .5}
            if n in P910L + MLEL + ['MLE_legacy', 'DMOS_MLE', 'DMOS_MLE_CO'] and rng.random() < .7:
                o['force_subjbias_zeromean'] = pick(rng, [None, True])
            if n in MLEL and rng.random() < .5:
                o.update(pick(rng, [{'gradient_method': 'simplified'}, {'numerical_pdf': 'gaussian'}, {'delta_thr': 1e-8}]))
            if not o:
                o = {'subject_rejection': False}
            b = run(n, load(ctx, d, via), **o)
            for k in a:
                dd = same(a[k], b.get(k), 1e-9, 1e-9)
                ctx.check(dd is None, '%s: switching a step off explicitly changes %s' % (n, k), options=o, diff=dd)
            ctx.event('explicitly_off', len(o))
        elif kind == 'type_wo_rej':
            n = pick(rng, ['MOS', 'ZS_MOS', 'BR_MOS'] + P910L)
            t = pick(rng, ['kurtosis', 'pearson', 'spearman'])
            o = {'subject_rejection_type': t}
            if rng.random() < 0.5:
                o['subject_rejection'] = False
            raises(ctx, lambda: run(n, load(ctx, d, via), **o), '%s accepted a rejection type without rejection' % n)
            run(n, load(ctx, d, via), subject_rejection=False, subject_rejection_type=None)
        elif kind == 'bad_type':
            n = pick(rng, ['MOS', 'BR_MOS', 'P910'])
            t = pick(rng, ['kurt', 'PEARSON', 'pcc', '', 'kendall', 'spearmanr'])
            raises(ctx, lambda: run(n, load(ctx, d, via), subject_rejection=True, subject_rejection_type=t), '%s accepted the unknown rejection type %r' % (n, t))
            run('MOS', load(ctx, d, via), subject_rejection=True, subject_rejection_type='kurtosis')
        elif kind == 'rej_in_ml':
            n = pick(rng, ['MLE', 'MLE_CO', 'MLE_SO', 'LS', 'MLE_legacy', 'DMOS_MLE', 'DMOS_MLE_CO', 'MLE_BSTP', 'MLE_CO_BSTP'])
            o = {'subject_rejection': True}
            if rng.random() < 0.3:
                o['subject_rejection_type'] = 'kurtosis'
            raises(ctx, lambda: run(n, load(ctx, d, via), **o), '%s accepted subject rejection' % n)
        elif kind == 'repeat':
            step = pick(rng, sorted(DOES))
            n = pick(rng, DOES[step])
            raises(ctx, lambda: run(n, load(ctx, d, via), **{step: True}), '%s accepted repeating %s' % (n, step))
            if ok or n not in DOES['dscore_mode']:
                served(n, load(ctx, d, via), **{step: False} if rng.random() < .5 and n not in ('LIVE_DMOS',) else {})
        elif kind == 'reps_ls':
            n = pick(rng, ['LS', 'MLE_legacy'])
            st2 = st.copy()
            e, s = int(rng.integers(0, st.E)), int(rng.integers(0, st.S))
            st2.votes[e][s] = [2.0, 3.0]
            if n == 'LS':
                run(n, load(ctx, d, via))
            raises(ctx, lambda: run(n, load(ctx, gen.dataset(st2, style, rng), via)), '%s accepted repeated votes' % n)
        elif kind in ('noref', 'tworefs', 'norefscore'):
            n = pick(rng, ['DMOS', 'LIVE_DMOS', 'SR_DMOS', 'ZS_SR_DMOS', 'MOS', 'BR_MOS', 'P910', 'MLE_CO', 'DMOS_MLE', 'DMOS_MLE_CO', 'PERSUBJECT', 'LS'])
            o = {} if n in DOES['dscore_mode'] else {'dscore_mode': True}
            if not ok:
                ctx.skip('study without unique references')
            if n not in ('DMOS_MLE', 'MLE_CO', 'DMOS_MLE_CO', 'P910'):
                run(n, load(ctx, d, via), **o)
            fl = ref.is_ref(st)
            if kind == 'noref':
                e = pick(rng, [k for k in range(st.E) if fl[k]])
                d.dis_videos[e]['path'] = '/dis/renamed.yuv'
            elif kind == 'tworefs':
                cand = [k for k in range(st.E) if not fl[k]]
                if not cand:
                    ctx.skip('no second video of the content')
                e = pick(rng, cand)
                c = d.dis_videos[e]['content_id']
                d.dis_videos[e]['path'] = [r for r in d.ref_videos if r['content_id'] == c][0]['path']
            else:
                del d.ref_score
                if rng.random() < 0.5:
                    d.ref_score = None
            raises(ctx, lambda: run(n, load(ctx, d, via), **o), '%s computed differential scores although: %s' % (n, kind))
        elif kind == 'name':
            bad = pick(rng, ['', 'mos', 'MOS ', 'MLE_', 'P.910', 'XYZ', 'MosModel', None, 'SR', 'PERSUBJECT2', 'MLE_CO_AP3'])
            raises(ctx, lambda: model(bad), 'the unknown model name %r was resolved' % (bad,))
            ctx.check(model('MOS').TYPE == 'MOS', 'model name')
        elif kind == 'gradient':
            n = pick(rng, ['MLE', 'MLE_CO', 'MLE_SO', 'DMOS_MLE'])
            g = pick(rng, ['simple', 'newton', '', None, 'Simplified', 'analytic'])
            raises(ctx, lambda: run(n, load(ctx, d, via), gradient_method=g), '%s accepted gradient method %r' % (n, g))
        elif kind == 'numpdf':
            n = pick(rng, ['MLE', 'MLE_CO', 'MLE_SO'])
            g = pick(rng, ['normal', '', 'laplace', None])
            raises(ctx, lambda: run(n, load(ctx, d, via), gradient_method='numerical', numerical_pdf=g), '%s accepted density %r' % (n, g))
        elif kind == 'filetype':
            from sureal.routine import run_subjective_models
            p = gen.write_json(d, fixed_tmp(ctx, 'd', '.json'))
            run_subjective_models(p, [model('MOS')], do_plot=[])
            suf = pick(rng, ['.txt', '.csv', '', '.JSON', '.yaml', '.pyc'])
            q = fixed_tmp(ctx, 'e', suf)
            (gen.write_py if rng.random() < .5 else gen.write_json)(d, q)
            raises(ctx, lambda: run_subjective_models(q, [model('MOS')], do_plot=[]), 'a dataset file of type %r was accepted' % suf)

def run_pc(ctx, rng, i, kind):
    from sureal.dataset_reader import PairedCompDatasetReader
    pc = gen.make_pc(rng, M=int(rng.integers(3, 7)), S=int(rng.integers(2, 6)), density=1.0)
    d = gen.pc_dataset(pc, rng, str(rng.choice(['wins', 'first', 'random'])))
    ctx.describe(kind=kind, M=pc['M'], S=len(pc['subs']))
    ctx.sig(kind, repr(sorted(pc['out'].items())))
    with quiet():
        PairedCompDatasetReader(d).opinion_score_3darray
        keys = [(v, k) for v in d.dis_videos for k in v['os']]
        v, k = keys[int(rng.integers(0, len(keys)))]
        if kind == 'pc_asset_range':
            bad = int(rng.choice([pc['M'], pc['M'] + 3, -1]))
            v = d.dis_videos[int(rng.integers(0, pc['M']))]
            old = v['asset_id']
            v['asset_id'] = bad
        elif kind == 'pc_outcome':
            v['os'][k] = [2, -1, 0.25, 0.7, 5, 1.5][int(rng.integers(0, 6))]
        elif kind == 'pc_notdict':
            v['os'] = [1, 0, 0.5]
        elif kind == 'pc_model_on_ratings':
            st = gen.make_study(rng, E_range=(3, 6), S_range=(3, 6))
            r = raw_reader(gen.dataset(st, 'dict', rng))
            raises(ctx, lambda: run(str(rng.choice(['BT_MLE', 'THURSTONE_MLE', 'BT_NR'])), r), 'a paired comparison model scored a rating dataset')
            return
        def go():
            r = PairedCompDatasetReader(d)
            return run(str(rng.choice(['BT_MLE', 'THURSTONE_MLE', 'BT_NR'])), r) if rng.random() < .5 else r.opinion_score_3darray
        raises(ctx, go, 'a paired comparison dataset with %s was accepted' % kind)
