"""Model names on generated studies: each name's whole result against the composition it stands for (through the options of the plain models and through an
independent preprocessing chain), against its other names, in processes with other import orders and histories. Non-trivial: two videos and two observers;
equalities per name are counted."""
import os, sys, json, pickle, subprocess, warnings
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 420 if tier == 'quick' else 5000

D, Z, B = {'dscore_mode': True}, {'zscore_mode': True}, {'bias_offset': True}
SR, PCC, SRCC = {'subject_rejection': True}, {'subject_rejection': True, 'subject_rejection_type': 'pearson'}, {'subject_rejection': True, 'subject_rejection_type': 'spearman'}
def j(*a):
    r = {}
    for x in a:
        r.update(x)
    return r

WHOLE = {  # name: (plain model, options)
    'SR_MOS': ('MOS', SR), 'BT500': ('MOS', SR), 'SR_MOS_PCC': ('MOS', PCC), 'SR_MOS_SRCC': ('MOS', SRCC), 'ZS_MOS': ('MOS', Z), 'ZS_SR_MOS': ('MOS', j(Z, SR)),
    'DMOS': ('MOS', D), 'SR_DMOS': ('MOS', j(D, SR)), 'ZS_SR_DMOS': ('MOS', j(D, Z, SR)), 'DMOS_MLE': ('MLE', D), 'DMOS_MLE_CO': ('MLE_CO', D),
    'BR_SR_MOS': ('BR_MOS', SR), 'P913': ('BR_MOS', SR), 'BR_SR_MOS_PCC': ('BR_MOS', PCC), 'BR_SR_MOS_SRCC': ('BR_MOS', SRCC),
    'MLE_CO_AP': ('Subject_MLE_Projection', {}), 'MLE_CO_AP2': ('Subject_MLE_Projection2', {}), 'P910': ('Subject_MLE_Projection2', {}),
}
SCORES = {  # name: (plain model, options) agreeing in quality scores and their spread
    'BR_MOS': ('MOS', B), 'BR_SR_MOS': ('MOS', j(B, SR)), 'P913': ('MOS', j(B, SR)), 'BR_SR_MOS_PCC': ('MOS', j(B, PCC)), 'BR_SR_MOS_SRCC': ('MOS', j(B, SRCC)),
}
ALIAS = [('BT500', 'SR_MOS'), ('P913', 'BR_SR_MOS'), ('P910', 'MLE_CO_AP2'), ('P910', 'Subject_MLE_Projection2'), ('MLE_CO_AP', 'Subject_MLE_Projection')]
NAMES = ['MOS', 'DMOS', 'LIVE_DMOS', 'LS', 'MLE_legacy', 'MLE', 'MLE_CO', 'MLE_SO', 'SR_MOS', 'SR_MOS_PCC', 'SR_MOS_SRCC', 'ZS_MOS', 'ZS_SR_MOS', 'DMOS_MLE', 'DMOS_MLE_CO', 'SR_DMOS', 'ZS_SR_DMOS',
         'PERSUBJECT', 'BR_MOS', 'BR_SR_MOS', 'BR_SR_MOS_PCC', 'BR_SR_MOS_SRCC', 'Subject_MLE_Projection', 'Subject_MLE_Projection2', 'MLE_CO_AP', 'MLE_CO_AP2', 'BT500', 'P913', 'P910']
EXTRA = {'MLE_BSTP': 'sureal.experimental', 'MLE_CO_BSTP': 'sureal.experimental', 'BT_NR': 'sureal.pc_subjective_model', 'BT_MLE': 'sureal.pc_subjective_model', 'THURSTONE_MLE': 'sureal.pc_subjective_model'}
REDO = {'DMOS': D, 'LIVE_DMOS': j(D, {}), 'SR_MOS': SR, 'BT500': SR, 'SR_MOS_PCC': SR, 'SR_MOS_SRCC': SR, 'ZS_MOS': Z, 'ZS_SR_MOS': Z, 'DMOS_MLE': D, 'DMOS_MLE_CO': D, 'SR_DMOS': SR, 'ZS_SR_DMOS': Z, 'BR_MOS': B, 'BR_SR_MOS': B,
        'P913': SR, 'BR_SR_MOS_PCC': SR, 'BR_SR_MOS_SRCC': B, 'MLE': SR, 'MLE_CO': SR, 'LS': SR, 'MLE_legacy': SR}

def go(name, ds, opts):
    with warnings.catch_warnings(), np.errstate(all='ignore'), quiet():
        warnings.simplefilter('ignore')
        return run(name, raw_reader(ds), **opts)

def fresh_job(job):
    name, ds, opts = job
    return go(name, ds, opts)

_z = None
def fresh(job):
    global _z
    if _z is None or _z.owner != os.getpid():
        import sureal, sureal.experimental, sureal.pc_subjective_model
        _z = Zygote(fresh_job)
        _z.owner = os.getpid()
    return _z(job)

def run_case(ctx, rng, i):
    fresh_ready()
    if i % 60 == 59:
        return imports(ctx, rng, i)
    name = NAMES[i % len(NAMES)]
    slow = 'MLE' in name and 'Proj' not in name and 'AP' not in name
    diff = 'DMOS' in name
    single = name in ('LS', 'MLE_legacy')
    reps = 1 if single or rng.random() < .6 else 3
    st = gen.make_study(rng, E_range=(4, 7) if slow else (26, 40) if i % 23 == 7 else (4, 14), S_range=(4, 7) if slow else (20, 30) if i % 23 == 7 else (4, 14), reps=reps, missing=float(rng.choice([0, 0, .2])) if not single else 0., min_per_video=3, min_per_observer=3,
                        refs=True if diff else None, erratic=int(rng.choice([0, 1, 2])), scale=None if not slow else 'int5', unused_content=False)
    style = str(rng.choice(['list', 'dict']))
    ds = gen.dataset(st, style, rng)
    X, names = gen.table(st, style)
    common = {}
    if rng.random() < .3:
        common['normalize_final'] = bool(rng.random() < .6)
    if rng.random() < .3:
        common['transform_final'] = {'p1': float(rng.uniform(-2, 2)), 'p0': float(rng.uniform(-3, 3))}
    if name in WHOLE and rng.random() < .25 and not diff and 'ZS' not in name and not name.startswith('BR') and name not in ('P913',) and 'MOS' in name:
        common['zscore_mode'] = True
    ctx.describe(name=name, options=common, style=style, study=st.brief())
    ctx.sig(name, str(common), style, st.signature())
    m = model(name)
    ctx.check(m.TYPE == name, 'the name resolves to another model', got=m.TYPE, want=name)
    try:
        r = go(name, ds, common)
    except (ValueError, FloatingPointError):
        r = None
    if name in REDO:
        o = j(common, REDO[name])
        raises(ctx, lambda: go(name, ds, o), 'an option the model already includes or excludes was accepted', model=name, option=REDO[name])
    if r is None:
        ctx.skip('the model refused')
    tol = 1e-9
    if name in WHOLE:
        base, o = WHOLE[name]
        w = go(base, gen.dataset(st, style, rng), j(common, o))
        d = same(r, w, tol, tol)
        ctx.check(d is None, 'result differs from the composition of steps', model=name, composition=[base, str(o)], diff=d)
        ctx.event('compositions')
    if name in SCORES:
        base, o = SCORES[name]
        w = go(base, gen.dataset(st, style, rng), j(common, o))
        for k in ('quality_scores', 'quality_scores_std', 'quality_scores_ci95', 'observer_rejected', 'observer_rejected_1st_stats', 'observer_rejected_2nd_stats'):
            ctx.check((k in r) == (k in w), 'field differs from the composition of steps', model=name, field=k)
            if k in w:
                d = same(r[k], w[k], tol, tol)
                ctx.check(d is None, 'result differs from the composition of steps', model=name, composition=[base, str(o)], field=k, diff=d)
        ctx.event('compositions')
    for a, b in ALIAS:
        if name in (a, b):
            other = b if name == a else a
            d = same(r, go(other, gen.dataset(st, style, rng), common), tol, tol)
            ctx.check(d is None, 'two names of one method disagree', names=[name, other], diff=d)
            ctx.event('aliases')
    if name == 'LIVE_DMOS':
        w = go('MOS', ds, j(D, Z))
        if not common:
            eq(ctx, r['quality_scores'], (np.asarray(w['quality_scores'], float) + 3) * 100 / 6, 'LIVE_DMOS', tol, tol)
    if name in ('Subject_MLE_Projection', 'P910'):
        w = go('Subject_MLE_Projection2' if name != 'P910' else 'Subject_MLE_Projection', ds, common)
        for k in w:
            if k not in ('quality_scores_std', 'quality_scores_ci95'):
                d = same(r.get(k), w[k], tol, tol)
                ctx.check(d is None, 'the two projection solvers differ beyond the spread of the scores', field=k, diff=d)
    # independent chain
    if not common and not slow and name in WHOLE and WHOLE[name][0] in ('MOS', 'BR_MOS') or name in ('BR_MOS', 'PERSUBJECT') and not common:
        base, o = WHOLE.get(name, ('BR_MOS', {}))
        try:
            p = ref.prep(X, st, dscore='dscore_mode' in o, zscore='zscore_mode' in o, bias=base == 'BR_MOS' and name != 'PERSUBJECT', rejection=o.get('subject_rejection_type', 'kurtosis') if 'subject_rejection' in o else None)
        except ref.Ambiguous:
            p = None
        if p and not p.get('undefined_correlation'):
            if name == 'PERSUBJECT':
                eq(ctx, r['quality_scores'], p['X'], 'PERSUBJECT', 1e-9, 1e-9)
            else:
                q = ref.mos_stats(p['X'][:, p['keep']])
                eq(ctx, r['quality_scores'], q['mos'], 'scores of %s' % name, 1e-9, 1e-9)
                if 'flags' in p:
                    ctx.check([bool(x) for x in r['observer_rejected']] == [bool(x) for x in p['flags']], 'observers rejected by %s' % name, got=list(r['observer_rejected']), want=p['flags'])
                    ctx.event('rejections', int(sum(p['flags'])))
                if 'bias' in p:
                    eq(ctx, r['observer_bias'], p['bias'], 'bias of %s' % name, 1e-9, 1e-9)
            ctx.event('independent_chains')
    if i % 4 == 0:
        tag, w = fresh((name, ds, common))
        ctx.check(tag == 'ok', 'failed in a fresh process', error=str(w)[:300])
        d = same(r, w, tol, tol)
        ctx.check(d is None, 'result depends on which models were used before', model=name, diff=d)
        ctx.event('fresh_processes')

def fresh_ready():
    # the fresh-process template is forked before this worker runs any model
    if _z is None or _z.owner != os.getpid():
        ds = gen.dataset(gen.make_study(np.random.default_rng(0), E=3, S=3, reps=1, missing=0.), 'list')
        fresh(('MOS', ds, {}))

CHILD = r'''
import sys, pickle, importlib, warnings, io, contextlib
warnings.simplefilter('ignore')
job = pickle.load(open(sys.argv[1], 'rb'))
out = {}
with contextlib.redirect_stdout(io.StringIO()):
    for m in job['imports']:
        importlib.import_module(m)
    from sureal.subjective_model import SubjectiveModel
    import sureal
    for n, o in job['seq']:
        out.setdefault('resolved', []).append(SubjectiveModel.find_subclass(n).TYPE)
        if o is not None:
            out.setdefault('results', []).append(SubjectiveModel.find_subclass(n).from_dataset_file(job['path']).run_modeling(**o))
    types = [c.TYPE for c in SubjectiveModel.get_subclasses_recursively() if isinstance(getattr(c, 'TYPE', None), str)]
    for n in job['unknown']:
        try:
            SubjectiveModel.find_subclass(n)
            out.setdefault('accepted', []).append(n)
        except AssertionError:
            pass
    class Twin(SubjectiveModel.find_subclass('MOS')):
        TYPE = 'MLE'
    try:
        out['twin'] = SubjectiveModel.find_subclass('MLE').__name__
    except AssertionError:
        out['twin'] = None
pickle.dump(out, open(sys.argv[2], 'wb'))
'''

def imports(ctx, rng, i):
    st = gen.make_study(rng, E_range=(4, 7), S_range=(4, 7), reps=1, missing=0., refs=True, scale='int5', unused_content=False)
    path = fixed_tmp(ctx, 'ds', '.py')
    gen.write_py(gen.dataset(st, 'dict', rng), path)
    mods = ['sureal', 'sureal.subjective_model', 'sureal.experimental', 'sureal.pc_subjective_model', 'sureal.routine', 'sureal.dataset_reader', 'sureal.perf_metric']
    mods = [mods[int(k)] for k in rng.permutation(len(mods))[:int(rng.integers(1, 8))]]
    seq = [(n, {} if k < 6 else None) for k, n in enumerate([NAMES[int(x)] for x in rng.permutation(len(NAMES))])]
    seq += [(n, None) for n, m in EXTRA.items() if m in mods]
    job = {'imports': mods, 'seq': seq, 'path': path, 'unknown': ['mos', 'MOS ', 'SubjectiveModel', '', 'P.910', 'BT-500']}
    ctx.describe(imports=mods, sequence=[n for n, o in seq[:6]], study=st.brief())
    ctx.sig('imports', tuple(mods), tuple(seq[k][0] for k in range(6)), st.signature())
    a, b, c = fixed_tmp(ctx, 'job', '.pkl'), fixed_tmp(ctx, 'out', '.pkl'), fixed_tmp(ctx, 'child', '.py')
    pickle.dump(job, open(a, 'wb'))
    open(c, 'w').write(CHILD)
    p = subprocess.run([sys.executable, '-W', 'ignore', c, a, b], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=300)
    if p.returncode and b'ValueError' in p.stderr[-400:]:
        ctx.skip('a model refused')
    ctx.check(p.returncode == 0, 'names could not be used with this import order', imports=mods, error=p.stderr[-300:].decode('utf-8', 'replace'))
    out = pickle.load(open(b, 'rb'))
    ctx.check(out['resolved'] == [n for n, o in seq], 'names resolve to other models', got=out['resolved'])
    ctx.check('accepted' not in out, 'an unknown name was resolved', got=out.get('accepted'))
    ctx.check(out['twin'] is None, 'a name that two models carry was resolved', got=out['twin'])
    for (n, o), r in zip(seq, out['results']):
        with warnings.catch_warnings(), np.errstate(all='ignore'), quiet():
            warnings.simplefilter('ignore')
            w = model(n).from_dataset_file(path).run_modeling(**o)
        d = same(r, w, 1e-9, 1e-9)
        ctx.check(d is None, 'result depends on the order of imports or models', model=n, imports=mods, diff=d)
        ctx.event('import_orders')
