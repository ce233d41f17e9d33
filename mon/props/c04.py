"""(a) the same study in several vote styles, file formats and treatments of missing votes, scored by several models: results equal
by observer name. (b) interleaved loads of equally named files, rewritten files (same size and time stamp), names of other modules, and
mutation of loaded datasets: every load equals the file's content, earlier loads stay. Non-trivial: two or more representations of a study
with at least two videos and observers, or three or more loads."""
import os, sys, copy
import numpy as np
from mon import gen, ref
from mon.util import *

TECH = 'runtime monitoring: differential oracle between representations; load/content history oracle'

def num_cases(tier):
    return 450 if tier == 'quick' else 4000

SKEY = ['observer_bias', 'observer_bias_std', 'observer_inconsistency', 'observer_inconsistency_std', 'observer_rejected',
        'observer_rejected_1st_stats', 'observer_rejected_2nd_stats', 'observer_scores_mean', 'observer_scores_std']
CKEY = ['observer_bias_ci95', 'observer_inconsistency_ci95']

def byname(res, names):
    """observer results keyed by name; names[k] is the observer of column k"""
    out = {}
    for k, v in res.items():
        if k in SKEY:
            out[k] = dict(zip(names, [float(x) for x in v]))
            assert len(v) == len(names)
        elif k in CKEY:
            out[k] = [dict(zip(names, [float(x) for x in p])) for p in v]
        elif k in ('raw_scores', 'reconstructions'):
            a = np.asarray(v)
            if a.shape[1] == len(names):
                out[k] = {n: a[:, j, :] for j, n in enumerate(names)}
        elif k in ('observers', 'num_iter'):
            pass
        elif k == 'quality_scores' and np.ndim(v) == 3:
            out[k] = {n: np.asarray(v)[:, j, :] for j, n in enumerate(names)}
        else:
            out[k] = v
    return out

MODELS = ['MOS', 'BT500', 'P913', 'P910', 'ZS_MOS', 'BR_MOS', 'MLE_CO_AP', 'SR_MOS_PCC', 'PERSUBJECT', 'ZS_SR_MOS', 'MLE_CO', 'DMOS', 'MLE', 'LIVE_DMOS']

def run_case(ctx, rng, i):
    if i % 3 == 2:
        return loads(ctx, rng, i)
    name = MODELS[(i // 3) % len(MODELS)]
    st = gen.make_study(rng, E_range=(4, 9), S_range=(4, 10), min_per_video=3, min_per_observer=3, unused_content=False)
    if name in ('MLE', 'MLE_CO'):
        st = gen.make_study(rng, E_range=(6, 9), S_range=(5, 8), min_per_video=4, min_per_observer=4, unused_content=False, scale='cont', erratic=0, C=2)
    ctx.describe(model=name, study=st.brief())
    X, _ = gen.table(st, 'list')
    rej = {'BT500': 'kurtosis', 'P913': 'kurtosis', 'ZS_SR_MOS': 'kurtosis', 'SR_MOS_PCC': 'pearson'}.get(name)
    if 'DMOS' in name and not ref.has_unique_refs(st):
        name = 'MOS'
    if name in ('ZS_MOS', 'ZS_SR_MOS', 'LIVE_DMOS') and any(ref.fstd(ref.present(X[:, s]), 1) < 1e-9 for s in range(st.S)):
        ctx.skip('constant observer under z-scoring')
    if rej:
        try:
            p = ref.prep(X, st, bias=name == 'P913', zscore=name == 'ZS_SR_MOS', rejection=rej)
        except ref.Ambiguous as e:
            ctx.skip(str(e))
        if p.get('undefined_correlation'):
            ctx.skip('undefined correlation')
        if any(c in name for c in ('ZS', 'P913')):
            pass
    if name in ('P910', 'MLE_CO_AP'):
        q = ref.p910(X)
        if q['v'].min() < 1e-2 or q['it'] >= 900 or q['vj'].min() < 1e-6:
            ctx.skip('degenerate inconsistency')
    reps = [('list', 'obj', 0), ('tuple', 'py', 0), ('dict', 'json', 0.0), ('dict', 'py', 0.5), ('dict', 'obj', 1.0), ('list', 'json', 0), ('list', 'py', 0),
            ('dict', 'run_json', 0.3), ('list', 'run_py', 0)]
    k = 2 if name in ('MLE', 'MLE_CO') else 4
    chosen = [reps[int(x)] for x in rng.permutation(len(reps))[:k]]
    if not any(c[0] == 'dict' for c in chosen):
        chosen[0] = ('dict', 'json', 0.0)
    if not any(c[0] != 'dict' for c in chosen):
        chosen[1] = ('list', 'obj', 0.0)
    base = None
    ctx.sig(name, tuple(chosen), st.signature())
    for style, via, nanp in chosen:
        d = gen.dataset(st, style, rng, str(rng.choice(['list', 'tuple', 'mixed'])) if 'json' not in via else 'list', nan_prob=nanp)
        names = gen.table(st, style)[1]
        with quiet():
            try:
                if via == 'obj':
                    res = run(name, raw_reader(d))
                elif via in ('py', 'json'):
                    from sureal.tools.misc import import_python_file, import_json_file
                    if via == 'py':
                        m = import_python_file(gen.write_py(d, fixed_tmp(ctx, style, '.py')))
                    else:
                        m = import_json_file(gen.write_json(d, fixed_tmp(ctx, style, '.json'), raw=rng.random() < .5))
                    res = run(name, raw_reader(m))
                else:
                    from sureal.routine import run_subjective_models
                    suf = via[3:].replace('_', '.')
                    p = gen.write_py(d, fixed_tmp(ctx, 'r' + style, suf)) if suf == '.py' else gen.write_json(d, fixed_tmp(ctx, 'r' + style, suf), raw=rng.random() < .5)
                    _, _, rr = run_subjective_models(p, [model(name)], do_plot=[])
                    res = {kk: v for kk, v in rr[0].items() if kk not in ('dis_video_names', 'reconstruction_stats')}
            except ValueError as e:
                if name in ('MLE', 'MLE_CO') and 'infs or NaNs' in str(e):
                    ctx.skip('likelihood diverges')
                raise
        if name in ('MLE', 'MLE_CO') and (res.get('num_iter', 0) >= 9000 or min(res['observer_inconsistency']) < 1e-3):
            ctx.skip('likelihood without a proper optimum')
        if 'observers' in res and style == 'dict':
            ctx.check(list(res['observers']) == names, 'observer names', got=res['observers'], want=names)
        got = byname(res, names)
        ctx.event('representations_scored')
        if base is None:
            base, first = got, (style, via, nanp)
            continue
        if name in ('MLE', 'MLE_CO', 'PERSUBJECT') or rej:
            got2, base2 = dict(got), dict(base)
        tol = 1e-4 if name in ('MLE', 'MLE_CO') else 1e-6
        for kk in ('raw_scores', 'reconstructions'):   # present for both only when nobody was rejected
            if (kk in got) != (kk in base):
                got.pop(kk, None); base = {a: b for a, b in base.items() if a != kk}
        df = same(got, base, tol, tol)
        ctx.check(df is None, '%s as %s/%s/%s differs from %s: %s' % (name, style, via, nanp, first, df))

def loads(ctx, rng, i):
    from sureal.tools.misc import import_python_file, import_json_file
    root = fixed_tmp(ctx, 'dir')
    stems = ['dataset', 'data', 'json', 'numpy', 'sureal', 'subjective_model', 'my.data', 'test']
    base = stems[int(rng.integers(0, len(stems)))]
    dirs = [os.path.join(root, x) for x in ('a', 'b', 'c/d', 'e')]
    for p in dirs:
        os.makedirs(p, exist_ok=True)
    old_flag = sys.dont_write_bytecode
    sys.dont_write_bytecode = False
    mods = {k: sys.modules.get(k) for k in (base, base.split('.')[0])}
    try:
        content = {}
        held = []
        nloads = 0
        hist = []
        for step in range(int(rng.integers(4, 9))):
            op = str(rng.choice(['write', 'load', 'load', 'mutate', 'rewrite', 'score'])) if step > 1 else ['write', 'load'][step]
            j = int(rng.integers(0, 3))
            path = os.path.join(dirs[j], base + '.py')
            jpath = os.path.join(dirs[j], base + '.json')
            if op == 'write' or (op != 'mutate' and path not in content):
                st = gen.make_study(rng, E_range=(2, 5), S_range=(2, 5), reps=1)
                style = str(rng.choice(['list', 'dict']))
                d = gen.dataset(st, style, rng)
                if rng.random() < .5:
                    d.license = 'x' * int(rng.integers(1, 5))
                if rng.random() < .3:
                    del d.ref_score
                gen.write_py(d, path)
                gen.write_json(d, jpath)
                content[path] = d
                hist.append(('write', j))
                op = 'load'
            if op == 'rewrite':
                # same size, same time stamp, different votes
                d = content[path]
                stt = os.stat(path)
                src = open(path).read()
                new = src.replace('\nwidth = 1920', '\nwidth = 1280', 1)
                if new == src:
                    new = src.replace('\nwidth = 1280', '\nwidth = 1920', 1)
                    d.width = 1920
                else:
                    d.width = 1280
                open(path, 'w').write(new)
                os.utime(path, ns=(stt.st_atime_ns, stt.st_mtime_ns))
                gen.write_json(d, jpath)
                hist.append(('rewrite', j))
                op = 'load'
            if op in ('load', 'score'):
                isjson = rng.random() < .3
                with quiet():
                    m = import_json_file(jpath) if isjson else import_python_file(path)
                    if op == 'score':
                        cc = content[path].dis_videos[-1]['content_id']
                        mm = model('MOS').from_dataset_file(path, content_ids=[cc])
                        m2 = mm.dataset_reader.dataset
                        ctx.check(norm(m2.dis_videos) == norm([v for v in content[path].dis_videos if v['content_id'] == cc]), 'restricted load')
                nloads += 1
                hist.append((op, j))
                got = {k: v for k, v in vars(m).items() if not k.startswith('__')}
                want = content[path].__dict__
                ctx.event('loads')
                ctx.check(norm(got) == norm(want), 'a loaded dataset differs from its file', history=hist,
                          keys=[k for k in set(got) | set(want) if norm(got.get(k)) != norm(want.get(k))][:5])
                held.append((m, gen.snapshot(vars_(m))))
            if op == 'mutate' and held and all(len(h[0].dis_videos) > 1 for h in held):
                k = int(rng.integers(0, len(held)))
                m = held[k][0]
                m.dis_videos[0]['os'] = 'gone'
                m.dis_videos = m.dis_videos[1:]
                m.extra_field = 5
                held[k] = (m, gen.snapshot(vars_(m)))
                hist.append(('mutate', k))
            for k, (m, s) in enumerate(held):
                ctx.check(gen.snapshot(vars_(m)) == s, 'a dataset loaded earlier changed', which=k, history=hist)
        for k, v in mods.items():
            if v is not None:
                ctx.check(sys.modules.get(k) is v, 'loading a dataset file replaced the module %s' % k)
    finally:
        sys.dont_write_bytecode = old_flag
        for k in (base,):
            if mods.get(k) is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = mods[k]
    ctx.describe(base=base, history=hist)
    if nloads >= 3:
        ctx.sig('loads', base, hist)

def vars_(m):
    return {k: v for k, v in vars(m).items() if not k.startswith('__')}
