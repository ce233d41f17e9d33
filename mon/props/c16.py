"""Formatted output and command-line output against each model's own run, number by number. Command lines are run in-process and, for a share of the
cases, as separate processes. Non-trivial: at least two videos and a model list; number of command lines and plots is counted."""
import io, os, sys, json, subprocess, contextlib
import numpy as np
from mon import gen, ref
from mon.util import *

RATING = ['MOS', 'P910', 'P913', 'BT500', 'SR_MOS', 'ZS_MOS', 'BR_MOS', 'BR_SR_MOS', 'MLE_SO', 'MLE', 'MLE_CO', 'MLE_CO_AP', 'MLE_CO_AP2', 'Subject_MLE_Projection', 'ZS_SR_MOS', 'LS']
DIFF = ['DMOS', 'SR_DMOS', 'ZS_SR_DMOS', 'DMOS_MLE', 'DMOS_MLE_CO', 'LIVE_DMOS']
PC = ['BT_NR', 'BT_MLE', 'THURSTONE_MLE']
DEPR = ['MOS', 'MLE', 'MLE_CO', 'MLE_CO_AP', 'MLE_CO_AP2', 'DMOS', 'DMOS_MLE', 'DMOS_MLE_CO', 'SR_MOS', 'ZS_SR_MOS', 'SR_DMOS', 'ZS_SR_DMOS']
Q = ['quality_score', 'observer_bias', 'observer_inconsistency', 'content_ambiguity']

def num_cases(tier):
    return 154 if tier == 'quick' else 2600

def closeplots():
    import matplotlib.pyplot as plt
    plt.close('all')

@contextlib.contextmanager
def argv(*a):
    old = sys.argv
    sys.argv = list(a)
    try:
        yield
    finally:
        sys.argv = old

def cli(mod, args):
    """in-process command line: (exit code, stdout)"""
    import importlib
    m = importlib.import_module(mod)
    out = io.StringIO()
    with argv('sureal', *args), contextlib.redirect_stdout(out):
        try:
            rc = m.main()
        except SystemExit as e:
            rc = e.code
    closeplots()
    return rc, out.getvalue()

def subproc(args):
    p = subprocess.run([sys.executable, '-W', 'ignore'] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=300)
    return p.returncode, (p.stdout + b'\n' + p.stderr[-600:] if p.returncode else p.stdout).decode('utf-8', 'replace')

def tail_json(ctx, text):
    k = text.find('{\n    "')
    ctx.check(k >= 0, 'no JSON printed', tail=text[-200:])
    return json.JSONDecoder().raw_decode(text[k:])[0]

def expected(results, names, onames, contents):
    out = {}
    for name, r in zip(names, results):
        vids = out.setdefault('dis_videos', [{'dis_video_name': n, 'models': {}} for n in r['_paths']])
        for e, v in enumerate(vids):
            m = v['models'][name] = {'quality_score': r['quality_scores'][e]}
            if r.get('quality_scores_std') is not None:
                m['quality_score_std'] = r['quality_scores_std'][e]
            if 'quality_scores_ci95' in r:
                m['quality_score_ci95'] = [r['quality_scores_ci95'][0][e], r['quality_scores_ci95'][1][e]]
        if 'observer_bias' in r:
            obs = out.setdefault('observers', [{'observer': o, 'models': {}} for o in onames])
            for s, o in enumerate(obs):
                m = o['models'][name] = {}
                for k in ('observer_bias', 'observer_inconsistency'):
                    for suf in ('', '_std'):
                        if k + suf in r:
                            m[k + suf] = r[k + suf][s]
                    if k + '_ci95' in r:
                        m[k + '_ci95'] = [r[k + '_ci95'][0][s], r[k + '_ci95'][1][s]]
                for k in ('observer_scores_mean', 'observer_scores_std'):
                    if k in r:
                        m[k] = r[k][s]
        if 'content_ambiguity' in r:
            cons = out.setdefault('contents', [{'content': c, 'models': {}} for c in contents])
            for c, o in enumerate(cons):
                m = o['models'][name] = {}
                for suf in ('', '_std'):
                    if 'content_ambiguity' + suf in r:
                        m['content_ambiguity' + suf] = r['content_ambiguity' + suf][c]
                if 'content_ambiguity_ci95' in r:
                    m['content_ambiguity_ci95'] = [r['content_ambiguity_ci95'][0][c], r['content_ambiguity_ci95'][1][c]]
        for k in ('aic', 'bic'):
            if k in r:
                out.setdefault('stats', {'models': {}})['models'].setdefault(name, {})[k] = r[k]
    return out

def run_case(ctx, rng, i):
    if i % 11 == 10:
        return refusals(ctx, rng, i)
    if i % 5 == 4:
        return deprecated(ctx, rng, i)
    from sureal.routine import run_subjective_models, format_output_of_run_subjective_models
    pc = i % 7 == 3
    diff = not pc and i % 4 == 1
    for _ in range(60):
        if pc:
            P = gen.make_pc(rng, M=int(rng.integers(3, 7)), S=int(rng.integers(6, 10)), density=1.0, beta=.4)
            W = np.nansum(gen.pc_table(P)[0], 2) + np.eye(P['M'])
            if np.all(W > 0):
                break
        else:
            # fewer models accept missing votes or repetitions: LS, LIVE_DMOS only the simple case
            big = i % 25 == 8
            st = gen.make_study(rng, E_range=(25, 45) if big else (5, 12), S_range=(20, 36) if big else (5, 9), refs=True if diff else None, C=int(rng.integers(5, 11) if big else rng.integers(1, 4)), min_per_video=3, min_per_observer=3, reps=1 if rng.random() < .6 else None)
            if not diff or ref.has_unique_refs(st):
                break
    else:
        ctx.skip('no suitable study')
    pool = PC if pc else (DIFF if diff else RATING)
    names = [pool[i % len(pool)]] + [str(x) for x in rng.choice(pool, size=int(rng.integers(0, 4)) if i % 8 else int(rng.integers(1, 6)))]
    names = list(dict.fromkeys(names))
    names = [names[k] for k in rng.permutation(len(names))]
    style = str(rng.choice(['list', 'dict', 'tuple']))
    if pc:
        d = gen.pc_dataset(P, rng, str(rng.choice(['wins', 'first'])))
        from sureal.dataset_reader import PairedCompDatasetReader as Reader
        js = False
        paths, onames, contents = [v['path'] for v in d.dis_videos], None, None
    else:
        if any(v is None or len(v) > 1 for r in st.votes for v in r):
            names = [n for n in names if n not in ('LS', 'LIVE_DMOS')] or ['DMOS' if diff else 'MOS']
        from sureal.dataset_reader import RawDatasetReader as Reader
        d = gen.dataset(st, style, rng, 'list')
        if rng.random() < .2:
            for v in d.dis_videos:
                v['path'] = v['path'] if any(v['path'] == c['path'] for c in d.ref_videos) else '/same/name.yuv'
        js = style != 'tuple' and bool(rng.random() < .5)
        paths = [v['path'] for v in d.dis_videos]
        X, ons = gen.table(st, style)
        onames = ons if style == 'dict' else ['observer%d' % s for s in range(st.S)]
        by = {c['content_id']: c['content_name'] for c in st.contents}
        contents = [by.get(k, '') for k in range(max(by) + 1)]
    path = fixed_tmp(ctx, 'ds', '.json' if js else '.py')
    (gen.write_json if js else gen.write_py)(d, path)
    ctx.describe(models=names, style=style, json=js, study=st.brief() if not pc else P['M'])
    alone = []
    try:
        for n in names:
            with quiet(), nosleep():
                r = dict(model(n)(Reader(d)).run_modeling())
            r['_paths'] = paths
            alone.append(r)
    except ValueError as e:
        ctx.skip('a model diverged (refused by the package)')
    if any(np.all(np.isnan(np.asarray(r['quality_scores'], float))) for r in alone):
        ctx.skip('a model diverged')
    want = expected(alone, names, onames, contents)
    with quiet(), nosleep():
        ds, ms, rs = run_subjective_models(path, [model(n) for n in names], dataset_reader_class=Reader)
    for n, a, b in zip(names, alone, rs):
        for k in a:
            if k != '_paths':
                ctx.check(k in b, n + ': missing field ' + k)
                r = same(a[k], b[k], 1e-12, 1e-12)
                ctx.check(r is None, '%s: %s run with others differs from run alone' % (n, k), diff=r)
        ctx.check(list(b['dis_video_names']) == paths, 'names of the videos')
    out = format_output_of_run_subjective_models(ds, ms, rs)
    r = same(out, want, 1e-12, 1e-12)
    ctx.check(r is None, 'formatted output', diff=r)
    if rng.random() < .3:
        # intervals that are not symmetric
        with quiet(), nosleep():
            cl = [lopsided(model(n)) for n in names]
            ds, ms, rs = run_subjective_models(path, cl, dataset_reader_class=Reader)
            own = [dict(c(Reader(d)).run_modeling(), _paths=paths) for c in cl]
        r = same(format_output_of_run_subjective_models(ds, ms, rs), expected(own, [c.TYPE for c in cl], onames, contents), 1e-12, 1e-12)
        ctx.check(r is None, 'formatted output of lopsided intervals', diff=r)
        ctx.event('lopsided_intervals')
    ctx.event('formatted_outputs')
    ctx.sig(sorted(names), style, js, path, str(want)[:300])
    # command line
    odir = fixed_tmp(ctx, 'out')
    base = ['--dataset', path, '--models'] + names
    plots = []
    if i % 8 == 0:
        plots = [p for p in ('--plot-raw-data', '--plot-dis-videos', '--plot-observers') if rng.random() < .7]
        if pc:
            plots = [p for p in plots if p != '--plot-observers']
    fork = i % 16 in (5, 9)
    if i % 4 == 2:       # the directory holds the output of an earlier, larger run
        os.makedirs(odir, exist_ok=True)
        with open(os.path.join(odir, 'output.json'), 'w') as f:
            json.dump({'dis_videos': [{'dis_video_name': 'old', 'models': {'MOS': {'quality_score': 1.0}}}] * 3000}, f, indent=4)
    with nosleep():
        rc, text = subproc(['-m', 'sureal'] + base + ['--output-dir', odir]) if fork else cli('sureal.__main__', base + ['--output-dir', odir])
    ctx.check(rc in (0, None), 'command line failed', rc=rc)
    ctx.check(os.listdir(odir) == ['output.json'], 'files written without plotting', files=os.listdir(odir))
    with open(os.path.join(odir, 'output.json')) as f:
        first = f.read()
    r = same(json.loads(first), want, 1e-12, 1e-12)
    ctx.check(r is None, 'output.json', diff=r)
    ctx.event('command_lines')
    with nosleep():
        rc, text = subproc(['-m', 'sureal'] + base) if fork and i % 3 == 0 else cli('sureal.__main__', base)
    ctx.check(rc in (0, None), 'command line failed', rc=rc)
    r = same(tail_json(ctx, text), want, 1e-12, 1e-12)
    ctx.check(r is None, 'printed output', diff=r)
    ctx.event('command_lines')
    if plots:
        od2 = os.path.join(fixed_tmp(ctx, 'plots'), 'deep')
        with nosleep():
            rc, text = cli('sureal.__main__', base + ['--output-dir', od2] + plots)
        ctx.check(rc in (0, None), 'command line with plots failed', rc=rc, plots=plots)
        with open(os.path.join(od2, 'output.json')) as f:
            ctx.check(f.read() == first, 'plotting changes the output')
        files = sorted(x for x in os.listdir(od2) if x != 'output.json')
        ctx.check(len(files) > 0, 'no plot files', plots=plots)
        # as many figures as the routine draws for the same request
        import matplotlib.pyplot as plt
        kinds = [k for p, ks in (('--plot-raw-data', ['raw_scores'] if pc else ['raw_scores', 'raw_counts', 'raw_counts_per_subject']), ('--plot-dis-videos', ['quality_scores']), ('--plot-observers', ['subject_scores'])) if p in plots for k in ks]
        closeplots()
        with quiet(), nosleep():
            run_subjective_models(path, [model(n) for n in names], do_plot=kinds, dataset_reader_class=Reader)
        ctx.check(len(files) == len(plt.get_fignums()), 'number of plot files', got=files, want=len(plt.get_fignums()), plots=plots)
        ctx.check(all(os.path.getsize(os.path.join(od2, x)) > 1000 for x in files), 'an empty plot file')
        closeplots()
        ctx.event('plotted_command_lines')

def deprecated(ctx, rng, i):
    name = DEPR[(i // 5) % len(DEPR)]
    diff = 'DMOS' in name
    for _ in range(60):
        st = gen.make_study(rng, E_range=(6, 12), S_range=(5, 9), refs=True if diff else None, C=int(rng.integers(1, 4)), min_per_video=3, min_per_observer=3, reps=1)
        if not diff or ref.has_unique_refs(st):
            break
    else:
        ctx.skip('no suitable study')
    style = str(rng.choice(['list', 'dict']))
    d = gen.dataset(st, style, rng, 'list')
    path = fixed_tmp(ctx, 'ds', '.py')
    gen.write_py(d, path)
    try:
        with quiet():
            a = run(name, raw_reader(d))
    except ValueError:
        ctx.skip('diverged (refused by the package)')
    if np.all(np.isnan(np.asarray(a['quality_scores'], float))):
        ctx.skip('diverged')
    odir = fixed_tmp(ctx, 'out')
    with_dir = rng.random() < .7
    if with_dir and rng.random() < .5:
        os.makedirs(odir, exist_ok=True)
    args = [name, path] + (['--output-dir', odir] if with_dir else []) + ['--print']
    rc, text = (subproc(['/repo/sureal/cmd_deprecated.py'] + args) if i % 25 == 4 else cli('sureal.cmd_deprecated', args))
    ctx.check(rc in (0, None), 'command line failed', rc=rc, tail=text[-300:])
    ctx.describe(program='deprecated', model=name, style=style, study=st.brief())
    ctx.sig('deprecated', name, style, st.signature())
    got = [tail_json(ctx, text)]
    if with_dir:
        with open(os.path.join(odir, 'sureal.json')) as f:
            got.append(json.load(f))
        ctx.check(len(os.listdir(odir)) > 1, 'no plots written')
    for g in got:
        for k, v in a.items():
            if isinstance(v, list):
                ctx.check(k in g, name + ': missing ' + k)
                r = same(g[k], v, 1e-12, 1e-12)
                ctx.check(r is None, name + ': ' + k, diff=r)
        ctx.check(g['dis_video_names'] == [v['path'] for v in st.videos], 'names of the videos')
        ctx.event('command_lines')

def refusals(ctx, rng, i):
    st = gen.make_study(rng, E_range=(3, 6), S_range=(3, 5))
    d = gen.dataset(st, 'list', rng, 'list')
    path = fixed_tmp(ctx, 'ds', '.py')
    gen.write_py(d, path)
    odir = fixed_tmp(ctx, 'out')
    def bad(mod, args, what):
        def f():
            rc, text = cli(mod, args)
            if rc not in (0, None):
                raise RuntimeError('exit %r' % rc)
            return text
        raises(ctx, f, what)
    a, b = str(rng.choice(RATING)), str(rng.choice(PC))
    for order in ([a, b], [b, a], [b, a, b]):
        bad('sureal.__main__', ['--dataset', path, '--models'] + order + ['--output-dir', odir], 'rating and paired-comparison models mixed')
    for n in ('NOPE', 'mos', 'MOS ', 'MO', ''):
        bad('sureal.__main__', ['--dataset', path, '--models', 'MOS', n, '--output-dir', odir], 'unknown model accepted')
        bad('sureal.cmd_deprecated', [n, path, '--output-dir', odir], 'unknown model accepted (deprecated program)')
    bad('sureal.__main__', ['--dataset', path, '--models', b, '--output-dir', odir], 'a paired-comparison model accepted ratings')
    txt = fixed_tmp(ctx, 'ds', '.txt')
    gen.write_py(d, txt)
    bad('sureal.__main__', ['--dataset', txt, '--models', 'MOS', '--output-dir', odir], 'file of unknown type accepted')
    bad('sureal.__main__', ['--dataset', path + '.missing.py', '--models', 'MOS', '--output-dir', odir], 'missing file accepted')
    bad('sureal.__main__', ['--dataset', path, '--output-dir', odir], 'no model accepted')
    bad('sureal.__main__', ['--models', 'MOS', '--output-dir', odir], 'no dataset accepted')
    bad('sureal.cmd_deprecated', ['MOS'], 'no dataset accepted (deprecated program)')
    ctx.check(not os.path.exists(os.path.join(odir, 'output.json')), 'a refused command line wrote output')
    ctx.describe(kind='refusals', models=[a, b])
    ctx.sig('refusals', a, b)
