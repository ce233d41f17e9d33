"""Validation on simulated data, observer fractions and model scatter plots on generated ground truths: reported results against runs on the written-out or
separately selected data, coverage counted independently, plotted points read back. Non-trivial: three videos and three observers; validations, fractions
and plots are counted."""
import re, warnings
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 150 if tier == 'quick' else 1800

MODELS = ['MOS', 'P910', 'MLE_CO', 'SR_MOS', 'BR_SR_MOS', 'Subject_MLE_Projection', 'MLE_CO_AP', 'BT500', 'P913', 'BR_MOS', 'MLE']
FAST = ['MOS', 'P910', 'SR_MOS', 'BR_SR_MOS', 'Subject_MLE_Projection', 'P913', 'ZS_MOS', 'BR_MOS', 'MLE_CO_AP2']

def plt_():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt

def calm(fn):
    with warnings.catch_warnings(), np.errstate(all='ignore'), quiet():
        warnings.simplefilter('ignore')
        return fn()

def pick(rng, pool, n):
    return [pool[int(x)] for x in rng.permutation(len(pool))[:n]]

def run_case(ctx, rng, i):
    k = i % 5
    if k in (0, 1, 2):
        return validation(ctx, rng, i)
    if k == 3:
        return fractions(ctx, rng, i)
    return scatter(ctx, rng, i)

def strip(r):
    return {k: v for k, v in r.items() if not k.endswith('_ci_perc') and k not in ('runtime', 'observers')}

def validation(ctx, rng, i):
    from sureal.routine import validate_with_synthetic_dataset, get_ci_percentage
    from sureal.dataset_reader import SyntheticRawDatasetReader, SyntheticLogisticRawDatasetReader
    from sureal.tools.misc import import_python_file
    plt = plt_()
    st = gen.make_study(rng, E_range=(30, 45) if i % 22 == 9 else (5, 14), S_range=(20, 30) if i % 22 == 9 else (4, 10), reps=1, missing=0., unused_content=False, scale='int5', cgap=False)
    style = str(rng.choice(['list', 'dict']))
    path, out = fixed_tmp(ctx, 'base', '.py'), fixed_tmp(ctx, 'syn', '.py')
    gen.write_py(gen.dataset(st, style, rng), path)
    S = st.S if style == 'dict' else int(rng.integers(4, 12))
    C = len(st.contents)
    truth = {'quality_scores': rng.uniform(1, 5, st.E), 'observer_bias': rng.normal(0, .4, S), 'observer_inconsistency': rng.uniform(.3, .9, S), 'content_bias': np.zeros(C), 'content_ambiguity': np.zeros(C)}
    if rng.random() < .4:
        truth['quality_scores'] = [float(x) for x in truth['quality_scores']]
    if rng.random() < .3:
        truth['content_ambiguity'] = rng.uniform(0, .5, C)
    if rng.random() < .4:
        truth['observer_bias'] = truth['observer_bias'] - np.mean(truth['observer_bias'])
    seeded = rng.random() < .7
    if seeded:
        truth['seed'] = int(rng.integers(0, 10 ** 6))
    elif rng.random() < .5:
        truth['seed'] = None
    cls = SyntheticRawDatasetReader if rng.random() < .7 else SyntheticLogisticRawDatasetReader
    names = pick(rng, MODELS, int(rng.integers(1, 4)))
    cl = [lopsided(model(n)) if rng.random() < .3 else model(n) for n in names]
    names = [c.TYPE for c in cl]
    classes = dict(zip(names, cl))
    more = {}
    if rng.random() < .5:
        more['missing_probability'] = float(rng.choice([0, .02, .04, .1, .3]))
    written = not seeded or rng.random() < .6
    if written:
        more['output_synthetic_dataset_filepath'] = out
    if rng.random() < .3:
        more['measure_runtime'] = bool(rng.random() < .7)
    eb = bool(rng.random() < .5)
    if eb or rng.random() < .5:
        more['do_errorbar'] = eb
    axs = {}
    if rng.random() < .6:
        if rng.random() < .4:
            truth['quality_scores_std'] = rng.uniform(.1, .9, st.E)
        if rng.random() < .3 and cls is SyntheticRawDatasetReader:
            truth['quality_ambiguity'] = rng.uniform(.1, .6, st.E)
        for key in ('quality_scores', 'observer_bias', 'observer_inconsistency', 'quality_scores_std', 'quality_ambiguity'):
            axs[key] = plt.figure(figsize=(3, 2)).add_subplot()
    ctx.describe(models=names, style=style, options={k: v for k, v in more.items() if 'path' not in k}, seed=truth.get('seed', 'absent'), reader=cls.__name__, axes=sorted(axs), truth={k: np.asarray(v)[:4] for k, v in truth.items() if k != 'seed'})
    ctx.sig('validation', tuple(names), style, str(sorted(more.items())), str(truth.get('seed')), np.asarray(truth['quality_scores']).tobytes())
    before = gen.snapshot(truth)
    np.random.seed(int(rng.integers(0, 10 ** 6)))
    try:
        ret = calm(lambda: validate_with_synthetic_dataset(cls, cl, path, truth, axs if axs or rng.random() < .5 else None, **more))
    except (ValueError, FloatingPointError):
        ctx.skip('a model refused')
    ctx.check(gen.snapshot(truth) == before, 'the ground truth was changed')
    ctx.check(list(ret['results']) == names, 'models reported', got=list(ret['results']), want=names)
    if written:
        ctx.check(ret.get('output_synthetic_dataset_filepath') == out, 'path of the simulated dataset')
        d = import_python_file(out)
    else:
        d = calm(lambda: cls(import_python_file(path), input_dict=truth).to_dataset())
        if 'missing_probability' in more:
            from sureal.dataset_reader import MissingDataRawDatasetReader
            d = calm(lambda: MissingDataRawDatasetReader(d, input_dict=dict(truth, missing_probability=more['missing_probability'])).to_dataset())
    T = np.array([[x[0] if isinstance(x, (list, tuple)) else x for x in v['os']] for v in d.dis_videos], float)
    ctx.check(T.shape == (st.E, S), 'size of the simulated dataset', got=T.shape, want=(st.E, S))
    ctx.check([(v['asset_id'], v['content_id']) for v in d.dis_videos] == [(v['asset_id'], v['content_id']) for v in st.videos], 'videos of the simulated dataset')
    if written and seeded:
        w = calm(lambda: cls(import_python_file(path), input_dict=truth).opinion_score_3darray[:, :, 0])
        ok = ~np.isnan(T)
        eq(ctx, T[ok], w[ok], 'simulated votes', 1e-9, 1e-9)
        if 'missing_probability' not in more:
            ctx.check(bool(ok.all()), 'votes are missing although no thinning was asked for')
        else:
            from sureal.dataset_reader import MissingDataRawDatasetReader
            full = calm(lambda: cls(import_python_file(path), input_dict=truth).to_dataset())
            m = calm(lambda: MissingDataRawDatasetReader(full, input_dict=dict(truth, missing_probability=more['missing_probability'])).opinion_score_3darray[:, :, 0])
            ctx.check(bool((np.isnan(m) == np.isnan(T)).all()), 'other votes are missing than those the thinning reader removes', got=int(np.isnan(T).sum()), want=int(np.isnan(m).sum()), probability=more['missing_probability'])
            ctx.event('thinned_votes', int(np.isnan(m).sum()))
        ctx.event('simulated_votes', int(ok.sum()))
    if more.get('missing_probability'):
        ctx.event('thinned')
    # residuals far outside the simulated spread cannot come from this ground truth
    q, b = np.asarray(truth['quality_scores'], float), np.asarray(truth['observer_bias'], float)
    sd = np.sqrt(np.asarray(truth['observer_inconsistency'])[None] ** 2 + np.array([truth['content_ambiguity'][v['content_id']] for v in st.videos])[:, None] ** 2 + np.asarray(truth.get('quality_ambiguity', np.zeros(st.E)))[:, None] ** 2)
    z = (T - q[:, None] - b[None]) / sd
    ctx.check(bool(np.nanmax(np.abs(z)) < 15), 'a simulated vote does not come from the ground truth', z=float(np.nanmax(np.abs(z))))
    for n in names:
        r = ret['results'][n]
        w = calm(lambda: classes[n](raw_reader(d)).run_modeling())
        if not np.all(np.isfinite(np.asarray(w['quality_scores'], float))):
            continue
        if n.startswith('MLE') and w.get('num_iter', 0) > 3000:
            continue
        df = same(strip(r), strip(w), 1e-7, 1e-7)
        ctx.check(df is None, 'reported result differs from the model on the simulated data', model=n, diff=df, seeded=seeded)
        ctx.check(('runtime' in r) == bool(more.get('measure_runtime')), 'runtime', model=n)
        for key in ('quality_scores', 'observer_bias', 'observer_inconsistency'):
            has = key in w and key + '_ci95' in w
            ctx.check((key + '_ci_perc' in r) == has, 'share of the ground truth in the intervals is missing or spurious', model=n, key=key)
            if has:
                x, y = np.asarray(truth[key], float), np.asarray(w[key], float)
                lo, hi = [np.asarray(c, float) for c in w[key + '_ci95']]
                m = np.minimum(np.abs(y - lo - x), np.abs(y + hi - x))
                if np.nanmin(m) < 1e-7:
                    continue
                p = 100. * sum(1 for k in range(len(x)) if y[k] - lo[k] <= x[k] <= y[k] + hi[k]) / len(x)
                ctx.check(abs(float(r[key + '_ci_perc']) - p) < 1e-6, 'share of the ground truth in the intervals', model=n, key=key, got=r[key + '_ci_perc'], want=p)
                ctx.check(abs(float(get_ci_percentage(truth, w, key, key + '_ci95')) - p) < 1e-6, 'share counted by get_ci_percentage', key=key)
                ctx.event('shares')
    for key, ax in axs.items():
        have = [n for n in names if key in ret['results'][n] and key in truth]
        pts, bars = [], {}
        for c in ax.collections:
            lab = str(c.get_label())
            if not lab.startswith('_'):
                pts.append((lab, np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)))
        for c in ax.containers:
            if type(c).__name__ == 'ErrorbarContainer':
                l = c.lines[0]
                bars[str(c.get_label()).split(' (')[0]] = c.lines[2][0].get_segments() if c.lines[2] else []
                pts.append((str(c.get_label()), np.array([l.get_xdata(), l.get_ydata()], float).T))
        ctx.check(sorted(p[0].split(' (')[0] for p in pts) == sorted(have), 'models on the plot of %s' % key, got=[p[0] for p in pts], want=have)
        for lab, a in pts:
            n = lab.split(' (')[0]
            y = np.asarray(ret['results'][n][key], float)
            x = np.asarray(truth[key], float)
            want = np.array([x, y]).T
            if a.shape == want.shape:       # a point with a missing score has no place (scatter masks it as a whole)
                a, want = [np.where(np.isnan(k).any(axis=1)[:, None], np.nan, k) for k in (a, want)]
            eq(ctx, a, want, 'points on the plot of %s' % key, 1e-9, 1e-9, model=n)
            ci = ret['results'][n].get(key + '_ci95')
            ctx.check((n in bars) == bool(eb and ci is not None), 'error bars on the plot of %s' % key, model=n)
            if n in bars and np.all(np.isfinite(y)) and np.all(np.isfinite(np.asarray(ci, float))):
                seg = np.array([[s[0][0], min(s[:, 1]), max(s[:, 1])] for s in bars[n] if len(s) == 2], float)
                eq(ctx, seg, np.array([x, y - np.asarray(ci[0], float), y + np.asarray(ci[1], float)]).T, 'interval on the plot of %s' % key, 1e-6, 1e-6, model=n)
                ctx.event('plotted_intervals', len(seg))
            m = re.search(r'RMSE ([\d.]+)', lab)
            if m:
                ctx.check(abs(float(m.group(1)) - float(np.sqrt(np.mean((x - y) ** 2)))) < 1e-4, 'error in the label', label=lab)
            m = re.search(r'CI% ([\d.]+)', lab)
            if m:
                ctx.check(abs(float(m.group(1)) - float(ret['results'][n][key + '_ci_perc'])) < .051, 'share in the label', label=lab)
            ctx.event('plotted_models')
    # the interval is closed; the numbers are exact in binary
    n = int(rng.integers(1, 9))
    y, lo, hi = rng.integers(-40, 41, n) / 8., rng.integers(0, 9, n) / 8., rng.integers(0, 9, n) / 8.
    x = np.array([[y[k] - lo[k], y[k] + hi[k], y[k], y[k] - lo[k] - 1 / 16., y[k] + hi[k] + 1 / 16., y[k] + hi[k] * .5][int(rng.integers(0, 6))] for k in range(n)])
    p = 100. * float(np.mean((x >= y - lo) & (x <= y + hi)))
    box = [list, np.array][int(rng.integers(0, 2))]
    g = get_ci_percentage({'a': box(x)}, {'a': box(y), 'b': [list(lo), list(hi)]}, 'a', 'b')
    ctx.check(abs(float(g) - p) < 1e-9, 'share of closed intervals', truth=x, estimate=y, lower=lo, upper=hi, got=g, want=p)
    ctx.event('validations')
    plt.close('all')

def base(ctx, rng, tag, reps=1):
    big = rng.random() < .05
    st = gen.make_study(rng, E_range=(30, 45) if big else (5, 12), S_range=(20, 30) if big else (6, 12), reps=reps, missing=0., unused_content=False)
    style = str(rng.choice(['list', 'dict']))
    json_ = style == 'dict' and rng.random() < .3
    path = fixed_tmp(ctx, tag, '.json' if json_ else '.py')
    d = gen.dataset(st, style, rng)
    (gen.write_json if json_ else gen.write_py)(d, path)
    return st, style, path

def selected(st, style, sel):
    """list-style dataset of the observers at positions sel of the reader's order"""
    order = list(range(st.S)) if style == 'list' else sorted(range(st.S), key=lambda s: st.observers[s])
    s2 = st.copy()
    s2.observers = [st.observers[order[s]] for s in sel]
    s2.votes = [[r[order[s]] for s in sel] for r in st.votes]
    return gen.dataset(s2, 'list')

def fractions(ctx, rng, i):
    from sureal.routine import get_sample_stats
    plt = plt_()
    sets = [base(ctx, rng, 'd%d' % k, reps=int(rng.choice([1, 1, 3]))) for k in range(int(rng.integers(1, 3)))]
    names = pick(rng, FAST, int(rng.integers(1, 3)))
    frac = None if rng.random() < .15 else float(rng.choice([.5, .75, 1., .4, .2, rng.uniform(.17, 1)]))
    seed = None if rng.random() < .25 else 0 if rng.random() < .2 else int(rng.integers(0, 10000))
    draw = bool(rng.random() < .2)
    ctx.describe(models=names, fraction=frac, seed=seed, styles=[s[1] for s in sets], studies=[s[0].brief() for s in sets])
    ctx.sig('fractions', tuple(names), frac, seed, tuple(s[1] for s in sets), sets[0][0].signature())
    def go():
        o = {}
        if frac is not None or rng.random() < .5:
            o['subj_fraction'] = frac
        return calm(lambda: get_sample_stats([{'path': s[2]} for s in sets], [model(n) for n in names], do_plot=draw, random_seed=seed, **o))
    try:
        np.random.seed(int(rng.integers(0, 10 ** 6)))
        res = go()
    except (ValueError, FloatingPointError):
        ctx.skip('a model refused')
    ctx.check(len(res) == len(sets) and all(len(r) == len(names) for r in res), 'shape of the results')
    for (st, style, path), rr in zip(sets, res):
        n = st.S if frac is None else int(st.S * frac)
        order = list(range(st.S)) if style == 'list' else sorted(range(st.S), key=lambda s: st.observers[s])
        if frac is None:
            sel = list(range(st.S))
        elif seed is not None:
            state = np.random.get_state()
            np.random.seed(seed)
            sel = [int(x) for x in np.random.choice(list(range(st.S)), size=n, replace=False)]
            np.random.set_state(state)
        elif style == 'dict' and 'observers' in rr[0]:
            onames = [st.observers[s] for s in order]
            sel = [onames.index(o) for o in rr[0]['observers']]
        else:
            sel = None
        for name, r in zip(names, rr):
            if style == 'dict' and 'observers' in r:
                ctx.check(len(r['observers']) == n and len(set(r['observers'])) == n, 'number of distinct observers', got=r['observers'], want=n)
            if 'observer_bias' in r:
                ctx.check(len(r['observer_bias']) == n, 'number of observers', got=len(r['observer_bias']), want=n)
            if sel is None:
                continue
            w = calm(lambda: model(name)(raw_reader(selected(st, style, sel))).run_modeling())
            fields = ['quality_scores', 'quality_scores_std', 'quality_scores_ci95', 'observer_bias', 'observer_inconsistency', 'observer_rejected']
            df = same({k: r[k] for k in fields if k in r}, {k: w[k] for k in fields if k in w}, 1e-6, 1e-6)
            ctx.check(df is None, 'result differs from the model on those observers', model=name, diff=df, style=style, fraction=frac)
            ctx.event('fractions')
    if seed is not None:
        np.random.seed(int(rng.integers(0, 10 ** 6)))
        df = same(go(), res)
        ctx.check(df is None, 'same seed, other observers', diff=df)
    for bad in (0., 1.2, -.5):
        if i % 3 == 0:
            raises(ctx, lambda: calm(lambda: get_sample_stats([{'path': sets[0][2]}], [model('MOS')], subj_fraction=bad)), 'fraction %r was accepted' % bad)
    plt.close('all')

def scatter(ctx, rng, i):
    from sureal.routine import plot_scatter_target_vs_compared_models
    plt = plt_()
    st, style, path = base(ctx, rng, 'sc')
    n = int(rng.integers(1, 4))
    tm, cm = [str(rng.choice(FAST)) for _ in range(n)], [str(rng.choice(FAST)) for _ in range(n)]
    seed = int(rng.integers(0, 1000))
    tf, cf = [None if rng.random() < .5 else float(rng.choice([.5, .8, 1.])) for _ in range(2)]
    ctx.describe(target=tm, compared=cm, fractions=[tf, cf], seed=seed, style=style, study=st.brief())
    ctx.sig('scatter', tuple(tm), tuple(cm), tf, cf, seed, style, st.signature())
    def score(name, frac):
        if frac is None:
            sel = list(range(st.S))
        else:
            np.random.seed(seed)
            sel = [int(x) for x in np.random.choice(list(range(st.S)), size=int(st.S * frac), replace=False)]
        return np.asarray(calm(lambda: model(name)(raw_reader(selected(st, style, sel))).run_modeling())['quality_scores'], float)
    try:
        want = [(score(a, tf), score(b, cf)) for a, b in zip(tm, cm)]
        calm(lambda: plot_scatter_target_vs_compared_models(tm, cm, [{'path': path}], target_subj_fraction=tf, compared_subj_fraction=cf, random_seed=seed))
    except (ValueError, FloatingPointError):
        ctx.skip('a model refused')
    figs = [plt.figure(k) for k in plt.get_fignums()]
    ctx.check(len(figs) == 1, 'one figure per dataset', got=len(figs))
    axs = [a for a in figs[0].axes if a.collections]
    hist = [a for a in figs[0].axes if not a.collections]
    ctx.check(len(axs) == n and len(hist) == n, 'number of panels', got=[len(axs), len(hist)], want=n)
    key = lambda a: a.get_position().x0
    for a, h, t, c, (x, y) in zip(sorted(axs, key=key), sorted(hist, key=key), tm, cm, want):
        off = np.ma.filled(np.ma.asarray(a.collections[0].get_offsets(), dtype=float), np.nan)
        eq(ctx, off, np.array([x, y]).T, 'points of the scatter plot', 1e-6, 1e-6, target=t, compared=c)
        ctx.check(a.get_xlabel().split(' ')[0] == t and a.get_ylabel().split(' ')[0] == c, 'models named on the axes', got=[a.get_xlabel(), a.get_ylabel()], want=[t, c])
        for lab, f in ((a.get_xlabel(), tf), (a.get_ylabel(), cf)):
            ctx.check(('%' in lab) == (f is not None) and (f is None or '%d%%' % int(f * 100) in lab), 'fraction named on the axes', got=lab, want=f)
        m = re.search(r'plcc (-?[\d.]+|nan), srocc (-?[\d.]+|nan), diff: mean (-?[\d.]+), std (-?[\d.]+)', h.get_title())
        if m:
            d = y - x
            g = [float(v) for v in m.groups()]
            ctx.check(abs(g[2] - np.mean(d)) < 5.1e-4 and abs(g[3] - np.std(d)) < 5.1e-4, 'statistics of the differences', got=g, want=[float(np.mean(d)), float(np.std(d))])
            if np.std(x) > 1e-6 and np.std(y) > 1e-6:
                ctx.check(abs(g[0] - np.corrcoef(x, y)[0, 1]) < 5.1e-4, 'correlation', got=g[0], want=float(np.corrcoef(x, y)[0, 1]))
                gap = lambda v: np.min(np.diff(np.sort(v)))
                if gap(x) > 1e-6 and gap(y) > 1e-6:
                    rk = lambda v: np.argsort(np.argsort(v))
                    ctx.check(abs(g[1] - np.corrcoef(rk(x), rk(y))[0, 1]) < 5.1e-4, 'rank correlation', got=g[1])
            ctx.event('statistics')
        cnt = sum(p.get_height() for p in h.patches)
        ctx.check(int(round(cnt)) == len(x), 'number of differences in the histogram', got=cnt, want=len(x))
        ctx.event('scatters')
    plt.close('all')
