"""Plots of generated studies: the artists on the axes (points, intervals, bars, images, bubbles, tick labels) read back and compared with the results
they stand for. Non-trivial: at least two videos; plots per kind are counted."""
import re, warnings
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 140 if tier == 'quick' else 1500

def plt_():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    return plt

def series(ax):
    """[(label, xs, ys, lower, upper)] of the point series on an axes"""
    out, used = [], set()
    for c in ax.containers:
        if type(c).__name__ == 'ErrorbarContainer':
            line, caps, bars = c.lines
            xs, ys = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            lo = hi = None
            if bars:
                seg = bars[0].get_segments()
                lo, hi = np.full(len(xs), np.nan), np.full(len(xs), np.nan)
                if len(seg) == len(xs):
                    for k, s in enumerate(seg):
                        if len(s) == 2:
                            lo[k], hi[k] = min(s[:, 1]), max(s[:, 1])
                            if abs(s[0, 0] - xs[k]) > 1e-6:
                                lo[k] = hi[k] = np.inf
            out.append((c.get_label(), xs, ys, lo, hi))
            used.add(id(line))
            used |= set(id(x) for x in caps)
        elif type(c).__name__ == 'BarContainer':
            xs = [p.get_x() + p.get_width() / 2 for p in c.patches]
            out.append((c.get_label(), np.asarray(xs, float), np.array([p.get_height() + p.get_y() for p in c.patches], float), None, None))
    for l in ax.lines:
        if id(l) in used or str(l.get_label()).startswith('_'):
            continue
        out.append((l.get_label(), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), None, None))
    return sorted(out, key=lambda s: float(s[1][0]) if len(s[1]) else 0.0)

def points(ctx, ax, models, key, what, order=None, bar=False):
    """the series on ax are exactly the models that have the field, with their own numbers and intervals"""
    have = [(t, r) for t, r in models if key in r]
    ss = series(ax)
    ctx.check(len(ss) == len(have), what + ': number of series', got=[s[0] for s in ss], want=[t for t, r in have])
    last = None
    for (lab, xs, ys, lo, hi), (t, r) in zip(ss, have):
        ctx.check(lab == t or lab.startswith(t + ' '), what + ': label', got=lab, want=t)
        y = np.asarray(r[key], float)
        o = np.arange(len(y)) if order is None else order
        ctx.check(len(ys) == len(y), what + ': number of marks', got=len(ys), want=len(y))
        eq(ctx, ys, y[o], what + ': plotted value', 1e-7, 1e-9, model=t)
        ctx.check(len(xs) < 2 or np.all(np.abs(np.diff(xs) - 1) < 1e-6), what + ': positions', got=xs)
        ctx.check(len(xs) == 0 or -0.3 <= xs[0] <= .45 * len(models) + .3, what + ': first position', got=xs[:1])
        if last is not None:
            ctx.check(abs(xs[0] - last) > 1e-6, what + ': two models at one position')
        last = xs[0]
        ctx.event('marks', len(ys))
        ci = r.get(key + '_ci95')
        if bar:
            continue
        if ci is not None and ci[0] is not None:
            ctx.check(lo is not None, what + ': intervals are missing', model=t)
            a, b = np.asarray(ci[0], float)[o], np.asarray(ci[1], float)[o]
            ok = np.isfinite(a) & np.isfinite(b) & np.isfinite(ys)
            eq(ctx, lo[ok], (y[o] - a)[ok], what + ': lower end of the interval', 1e-6, 1e-7, model=t)
            eq(ctx, hi[ok], (y[o] + b)[ok], what + ': upper end of the interval', 1e-6, 1e-7, model=t)
            ctx.event('intervals', int(ok.sum()))
            m = re.search(r'avg CI (-?[\d.]+)', lab)
            if m and ok.all():
                ctx.check(abs(float(m.group(1)) - float(np.mean(a + b))) < .0051, what + ': mean interval in the label', label=lab, want=float(np.mean(a + b)))
        else:
            ctx.check(lo is None, what + ': intervals without source')
        m = re.search(r'NBIC (-?[\d.]+)', lab)
        if m and 'bic' in r:
            ctx.check(abs(float(m.group(1)) - float(r['bic'])) < .0051, what + ': NBIC in the label', label=lab, want=float(r['bic']))

def image(ctx, ax, want, what, k=-1):
    ctx.check(len(ax.images) >= 1, what + ': no image')
    a = np.ma.filled(np.ma.asarray(ax.images[k].get_array(), dtype=float), np.nan)
    eq(ctx, a, want, what, 1e-9, 1e-9)
    ext = ax.images[k].get_extent()
    eq(ctx, sorted(ext[:2]), [-.5, want.shape[1] - .5], what + ': position of the columns', 0, 1e-9)
    ctx.check(abs(ext[2] - (want.shape[0] - .5)) < 1e-9 and abs(ext[3] + .5) < 1e-9, what + ': position of the rows', got=ext)
    ctx.event('images')

def bubbles(ctx, ax, cols, what):
    want = {}
    for j, c in enumerate(cols):
        for x in c:
            if x == x:
                want[(j, round(float(x), 6))] = want.get((j, round(float(x), 6)), 0) + 1
    ctx.check(len(ax.collections) == 1, what + ': number of scatters')
    off = np.asarray(ax.collections[0].get_offsets(), float)
    size = np.asarray(ax.collections[0].get_sizes(), float)
    ctx.check(len(off) == len(size) == len(want), what + ': number of bubbles', got=len(off), want=len(want))
    got = {(int(round(x)), round(float(y), 6)): float(s) for (x, y), s in zip(off, size)}
    ctx.check(set(got) == set(want), what + ': position of the bubbles', missing=[k for k in want if k not in got][:3], extra=[k for k in got if k not in want][:3])
    k0 = next(iter(want))
    unit = got[k0] / want[k0]
    ctx.check(unit > 0 and all(abs(got[k] - unit * want[k]) < 1e-6 for k in want), what + ': size of the bubbles', got=got, want=want)
    ctx.event('bubbles', len(want))

def ticks(ctx, ax, names, what):
    lab = [t.get_text() for t in ax.get_xticklabels()]
    pos = list(ax.get_xticks())
    ctx.check(lab == list(names), what + ': labels', got=lab, want=list(names))
    ctx.check(len(pos) == len(names) and all(k - .1 <= p <= k + .6 for k, p in enumerate(pos)), what + ': position of the labels', got=pos)
    ctx.event('labels', len(lab))

MODELS = ['MOS', 'P910', 'BR_SR_MOS', 'SR_MOS', 'MLE_CO', 'ZS_MOS', 'MLE', 'P913', 'BT500', 'DMOS', 'PERSUBJECT', 'BR_MOS', 'SR_DMOS', 'ZS_SR_MOS', 'MLE_CO_AP', 'Subject_MLE_Projection']

def run_case(ctx, rng, i):
    if i % 14 == 13:
        return comparisons(ctx, rng, i)
    if i % 28 == 12:
        return saved(ctx, rng, i)
    from sureal.routine import run_subjective_models
    plt = plt_()
    plt.close('all')
    reps = int(rng.choice([1, 1, 3]))
    st = gen.make_study(rng, E_range=(4, 9), S_range=(4, 9) if i % 6 else (22, 30), reps=reps, missing=float(rng.choice([0, .2])), min_per_video=3, min_per_observer=3, refs=True, scale=str(rng.choice(['int5', 'int5', 'cont', 'int100', 'ccr', 'int10'])))
    style = str(rng.choice(['list', 'dict']))
    path = fixed_tmp(ctx, 'ds', '.py')
    gen.write_py(gen.dataset(st, style, rng), path)
    X, names = gen.table(st, style)
    pool = [m for m in MODELS if not (m in ('PERSUBJECT', 'DMOS', 'SR_DMOS') and (reps > 1))]
    k = int(rng.integers(1, 4))
    chosen = [pool[int(x)] for x in rng.permutation(len(pool))[:k]]
    withq = [m for m in chosen]
    if 'PERSUBJECT' in chosen:
        chosen = ['MOS' if m == 'PERSUBJECT' else m for m in chosen]
    chosen = list(dict.fromkeys(chosen))
    classes = [lopsided(model(m)) if rng.random() < .3 else model(m) for m in chosen]
    kind = i % 7
    bar = bool(rng.random() < .25)
    opts = {}
    if bar:
        opts['plot_type'] = 'bar'
    elif rng.random() < .4:
        opts['plot_type'] = 'errorbar'
    srt = bool(rng.random() < .5)
    if srt or rng.random() < .3:
        opts['sort_quality_scores_in_plot'] = srt
    own = bool(rng.random() < .7)
    ctx.describe(models=chosen, style=style, options=opts, study=st.brief(), own_axes=own)
    ctx.sig(kind, tuple(chosen), style, str(sorted(opts.items())), st.signature())
    def go(do_plot, axs=None):
        o = dict(opts)
        if axs:
            o['ax_dict'] = axs
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return run_subjective_models(path, classes, do_plot=do_plot, **o)
    try:
        plain = go([])
    except (ValueError, FloatingPointError) as e:
        ctx.skip('a model refused: %s' % type(e).__name__)
    ctx.check(not plt.get_fignums(), 'a figure was drawn although none was asked for')
    what = ['raw_scores', 'raw_counts', 'raw_counts_per_subject', 'raw_scores_minus_quality_scores', 'raw_scores_minus_quality_scores_and_observer_bias', 'quality_scores_vs_raw_scores', 'all'][kind]
    axs = {}
    def ax(key):
        axs[key] = plt.figure(figsize=(3, 2)).add_subplot()
        return axs[key]
    kinds = [what] if what != 'all' else ['quality_scores', 'subject_scores', 'content_scores']
    everything = kind == 6 and not own
    if everything:
        kinds = ['raw_scores', 'raw_counts', 'raw_counts_per_subject', 'raw_scores_minus_quality_scores', 'raw_scores_minus_quality_scores_and_observer_bias', 'quality_scores_vs_raw_scores'] + kinds
    if kind < 6:
        kinds = kinds + [['quality_scores'], ['subject_scores'], ['content_scores']][i % 3]
    if own:
        for x in kinds:
            if x == 'raw_scores':
                ax('ax_raw_scores')
            elif x == 'raw_counts':
                ax('ax_raw_counts')
            elif x == 'raw_counts_per_subject':
                ax('raw_counts_per_subject')
            elif x.startswith('raw_scores_minus') and len(chosen) == 1:
                ax('ax_' + x)
            elif x == 'quality_scores':
                ax('ax_quality_scores')
            elif x == 'subject_scores':
                ax('ax_observer_bias'), ax('ax_observer_inconsistency')
                if rng.random() < .7:
                    ax('ax_rejected'), ax('ax_rejected_1st_stats'), ax('ax_rejected_2nd_stats')
            elif x == 'content_scores':
                ax('ax_content_ambiguity')
    given = dict(axs)
    before_figs = set(plt.get_fignums())
    ds, ms, rs = go('all' if everything else kinds, axs)
    d = same([r for r in rs], [r for r in plain[2]])
    ctx.check(d is None, 'plotting changed a result', diff=d, kinds=kinds)
    ctx.check([m.TYPE for m in ms] == [c.TYPE for c in classes], 'models of the result')
    new = [plt.figure(n) for n in plt.get_fignums() if n not in before_figs]
    res = [(c.TYPE, r) for c, r in zip(classes, rs)]
    plain_axes = [a for f in new for a in f.axes if a.get_label() != '<colorbar>']
    def find(key, *title):
        if key in given:
            return given[key]
        c = [a for a in plain_axes if all(t in a.get_title() + '|' + a.get_xlabel() + ('|image' if a.images else '') for t in title)]
        ctx.check(len(c) == 1, 'the plot of %s was not drawn' % key, titles=[a.get_title() for a in plain_axes])
        return c[0]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        M = np.nanmean(X, axis=2).T
    for x in kinds:
        ctx.event('plots_' + x)
        if x == 'raw_scores':
            image(ctx, find('ax_raw_scores', 'Raw Opinion Scores', '|image'), M, 'raw scores')
        elif x == 'raw_counts':
            bubbles(ctx, find('ax_raw_counts', 'Counts', 'Video'), [M[:, e] for e in range(st.E)], 'counts per video')
        elif x == 'raw_counts_per_subject':
            bubbles(ctx, find('raw_counts_per_subject', 'Counts', 'Subjects'), [M[s] for s in range(st.S)], 'counts per observer')
        elif x.startswith('raw_scores_minus'):
            have = [(t, r) for t, r in res if 'quality_scores' in r and (not x.endswith('bias') or 'observer_bias' in r)]
            if 'ax_' + x in given:
                aa = [given['ax_' + x]] * len(have)
            else:
                aa = [a for a in plain_axes if 'u_{ij}' in a.get_title() and 'psi' in a.get_title() and a.images and ('Delta' in a.get_title()) == x.endswith('bias')]
                ctx.check(len(aa) == len(have), 'number of residual images', got=len(aa), want=len(have))
            for a, (t, r) in zip(aa, have):
                ctx.check(a.get_title().endswith(t), 'title of the residual image', got=a.get_title(), want=t)
                W = M - np.asarray(r['quality_scores'], float)[None]
                if x.endswith('bias'):
                    W = W - np.asarray(r['observer_bias'], float)[:, None]
                image(ctx, a, W, 'residuals')
        elif x == 'quality_scores_vs_raw_scores':
            have = [(t, r) for t, r in res if 'quality_scores' in r]
            figs = [f for f in new if len([a for a in f.axes if re.match(r'#\d+$', a.get_title())]) == st.S]
            ctx.check(len(figs) == len(have), 'number of scatter figures', got=len(figs), want=len(have))
            for f, (t, r) in zip(figs, have):
                by = {a.get_title(): a for a in f.axes}
                for s in range(st.S):
                    a = by['#%d' % (s + 1)]
                    off = np.ma.filled(np.ma.asarray(a.collections[0].get_offsets(), dtype=float), np.nan)
                    want = np.array([M[s], np.asarray(r['quality_scores'], float)]).T
                    g, w = off[~np.isnan(off).any(axis=1)], want[~np.isnan(want).any(axis=1)]
                    eq(ctx, g, w, 'quality against raw scores of one observer', 1e-9, 1e-9)
                    ctx.check(a.collections[0].get_label() == t, 'label of the scatter')
                    ctx.event('marks', len(w))
        elif x == 'quality_scores':
            o = np.argsort(np.asarray(rs[0]['quality_scores'], float), kind='stable') if srt else None
            if srt:
                q = np.sort(np.asarray(rs[0]['quality_scores'], float))
                if len(q) > 1 and np.min(np.diff(q)) < 1e-9:
                    # ties: any order of the tied videos is sorted
                    ctx.event('ties_in_sorted_plot')
                    s0 = series(find('ax_quality_scores', 'Recovered Quality'))[0]
                    eq(ctx, s0[2], q, 'sorted quality', 1e-9, 1e-9)
                    continue
            points(ctx, find('ax_quality_scores', 'Recovered Quality Score ('), res, 'quality_scores', 'quality', o, bar)
        elif x == 'subject_scores':
            for key, k2, title in (('ax_observer_bias', 'observer_bias', 'Subject Bias'), ('ax_observer_inconsistency', 'observer_inconsistency', 'Subject Inconsistency'), ('ax_rejected', 'observer_rejected', None),
                                   ('ax_rejected_1st_stats', 'observer_rejected_1st_stats', None), ('ax_rejected_2nd_stats', 'observer_rejected_2nd_stats', None)):
                if key not in given and (title is None or not any(k2 in r for t, r in res)):
                    continue
                points(ctx, find(key, title) if title else given[key], res, k2, k2, None, bar or 'rejected' in key)
            a = given.get('ax_observer_inconsistency')
            if a is None and any('observer_inconsistency' in r for t, r in res):
                a = find('ax_observer_inconsistency', 'Subject Inconsistency')
            if a is not None and any('observer_bias' in r or 'observer_inconsistency' in r for t, r in res):
                if any('observer_bias' in r and 'observers' in r for t, r in res):
                    ticks(ctx, a, names, 'observers')
                elif not any('observers' in r for t, r in res):
                    ticks(ctx, a, ['#%d' % (s + 1) for s in range(st.S)], 'observers')
        elif x == 'content_scores':
            have = [r for t, r in res if 'content_ambiguity' in r]
            if not have:
                continue
            a = find('ax_content_ambiguity', 'Content Ambiguity')
            points(ctx, a, res, 'content_ambiguity', 'content_ambiguity', None, bar)
            nm = {c['content_id']: c['content_name'] for c in st.contents}
            ticks(ctx, a, [nm.get(k, '') for k in range(len(have[0]['content_ambiguity']))], 'contents')
    plt.close('all')

def comparisons(ctx, rng, i):
    """image of a paired comparison dataset: the share of wins of every video against every other"""
    from sureal.routine import visualize_pc_dataset
    plt = plt_()
    plt.close('all')
    pc = gen.make_pc(rng)
    if not pc['out']:
        ctx.skip('no comparison')
    d = gen.pc_dataset(pc, rng, str(rng.choice(['wins', 'first', 'random'])))
    path = fixed_tmp(ctx, 'pc', '.py')
    gen.write_py(d, path)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            visualize_pc_dataset(path)
        except TypeError as e:
            ctx.skip('no stand-alone call: %s' % e)
    T, subs = gen.pc_table(pc)
    W = np.nansum(T, axis=2)
    with np.errstate(all='ignore'):
        P = W / (W + W.T)
    figs = [plt.figure(n) for n in plt.get_fignums()]
    ims = [a for f in figs for a in f.axes if a.images and a.get_label() != '<colorbar>']
    ctx.check(len(ims) == 1, 'one image of the comparisons', got=len(ims))
    image(ctx, ims[0], P, 'share of wins')
    ctx.event('plots_comparisons')
    ctx.describe(comparisons=len(pc['out']), listed=pc['perm'])
    ctx.sig('pc', tuple(pc['perm']), tuple(sorted(pc['out'].items())))
    plt.close('all')

def saved(ctx, rng, i):
    """every open figure is written, once, with its own picture"""
    import io, os
    from sureal.config import DisplayConfig
    plt = plt_()
    plt.close('all')
    n = int(rng.integers(1, 13))
    nums = sorted(int(x) for x in rng.choice(np.arange(1, 30), n, replace=False)) if rng.random() < .5 else list(range(1, n + 1))
    want = []
    for k, m in enumerate(nums):
        f = plt.figure(m, figsize=(1.5, 1))
        f.add_subplot().plot([0, 1, k], [m, 3, 2])
    fmt = ['png', 'png', 'png', 'svg', 'pdf'][int(rng.integers(0, 5))]
    for m in nums:
        b = io.BytesIO()
        plt.figure(m).savefig(b, format='png')
        b.seek(0)
        want.append(plt.imread(b))
    where = fixed_tmp(ctx, 'figs')
    if rng.random() < .4:
        os.makedirs(where, exist_ok=True)
    elif rng.random() < .5:
        where = os.path.join(where, 'in', 'there')
    ctx.describe(figures=nums, format=fmt, nested=where.endswith('there'))
    ctx.sig('saved', tuple(nums), fmt, where.endswith('there'))
    o = {} if fmt == 'png' and rng.random() < .5 else {'format': fmt}
    for again in range(int(rng.integers(1, 3))):
        DisplayConfig.show(write_to_dir=where, **o)
        files = sorted(os.listdir(where))
        ctx.check(len(files) == n and all(f.endswith('.' + fmt) for f in files), 'files of the open figures', got=files, want=nums, format=fmt)
        ctx.check(all(os.path.getsize(os.path.join(where, f)) > 100 for f in files), 'an empty picture was written')
        if fmt == 'png':
            got = [plt.imread(os.path.join(where, f)) for f in files]
            left = list(got)
            for m, w in zip(nums, want):
                hit = [k for k, g in enumerate(left) if g.shape == w.shape and np.array_equal(g, w)]
                ctx.check(bool(hit), 'a figure was not written', figure=m, figures=nums, files=files)
                left.pop(hit[0])
                ctx.event('saved_figures')
    plt.close('all')
