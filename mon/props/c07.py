"""Bias-removal models on random studies (missing votes, ragged repetitions, biased observers, differential scoring), against a
per-vote reference; complete studies additionally against plain mean opinion scores. Non-trivial: at least two videos and two observers."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 1500 if tier == 'quick' else 15000

REJ = {'BR_MOS': None, 'BR_SR_MOS': 'kurtosis', 'P913': 'kurtosis', 'BR_SR_MOS_PCC': 'pearson', 'BR_SR_MOS_SRCC': 'spearman'}

def run_case(ctx, rng, i):
    name = ['BR_MOS', 'BR_MOS', 'BR_SR_MOS', 'P913', 'BR_SR_MOS_PCC', 'BR_SR_MOS_SRCC'][i % 6]
    rej = REJ[name]
    opts = {}
    ds = bool(rng.random() < .2)
    if ds:
        opts['dscore_mode'] = True
    big = i % 40 == 0
    complete = bool(rng.random() < .35)
    for _ in range(30):
        st = gen.make_study(rng, E_range=(3 if rej else 2, 40 if big else 14), S_range=(3 if rej else 2, 30 if big else 12), outsize=.01, refs=True if ds else None,
                            C=int(rng.integers(1, 4)) if ds else None, missing=0 if complete else None, balanced=complete,
                            nan_votes=bool(rng.random() < .3) and not complete, min_per_observer=3 if rej else 1, min_per_video=1 if rng.random() < .2 else 2,
                            scale='cont' if rej == 'spearman' else None, erratic=int(rng.integers(0, 4)) if rej else None)
        if not ds or ref.has_unique_refs(st):
            break
    else:
        ctx.skip('no suitable study')
    # strong biases, beyond the rating scale: the method must not clip them
    if rng.random() < .5:
        for s in range(st.S):
            o = float(rng.choice([0, 0, 1, -2, 7.5, -30]))
            for e in range(st.E):
                if st.votes[e][s] is not None:
                    st.votes[e][s] = [x + o for x in st.votes[e][s]]
    style = str(rng.choice(['list', 'dict', 'tuple']))
    X, names = gen.table(st, style)
    if any(not ref.present(X[:, s]) for s in range(st.S)) or any(not ref.present(X[e]) for e in range(st.E)):
        ctx.skip('row or column without votes')
    ctx.describe(model=name, options=sorted(opts), style=style, study=st.brief())
    ctx.sig(name, sorted(opts), style, st.signature())
    try:
        P = ref.prep(X, st, dscore=ds, bias=True, rejection=rej)
    except ref.Ambiguous as e:
        ctx.skip(str(e))
    if P.get('undefined_correlation'):
        ctx.skip('undefined correlation')
    d = gen.dataset(st, style, rng, 'mixed')
    if rng.random() < .15:
        gen.numpyize(d, rng)
    with quiet():
        r = model(name)(raw_reader(d)).run_modeling(**opts)
    ctx.event('runs_' + name)
    sc = float(np.nanmax(np.abs(P['X']))) + 1
    eq(ctx, r['observer_bias'], P['bias'], 'bias of every observer', 1e-8, 1e-8 * sc)
    ctx.event('biases_compared', st.S)
    if rej:
        ctx.check([bool(f) for f in r['observer_rejected']] == [bool(f) for f in P['flags']], 'rejection decided after bias removal', got=list(r['observer_rejected']), want=P['flags'])
        eq(ctx, r['observer_rejected_1st_stats'], P['stat1'], 'first rejection statistic', 1e-7, 1e-7)
        ctx.event('observers_rejected', int(sum(P['flags'])))
    T = P['X'][:, P['keep'], :]
    if any(not ref.present(T[e]) for e in range(st.E)):
        ctx.skip('a video lost all votes by rejection')
    ms = ref.mos_stats(T)
    eq(ctx, r['quality_scores'], ms['mos'], 'bias-removed scores', 1e-8, 1e-8 * sc)
    eq(ctx, r['quality_scores_std'], ms['sem'], 'standard error of bias-removed votes', 1e-7, 1e-7 * sc)
    for k in (0, 1):
        eq(ctx, r['quality_scores_ci95'][k], 1.95996 * np.array(ms['sem']), '95% interval', 1e-7, 1e-7 * sc)
    eq(ctx, r['quality_ambiguity'], ms['std'], 'spread of bias-removed votes', 1e-7, 1e-7 * sc)
    if complete and not rej:
        with quiet():
            p = model('MOS')(raw_reader(d)).run_modeling(**opts)
        eq(ctx, r['quality_scores'], p['quality_scores'], 'complete data: bias removal leaves the scores unchanged', 1e-8, 1e-8 * sc)
        eq(ctx, float(np.sum(r['observer_bias'])), 0.0, 'complete data: biases sum to zero', 0, 1e-7 * sc * st.S)
        ctx.event('complete_studies')
