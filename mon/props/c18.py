"""Conversions of generated rating studies against the preferences computed from the study: exact outcomes without sampling, sets and binomial
proportions (seven standard errors, pooled) with it. Non-trivial: at least one eligible pair."""
import math
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 600 if tier == 'quick' else 9000

def outcomes(ctx, out, what):
    """{(observer, a, b)}: score of a, one record per unordered pair; fails on impossible records"""
    rec = {}
    for v in out.dis_videos:
        a = v['asset_id']
        for (s, b), x in v['os'].items():
            ctx.check(a != b, what + ': a video compared with itself')
            rec.setdefault((s, min(a, b), max(a, b)), []).append((a, x))
    res = {}
    for (s, a, b), l in rec.items():
        if len(l) == 1:
            ctx.check(l[0][1] in (0, 1), what + ': one-sided outcome', got=l[0][1])
            w = l[0][0] if l[0][1] == 1 else (b if l[0][0] == a else a)
            res[(s, a, b)] = 1 if w == a else 0
        else:
            ctx.check(len(l) == 2 and l[0][0] != l[1][0] and l[0][1] + l[1][1] == 1, what + ': a pair judged twice by one observer', records=l)
            x = dict(l)
            res[(s, a, b)] = x[a]
    return res

def conv(ctx, rd, what='conversion', **o):
    out = rd.to_pc_dataset(**o)
    return out, outcomes(ctx, out, what)

def binom_ok(k, n, p):
    return n == 0 or abs(k - n * p) <= 7 * math.sqrt(n * p * (1 - p)) + 1

def run_case(ctx, rng, i):
    style = str(rng.choice(['list', 'dict', 'tuple']))
    st = gen.make_study(rng, E_range=(2, 9), S_range=(1, 7), outsize=.01, reps=1, missing=float(rng.choice([0, .3])), min_per_video=1, min_per_observer=1,
                        scale=str(rng.choice(['int5', 'int5', 'int100', 'cont', 'ccr'])))
    if i % 7 == 4:      # ratings that differ by very little: any difference decides
        for row in st.votes:
            for v in row:
                if v is not None:
                    v[0] = 2.0 + 1e-9 * float(rng.integers(0, 4))
    d = gen.dataset(st, style, rng if rng.random() < .5 else None, 'list', nan_prob=.3)
    if rng.random() < .15:
        gen.numpyize(d, rng)
    for v in d.dis_videos:
        one = lambda x: x[0] if isinstance(x, (list, tuple)) else x
        v['os'] = {k: one(x) for k, x in v['os'].items()} if isinstance(v['os'], dict) else type(v['os'])(map(one, v['os']))
    for v in d.dis_videos:
        v['kept'] = int(rng.integers(0, 99))
    before = gen.snapshot(d)
    rd = raw_reader(d)
    obs = list(st.observers) if style == 'dict' else [str(k) for k in range(st.S)]
    votes = {}
    for e in range(st.E):
        for s in range(st.S):
            if st.votes[e][s] is not None:
                votes.setdefault(obs[s], {})[st.videos[e]['asset_id']] = st.votes[e][s][0]
    cid = {v['asset_id']: v['content_id'] for v in st.videos}
    pt = str(rng.choice(['within_subject', 'within_subject_within_content', 'default']))
    o = {} if pt == 'default' else {'pc_type': pt}
    elig = {}
    for s, m in votes.items():
        ids = sorted(m)
        for x in range(len(ids)):
            for y in range(x + 1, len(ids)):
                a, b = ids[x], ids[y]
                if pt == 'within_subject' or cid[a] == cid[b]:
                    elig[(s, a, b)] = 1 if m[a] > m[b] else (0 if m[a] < m[b] else .5)
    if not elig:
        ctx.skip('no eligible pair')
    ctx.describe(style=style, pairs=len(elig), options=o, study=st.brief())
    ctx.sig(style, pt, i % 10, st.signature())
    # without sampling
    tb = str(rng.choice(['default', 'even_split', 'coin_toss']))
    if tb != 'default':
        o['tiebreak_method'] = tb
    elif rng.random() < .5:
        o['tiebreak_method'] = None
    out, res = conv(ctx, rd, **o)
    ctx.event('outcomes', len(res))
    ctx.check(set(res) == set(elig), 'pairs of the conversion', missing=[k for k in elig if k not in res][:3], extra=[k for k in res if k not in elig][:3])
    ties = [k for k in elig if elig[k] == .5]
    for k, w in elig.items():
        if w != .5:
            ctx.check(res[k] == w, 'the lower-rated video won', pair=k, got=res[k], want=w)
        elif tb == 'coin_toss':
            ctx.check(res[k] in (0, 1), 'a tossed tie is not decided', got=res[k])
        else:
            ctx.check(res[k] == .5, 'a tie is not split', got=res[k])
    ctx.event('ties', len(ties))
    # fields
    src = clean(d)
    got = clean(out)
    ctx.check(set(src) == set(got), 'fields of the dataset')
    for k in src:
        if k != 'dis_videos':
            ctx.check(norm(src[k]) == norm(got[k]), 'field ' + k)
    for a, b in zip(src['dis_videos'], got['dis_videos']):
        ctx.check(norm({k: v for k, v in a.items() if k != 'os'}) == norm({k: v for k, v in b.items() if k != 'os'}), 'fields of a video', got=b, want=a)
    ctx.check(len(src['dis_videos']) == len(got['dis_videos']), 'number of videos')
    ctx.check(gen.snapshot(d) == before, 'the source changed')
    det = {k: w for k, w in elig.items() if w != .5}
    pos = {v['asset_id']: e for e, v in enumerate(st.videos)}
    K = 30
    kind = i % 10
    o2 = dict(o)
    o2.pop('tiebreak_method', None)
    if kind == 0:
        for extra in ({'sampling_rate': 0.0}, {'per_asset_sampling_rates': [0.0] * st.E}, {'sampling_rate': 0}):
            ctx.check(conv(ctx, rd, **dict(o2, **extra))[1] == {}, 'sampling rate zero kept outcomes')
        for extra in ({'sampling_rate': 1.0}, {'per_asset_sampling_rates': [1.0] * st.E}, {'cointoss_rate': 0.0}, {'noise_level': 0.0}, {'per_asset_cointoss_rates': [0.0] * st.E},
                      {'per_asset_noise_levels': [0.0] * st.E}, {'sampling_rate': None, 'cointoss_rate': None, 'noise_level': None, 'sampling_seed': None, 'per_asset_sampling_rates': None,
                       'per_asset_cointoss_rates': None, 'per_asset_noise_levels': None, 'per_asset_mean_scores': None}):
            ctx.check(conv(ctx, rd, **dict(o2, **extra))[1] == elig, 'a neutral parameter changed outcomes', extra=list(extra))
            ctx.event('neutral_parameters')
    elif kind == 1:
        p = float(rng.choice([.2, .5, .8, 1.4, 2.0]))
        if p > 1:
            # repeated comparisons of ratings agree with each other
            ctx.check(conv(ctx, rd, **dict(o2, sampling_rate=p))[1] == elig, 'a sampling rate above one changed outcomes', rate=p)
            p = .9
        n = k = 0
        for _ in range(K):
            r = conv(ctx, rd, **dict(o2, sampling_rate=p))[1]
            ctx.check(all(r[x] == elig.get(x) for x in r), 'sampling changed an outcome')
            n, k = n + len(elig), k + len(r)
        ctx.check(binom_ok(k, n, p), 'share of sampled pairs', kept=k, of=n, rate=p)
        if i % 40 == 1:
            # rare sampling of a large study
            p = float(rng.choice([.002, .005, .01, .99, .997]))
            big = gen.make_study(rng, E=40, S=24, reps=1, missing=0.0, C=1, scale='cont')
            r2 = raw_reader(gen.dataset(big, 'dict'))
            n = 24 * 40 * 39 // 2
            k = 0
            for _ in range(4):
                k += len(conv(ctx, r2, sampling_rate=p, pc_type='within_subject')[1])
            ctx.check(binom_ok(k, 4 * n, p), 'share of sampled pairs', kept=k, of=4 * n, rate=p)
            ctx.event('rare_sampling')
        ctx.event('sampled_conversions', K)
    elif kind == 2:
        # per-video rates, extreme per video: pairs within the "one" set always, within the "zero" set never
        one = {a: bool(rng.random() < .5) for a in cid}
        rates = [0.0] * st.E
        for a in one:
            rates[pos[a]] = 1.0 if one[a] else 0.0
        n = k = 0
        for _ in range(K):
            r = conv(ctx, rd, **dict(o2, per_asset_sampling_rates=rates))[1]
            for x in elig:
                m = one[x[1]] + one[x[2]]
                if m == 2:
                    ctx.check(x in r, 'a pair of two videos of rate one was dropped', pair=x)
                elif m == 0:
                    ctx.check(x not in r, 'a pair of two videos of rate zero was kept', pair=x)
                else:
                    n, k = n + 1, k + (x in r)
            ctx.check(all(r[x] == elig.get(x) for x in r), 'sampling changed an outcome')
        ctx.check(binom_ok(k, n, .5), 'share of pairs of one video of rate one and one of rate zero', kept=k, of=n)
        ctx.event('sampled_conversions', K)
    elif kind == 3:
        # coin tosses
        p = float(rng.choice([.3, .6, 1.0]))
        n = k = 0
        for _ in range(K):
            r = conv(ctx, rd, **dict(o2, cointoss_rate=p))[1]
            ctx.check(set(r) == set(elig), 'coin tosses change the set of pairs')
            for x, w in det.items():
                n, k = n + 1, k + (r[x] != w)
            if p == 1.0:
                ctx.check(all(v in (0, 1) for v in r.values()), 'a coin toss gave half points')
        ctx.check(binom_ok(k, n, p / 2), 'share of outcomes reversed by coin tosses', reversed=k, of=n, rate=p)
        ctx.event('sampled_conversions', K)
    elif kind == 4:
        one = {a: bool(rng.random() < .5) for a in cid}
        rates = [0.0] * st.E
        for a in one:
            rates[pos[a]] = 1.0 if one[a] else 0.0
        cnt = {1: [0, 0], 2: [0, 0]}
        for _ in range(K):
            r = conv(ctx, rd, **dict(o2, per_asset_cointoss_rates=rates))[1]
            for x, w in elig.items():
                m = one[x[1]] + one[x[2]]
                if m == 0:
                    ctx.check(r[x] == w, 'a pair of two videos of coin-toss rate zero was tossed', pair=x)
                else:
                    if m == 2:
                        ctx.check(r[x] in (0, 1), 'a pair of two videos of coin-toss rate one was not tossed', pair=x)
                    if w != .5:
                        cnt[m][0] += r[x] != w
                        cnt[m][1] += 1
        for m in (1, 2):
            ctx.check(binom_ok(cnt[m][0], cnt[m][1], m / 4.0), 'share of outcomes reversed by per-video coin tosses', reversed=cnt[m][0], of=cnt[m][1], videos=m)
        ctx.event('sampled_conversions', K)
    elif kind in (5, 6):
        # noise of known deviation: reversal probability per pair
        per = kind == 6
        scale = float(max(x for m in votes.values() for x in m.values()) - min(x for m in votes.values() for x in m.values()) ) / 4 or 1.0
        lev = [float(rng.choice([0, scale * .5, scale])) for _ in range(st.E)] if per else [scale * float(rng.choice([.3, 1.0]))] * st.E
        extra = {'per_asset_noise_levels': lev} if per else {'noise_level': lev[0]}
        ex = va = k = 0
        for _ in range(K):
            r = conv(ctx, rd, **dict(o2, **extra))[1]
            ctx.check(set(r) == set(elig), 'noise changes the set of pairs')
            for (s, a, b), w in elig.items():
                sd = math.hypot(lev[pos[a]], lev[pos[b]])
                x = votes[s][a] - votes[s][b]
                if sd == 0:
                    ctx.check(r[(s, a, b)] == w, 'a pair without noise was changed', pair=(s, a, b))
                    continue
                p = .5 * math.erfc(-x / sd / math.sqrt(2))
                ctx.check(r[(s, a, b)] in (0, 1), 'noise left a tie')
                k, ex, va = k + r[(s, a, b)], ex + p, va + p * (1 - p)
        ctx.check(abs(k - ex) <= 7 * math.sqrt(va) + 1, 'wins under noise', wins=k, expected=ex, sd=math.sqrt(va))
        ctx.event('sampled_conversions', K)
    elif kind == 7:
        ms = [float(x) for x in rng.permutation(st.E)]
        if rng.random() < .5:
            ms = [float(int(x) // 2) for x in ms]
        r = conv(ctx, rd, **dict(o2, per_asset_mean_scores=ms))[1]
        for (s, a, b) in elig:
            x, y = ms[pos[a]], ms[pos[b]]
            ctx.check(r[(s, a, b)] == (1 if x > y else 0 if x < y else .5), 'outcome does not follow the given mean scores', pair=(s, a, b), scores=(x, y), got=r[(s, a, b)])
        ctx.check(set(r) == set(elig), 'mean scores change the set of pairs')
    elif kind == 8:
        seed = int(rng.integers(0, 10 ** 6)) if rng.random() < .6 else 0
        o3 = dict(o2, sampling_seed=seed, sampling_rate=.5, cointoss_rate=.4, noise_level=.7)
        import random
        a = conv(ctx, rd, **o3)[1]
        random.random()
        b = conv(ctx, rd, **o3)[1]
        ctx.check(a == b, 'the same seed gives another conversion')
        path = fixed_tmp(ctx, 'pc', '.py')
        rd.to_pc_dataset_file(path, **o3)
        from sureal.tools.misc import import_python_file
        ctx.check(outcomes(ctx, import_python_file(path), 'file') == a, 'the same seed gives another file')
        if len(elig) > 40:
            c = [conv(ctx, rd, **dict(o3, sampling_seed=seed + 1 + j))[1] for j in range(3)]
            ctx.check(any(x != a for x in c), 'different seeds give the same conversion')
        t1 = conv(ctx, rd, **dict(o2, sampling_seed=seed, tiebreak_method='coin_toss'))[1]
        ctx.check(t1 == conv(ctx, rd, **dict(o2, sampling_seed=seed, tiebreak_method='coin_toss'))[1], 'the same seed tosses other ties')
        n = k = 0
        for _ in range(K):
            r = conv(ctx, rd, **dict(o2, tiebreak_method='coin_toss'))[1]
            for x in ties:
                n, k = n + 1, k + r[x]
        ctx.check(binom_ok(k, n, .5), 'tossed ties are unfair', wins=k, of=n)
        if i % 3 == 0:
            # everybody ties on everything, or rates everything: fair, and independent from observer to observer
            big = gen.make_study(rng, E=16, S=int(rng.integers(20, 30)), reps=1, missing=0.0, C=1, scale='int5')
            big.votes = [[[3.0] for _ in row] for row in big.votes]
            r2 = raw_reader(gen.dataset(big, 'dict'))
            for how, o4 in (('tied pairs', {'tiebreak_method': 'coin_toss'}), ('sampled pairs', {'sampling_rate': .5})):
                if rng.random() < .5:
                    o4['sampling_seed'] = seed
                r = conv(ctx, r2, pc_type='within_subject', **o4)[1]
                by = {}
                for (s, a, b), w in r.items():
                    by.setdefault(s, []).append((a, b, w))
                ctx.check(len(by) == big.S and len(set(tuple(sorted(x)) for x in by.values())) == big.S, how + ': two observers share all random decisions', observers=len(by))
                if 'tiebreak_method' in o4:
                    ctx.check(binom_ok(sum(r.values()), len(r), .5), 'tossed ties are unfair', wins=sum(r.values()), of=len(r))
            ctx.event('all_tied_conversions')
    else:
        E = st.E
        for extra in ({'sampling_rate': -.1}, {'sampling_rate': .5, 'per_asset_sampling_rates': [.5] * E}, {'per_asset_sampling_rates': [.5] * (E + 1)}, {'cointoss_rate': 1.5}, {'cointoss_rate': -.5},
                      {'cointoss_rate': .5, 'per_asset_cointoss_rates': [.5] * E}, {'noise_level': -1}, {'noise_level': 1, 'per_asset_noise_levels': [1] * E}, {'pc_type': 'nope'}, {'tiebreak_method': 'nope'},
                      {'per_asset_mean_scores': [1.0] * (E + 1)}, {'per_asset_noise_levels': [-1.0] + [0.0] * (E - 1)}):
            raises(ctx, lambda: rd.to_pc_dataset(**dict(o2, **extra)), 'contradictory or impossible parameters accepted', extra=str(extra))
        # mixture: seeded sampling with neutral others equals plain sampling
        if sorted(cid) == list(range(E)):
            from sureal.dataset_reader import PairedCompDatasetReader
            X = PairedCompDatasetReader(out)
            T = X.opinion_score_3darray
            names = sorted(set(s for (s, a, b) in res))
            W = np.full((E, E, len(names)), np.nan)
            for (s, a, b), v in res.items():
                W[pos[a], pos[b], names.index(s)] = v
                W[pos[b], pos[a], names.index(s)] = 1 - v
            eq(ctx, T, W, 'comparison table of the conversion', 0, 0)
    ctx.check(gen.snapshot(d) == before, 'the source changed')
