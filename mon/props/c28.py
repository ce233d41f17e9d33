"""The demonstration programs and the CSV converter run as programs on generated rating tables; their printed output is compared with the P.910 solver of
the package and with the table. Non-trivial: at least two observers and two videos; programs run are counted."""
import os, sys, io, json, re, runpy, types, contextlib, csv, random, warnings
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 160 if tier == 'quick' else 2500

DEMOS = {'P910': 'itut_p910_demo/demo_p910.py', 'P913': 'itut_p913_demo/demo.py', 'BT500': 'itur_bt500_demo/demo_bt500.py'}

def program(path, argv):
    """run a program of the repository as a script; returns (exit status, what it printed)"""
    out, old = io.StringIO(), sys.argv
    sys.argv = [path] + argv
    code = 0
    here = os.path.dirname(path)
    sys.path.insert(0, here)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_path(path, run_name='__main__')
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv = old
        sys.path.remove(here)
    return code, out.getvalue()

def cell(x, rng):
    if x != x:
        return 'nan'
    return str(int(x)) if float(x).is_integer() and rng.random() < .5 else repr(float(x))

def run_case(ctx, rng, i):
    if i % 4 == 3:
        return converter(ctx, rng, i)
    which = ['P910', 'P913', 'BT500'][i % 3]
    reps = int(rng.choice([1, 2, 3])) if which == 'BT500' else 1
    st = gen.make_study(rng, E_range=(30, 60) if i % 14 == 5 else (3, 24), S_range=(20, 40) if i % 14 == 5 else (3, 14), reps=reps, missing=float(rng.choice([0, 0, .1, .3])), min_per_video=3, min_per_observer=3, erratic=0 if i % 2 else None)
    X, _ = gen.table(st, 'list')
    path = fixed_tmp(ctx, 'csv', '.csv')
    with open(path, 'w') as f:
        for r in range(X.shape[2]):
            if r:
                f.write(',\n')
            for e in range(st.E):
                f.write(','.join(cell(x, rng) for x in X[e, :, r]) + '\n')
    ctx.describe(program=which, study=st.brief())
    ctx.sig(which, st.signature())
    w = ref.p910(X)
    w2 = ref.p910(X + rng.uniform(-1, 1, X.shape) * 1e-11)
    if np.min(w['vj']) < 1e-6 or any(not ref.close(w[k], w2[k], 1e-7, 1e-7) for k in ('s', 'b', 'v', 's_std_j')):
        ctx.skip('rounding decides the solution')
    code, text = program(os.path.join('/repo', DEMOS[which]), ['--input-csv', path])
    ctx.check(code == 0, 'the program failed', status=code, program=which)
    try:
        got = eval(text[text.rindex('{'):], {'np': np, 'nan': float('nan'), 'inf': float('inf'), 'array': np.array, '__builtins__': {}})
    except Exception as e:
        ctx.fail('output of the program is not a table of results', output=text[-300:], error=str(e))
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        r = run('P910', raw_reader(gen.dataset(st, 'list', rng)))
    for k, kk, wk in (('mos_j', 'quality_scores', None), ('sos_j', 'quality_scores_std', 's_std_j'), ('bias_i', 'observer_bias', None), ('inconsistency_i', 'observer_inconsistency', 'v')):
        ctx.check(k in got, 'result is missing', field=k, program=which)
        eq(ctx, got[k], r[kk], '%s of the %s program differs from the package' % (k, which), 1e-6, 1e-6)
    m = float(np.mean(w['b']))
    eq(ctx, got['mos_j'], w['s'] + m, 'mos_j of the %s program' % which, 1e-6, 1e-6)
    eq(ctx, got['bias_i'], w['b'] - m, 'bias_i of the %s program' % which, 1e-6, 1e-6)
    eq(ctx, got['inconsistency_i'], w['v'], 'inconsistency_i of the %s program' % which, 1e-6, 1e-6)
    eq(ctx, got['sos_j'], w['s_std_j'], 'sos_j of the %s program' % which, 1e-6, 1e-6)
    ctx.event('programs_' + which)

class Frame(object):
    """what the converter uses of a data frame: pandas is not installed here"""
    def __init__(self, cols):
        self.cols = cols
        self.columns = list(cols)

    def to_dict(self, orient='dict'):
        n = len(next(iter(self.cols.values()))) if self.cols else 0
        if orient == 'dict':
            return {c: dict(enumerate(v)) for c, v in self.cols.items()}
        if orient == 'records':
            return [{c: v[k] for c, v in self.cols.items()} for k in range(n)]
        raise NotImplementedError(orient)

def read_csv(path, *a, **k):
    if a or k:
        raise NotImplementedError('read_csv options')
    with open(path, newline='', encoding='utf-8') as f:
        rows = list(csv.reader(f))
    cols = {}
    for j, c in enumerate(rows[0]):
        v = [r[j] for r in rows[1:]]
        try:
            num = [float('nan') if x.strip() in ('', 'NaN', 'nan', 'NA') else float(x) for x in v]
            if all(re.fullmatch(r'\s*[+-]?\d+\s*', x) for x in v):
                num = [int(x) for x in v]
            v = num
        except ValueError:
            pass
        cols[c] = v
    return Frame(cols)

def have_pandas():
    try:
        import pandas
        return not getattr(pandas, 'STAND_IN', False)
    except ImportError:
        return False

def converter(ctx, rng, i):
    E, S = int(rng.integers(2, 12)), int(rng.integers(2, 10))
    if rng.random() < .06:
        E, S = int(rng.integers(30, 130)), int(rng.integers(12, 40))
    C = int(rng.integers(1, 5))
    src = ['SRC%02d' % c for c in rng.permutation(12)[:C] + 1]
    used, rows = set(), []
    pre = str(rng.choice(['DB01', 'x', 'LAB2']))
    base = int(rng.integers(0, 20))
    while len(rows) < E:
        s, h = str(rng.choice(src)), 'HRC%02d' % int(base + rng.integers(0, max(30, 2 * E)))
        if (s, h) not in used:
            used.add((s, h))
            rows.append((pre, s, h))
    pat = str(rng.choice(['S%d', 'User%d', 'subject%d', 's%02d', 'S_%02d', 'Subject_%d', 'user%d', 'USER_%d', 'SMOS%d', 'sci%d', 'Sn%d', 'Subject %d', 's.%d', 'User-%d', 'SRC%d', 'subj_é%d']))
    cols = [pat % (k + 1) for k in rng.permutation(S)]
    if S <= 14 and rng.random() < .3:       # any name the converter accepts
        cols = [str(x) for x in rng.permutation(['Sam', 'sue', 'S', 'User', 'subject', 'Subject', 'SUBJECT_A', 'Sn', 'S_N', 's_ci', 'S_MOS', 'user', 'user_n', 'Sixth'])[:S]]
    frac, miss = bool(rng.random() < .4), float(rng.choice([0, 0, .2]))
    T = rng.integers(1, 6, size=(E, S)).astype(float)
    if frac:
        T = T + rng.choice([0, .5, .25], size=(E, S))
    for e in range(E):
        for s in range(S):
            if rng.random() < miss and np.sum(~np.isnan(T[e])) > 2 and np.sum(~np.isnan(T[:, s])) > 2:
                T[e, s] = np.nan
    path = fixed_tmp(ctx, 'table', '.csv')
    extra = [c for c in ('MOS', 'CI', 'N') if rng.random() < .4]
    head = ['PVS_ID'] + cols + extra
    with open(path, 'w', encoding='utf-8') as f:
        f.write(','.join(head) + '\n')
        for e, (a, b, c) in enumerate(rows):
            f.write(','.join(['_'.join((a, b, c))] + ['' if x != x else cell(x, rng) for x in T[e]] + ['%.3f' % np.nanmean(T[e])] * len(extra)) + '\n')
    ctx.describe(videos=E, observers=S, contents=C, fractional=frac, missing=int(np.isnan(T).sum()), extra_columns=extra, ids=['_'.join(r) for r in rows[:6]])
    ctx.sig('converter', E, S, tuple(rows), tuple(cols), T.tobytes())
    o = []
    score = float(rng.choice([5, 10, 4.5]))
    wd = int(rng.integers(100, 2000))
    if rng.random() < .5:
        o += ['-s', str(score)]
    else:
        score = 5.0
    if rng.random() < .5:
        o += ['-rw', str(wd)]
    else:
        wd = 0
    rd = dd = ''
    ext = '.yuv'
    if rng.random() < .5:
        rd, dd, ext = '/r', '/d/e', '.mp4'
        o += ['-r', rd, '-d', dd, '-e', ext]
    if not have_pandas():
        m = types.ModuleType('pandas')
        m.read_csv, m.STAND_IN = read_csv, True
        sys.modules['pandas'] = m
    try:
        code, text = program('/repo/resource/util/mos_to_sureal.py', [path] + o)
    except (NotImplementedError, AttributeError, ImportError, TypeError) as e:
        if have_pandas() or isinstance(e, TypeError) and 'Frame' not in str(e):
            raise
        ctx.skip('the converter uses more of pandas than the stand-in has: %s' % e)
    ctx.check(code == 0, 'the converter failed', status=code)
    try:
        d = json.loads(text)
    except ValueError:
        ctx.fail('the converter did not print a dataset', output=text[:300])
    ctx.check(d['ref_score'] == score and d['width'] == wd and d['yuv_fmt'] == 'yuv420p', 'fields of the converted dataset', got={k: d[k] for k in ('ref_score', 'width', 'yuv_fmt')})
    ctx.check(d['dataset_name'] == os.path.splitext(os.path.basename(path))[0], 'name of the converted dataset')
    num = lambda x: int(re.search(r'\d+', x).group(0))
    want = sorted((num(s), s, os.path.join(rd, s + ext)) for s in set(b for a, b, c in rows))
    got = sorted((r['content_id'], r['content_name'], r['path']) for r in d['ref_videos'])
    ctx.check(got == want, 'contents of the converted dataset', got=got, want=want)
    wantv = {os.path.join(dd, '_'.join(r) + ext): (num(r[1]), num(r[2]), {cols[s]: T[e, s] for s in range(S) if T[e, s] == T[e, s]}) for e, r in enumerate(rows)}
    gotv = {v['path']: (v['content_id'], v['asset_id'], v['os']) for v in d['dis_videos']}
    ctx.check(len(d['dis_videos']) == E and set(gotv) == set(wantv), 'videos of the converted dataset', got=sorted(gotv)[:5], want=sorted(wantv)[:5])
    for k, (c, a, os_) in wantv.items():
        ctx.check(gotv[k][:2] == (c, a), 'ids of a converted video', video=k, got=gotv[k][:2], want=(c, a))
        ctx.check({n: float(x) for n, x in gotv[k][2].items()} == os_, 'ratings of a converted video', video=k, got=gotv[k][2], want=os_)
        ctx.event('ratings', len(os_))
    jp = fixed_tmp(ctx, 'conv', '.json')
    with open(jp, 'w') as f:
        f.write(text)
    from sureal.routine import run_subjective_models
    order = [v['path'] for v in d['dis_videos']]
    idx = {os.path.join(dd, '_'.join(r) + ext): e for e, r in enumerate(rows)}
    X = T[[idx[p] for p in order]][:, np.argsort(cols)][:, :, None]
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        r = run_subjective_models(jp, [model('MOS')], do_plot=[])[2][0]
        eq(ctx, r['quality_scores'], np.nanmean(X, axis=(1, 2)), 'scores of the converted dataset', 1e-9, 1e-9)
        w = ref.p910(X)
        w2 = ref.p910(X + rng.uniform(-1, 1, X.shape) * 1e-11)
        if all(ref.close(w[k], w2[k], 1e-7, 1e-7) for k in ('s', 'b')):
            r = run_subjective_models(jp, [model('P910')], do_plot=[])[2][0]
            m = float(np.mean(w['b']))
            eq(ctx, r['quality_scores'], w['s'] + m, 'P.910 scores of the converted dataset', 1e-6, 1e-6)
            eq(ctx, r['observer_bias'], w['b'] - m, 'P.910 biases of the converted dataset', 1e-6, 1e-6)
    ctx.event('programs_converter')
