"""Datasets of every kind the library produces are written, loaded by the library and by the plain interpreter, and compared field by field;
then modelled before and after. Non-trivial: at least two videos; special values and texts are counted."""
import copy
import numpy as np
from mon import gen, ref
from mon.util import *

TEXT = ["plain", "it's", 'say "hi"', 'both \' and "', 'line\nbreak', 'tab\there', 'back\\slash', 'naïve Ünïcode', '日本語 テスト', '😀 smile', "'''", '"""', '#hash', '{curly} %s %d', '\\n', 'nan', 'inf',
        'a very long text ' * 12, 'x' * 300, '', ' ', '\u2028sep', 'nul\\x00', "tail'", 'array([1])', 'Ω' * 90, 'mixed "quotes" and \'apostrophes\' ' * 6]
KINDS = ['aggregated', 'persubject', 'pc', 'combined', 'dictionary', 'loaded_py', 'loaded_json', 'synthetic', 'missing', 'select', 'corrupt_subject', 'corrupt_data', 'logistic', 'given_scores']

def num_cases(tier):
    return 420 if tier == 'quick' else 6000

def load(path):
    ns = {}
    with open(path, encoding='utf-8') as f:
        exec(compile(f.read(), path, 'exec'), ns)
    return {k: v for k, v in ns.items() if not k.startswith('__')}

def t(rng):
    return str(TEXT[int(rng.integers(0, len(TEXT)))])

def special(rng):
    vals = [float('nan'), float('inf'), float('-inf'), 0.1 + 0.2, 1e-300, 1e308, -0.0, 5e-324, np.float64(1 / 3), np.float32(0.1), np.int64(7), True, None, 12345678901234567890, np.nan]
    v = vals[int(rng.integers(0, len(vals)))]
    u = rng.random()
    if u < .2:
        return [v, special(rng)]
    if u < .3:
        return (v, t(rng))
    if u < .4:
        return {t(rng): v, 'k': [v, {'z': v}]}
    if u < .5:
        return np.array([1.5, float('nan'), float('inf')])
    if u < .55:
        return np.array([[1.0, 2.0], [3.0, float('nan')]])
    return v

def spice(d, rng, ctx):
    """extra fields and texts"""
    d.dataset_name = t(rng) or 'x'
    for k in range(int(rng.integers(0, 4))):
        setattr(d, 'field%d' % k, special(rng))
        ctx.event('special_values')
    if rng.random() < .3:
        d.license = t(rng)
    if rng.random() < .3:
        d.subjects = [{'name': t(rng), 'age': int(rng.integers(9, 99)), 'v': special(rng)} for _ in range(3)]
    for v in list(d.ref_videos) + list(d.dis_videos):
        if rng.random() < .4:
            v['note'] = t(rng)
            ctx.event('special_texts')
        if rng.random() < .2:
            v['x'] = special(rng)
            ctx.event('special_values')

def plain(o):
    """loose picture of a value: containers by content, tuples/lists/arrays alike, sign of zero and NaN kept"""
    if isinstance(o, np.ndarray):
        return plain(o.tolist())
    if isinstance(o, np.generic):
        return plain(o.item())
    if isinstance(o, (bool, str)) or o is None:
        return (type(o).__name__, o)
    if isinstance(o, (int, float)):
        return ('n', repr(float(o)) if abs(o) < 1e15 or o != o or isinstance(o, float) else repr(o))
    if isinstance(o, dict):
        return ('d', sorted(((repr(plain(k)), plain(v)) for k, v in o.items()), key=lambda kv: kv[0]))
    if isinstance(o, (list, tuple)):
        return ('l', [plain(v) for v in o])
    return ('?', repr(o))

def diff(a, b, path=''):
    if a == b:
        return None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, path + '/%d' % k)
            if r:
                return r
    return '%s: %s != %s' % (path, str(a)[:120], str(b)[:120])

def cmpfields(ctx, got, want, what):
    g = {k: v for k, v in got.items() if not k.startswith('__')}
    w = {k: v for k, v in want.items() if not k.startswith('__')}
    ctx.check(set(g) == set(w), what + ': set of fields', got=sorted(g), want=sorted(w))
    for k in w:
        r = diff(plain(g[k]), plain(w[k]))
        ctx.check(r is None, what + ': field %s' % k, diff=r)

def run_case(ctx, rng, i):
    from sureal.dataset_reader import (RawDatasetReader, SyntheticRawDatasetReader, SyntheticLogisticRawDatasetReader, MissingDataRawDatasetReader, SelectSubjectRawDatasetReader,
                                       CorruptSubjectRawDatasetReader, CorruptDataRawDatasetReader, PairedCompDatasetReader, DatasetReader)
    from sureal.tools.misc import import_python_file, import_json_file
    kind = KINDS[i % len(KINDS)]
    style = str(rng.choice(['list', 'dict', 'tuple']))
    S = int(rng.integers(2, 9))
    obs = None
    if rng.random() < .5:
        obs = ['%s#%d' % (t(rng), k) for k in range(S)]
    st = gen.make_study(rng, E_range=(2, 9), S=S, observers=obs, C=int(rng.integers(1, 4)), reps=1 if kind in ('persubject', 'pc') else None,
                        missing=0 if kind == 'persubject' and style != 'dict' else None, unused_content=False if kind in ('synthetic', 'logistic') else None, cgap=False if kind in ('synthetic', 'logistic') else None,
                        nan_votes=kind not in ('persubject', 'pc') and rng.random() < .4)
    d = gen.dataset(st, style, rng, str(rng.choice(['list', 'tuple'])))
    if kind in ('persubject', 'pc'):
        for v in d.dis_videos:
            o = v['os']
            v['os'] = {k: (x[0] if isinstance(x, (list, tuple)) else x) for k, x in o.items()} if isinstance(o, dict) else type(o)(x[0] if isinstance(x, (list, tuple)) else x for x in o)
    spice(d, rng, ctx)
    ctx.describe(kind=kind, style=style, study=st.brief())
    path = fixed_tmp(ctx, 'w', '.py')
    rd = RawDatasetReader(d)
    direct = None
    pc = False
    if kind == 'aggregated':
        name = str(rng.choice(['MOS', 'P910', 'BR_MOS', 'ZS_MOS', 'SR_MOS']))
        m = model(name)(rd)
        with quiet():
            m.run_modeling()
        out = m.to_aggregated_dataset()
        direct = lambda p: m.to_aggregated_dataset_file(p)
    elif kind == 'persubject':
        m = model('PERSUBJECT')(rd)
        with quiet():
            m.run_modeling()
        out = m.to_aggregated_dataset()
        direct = lambda p: m.to_aggregated_dataset_file(p)
    elif kind == 'pc':
        o = {'pc_type': str(rng.choice(['within_subject', 'within_subject_within_content']))}
        out = rd.to_pc_dataset(**o)
        direct = lambda p: rd.to_pc_dataset_file(p, **o)
        pc = True
    elif kind == 'combined':
        s2 = st.copy()
        s2.observers = [o if rng.random() < .5 else o + '_b' for o in st.observers]
        d2 = gen.dataset(s2, str(rng.choice(['list', 'dict'])), rng, 'list')
        d2.dataset_name = 'other'
        rd2 = RawDatasetReader(d2)
        out = rd.to_combined_overlap_dataset(rd2)
        direct = lambda p: rd.to_combined_overlap_dataset_file(p, rd2)
    elif kind == 'dictionary':
        out = rd.to_dictionary_style_dataset()
        direct = lambda p: rd.to_dictionary_style_dataset_file(p)
    elif kind == 'loaded_py':
        p = fixed_tmp(ctx, 'src', '.py')
        RawDatasetReader.write_out_dataset(d, p)
        out = import_python_file(p)
    elif kind == 'loaded_json':
        p = fixed_tmp(ctx, 'src', '.json')
        for k in list(vars(d)):
            if k.startswith('field') or k == 'subjects':
                delattr(d, k)
        for v in list(d.ref_videos) + list(d.dis_videos):
            v.pop('x', None)
        gen.write_json(d, p)
        out = import_json_file(p)
        cmpfields(ctx, vars(out), vars(d), 'json load')
    elif kind in ('synthetic', 'logistic'):
        C = len(st.contents)
        cls = SyntheticRawDatasetReader if kind == 'synthetic' else SyntheticLogisticRawDatasetReader
        inp = {'quality_scores': rng.uniform(1, 5, st.E), 'observer_bias': rng.normal(size=S), 'observer_inconsistency': rng.uniform(.1, 1, S),
               'content_bias': rng.normal(size=C), 'content_ambiguity': rng.uniform(.1, 1, C)}
        out = cls(d, input_dict=inp).to_dataset()
    elif kind == 'missing':
        out = MissingDataRawDatasetReader(d, input_dict={'missing_probability': .3}).to_dataset()
    elif kind == 'select':
        sub = [int(x) for x in rng.permutation(S)[:max(1, S - 1)]]
        out = SelectSubjectRawDatasetReader(d, input_dict={'selected_subjects': sub}).to_dataset()
    elif kind == 'corrupt_subject':
        out = CorruptSubjectRawDatasetReader(d, input_dict={'selected_subjects': [0], 'corrupt_behavior': str(rng.choice(['shuffle', 'flip', 'min', 'mid', 'max', 'constant']))}).to_dataset()
    elif kind == 'corrupt_data':
        out = CorruptDataRawDatasetReader(d, input_dict={'corrupt_probability': .3}).to_dataset()
    else:
        sc = [special(rng) for _ in range(st.E)]
        sc = [x if isinstance(x, (int, float)) and not isinstance(x, bool) else float(rng.random()) for x in sc]
        sd = [float(rng.choice([float('nan'), float('inf'), .25, 1e-12, 3])) for _ in range(st.E)]
        sc = np.array(sc, dtype=float) if rng.random() < .3 else sc
        out = rd.to_aggregated_dataset(sc, scores_std=sd)
        direct = lambda p: rd.to_aggregated_dataset_file(p, sc, scores_std=sd)
    DatasetReader.write_out_dataset(out, path)
    cmpfields(ctx, load(path), vars(out), kind + ': file read by the interpreter')
    back = import_python_file(path)
    cmpfields(ctx, vars(back), vars(out), kind + ': file loaded')
    ctx.event('round_trips')
    ctx.event('kind_' + kind)
    ctx.sig(kind, style, st.signature(), sorted(k for k in vars(out) if not k.startswith('__')))
    if direct is not None:
        p2 = fixed_tmp(ctx, 'direct', '.py')
        direct(p2)
        cmpfields(ctx, load(p2), vars(out), kind + ': file written by the export itself')
    # tuple keys and text keys survive as such
    for x, y in zip(back.dis_videos, out.dis_videos):
        if isinstance(y.get('os'), dict):
            ctx.check(list(map(repr, sorted(x['os'], key=repr))) == list(map(repr, sorted(y['os'], key=repr))), 'keys of the votes', got=list(x['os'])[:4], want=list(y['os'])[:4])
    # second generation
    p3 = fixed_tmp(ctx, 'again', '.py')
    DatasetReader.write_out_dataset(back, p3)
    cmpfields(ctx, vars(import_python_file(p3)), vars(out), kind + ': second generation')
    # modelling
    if pc:
        if all(v['os'] == {} for v in out.dis_videos):
            return
        if sorted(v['asset_id'] for v in out.dis_videos) == list(range(st.E)):
            eq(ctx, PairedCompDatasetReader(back).opinion_score_3darray, PairedCompDatasetReader(out).opinion_score_3darray, 'comparison table after reloading', 0, 0)
        return
    if kind in ('aggregated', 'persubject', 'given_scores'):
        return
    if not out.dis_videos:
        return
    eq(ctx, RawDatasetReader(back).opinion_score_3darray, RawDatasetReader(out).opinion_score_3darray, 'votes after reloading', 0, 0)
    for name in ('MOS', 'P910'):
        with quiet():
            try:
                a = run(name, RawDatasetReader(out))
            except ValueError:
                raises(ctx, lambda: run(name, RawDatasetReader(back)), 'refused before but not after reloading')
                continue
            b, c = run(name, RawDatasetReader(back)), model(name).from_dataset_file(path).run_modeling()
        for x in (b, c):
            r = same(a, x)
            ctx.check(r is None, name + ': results after reloading', diff=r)
        ctx.event('modelled_after_reload')
