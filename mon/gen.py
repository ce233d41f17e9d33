"""Workload generator. A Study is the abstract experiment (who voted what on which video); it is rendered into the
dataset forms the package accepts. Oracles work from the Study, never from what the package read."""
import json, math, os, types, itertools
import numpy as np

NAN = float('nan')


class Study(object):
    __slots__ = ('contents', 'videos', 'observers', 'votes', 'ref_score', 'name', 'extra', 'truth', 'kind', 'ref_extra')

    def copy(self):
        s = Study()
        s.contents = [dict(c) for c in self.contents]
        s.videos = [dict(v) for v in self.videos]
        s.observers = list(self.observers)
        s.votes = [[None if v is None else list(v) for v in row] for row in self.votes]
        s.ref_score, s.name, s.extra, s.truth, s.kind = self.ref_score, self.name, dict(self.extra), self.truth, self.kind
        return s

    @property
    def E(self):
        return len(self.videos)

    @property
    def S(self):
        return len(self.observers)

    def brief(self):
        return {'videos': self.E, 'observers': self.S, 'contents': len(self.contents), 'kind': self.kind,
                'max_repetitions': max([len(v) for r in self.votes for v in r if v is not None] + [1]),
                'missing': sum(v is None for r in self.votes for v in r),
                'first_votes': [[v for v in r[:6]] for r in self.votes[:3]],
                'asset_ids': [v['asset_id'] for v in self.videos[:10]]}

    def signature(self):
        return (self.E, self.S, tuple(tuple(tuple(v) if v is not None else None for v in r) for r in self.votes),
                tuple(v['content_id'] for v in self.videos), tuple(v['asset_id'] for v in self.videos))


SCALES = ['int5', 'int5', 'int5', 'int100', 'half9', 'cont', 'cont', 'int10', 'unit', 'ccr', 'milli']


def quantise(x, scale, rng=None):
    if scale == 'int5':
        return float(min(5, max(1, round(x))))
    if scale == 'int10':
        return float(min(10, max(0, round(x * 2))))
    if scale == 'half9':
        return float(min(9, max(1, round(x * 2 * 1.8) / 2)))
    if scale == 'int100':
        return float(min(100, max(0, round(x * 20))))
    if scale == 'unit':
        return float(min(1, max(0, (x - 1) / 4)))
    if scale == 'ccr':
        return float(min(3, max(-3, round((x - 3) * 1.5))))
    if scale == 'milli':
        return float(x * 200)
    if scale == 'micro':
        return float(x * 1e-3)
    return float(x)


def make_study(rng, E=None, S=None, C=None, missing=None, reps=None, scale=None, refs=None, erratic=None, ids=None,
               nan_votes=False, min_per_video=2, min_per_observer=2, observers=None, unused_content=None, E_range=(1, 14),
               S_range=(1, 14), int_like=None, balanced=False, spread=1.0, cgap=None, outsize=0.0):
    """reps: 1 = no repetitions; k>1 = up to k, ragged. missing: probability that an observer skipped a video."""
    if outsize and rng.random() < outsize:      # well beyond the usual sizes, in one direction
        if rng.random() < .5:
            S_range = (45, 75)
        else:
            E_range = (60, 110)
    E = int(rng.integers(E_range[0], E_range[1] + 1)) if E is None else E
    S = int(rng.integers(S_range[0], S_range[1] + 1)) if S is None else S
    C = int(rng.integers(1, max(2, min(E, 5) + 1))) if C is None else C
    C = max(1, min(C, E))
    missing = float(rng.choice([0, 0, 0.1, 0.3, 0.5])) if missing is None else missing
    reps = int(rng.choice([1, 1, 1, 1, 2, 2, 3, 3, 4, 6])) if reps is None else reps
    scale = str(rng.choice(SCALES)) if scale is None else scale
    refs = bool(rng.random() < 0.5) if refs is None else refs
    erratic = int(rng.choice([0, 0, 1, 2])) if erratic is None else erratic
    ids = str(rng.choice(['pos', 'shuffled', 'sparse', 'offset'])) if ids is None else ids
    st = Study()
    st.kind = scale
    st.name = 'study%d' % int(rng.integers(0, 1000))
    odd = rng.random()
    if odd < .15:
        st.name = ['lab A %s', '%s_subject', '1 %s', 'Étude %s'][int(odd * 100) % 4] % st.name
    st.ref_score = float({'int5': 5, 'int10': 10, 'half9': 9, 'int100': 100, 'cont': 5, 'unit': 1, 'ccr': 3, 'milli': 1000, 'micro': .005}[scale])
    st.extra = {'yuv_fmt': 'yuv420p', 'width': 1920, 'height': 1080, 'quality_width': 1920, 'quality_height': 1080}
    if odd > .85:
        st.extra.update({'_note': 'kept by the lab', 'revision': 0, 'comment': '', 'reviewed': None, 'final': False})
    # contents: ids contiguous, listed in shuffled order; sometimes one more content than is used
    unused = (rng.random() < 0.2) if unused_content is None else unused_content
    nC = C + (1 if unused else 0)
    gap = (rng.random() < 0.12) if cgap is None else cgap
    allids = sorted(int(x) for x in rng.choice(np.arange(nC * 3 + 2), size=nC, replace=False)) if gap else list(range(nC))
    if gap and rng.random() < 0.3:      # far beyond the small integers
        allids = [x + 300 for x in allids]
    cids = [allids[int(k)] for k in rng.permutation(nC)]
    st.contents = [{'content_id': int(c), 'content_name': 'src%02d' % c, 'path': '/ref/src%02d.yuv' % c} for c in cids]
    used = [allids[int(c)] for c in (rng.permutation(nC)[:C])]
    vc = used + [int(rng.choice(used)) for _ in range(E - C)]
    vc = [vc[i] for i in rng.permutation(E)]
    if ids == 'pos':
        aids = list(range(E))
    elif ids == 'shuffled':
        aids = [int(x) for x in rng.permutation(E)]
    elif ids == 'offset':
        aids = [int(x) for x in rng.permutation(np.arange(E) + int(rng.integers(1, 50) if rng.random() < .7 else rng.integers(280, 5000) if rng.random() < .7 else rng.integers(10 ** 6, 10 ** 10)))]
    else:
        aids = [int(x) for x in rng.choice(np.arange(0, E * 7 + 10), size=E, replace=False)]
    st.videos = []
    hasref = set()
    hard = rng.random() < 0.15          # names of processed videos that resemble the reference's
    bare = set()
    for e in range(E):
        c = vc[e]
        isref = refs and c not in hasref
        path = '/ref/src%02d.yuv' % c if isref else '/dis/src%02d_hrc%03d.yuv' % (c, e)
        if isref:
            hasref.add(c)
        elif hard:
            p = '/ref/src%02d.yuv' % c
            path = str(rng.choice(['/dis%d/src%02d.yuv' % (e, c), 'x%d' % e + p, p + '.%d' % e, p[:-4] + '_%d.yuv' % e, '/REF%d' % e + p[4:], p + ' ' * (e + 1)]))
            if c not in bare and rng.random() < .3:
                bare.add(c)
                path = str(rng.choice(['src%02d.yuv' % c, p[1:], p.upper(), 'c%02d.yuv' % c]))
        st.videos.append({'content_id': c, 'asset_id': aids[e], 'path': path, 'hrc': 'q%d' % e})
    if observers is not None:
        st.observers = list(observers)
    else:
        pool = [('obs%d' % i) for i in range(S)] if rng.random() < 0.4 else \
               [str(rng.choice(['Ann', 'bob', 'Zoe', 'eve', 'Al', 'x y', 'Jörg', '10', '9'])) + '_' + str(i) for i in range(S)]
        if rng.random() < 0.25:
            pool = [str(i) for i in range(S)]
        elif S <= 12 and rng.random() < .12:
            # names a careless reader would merge or reorder
            pool = ['Ann', 'ann', 'ANN', ' Ann', 'Ann ', 'Ann1', 'Ann_1', 'Ann 1', '01', '1', '1.0', 'Änn']
        st.observers = [pool[i] for i in rng.permutation(len(pool))[:S]]
    # ground truth
    q = rng.uniform(1.3, 4.8, size=E)
    b = rng.normal(0, 0.5 * spread, size=S)
    v = rng.uniform(0.2, 0.8, size=S) * spread
    amb = rng.uniform(0, 0.4, size=max(allids) + 1) * spread
    st.truth = {'q': q, 'b': b, 'v': v, 'a': amb}
    err = set(int(x) for x in rng.permutation(S)[:erratic])
    st.votes = []
    for e in range(E):
        row = []
        for s in range(S):
            n = 1 if reps == 1 else (reps if balanced else int(rng.integers(1, reps + 1)))
            if rng.random() < missing:
                row.append(None)
                continue
            vs = []
            for _ in range(n):
                if s in err and rng.random() < 0.7:
                    x = float(rng.uniform(1, 5))
                else:
                    x = q[e] + b[s] + v[s] * rng.normal() + amb[vc[e]] * rng.normal()
                vs.append(quantise(x, scale))
            row.append(vs)
        st.votes.append(row)
    # guarantee enough votes for the statistics to exist
    def fill(e, s):
        x = q[e] + b[s] + v[s] * rng.normal()
        st.votes[e][s] = [quantise(x, scale)]
    for e in range(E):
        while sum(v is not None for v in st.votes[e]) < min(min_per_video, S):
            s = int(rng.integers(0, S))
            if st.votes[e][s] is None:
                fill(e, s)
    for s in range(S):
        while sum(st.votes[e][s] is not None for e in range(E)) < min(min_per_observer, E):
            e = int(rng.integers(0, E))
            if st.votes[e][s] is None:
                fill(e, s)
    if nan_votes:
        for e in range(E):
            for s in range(S):
                if st.votes[e][s] is not None and len(st.votes[e][s]) > 1 and rng.random() < 0.2:
                    st.votes[e][s][int(rng.integers(0, len(st.votes[e][s])))] = NAN
    return st


def max_reps(st):
    return max([len(v) for r in st.votes for v in r if v is not None] + [1])


def table(st, style='list'):
    """Expected score table [E,S,R] and observer order."""
    R = max_reps(st)
    if style in ('list', 'tuple'):
        order = list(range(st.S))
    else:
        order = sorted(range(st.S), key=lambda s: st.observers[s])
    X = np.full((st.E, st.S, R), NAN)
    for e in range(st.E):
        for k, s in enumerate(order):
            v = st.votes[e][s]
            if v is not None:
                for r in range(len(v)):
                    X[e, k, r] = v[r]
    return X, [st.observers[s] for s in order]


def _cell(v, rng, container, explicit_nan=True):
    """representation of one observer's votes on one video"""
    if v is None:
        return NAN
    def num(x):
        if rng is not None and x == x and float(x).is_integer() and rng.random() < 0.5:
            return int(x)
        return float(x)
    vs = [num(x) for x in v]
    if len(vs) == 1 and (rng is None or rng.random() < 0.85):
        return vs[0]
    if container == 'tuple' or (container == 'mixed' and rng is not None and rng.random() < 0.5):
        return tuple(vs)
    return vs


def ref_videos(st):
    return [dict(c, content_id=fresh(c['content_id'])) for c in st.contents]


def fresh(i):
    """an equal integer that is another object (as in a file that was read)"""
    return int(str(i)) if type(i) is int else i


def dis_videos(st, style='list', rng=None, container='list', nan_prob=0.0, json_safe=False):
    out = []
    for e, vid in enumerate(st.videos):
        d = dict(vid, content_id=fresh(vid['content_id']), asset_id=fresh(vid['asset_id']))
        if style == 'list':
            d['os'] = [_cell(v, rng, container) for v in st.votes[e]]
        elif style == 'tuple':
            d['os'] = tuple(_cell(v, rng, container) for v in st.votes[e])
        elif style == 'dict':
            idx = range(st.S) if rng is None else [int(i) for i in rng.permutation(st.S)]
            o = {}
            for s in idx:
                v = st.votes[e][s]
                if v is None:
                    if rng is not None and rng.random() < nan_prob:
                        o[st.observers[s]] = NAN
                else:
                    o[st.observers[s]] = _cell(v, rng, container)
            d['os'] = o
        else:
            raise ValueError(style)
        out.append(d)
    return out


class DatasetObj(object):
    pass


def dataset(st, style='list', rng=None, container='list', nan_prob=0.0, ref_score=True, **extra):
    d = DatasetObj()
    d.dataset_name = st.name
    for k, v in st.extra.items():
        setattr(d, k, v)
    if ref_score:
        d.ref_score = st.ref_score
    d.ref_videos = ref_videos(st)
    d.dis_videos = dis_videos(st, style, rng, container, nan_prob)
    for k, v in extra.items():
        setattr(d, k, v)
    return d


def numpyize(d, rng):
    """the same dataset with some of the votes as numpy scalars, as a program building it from arrays would give them"""
    def conv(x):
        if isinstance(x, list):
            return [conv(y) for y in x]
        if isinstance(x, tuple):
            return tuple(conv(y) for y in x)
        if isinstance(x, dict):
            return {k: conv(y) for k, y in x.items()}
        if x is None or isinstance(x, bool) or not isinstance(x, (int, float)) or rng.random() < .3:
            return x
        return np.int64(x) if isinstance(x, int) else np.float64(x)
    for v in d.dis_videos:
        v['os'] = conv(v['os'])
    return d


def pyrepr(o):
    """python source of nested containers that evaluates back exactly (nan/inf included)"""
    if isinstance(o, float):
        if o != o:
            return "float('nan')"
        if o in (float('inf'), float('-inf')):
            return "float('%r')" % o
        return repr(o)
    if isinstance(o, dict):
        return '{' + ', '.join('%s: %s' % (pyrepr(k), pyrepr(v)) for k, v in o.items()) + '}'
    if isinstance(o, list):
        return '[' + ', '.join(map(pyrepr, o)) + ']'
    if isinstance(o, tuple):
        return '(' + ', '.join(map(pyrepr, o)) + (',)' if len(o) == 1 else ')')
    return repr(o)


def write_py(d, path):
    with open(path, 'w', encoding='utf-8') as f:
        for k, v in d.__dict__.items():
            if not k.startswith('__'):
                f.write('%s = %s\n' % (k, pyrepr(v)))
    return path


def write_json(d, path, raw=None):
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(d.__dict__, f, ensure_ascii=raw is None or not raw)
    return path


def snapshot(o):
    """deep, exact, order- and type-preserving picture of a dataset or result"""
    if isinstance(o, np.ndarray):
        return ('nd', str(o.dtype), o.shape, o.tobytes())
    if isinstance(o, np.generic):
        return ('np', str(o.dtype), o.tobytes())
    if isinstance(o, float):
        return ('f', repr(o))
    if isinstance(o, (int, str, bool, bytes)) or o is None:
        return (type(o).__name__, o)
    if isinstance(o, dict):
        return ('dict', tuple((snapshot(k), snapshot(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snapshot(v) for v in o))
    if isinstance(o, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, o))))
    if isinstance(o, types.ModuleType) or hasattr(o, '__dict__'):
        return ('obj', tuple((k, snapshot(v)) for k, v in sorted(vars(o).items()) if not k.startswith('__') and not isinstance(v, types.ModuleType) and not callable(v)))
    return ('?', repr(o))


# ------------------------------------------------------------------ paired comparisons
def make_pc(rng, M=None, S=None, order=None, density=None, ties=0.15, connected=True, beta=None, reps=None):
    """abstract paired comparison study: outcome[(subj, i, j)] with i<j positions in asset order -> 1/0.5/0 for i"""
    M = int(rng.integers(2, 9)) if M is None else M
    S = int(rng.integers(1, 9)) if S is None else S
    q = rng.normal(0, 1.0 if beta is None else beta, size=M)
    density = float(rng.choice([1.0, 0.8, 0.5])) if density is None else density
    subs = ['subj%d' % i for i in range(S)] if rng.random() < 0.5 else ['P %s%d' % (c, i) for i, c in enumerate('zyxwvutsrqponm'[:S])]
    out = {}
    for s in subs:
        for i in range(M):
            for j in range(i + 1, M):
                if rng.random() < density:
                    if rng.random() < ties:
                        out[(s, i, j)] = 0.5
                    else:
                        p = 1 / (1 + math.exp(-(q[i] - q[j])))
                        out[(s, i, j)] = 1 if rng.random() < p else 0
    perm = list(range(M)) if order == 'pos' else [int(x) for x in rng.permutation(M)]
    return {'M': M, 'subs': subs, 'out': out, 'perm': perm, 'q': q}


def pc_dataset(pc, rng, style='wins'):
    """perm[k] is the asset id listed at position k. style: 'wins' records on the winner only (ties on both),
    'first' records on the lower asset id, 'random' on either (value adapted)."""
    M = pc['M']
    vids = []
    pos = {}
    for k, a in enumerate(pc['perm']):
        pos[a] = k
        vids.append({'content_id': 0, 'asset_id': a, 'path': '/dis/%d.yuv' % a, 'os': {}})
    items = list(pc['out'].items())
    items = [items[i] for i in rng.permutation(len(items))]
    for (s, i, j), v in items:
        if style == 'wins':
            if v == 1:
                vids[pos[i]]['os'][(s, j)] = 1
            elif v == 0:
                vids[pos[j]]['os'][(s, i)] = 1
            else:
                vids[pos[i]]['os'][(s, j)] = 0.5
                vids[pos[j]]['os'][(s, i)] = 0.5
        elif style == 'first' or rng.random() < 0.5:
            vids[pos[i]]['os'][(s, j)] = v
        else:
            w = {1: 0, 0: 1, 0.5: 0.5}[v]
            vids[pos[j]]['os'][(s, i)] = w
    d = DatasetObj()
    d.dataset_name = 'pc'
    d.yuv_fmt = 'yuv420p'
    d.width = 1920
    d.height = 1080
    d.ref_videos = [{'content_id': 0, 'content_name': 'c0', 'path': '/ref/0.yuv'}]
    d.dis_videos = vids
    return d


def pc_table(pc):
    subs = sorted(set(s for (s, i, j) in pc['out']))
    M = pc['M']
    pos = {a: k for k, a in enumerate(pc['perm'])}
    T = np.full((M, M, len(subs)), NAN)
    for (s, i, j), v in pc['out'].items():
        k = subs.index(s)
        T[pos[i], pos[j], k] = v
        T[pos[j], pos[i], k] = 1 - v
    return T, subs
