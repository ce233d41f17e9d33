"""Cached functions called over generated argument sequences in successions of processes: an append-only log counts evaluations; processes are killed
at every traced line of the cache code, writes are cut short by a file-size limit, computations fail, several processes run at once. Non-trivial: at
least two distinct arguments."""
import os, sys, json, signal, pickle, struct, time, resource
import numpy as np
from mon import gen, ref
from mon.util import *

def num_cases(tier):
    return 160 if tier == 'quick' else 4000

def child(fn, wait=True):
    """run fn in a forked process; returns (finished?, result or error) """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.close(r)
            try:
                out = ('ok', fn())
            except SystemExit as e:
                out = ('exit', e.code)
            except BaseException as e:
                out = ('err', '%s: %s' % (type(e).__name__, e))
            data = pickle.dumps(out)
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if False else None
            os.write(w, struct.pack('>Q', len(data)))
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    def collect():
        buf = b''
        while True:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
        os.close(r)
        os.waitpid(pid, 0)
        if len(buf) < 8 or len(buf) < 8 + struct.unpack('>Q', buf[:8])[0]:
            return ('killed', None)
        return pickle.loads(buf[8:])
    return collect() if wait else collect

def note(path, x):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (repr(x) + '\n').encode())
    os.close(fd)

def notes(path):
    return open(path).read().splitlines() if os.path.exists(path) else []

def value(kind, args):
    """a JSON value that determines the arguments"""
    h = repr(args)
    if kind == 'big':
        return [h] + list(range(3000)) + [h]
    if kind == 'dict':
        return {'args': h, 'x': [1.5, None, True, {'y': h}]}
    if kind == 'null':
        return None if len(h) % 2 else [h]
    if kind == 'zero':
        return [0, 0.0, '', False][len(h) % 4] if len(h) % 3 else h
    if kind == 'num':
        return float(sum(ord(c) * (k + 1) for k, c in enumerate(h))) + .125
    return h

def arguments(rng):
    pool = [(1,), (2,), ('1',), (1.0,), (1.5,), ((1,),), ([1],), ('a', 'b'), ('ab',), ('a', 'b', None), (None,), (True,), (), (1, 2), (12,), ('1, 2',), ([1, 2], 3), ([1], 2, 3),
            ({'k': 1},), ({'k': 2},), (-1,), (1e-20,), (1.0000000000000002,), ('',), (' ',), ('é',), ('日',), ('本',), ('?',), ('e',), ('x' * 5000 + 'a',), ('x' * 5000 + 'b',), ("it's",), (0,), (0.1 + 0.2,), (0.3,), ('x' * 300,), ('x' * 301,), (list(range(1200)),), (list(range(1199)) + [7],)]
    # arguments that are easily mistaken for one another belong into the same case
    alike = [[(1,), ('1',), (1.0,), (True,), ('True',), ([1],), ((1,),), ('[1]',), ('1.0',)], [('a', 'b'), ('ab',), ('a,b',), ('a, b',), ('a b',), (['a', 'b'],), ("a', 'b",), ('a', 'b', None), ('b', 'a'), ('ab', '')],
             [(1, 2), (12,), ('1, 2',), ([1, 2],), (2, 1), ('12',), ('1', '2'), (1, '2'), ('1,2',)], [([1, 2], 3), ([1], 2, 3), (1, 2, 3), ([1, 2, 3],), ([1, [2, 3]],)],
             [({'k': 1},), ({'k': 2},), ({'k': '1'},), ({'j': 1},), (['k', 1],), ('k', 1)], [(None,), ('None',), (), ('',), (' ',), ([],), ({},), (0,), (False,), ('0',)],
             [(1e-20,), (0,), (0.0,), (1.0000000000000002,), (1.0,), (0.1 + 0.2,), (0.3,), (-1,), (1,)], [('é',), ('e',), ('?',), ('日',), ('本',), ('??',), ('E',), ('É',)],
             [('x' * 5000 + 'a',), ('x' * 5000 + 'b',), ('a' + 'x' * 5000,), ('x' * 300,), ('x' * 301,), (list(range(1200)),), (list(range(1199)) + [7],)]]
    k = int(rng.integers(2, 8))
    if rng.random() < .7:
        pool = alike[int(rng.integers(0, len(alike)))] + [pool[int(x)] for x in rng.permutation(len(pool))[:2]]
        k += 2
    out = []
    for x in rng.permutation(len(pool)):
        if len(out) < k and repr(pool[int(x)]) not in [repr(y) for y in out]:
            out.append(pool[int(x)])
    return out

def decorators():
    import sureal.tools.decorator as d
    return d

def make(kind, where, vk, logp, name='fun', fail=()):
    d = decorators()
    def fun(*args):
        note(logp, (name, args))
        if repr(args) in fail:
            raise RuntimeError('cannot compute')
        return value(vk, args)
    fun.__name__ = name
    return (d.persist_to_file if kind == 'file' else d.persist_to_dir)(where)(fun)

def calls(kind, where, vk, logp, args, done=None, name='fun', fail=()):
    f = make(kind, where, vk, logp, name, fail)
    out = []
    for a in args:
        out.append(f(*a))
        if done is not None:
            note(done, (name, a))
    return out

def check_values(ctx, got, args, vk, what):
    ctx.check(got[0] == 'ok', what + ': the calls failed', got=got)
    for a, v in zip(args, got[1]):
        ctx.check(same(v, value(vk, a)) is None and type(v) is type(value(vk, a)), what + ': a wrong value', args=repr(a)[:80], got=str(v)[:120], want=str(value(vk, a))[:120])
        ctx.event('values_compared')

def killer(n):
    """kill this process at the n-th traced line of the cache code or the JSON writer"""
    state = {'k': 0}
    def local(frame, event, arg):
        if event == 'line':
            state['k'] += 1
            if state['k'] == n:
                os.kill(os.getpid(), signal.SIGKILL)
        return local
    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if f.endswith('tools/decorator.py') or '/json/' in f:
            return local(frame, 'call', arg) and local
        return None
    sys.settrace(trace)

def fresh(ctx, kind):
    root = fixed_tmp(ctx, 'cache')
    import shutil
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    return root, os.path.join(root, 'cache.json' if kind == 'file' else 'sub/dir'), os.path.join(root, 'log'), os.path.join(root, 'done')

def disk(ctx, rng, i):
    kind = 'file' if i % 2 else 'dir'
    root, where, logp, done = fresh(ctx, kind)
    vk = str(rng.choice(['str', 'big', 'dict', 'null', 'zero', 'num']))
    args = arguments(rng)
    mode = ['plain', 'crash', 'crash', 'full', 'fails', 'shared', 'together', 'odd'][(i // 2) % 8]
    if i in (0, 1) or i % 200 in (100, 101):
        mode, vk, args = 'many', 'str', [(int(x),) for x in rng.choice(10 ** 6, 1500 if kind == 'dir' else 500, replace=False)]
    ctx.describe(cache=kind, values=vk, mode=mode, arguments=[repr(a)[:40] for a in args[:9]])
    ctx.sig(kind, vk, mode, tuple(repr(a) for a in args))
    ctx.event('mode_' + mode)
    seq = args + [args[int(x)] for x in rng.integers(0, len(args), 6)]
    seq = [seq[int(x)] for x in rng.permutation(len(seq))]
    go = lambda a, **k: child(lambda: calls(kind, where, vk, logp, a, **k))
    if mode == 'many':
        # a large number of arguments: every one has a place of its own
        for p in range(2):
            check_values(ctx, go(args), args, vk, 'process %d, many arguments' % p)
        n = notes(logp)
        ctx.check(len(n) == len(args) == len(set(n)), 'a value was computed more than once (or not at all)', computed=len(n), distinct=len(args))
    elif mode == 'plain':
        for p in range(3):
            check_values(ctx, go(seq), seq, vk, 'process %d' % p)
            seq = [seq[int(x)] for x in rng.permutation(len(seq))]
        n = notes(logp)
        ctx.check(len(n) == len(args) and len(set(n)) == len(args), 'a value was computed more than once (or not at all)', computed=len(n), distinct=len(args))
    elif mode == 'crash':
        # process killed at one line after another of the cache code
        points = sorted(set(int(x) for x in np.concatenate([rng.integers(1, 60, 6), rng.integers(1, 600, 4)])))
        for n in points:
            def job():
                import json.encoder
                killer(n)
                try:
                    return calls(kind, where, vk, logp, seq, done)
                finally:
                    sys.settrace(None)
            r = child(job)
            ctx.event('processes_killed' if r[0] == 'killed' else 'processes_completed')
            if r[0] != 'killed':
                check_values(ctx, r, seq, vk, 'a process after %s' % 'crashes')
            if rng.random() < .4:
                check_values(ctx, go(seq), seq, vk, 'the process after a killed one')
        before = len(notes(logp))
        finished = set(notes(done))
        check_values(ctx, go(seq), seq, vk, 'after the crashes')
        again = [x for x in notes(logp)[before:] if x in finished]
        ctx.check(not again, 'a value that had been returned was computed again after a crash', computed=again[:3])
        before = len(notes(logp))
        check_values(ctx, go(seq), seq, vk, 'at the end')
        ctx.check(len(notes(logp)) == before, 'a stored value was computed again')
    elif mode == 'full':
        vk = 'big'
        go = lambda a, **k: child(lambda: calls(kind, where, vk, logp, a, **k))
        half = max(1, len(args) // 2)
        check_values(ctx, go(args[:half]), args[:half], vk, 'before the failure')
        for limit in (0, 1, 500, 8192, 9000, 20000):
            def job():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                f = make(kind, where, vk, '/dev/null')
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                out = []
                for a in args:
                    try:
                        out.append(('ok', f(*a)))
                    except OSError as e:
                        out.append(('failed', None))
                return out
            r = child(job)
            ctx.check(r[0] == 'ok', 'a cache that cannot be written broke the process', got=r)
            for a, (s, v) in zip(args, r[1]):
                ctx.event('writes_' + s)
                if s == 'ok':
                    ctx.check(same(v, value(vk, a)) is None, 'a wrong value while the disk is full', args=repr(a)[:80])
            check_values(ctx, go(args[:half]), args[:half], vk, 'after a failed write')
        check_values(ctx, go(seq), seq, vk, 'after the failed writes')
        check_values(ctx, go(seq), seq, vk, 'after the failed writes')
    elif mode == 'fails':
        bad = repr(args[0])
        def job():
            f = make(kind, where, vk, logp, fail=(bad,))
            out = []
            for a in seq:
                try:
                    out.append(f(*a))
                except RuntimeError as e:
                    out.append('RAISED')
            return out
        r = child(job)
        ctx.check(r[0] == 'ok', 'a failing computation broke the cache', got=r)
        for a, v in zip(seq, r[1]):
            if repr(a) == bad:
                ctx.check(v == 'RAISED', 'the failure of the computation was hidden', got=v)
            else:
                ctx.check(same(v, value(vk, a)) is None, 'a wrong value beside a failing computation', args=repr(a)[:80])
        check_values(ctx, go(seq), seq, vk, 'after a failing computation')
        n = [x for x in notes(logp) if x != repr(('fun', args[0]))]
        ctx.check(len(n) == len(set(n)), 'values were computed more than once')
    elif mode == 'odd':
        # a value that cannot be stored: that call may fail, the others must not
        bad = repr(args[0])
        def job():
            d = decorators()
            def fun(*a):
                note(logp, ('fun', a))
                return {1, 2} if repr(a) == bad else value(vk, a)
            f = (d.persist_to_file if kind == 'file' else d.persist_to_dir)(where)(fun)
            out = []
            for a in seq:
                try:
                    out.append(('ok', f(*a)))
                except Exception as e:
                    out.append(('raised', '%s: %s' % (type(e).__name__, e)))
            return out
        r = child(job)
        ctx.check(r[0] == 'ok', 'a value that cannot be stored broke the process', got=r)
        for a, (st, v) in zip(seq, r[1]):
            if repr(a) == bad:
                ctx.check(st == 'raised' or v == {1, 2}, 'a wrong value instead of one that cannot be stored', got=v)
            else:
                ctx.check(st == 'ok' and same(v, value(vk, a)) is None, 'a call failed because another value could not be stored', args=repr(a)[:80], got=(st, str(v)[:200]))
        ctx.event('values_that_cannot_be_stored')
        rest = [a for a in seq if repr(a) != bad]
        check_values(ctx, go(rest), rest, vk, 'after a value that could not be stored')
        check_values(ctx, go(seq), seq, vk, 'after a value that could not be stored')
        n = [x for x in notes(logp) if x != repr(('fun', args[0]))]
        ctx.check(len(n) == len(set(n)), 'values were computed more than once')
    elif mode == 'shared':
        # two functions in one place
        where2 = where if kind == 'dir' else where + '2'
        v2 = 'num' if vk != 'num' else 'str'
        for p in range(2):
            a = child(lambda: calls(kind, where, vk, logp, seq, name='one'))
            b = child(lambda: calls(kind, where2, v2, logp, seq, name='other'))
            check_values(ctx, a, seq, vk, 'first of two functions')
            check_values(ctx, b, seq, v2, 'second of two functions')
        n = notes(logp)
        ctx.check(len(n) == 2 * len(args) == len(set(n)), 'a value was computed more than once (two functions)')
    else:
        # several processes at once, slowed down in the file operations
        jobs = []
        gate = time.time() + .15
        for p in range(4):
            o = [seq[int(x)] for x in rng.permutation(len(seq))] if rng.random() < .7 else list(seq)
            slow = float(rng.choice([0, .02]))
            def job(o=o, slow=slow):
                mk, rp = os.makedirs, os.replace
                def makedirs(*a, **k):
                    time.sleep(slow)
                    return mk(*a, **k)
                def replace(*a, **k):
                    time.sleep(slow)
                    return rp(*a, **k)
                os.makedirs, os.replace = makedirs, replace
                f = make(kind, where, vk, logp)
                time.sleep(max(0, gate - time.time()))
                return [f(*a) for a in o]
            jobs.append((o, child(job, wait=False)))
        for o, c in jobs:
            check_values(ctx, c(), o, vk, 'one of several processes')
        check_values(ctx, go(seq), seq, vk, 'after several processes at once')
        ctx.event('simultaneous_processes', 4)
    import shutil
    shutil.rmtree(root, ignore_errors=True)

def memory(ctx, rng, i):
    d = decorators()
    count = []
    @d.memoized
    def f(*a):
        count.append(a)
        return ('v', a)
    args = [tuple(int(x) if rng.random() < .4 else str(x) if rng.random() < .6 else [float(x + .5), str(x + .5), None, 'None'][int(rng.integers(0, 4))] for x in rng.integers(0, 4, int(rng.integers(0, 4)))) for _ in range(12)]
    for a in args * 2:
        ctx.check(f(*a) == ('v', a), 'memoized function returned another value', args=a, got=str(f(*a)))
    ctx.check(len(count) == len(set(args)), 'memoized function was computed again')
    n = []
    class Thing(object):
        def __init__(self, k):
            self.k = k
        @d.memoized
        def get(self, x):
            """documented"""
            n.append((self.k, x))
            return (self.k, x)
        @d.memoized
        def other(self, x):
            return ('other', self.k, x)
    things = [Thing(k) for k in range(5)]
    for _ in range(30):
        t, x = things[int(rng.integers(0, 5))], int(rng.integers(0, 3))
        ctx.check(t.get(x) == (t.k, x), 'a cached method returned the value of another object', got=t.get(x), want=(t.k, x))
        ctx.check(t.other(x) == ('other', t.k, x), 'a cached method returned the value of another method')
    ctx.check(len(n) == len(set(n)), 'a cached method was computed again')
    # short-lived objects: a recycled address must not bring back an old value
    for k in range(200):
        t = Thing(1000 + k)
        ctx.check(t.get(0) == (1000 + k, 0), 'a new object got the value of a dead one')
        del t
    # readers keep their own datasets apart
    st = [gen.make_study(rng, min_per_video=1, min_per_observer=1) for _ in range(4)]
    rd = [raw_reader(gen.dataset(s)) for s in st]
    for _ in range(2):
        for s, r in zip(st, rd):
            ctx.check(r.num_dis_videos == s.E and r.num_observers == s.S and r.num_ref_videos == len(s.contents), 'a reader reports another dataset')
            ctx.check(list(r.disvideo_is_refvideo) == ref.is_ref(s), 'a reader reports the references of another dataset')
    ctx.event('memoized_sequences')
    ctx.describe(cache='memory', arguments=args[:4])
    ctx.sig('mem', tuple(args))

def run_case(ctx, rng, i):
    if i % 10 == 9:
        memory(ctx, rng, i)
    else:
        disk(ctx, rng, i - i // 10)
