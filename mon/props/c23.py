"""Parallel maps of generated functions and arguments: every worker logs start and end of its evaluation to an append-only log, from which the order,
the number of evaluations and the number of simultaneous workers are checked; injected delays, failures and kills vary the schedule. Non-trivial: at
least two arguments and two finishing orders or a failure."""
import os, sys, time, signal, threading
import numpy as np
from mon import gen, ref
from mon.util import *

MIN_EVALS = 50

def num_cases(tier):
    return 200 if tier == 'quick' else 2500

class Stuck(BaseException):
    pass

def bounded(ctx, fn, what, seconds=90):
    """wall-clock bound: a lost worker must not hang the call"""
    def on(s, f):
        raise Stuck()
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    except Stuck:
        ctx.fail(what + ': the call did not return')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)

def log(path, *parts):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (' '.join(map(str, parts)) + '\n').encode())
    os.close(fd)

def read(path):
    if not os.path.exists(path):
        return []
    return [l.split() for l in open(path).read().splitlines()]

def overlap(ev):
    cur = top = 0
    for e in ev:
        cur += 1 if e[0] == 'start' else -1
        top = max(top, cur)
    return top

class Opaque(object):
    """an argument that cannot be pickled"""
    def __init__(self, k):
        self.k = k
        self.lock = threading.Lock()
        self.fn = lambda x: x + k

def values(kind, k):
    if kind == 'int':
        return k * k - 3
    if kind == 'none':
        return None if k % 2 else k
    if kind == 'array':
        return np.arange(k + 1) * 1.5
    if kind == 'dict':
        return {'k': k, 'l': [k] * 3, 'n': float('nan')}
    if kind == 'equal':
        return 'same'
    if kind == 'big':
        return bytes([k % 256]) * 200000
    return (k, str(k))

def run_case(ctx, rng, i):
    from sureal.tools.misc import parallel_map
    n = int(rng.integers(1, 11)) if i % 15 else (0 if i % 30 else 40)
    procs = [1, 1, 2, 3, 5, None, None][int(rng.integers(0, 7))]
    pause = [None, .001, .01, 'default'][int(rng.integers(0, 4))]
    kind = str(rng.choice(['int', 'none', 'array', 'dict', 'equal', 'big', 'tuple']))
    form = str(rng.choice(['list', 'tuple', 'iter', 'gen', 'zip', 'opaque', 'range', 'array', 'dup']))
    delay = {'none': [0] * n, 'rev': [min(.012, .2 / n) * (n - k) for k in range(n)], 'rand': [float(x) for x in rng.uniform(0, .06, n)], 'first': [.1] + [0] * (n - 1)}[
        str(rng.choice(['none', 'rev', 'rand', 'rand', 'first']))] if n else []
    if i % 8 == 1:        # all workers busy for long: anything started beyond the limit shows
        procs = int(rng.integers(2, 7))
        n = procs + int(rng.integers(1, 6))
        delay = [.3] * n
        pause = [None, .001, .01][int(rng.integers(0, 3))]
    o = {}
    if procs is not None or rng.random() < .3:
        o['processes'] = procs
    if pause != 'default':
        o['pause_sec'] = pause
    path = fixed_tmp(ctx, 'log')
    if os.path.exists(path):
        os.unlink(path)
    idx = list(range(n))
    tag = [k if form != 'dup' else k // 2 for k in idx]
    if form == 'opaque':
        args = [Opaque(k) for k in tag]
        key = lambda a: a.fn(0)
    elif form == 'zip':
        args, key = zip(tag, ['x'] * n), lambda a: a[0]
    elif form == 'gen':
        args, key = (k for k in tag), lambda a: a
    elif form == 'iter':
        args, key = iter(tag), lambda a: a
    elif form == 'range':
        args, key = range(n), lambda a: a
    elif form == 'tuple':
        args, key = tuple((k, k + 1) for k in tag), lambda a: a[0]
    elif form == 'array':
        args, key = np.array(tag, dtype=int).reshape(n) if n else [], lambda a: int(a)
    else:
        args, key = list(tag), lambda a: a
    fault = None
    if n and i % 3 == 2:
        fault = str(rng.choice(['raise', 'raise', 'exit0', 'exit1', 'kill', 'sysexit', 'unpicklable', 'kill-early', 'raise-key']))
        victim = int(rng.integers(0, n))
        if form == 'dup':
            victim = tag[victim]
    parent = os.getpid()
    def func(a):
        k = key(a)
        log(path, 'start', k, os.getpid())
        if fault and k == victim:
            if os.getpid() == parent and fault not in ('raise', 'raise-key', 'unpicklable'):
                log(path, 'caller', k, parent)
                raise RuntimeError('this would have ended the caller')
            if fault == 'kill-early':
                os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(delay[k])
            log(path, 'end', k, os.getpid())
            if fault == 'raise':
                raise RuntimeError('boom')
            if fault == 'raise-key':
                raise KeyError(k)
            if fault == 'exit0':
                os._exit(0)
            if fault == 'exit1':
                os._exit(1)
            if fault == 'sysexit':
                sys.exit(0)
            if fault == 'kill':
                os.kill(os.getpid(), signal.SIGKILL)
            if fault == 'unpicklable':
                return lambda x: x
        time.sleep(delay[k])
        r = values(kind, k)
        log(path, 'end', k, os.getpid())
        return r
    ctx.describe(n=n, processes=procs, pause=pause, values=kind, arguments=form, fault=fault, delays=delay)
    what = 'parallel map (%s arguments, %s processes)' % (form, procs)
    if fault:
        try:
            r = bounded(ctx, lambda: parallel_map(func, args, **o), what)
        except Exception as e:
            ctx.event('oracle_evaluations')
            ctx.event('failures_reported')
        else:
            ctx.fail('a worker failed (%s) and the call returned' % fault, victim=victim, returned=str(r)[:200])
        ctx.event('fault_' + fault)
        ev = read(path)
        ctx.check(not any(e[0] == 'caller' for e in ev), 'a dying evaluation ran in the process of the caller, which would have died with it', fault=fault)
        starts = [int(e[1]) for e in ev if e[0] == 'start']
        ctx.check(all(starts.count(k) <= tag.count(k) for k in set(starts)), 'an argument was evaluated twice around a failure', evaluations=starts)
    else:
        r = bounded(ctx, lambda: parallel_map(func, args, **o), what)
        ctx.check(isinstance(r, (list, tuple)) and len(r) == n, 'number of results', got=len(r), want=n)
        for k in range(n):
            d = same(r[k], values(kind, tag[k]))
            ctx.check(d is None, 'result of another argument, or a wrong result', position=k, diff=d)
            ctx.check(type(r[k]) is type(values(kind, tag[k])), 'type of a result', position=k)
        ev = read(path)
        starts, ends = [int(e[1]) for e in ev if e[0] == 'start'], [int(e[1]) for e in ev if e[0] == 'end']
        ctx.check(sorted(starts) == sorted(tag), 'an argument was not evaluated exactly once', evaluations=starts)
        ctx.check(sorted(ends) == sorted(tag), 'an evaluation did not finish before the call returned', ends=ends)
        ctx.event('orders_different' if ends != sorted(ends) else 'orders_sequential')
        ctx.sig('ok', n, procs, form, kind, tuple(ends))
    if procs is not None and fault != 'kill-early':
        top = overlap(ev)
        ctx.check(top <= procs, 'more workers than allowed ran at a time', seen=top, allowed=procs)
        ctx.event('schedules_with_%d_at_once' % top)
    ctx.event('evaluations', len([e for e in ev if e[0] == 'start']))
    ctx.event('distinct_workers', len(set(e[2] for e in ev)))
    ctx.check(os.getpid() == parent, 'the call returned in a worker')
    if fault:
        ctx.sig('fault', fault, n, procs, form)
    # a second call starts afresh
    if n and i % 4 == 0 and not fault:
        c = int(rng.integers(1, 9))
        r2 = bounded(ctx, lambda: parallel_map(lambda a: a + c, [k * 2 for k in range(3)], processes=2, pause_sec=None), what)
        ctx.check(list(r2) == [c, 2 + c, 4 + c], 'result of a second call', got=r2)
    if os.path.exists(path):
        os.unlink(path)
