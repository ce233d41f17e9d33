"""Helpers around the package's public API."""
import os, io, contextlib, uuid, copy
import numpy as np
from mon import gen, ref

def models():
    import sureal, sureal.experimental, sureal.pc_subjective_model
    from sureal.subjective_model import SubjectiveModel
    return SubjectiveModel

def model(name):
    return models().find_subclass(name)

_lop = {}

def lopsided(cls):
    """the model with intervals that are not symmetric (as the bootstrapped models have), under a name of its own"""
    if cls not in _lop:
        def run_modeling(self, **kw):
            r = cls.run_modeling(self, **kw)
            for k in list(r):
                if k.endswith('_ci95') and r[k] is not None and r[k][0] is not None:
                    a = np.asarray(r[k][0], float)
                    j = np.arange(len(a))
                    r[k] = [list(.6 * a + .01 * j), list(1.3 * a + .02 + .003 * j)]
            return r
        _lop[cls] = type(cls.__name__ + 'Lopsided', (cls,), {'TYPE': cls.TYPE + '_lopsided', 'VERSION': cls.VERSION, 'run_modeling': run_modeling})
    return _lop[cls]

def raw_reader(d):
    from sureal.dataset_reader import RawDatasetReader
    return RawDatasetReader(d)

def run(name, reader, **opts):
    return model(name)(reader).run_modeling(**opts)

def tmp(suffix=''):
    d = os.environ.get('VMON_SCRATCH', '/tmp')
    return os.path.join(d, 'f' + uuid.uuid4().hex[:12] + suffix)

def fixed_tmp(ctx, tag, suffix=''):
    d = os.environ.get('VMON_SCRATCH', '/tmp')
    return os.path.join(d, '%s_%d_%s%s' % (ctx.prop, ctx.case, tag, suffix))

@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f):
        yield

def eq(ctx, got, want, what, rtol=1e-9, atol=1e-9, **kw):
    try:
        ok = ref.close(got, want, rtol, atol)
    except (TypeError, ValueError):
        ok = False
    if ok:
        ctx.event('oracle_evaluations')
        return
    try:
        d = ref.maxdiff(got, want)
    except Exception:
        d = {'got': str(got)[:200], 'want': str(want)[:200]}
    ctx.fail(what, diff=d, **kw)

def raises(ctx, fn, what, kinds=(Exception,), **kw):
    """the call must be refused (raise); returning a value is the violation"""
    try:
        r = fn()
    except kinds as e:
        ctx.event('oracle_evaluations')
        ctx.event('refusals_observed')
        return e
    except SystemExit as e:
        if e.code not in (0, None):
            ctx.event('oracle_evaluations')
            ctx.event('refusals_observed')
            return e
        ctx.fail(what + ' (exited successfully)', **kw)
    ctx.fail(what, returned=str(r)[:300], **kw)

def clean(d):
    """dataset fields as plain dict"""
    return {k: v for k, v in vars(d).items() if not k.startswith('__')}

def norm(o):
    """loosely typed value for equality: tuples=lists, ints=floats, numpy unwrapped, nan canonical"""
    if isinstance(o, np.ndarray):
        return norm(o.tolist())
    if isinstance(o, np.generic):
        return norm(o.item())
    if isinstance(o, bool):
        return o
    if isinstance(o, (int, float)):
        return 'NaN' if o != o else float(o)
    if isinstance(o, dict):
        return {('t', tuple(norm(x) for x in k)) if isinstance(k, tuple) else k: norm(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [norm(v) for v in o]
    return o


def same(a, b, rtol=1e-11, atol=1e-11, path=''):
    """first difference between two results (None if equal): tuples/lists/arrays alike, NaN equal to NaN"""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return path + ': types differ'
        if set(map(str, a)) != set(map(str, b)):
            return path + ': keys differ %s' % sorted(set(map(str, a)) ^ set(map(str, b)))[:5]
        bb = {str(k): v for k, v in b.items()}
        for k, v in a.items():
            d = same(v, bb[str(k)], rtol, atol, path + '/' + str(k))
            if d:
                return d
        return None
    seq = (list, tuple, np.ndarray)
    if isinstance(a, seq) or isinstance(b, seq):
        if not (isinstance(a, seq) and isinstance(b, seq)):
            return path + ': types differ'
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            if len(a) != len(b):
                return path + ': lengths differ %d %d' % (len(a), len(b))
            for k, (p, q) in enumerate(zip(a, b)):
                d = same(p, q, rtol, atol, path + '[%d]' % k)
                if d:
                    return d
            return None
        if x.shape != y.shape:
            return path + ': shapes differ %s %s' % (x.shape, y.shape)
        if ref.close(x, y, rtol, atol):
            return None
        return path + ': %r' % (ref.maxdiff(x, y),)
    if isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)) and not isinstance(a, (str, bytes)):
        return None if ref.close(a, b, rtol, atol) else path + ': %r %r' % (a, b)
    return None if a == b else path + ': %r %r' % (str(a)[:80], str(b)[:80])


class Zygote(object):
    """A process forked before any workload ran in this worker; each job runs in a fresh fork of it."""
    def __init__(self, fn):
        import pickle, struct
        self.pk, self.st = pickle, struct
        a_r, self.w = os.pipe()
        self.r, b_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                import signal
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                os.close(self.w); os.close(self.r)
                while True:
                    job = self._recv(a_r)
                    if job is None:
                        os._exit(0)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            out = ('ok', fn(job))
                        except BaseException as e:
                            out = ('err', '%s: %s' % (type(e).__name__, e))
                        try:
                            self._send(b_w, out)
                        except BaseException as e:
                            self._send(b_w, ('err', 'unpicklable: %s' % e))
                        os._exit(0)
                    os.waitpid(pid, 0)
            finally:
                os._exit(1)
        os.close(a_r); os.close(b_w)

    def _send(self, fd, o):
        data = self.pk.dumps(o)
        data = self.st.pack('>Q', len(data)) + data
        while data:
            n = os.write(fd, data)
            data = data[n:]

    def _recv(self, fd):
        def rd(n):
            b = b''
            while len(b) < n:
                c = os.read(fd, n - len(b))
                if not c:
                    return None
                b += c
            return b
        h = rd(8)
        if h is None:
            return None
        return self.pk.loads(rd(self.st.unpack('>Q', h)[0]))

    def __call__(self, job):
        self._send(self.w, job)
        return self._recv(self.r)


@contextlib.contextmanager
def nosleep():
    """the paired comparison solvers pause 0.1 s per iteration for display; skip the pauses"""
    import time
    old = time.sleep
    time.sleep = lambda s: None
    try:
        yield
    finally:
        time.sleep = old
