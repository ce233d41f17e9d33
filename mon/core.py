"""Monitor runner: executes the workloads of one property in forked workers, collects what the monitors
observed, decides, and writes evidence.

Exit status: 0 every monitored execution satisfied the property; 1 a violation (with a VIOLATION line);
2 no decision (nothing observed, framework error, overall time limit).
"""
import sys, os, json, time, signal, traceback, hashlib, pickle, importlib, random, argparse, multiprocessing, contextlib

HOME = os.environ.get('VMON_HOME') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get('VMON_SCRATCH') or '/tmp'
NWORKERS = int(os.environ.get('VMON_WORKERS', '8'))
CASE_CPU_S = 150       # CPU seconds (not wall clock) after which one case counts as not terminating
OVERALL_S = int(os.environ.get('VMON_OVERALL_S', '840'))


class Violation(Exception):
    pass


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx(object):
    """What a workload reports to: every check() is one evaluation of the oracle on an observed execution."""

    def __init__(self, prop, tier, seed, case, known):
        self.prop, self.tier, self.seed, self.case = prop, tier, seed, case
        self.events = {}
        self.sigs = set()
        self.sample = None
        self.known = known
        self.known_hits = {}
        self.desc = None
        self.soft = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def describe(self, **kw):
        self.desc = dict(self.desc or {}, **kw)

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def sig(self, *parts):
        """signature of a non-trivial case; distinct signatures are counted"""
        self.sigs.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def check(self, cond, msg, **details):
        self.event('oracle_evaluations')
        if not cond:
            raise Violation(json.dumps({'msg': msg, 'details': jsonable(details)}))

    def fail(self, msg, **details):
        self.check(False, msg, **details)

    def finding(self, key, what):
        """a listed known finding was observed (only keys in known_findings.jsonl are accepted)"""
        if key in self.known:
            self.known_hits[key] = what
            return
        raise Violation(json.dumps({'msg': what, 'details': {'finding_key': key}}))

    def skip(self, why):
        raise Skip(why)


def jsonable(o, depth=0):
    import numpy as np
    if depth > 8:
        return str(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth + 1)
    if isinstance(o, float):
        return o if o == o and o not in (float('inf'), float('-inf')) else repr(o)
    if isinstance(o, (int, str, bool)) or o is None:
        return o if not isinstance(o, str) else o[:2000]
    return str(o)[:300]


def case_rng(prop, seed, case):
    import numpy as np
    h = hashlib.sha256(('%s|%d|%d' % (prop, seed, case)).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'big'))


# ---- line observation: which lines of the code under test did the monitored executions run ----
class LineObserver(object):
    def __init__(self):
        self.lines = set()
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'vmon')
        except ValueError:
            return

        def on_line(code, line):
            f = code.co_filename
            if f.startswith('/repo/'):
                self.lines.add((f[6:], line))
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True


def worker(modname, prop, tier, seed, cases, outpath, known, verbose):
    sys.stdin = open(os.devnull)
    if not verbose:
        devnull = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    lo = LineObserver()
    lo.start()
    mod = importlib.import_module(modname)
    wdir = os.path.join(SCRATCH, 'w%d' % os.getpid())
    os.makedirs(wdir, exist_ok=True)
    os.chdir(wdir)
    res = {'ran': 0, 'events': {}, 'sigs': set(), 'samples': [], 'violations': [], 'skips': {}, 'known': {}, 'errors': [], 'slow': []}

    def on_prof(signum, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGPROF, on_prof)
    dump_t = 0
    for i in cases:
        ctx = Ctx(prop, tier, seed, i, known)
        rng = case_rng(prop, seed, i)
        import numpy as np
        np.random.seed((seed * 1000003 + i) % (2 ** 32))
        random.seed(seed * 1000003 + i)
        t0 = time.process_time()
        signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CASE_CPU_S', CASE_CPU_S))
        v = None
        ok = False
        try:
            mod.run_case(ctx, rng, i)
            ok = True
        except Skip as e:
            res['skips'][str(e)] = res['skips'].get(str(e), 0) + 1
            ctx.event('cases_skipped')
        except Violation as e:
            v = json.loads(str(e))
        except CaseTimeout:
            v = {'msg': 'the monitored call did not finish within %d CPU seconds' % getattr(mod, 'CASE_CPU_S', CASE_CPU_S), 'details': {}}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if f.filename.startswith('/repo/')]
            if inrepo or 'sureal' in str(e):
                v = {'msg': 'unexpected %s on a valid input: %s' % (type(e).__name__, str(e)[:500]),
                     'details': {'at': ['%s:%d' % (f.filename, f.lineno) for f in tb[-6:]]}}
            else:
                # raised in the monitor itself: either a malformed result it could not digest, or a monitor error
                v = {'msg': 'the result could not be evaluated: %s: %s' % (type(e).__name__, str(e)[:500]),
                     'details': {'at': ['%s:%d' % (f.filename, f.lineno) for f in tb[-6:]]}}
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        res['ran'] += 1
        dt = time.process_time() - t0
        res['slow'].append((dt, i))
        for k, n in ctx.events.items():
            res['events'][k] = res['events'].get(k, 0) + n
        res['sigs'] |= ctx.sigs
        for k, w in ctx.known_hits.items():
            res['known'][k] = w
        if ok and ctx.desc and len(res['samples']) < 2:
            res['samples'].append({'case': i, **jsonable(ctx.desc)})
        if v is not None:
            v['case'] = i
            v['desc'] = jsonable(ctx.desc or {})
            res['violations'].append(v)
            if len(res['violations']) >= 2:
                break
        if time.time() - dump_t > 2:
            dump_t = time.time()
            dump(res, outpath, lo)
    dump(res, outpath, lo)


def dump(res, outpath, lo):
    res['slow'] = sorted(res['slow'], reverse=True)[:5]
    res['lines'] = lo.lines
    tmp = outpath + '.tmp'
    with open(tmp, 'wb') as f:
        pickle.dump(res, f)
    os.replace(tmp, outpath)


def load_known(prop):
    known = {}
    path = os.path.join(HOME, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('status') == 'known' and d.get('property') == prop:
                known[d['key']] = d
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    ap.add_argument('--cases', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        seed, tier = r['seed'], r['tier']
        a.case = r['case']

    try:
        import sureal
        origin = os.path.realpath(sureal.__file__)
    except BaseException as e:
        print('could not import the package: %r' % (e,))
        traceback.print_exc()
        if isinstance(e, SyntaxError):
            return 2
        return 2
    if not origin.startswith('/repo/'):
        print('sureal was imported from %s, not from /repo' % origin)
        return 2

    modname = 'mon.props.%s' % prop.lower()
    mod = importlib.import_module(modname)
    known = load_known(prop)
    n = mod.num_cases(tier)
    if a.cases:
        n = a.cases
    allcases = [a.case] if a.case is not None else list(range(n))
    nw = min(NWORKERS, len(allcases))
    procs = []
    ctxm = multiprocessing.get_context('fork')
    for w in range(nw):
        out = os.path.join(SCRATCH, 'out%d.pkl' % w)
        pr = ctxm.Process(target=worker, args=(modname, prop, tier, seed, [c for k, c in enumerate(allcases) if (k + k // nw) % nw == w], out, known, a.v))
        pr.start()
        procs.append((pr, out))
    deadline = t0 + (OVERALL_S if tier == 'quick' else 6 * 3600)
    timed_out = False
    for pr, out in procs:
        pr.join(max(0.1, deadline - time.time()))
        if pr.is_alive():
            timed_out = True
            pr.kill()
            pr.join()
    tot = {'ran': 0, 'events': {}, 'sigs': set(), 'samples': [], 'violations': [], 'skips': {}, 'known': {}, 'lines': set(), 'slow': []}
    crashed = []
    for k, (pr, out) in enumerate(procs):
        if os.path.exists(out):
            r = pickle.load(open(out, 'rb'))
            tot['ran'] += r['ran']
            for x in ('events', 'skips'):
                for kk, nn in r[x].items():
                    tot[x][kk] = tot[x].get(kk, 0) + nn
            tot['sigs'] |= r['sigs']
            tot['samples'] += r['samples']
            tot['violations'] += r['violations']
            tot['known'].update(r['known'])
            tot['lines'] |= r['lines']
            tot['slow'] += r['slow']
        if pr.exitcode != 0:
            crashed.append((k, pr.exitcode))
    wall = time.time() - t0
    perfile = {}
    for f, l in tot['lines']:
        perfile[f] = perfile.get(f, 0) + 1
    tot['violations'].sort(key=lambda v: v['case'])
    cov = {
        'evaluations': tot['ran'],
        'distinct_nontrivial': len(tot['sigs']),
        'rule': getattr(mod, 'RULE', (mod.__doc__ or '').strip()),
        'samples': sorted(tot['samples'], key=lambda s: s['case'])[:3] or [{'note': 'no complete case'}],
        'observed_events': dict(sorted(tot['events'].items())),
        'skipped_by_reason': tot['skips'],
        'lines_of_code_under_test_executed': dict(sorted(perfile.items())),
        'known_findings_observed': sorted(tot['known']),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'), 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(tot['violations'])}
    if a.case is None:
        os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
        with open(os.path.join(HOME, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle evaluations, %.1f s' % (
        prop, tier, seed, tot['ran'], len(tot['sigs']), tot['events'].get('oracle_evaluations', 0), wall))
    if a.v or os.environ.get('VMON_STATS'):
        print('events', cov['observed_events'], 'skips', tot['skips'])
        print('slow', sorted(tot['slow'], reverse=True)[:5])
    for k in sorted(tot['known']):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]['what']))
    if tot['violations']:
        os.makedirs(os.path.join(HOME, 'replay'), exist_ok=True)
        for v in tot['violations'][:3]:
            path = os.path.join(HOME, 'replay', '%s-s%d-%s-c%d.json' % (prop, seed, tier, v['case']))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': v['case'], 'msg': v['msg'], 'details': v['details'],
                           'input': v['desc'], 'rerun': 'bash run.sh %s --replay %s' % (prop, path)}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   case %d: %s %s' % (v['case'], v['msg'][:600], json.dumps(v['details'])[:700]))
        return 1
    if timed_out or crashed:
        print('no decision: overall time limit or lost workers %r' % (crashed,))
        return 2
    if a.case is None:
        minimum = getattr(mod, 'MIN_EVALS', 50)
        if tot['events'].get('oracle_evaluations', 0) < minimum or len(tot['sigs']) < 2:
            print('no decision: the monitors observed too little')
            return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
