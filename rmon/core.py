"""Runtime-monitoring core: workloads drive the real code, monitors judge every observed call.

A workload is a function (m, rng, i) that drives the code under test on case number i and reports to the
Monitor m. Monitors raise Violation. Everything is derived from VERIF_SEED, so a replay file only needs the
workload name, the case number and the seed.
"""
import os, sys, time, json, zlib, signal, hashlib, traceback, multiprocessing, warnings, threading
from collections import Counter

REPO_SRC = os.path.realpath(os.environ.get('RMON_REPO', '/repo') + '/src')     # RMON_REPO: for development only
VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))

import numpy as np
from . import reach

warnings.simplefilter('ignore')
np.seterr(all='ignore')


class Violation(Exception):
    """The property does not hold on the observed execution."""
    def __init__(self, what, data=None, key=None):
        Exception.__init__(self, what)
        self.what, self.data, self.key = what, data or {}, key


class Inconclusive(Exception):
    """The harness could not decide (never reported as held nor as violated)."""


class NoResult(Violation):
    pass


def render(x, depth=0):
    """JSON-able rendering of anything a case carries."""
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, np.ndarray):
        return {'array': np.array2string(x, precision=17, threshold=400, separator=',').replace('\n', ''),
                'shape': list(x.shape), 'dtype': str(x.dtype)}
    if isinstance(x, np.generic):
        return repr(x.item())
    if isinstance(x, dict) and depth < 6:
        return {str(k): render(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and depth < 6:
        return [render(v, depth + 1) for v in x[:64]]
    if hasattr(x, 'R') and hasattr(x, 'p') and hasattr(x, 'inv'):
        return {'R': render(np.asarray(x.R)), 'p': render(np.asarray(x.p))}
    if hasattr(x, 'H') and hasattr(x, 'P') and hasattr(x, 'joint_type'):
        return {k: render(v, depth + 1) for k, v in fields(x).items() if v is not None}
    return repr(x)[:2000]


def fields(x):
    """the public attributes of a robot or a transform, however the class stores them (instance attributes, slots or properties)"""
    names = {k for k in getattr(x, '__dict__', {}) if not k.startswith('_')}
    for t in type(x).__mro__:
        names.update(k for k, v in vars(t).items() if not k.startswith('_') and
                     (isinstance(v, property) or type(v).__name__ in ('member_descriptor', 'cached_property')))
    return {k: getattr(x, k) for k in sorted(names) if hasattr(x, k)}


class Monitor(object):
    """Collects what was observed, and raises Violation when an oracle rejects an observation."""
    def __init__(self, prop):
        self.prop = prop
        self.events = Counter()     # what was observed, by kind
        self.evals = 0              # oracle evaluations
        self.cases = 0
        self.distinct = set()       # digests of distinct non-trivial cases (the first 400000 of each process)
        self.per_workload = Counter()
        self.samples = []
        self.context = {}
        self._kept = Counter()

    # -- what was observed
    def seen(self, event, n=1):
        self.events[event] += n

    def case(self, kind, **data):
        """Register the inputs of a non-trivial case"""
        h = hashlib.blake2b(digest_size=8)
        h.update(kind.encode())
        for k in sorted(data):
            h.update(k.encode())
            feed(h, data[k])
        if len(self.distinct) < 400000:
            self.distinct.add(h.digest())
        self.events['case:' + kind] += 1
        self.context = dict(data, kind=kind)
        if self._kept[kind] < 1 and len(self.samples) < 12:
            self._kept[kind] += 1
            self.samples.append({'kind': kind, 'inputs': render(data)})

    # -- oracles
    def check(self, cond, what, key=None, **data):
        self.evals += 1
        try:
            ok = bool(cond)
        except Exception:
            ok = False
        if not ok:
            raise Violation(what, dict(self.context, **data), key)

    def close(self, a, b, tol, what, key=None, **data):
        """max |a-b| <= tol, and the same shape"""
        self.evals += 1
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
            ok = a.shape == b.shape and (a.size == 0 or float(np.max(np.abs(a - b))) <= tol)
        except Exception as e:
            ok = False
        if not ok:
            raise Violation(what, dict(self.context, got=a, expected=b, tol=tol, **data), key)

    def raises(self, fn, what, excs=(Exception,), key=None, **data):
        """The code under test refuses"""
        self.evals += 1
        try:
            r = fn()
        except Violation:
            raise
        except excs:
            return
        except BaseException as e:
            raise Violation(what + ' (refused with %s instead)' % type(e).__name__, dict(self.context, **data), key)
        raise Violation(what, dict(self.context, returned=r, **data), key)

    def merge(self, d):
        self.events.update(d['events'])
        self.evals += d['evals']
        self.cases += d['cases']
        self.distinct |= d['distinct']
        self.per_workload.update(d['per_workload'])
        for s in d['samples']:
            if self._kept[s['kind']] < 1 and len(self.samples) < 12:
                self._kept[s['kind']] += 1
                self.samples.append(s)

    def dump(self):
        return {'events': self.events, 'evals': self.evals, 'cases': self.cases, 'distinct': self.distinct,
                'per_workload': self.per_workload, 'samples': self.samples}


def feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(str(x.shape).encode())
        h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
    elif isinstance(x, (list, tuple)):
        h.update(b'[')
        for v in x:
            feed(h, v)
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            feed(h, x[k])
    elif hasattr(x, 'R') and hasattr(x, 'p'):
        feed(h, np.asarray(x.R)); feed(h, np.asarray(x.p))
    elif hasattr(x, 'H') and hasattr(x, 'P'):
        feed(h, fields(x))
    else:
        h.update(repr(x).encode())


class Workload(object):
    def __init__(self, fn, quick, case_s):
        self.fn, self.name = fn, fn.__name__
        self.quick, self.case_s = quick, case_s


class Prop(object):
    def __init__(self, pid, rule, need=None, assumptions=None, procs=8):
        self.pid, self.rule, self.need = pid, rule, need or {}
        self.assumptions = assumptions or []
        self.workloads = []
        self.procs = procs

    def workload(self, quick, case_s=60):
        """Register fn(m, rng, i); quick is the number of cases of the quick tier. case_s is the CPU time in seconds after which a case that normally takes
        milliseconds counts as having no result."""
        def deco(fn):
            self.workloads.append(Workload(fn, quick, case_s))
            return fn
        return deco


def case_rng(seed, pid, wname, i):
    return np.random.default_rng([seed & 0xffffffff, zlib.crc32((pid + ':' + wname).encode()), i])


def _alarm(signum, frame):
    raise NoResult('no result: the case used up its CPU time')


def in_repo(tb):
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(REPO_SRC):
            return True
    return False


def run_case(m, prop, w, seed, i):
    """Run one case. Returns None or a violation record."""
    rng = case_rng(seed, prop.pid, w.name, i)
    np.random.seed(zlib.crc32(('%d:%s:%d' % (seed, w.name, i)).encode()))
    m.context = {}
    m.cases += 1
    signal.setitimer(signal.ITIMER_VIRTUAL, w.case_s)
    try:
        try:
            w.fn(m, rng, i)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return None
    except Violation as v:
        return {'workload': w.name, 'case': i, 'what': v.what, 'key': v.key, 'data': render(v.data),
                'traceback': traceback.format_exc()}
    except (Inconclusive, MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        if isinstance(e, OSError) and not in_repo(e.__traceback__):
            raise Inconclusive('environment: %r' % (e,))
        # On the unchanged tree no case raises: what the code under test returned or raised is not acceptable
        return {'workload': w.name, 'case': i, 'key': None, 'data': render(m.context),
                'what': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]), 'traceback': traceback.format_exc()}


MAX_VIOL = 3


def _worker(k, nproc, prop, tier, seed, conn, progress, deadline, scale):
    signal.signal(signal.SIGVTALRM, _alarm)
    m = Monitor(prop.pid)
    viols, err = [], None
    rc = reach.Reach(REPO_SRC)
    try:
        rc.start()
        found = Counter()
        # The thorough tier goes on with fresh case numbers, a quick tier's worth at a time, until its time is up
        for rnd in range(1 if tier == 'quick' else 1000000):
            if rnd and time.time() > deadline:
                break
            for wi, w in enumerate(prop.workloads):
                n = int(max(1, round(w.quick * scale)))
                for i in range(rnd*n + (k - rnd*n) % nproc, (rnd + 1)*n, nproc):
                    if time.time() > deadline:
                        if not rnd:
                            m.seen('stopped_at_deadline')
                        break
                    if found[wi] >= MAX_VIOL:
                        break
                    progress[2 * k], progress[2 * k + 1] = wi, i
                    v = run_case(m, prop, w, seed, i)
                    m.per_workload[w.name] += 1
                    if m.cases in (1, 3, 10):
                        rc.refresh()
                    if v is not None:
                        viols.append(v)
                        found[wi] += 1
            if found and tier != 'quick':
                break
    except BaseException as e:
        err = traceback.format_exc()
    conn.send((m.dump(), viols, err, rc.dump()))
    conn.close()
    os._exit(0)


def known_findings(pid):
    """Lines 'finding: property=<id> key=<mechanism> <what fails>' of the committed file"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == 'finding:' and parts[1] == 'property=' + pid \
                    and parts[2].startswith('key='):
                out[parts[2][4:]] = parts[3]
    return out


def run_prop(prop, tier, seed, limit_s, scale=1.0):
    t0 = time.time()
    nproc = min(prop.procs, os.cpu_count() or 1)
    m = Monitor(prop.pid)
    viols, errs, reached = [], [], {}
    progress = multiprocessing.Array('i', 2 * nproc, lock=False)
    ctx = multiprocessing.get_context('fork')
    procs = []
    for k in range(nproc):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(k, nproc, prop, tier, seed, b, progress, t0 + limit_s, scale))
        p.start()
        b.close()
        procs.append((p, a))
    for k, (p, a) in enumerate(procs):
        got = None
        try:
            while not a.poll(1.0):
                if time.time() > t0 + limit_s + 60:
                    errs.append('worker %d did not answer in time' % k)
                    break
            else:
                got = a.recv()
        except EOFError:
            pass
        if got is None:
            if p.is_alive():
                p.kill()
            p.join()
            if not errs and p.exitcode is not None and p.exitcode < 0:
                w = prop.workloads[progress[2 * k]]
                viols.append({'workload': w.name, 'case': int(progress[2 * k + 1]), 'key': None, 'data': {},
                              'what': 'the process died with signal %d' % -p.exitcode, 'traceback': ''})
            elif not errs:
                errs.append('worker %d ended without an answer (exit %r)' % (k, p.exitcode))
            continue
        d, v, e, cov = got
        m.merge(d)
        reach.merge(reached, cov)
        viols += v
        if e:
            errs.append(e)
        p.join()
    # The verdict
    kf = known_findings(prop.pid)
    known = sorted({v['key'] for v in viols if v['key'] in kf})
    viols = [v for v in viols if v['key'] not in kf]
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop.pid, kf[k]))
    short = {e: (m.events[e], n) for e, n in prop.need.items() if m.events[e] < n}
    ev = {'property': prop.pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': m.cases, 'distinct_nontrivial': len(m.distinct), 'rule': prop.rule,
                       'samples': m.samples, 'oracle_evaluations': m.evals,
                       'events_observed': dict(sorted(m.events.items())),
                       'workloads': dict(sorted(m.per_workload.items())),
                       'library_reach': reach.summary(reached), 'code_under_test': code_digest()},
          'assumptions': prop.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if os.environ.get('RMON_REACH'):        # development: every line and branch
        import pickle
        with open(os.path.join(os.environ['RMON_REACH'], prop.pid), 'wb') as f:
            pickle.dump(reached, f)
    with open(os.path.join(VERIF, 'evidence', prop.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viols:
        viols.sort(key=lambda v: (v['workload'], v['case']))
        for n, v in enumerate(viols[:5]):
            rp = os.path.join(VERIF, 'evidence', 'replay_%s_%d.json' % (prop.pid, n))
            with open(rp, 'w') as f:
                json.dump(dict(v, property=prop.pid, seed=seed, tier=tier), f, indent=1)
            print('%s: %s' % (prop.pid, v['what']))
            print('  workload %s case %d, inputs %s' % (v['workload'], v['case'], json.dumps(v['data'])[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop.pid, rp))
        return 1
    if errs or short:
        for e in errs:
            print(e)
        print('INCONCLUSIVE property=%s too little observed: %r' % (prop.pid, short))
        return 2
    print('HELD property=%s on %d cases (%d distinct non-trivial, %d oracle evaluations) in %.1f s' % (
        prop.pid, m.cases, len(m.distinct), m.evals, time.time() - t0))
    return 0


def code_digest():
    h = hashlib.sha256()
    d = os.path.join(REPO_SRC, 'general_robotics_toolbox')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]


def ambient():
    """what a call must leave alone outside of its arguments: state of the process that other code depends on"""
    import locale, random, decimal
    import numpy as np
    st = np.random.get_state()
    opts = {k: repr(v) for k, v in np.get_printoptions().items()}
    return {'floating point error handling': (tuple(sorted(np.geterr().items())), repr(np.geterrcall())),
            'print options': tuple(sorted(opts.items())),
            'warning filters': repr(warnings.filters),
            'random numbers of numpy': (st[0], st[1].tobytes()) + tuple(st[2:]),
            'random numbers': hash(random.getstate()),
            'working directory': os.getcwd(),
            'environment': tuple(sorted(os.environ.items())),
            'search path': tuple(sys.path),
            'arguments of the program': tuple(sys.argv),
            'locale': locale.setlocale(locale.LC_ALL),
            'decimal context': repr(decimal.getcontext()),
            'recursion limit': sys.getrecursionlimit(),
            'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
            'trace functions': (repr(sys.gettrace()), repr(sys.getprofile())),
            'switch interval': sys.getswitchinterval()}


def changed(a, b):
    """names of the parts that differ"""
    return [k for k in a if a[k] != b[k]]
