"""Engine: exhaustive exploration of a finite, ordered list of cases.

A *case* is a JSON-able description of an initial state together with the
history of operations (or environment answers) which is executed on the real
code.  A check enumerates all cases within its bounds, simplest first; nothing
is sampled.  Every case is executed on the implementation and compared after
the steps with an independent reference model.  Everything which goes wrong
within a case (also an exception the model does not predict) is a violation
and is written to a replay file holding the case.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')
MAXVIOL = int(os.environ.get('MC_MAXVIOL', 12))


class Violation(Exception):
    pass


class Timeout(Exception):
    pass


def plain(obj, nd=None):
    """Recursively convert to hashable/comparable plain Python objects"""
    from obspy import UTCDateTime, Stream, Trace
    from obspy.core import AttribDict
    if isinstance(obj, UTCDateTime):
        return ('utc', obj.ns)
    if isinstance(obj, Trace):
        return ('trace', plain(stats_dict(obj)), plain(obj.data))
    if isinstance(obj, Stream):
        return ('stream', tuple(plain(tr) for tr in obj.traces))
    if isinstance(obj, (dict, AttribDict)):
        return ('dict',) + tuple(sorted(
            (str(k), plain(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return ('list',) + tuple(plain(v) for v in obj)
    if isinstance(obj, np.ma.MaskedArray):
        return ('masked', plain(obj.filled(0)), plain(np.ma.getmaskarray(obj)))
    if isinstance(obj, np.ndarray):
        return ('array', str(obj.dtype.kind), obj.shape, obj.tobytes())
    if isinstance(obj, (np.generic,)):
        return obj.item()
    if isinstance(obj, float) and obj != obj:
        return ('nan',)
    if isinstance(obj, (str, bytes, int, float, complex, bool)) or obj is None:
        return obj
    return ('repr', repr(obj))


def stats_dict(tr, drop=()):
    """Return stats of a trace as dictionary without the derived endtime"""
    return {k: v for k, v in tr.stats.items()
            if k not in ('endtime', 'delta') and k not in drop}


def digest(obj):
    return hashlib.blake2b(repr(plain(obj)).encode(), digest_size=8).digest()


class Ctx(object):
    """Handed to Check.run; counts what is covered and raises violations"""

    def __init__(self, known=()):
        self.known = known
        self.states = set()
        self.nops = 0
        self.nchecks = 0
        self.ntraces = 0
        self.outcomes = set()
        self.findings = {}
        self._tmp = None

    def op(self, n=1):
        self.nops += n

    def trace(self, n=1):
        """A history of the model was replayed on the implementation"""
        self.ntraces += n

    def state(self, *objs):
        self.states.add(digest(list(objs)))

    def outcome(self, *objs):
        self.outcomes.add(digest(list(objs)))

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        self.nchecks += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def eq(self, got, want, msg=''):
        self.nchecks += 1
        if type(got) is type(want) and got == want:
            return
        if plain(got) != plain(want):
            raise Violation('%s: got %.400r, expected %.400r' %
                            (msg, got, want))

    def close(self, got, want, msg='', rtol=1e-6, atol=None):
        """Compare arrays or numbers, atol defaults to rtol * max(abs(want))"""
        self.nchecks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation('%s: shape %s, expected %s' %
                            (msg, g.shape, w.shape))
        if g.size == 0:
            return
        if not np.all(np.isfinite(w)):
            raise AssertionError('model not finite: ' + msg)
        if atol is None:
            atol = rtol * max(1e-300, float(np.max(np.abs(w))))
        bad = ~(np.abs(g - w) <= atol)
        if np.any(bad):
            i = int(np.argmax(bad.ravel()))
            raise Violation('%s: %d of %d values differ, first at %d: '
                            'got %r, expected %r (tolerance %g)' % (
                                msg, bad.sum(), g.size, i,
                                g.ravel()[i].item(), w.ravel()[i].item(),
                                atol))

    def raises(self, exc, func, msg=''):
        """func has to raise exc (class or tuple)"""
        self.nchecks += 1
        try:
            func()
        except exc:
            return
        except Exception as ex:
            raise Violation('%s: raised %r instead of %s' % (msg, ex, exc))
        raise Violation('%s: no exception, expected %s' % (msg, exc))

    def finding(self, key, msg):
        """Violation which is possibly listed as known"""
        if key in self.known:
            self.findings.setdefault(key, msg)
        else:
            raise Violation('[%s] %s' % (key, msg))

    @property
    def tmp(self):
        """Scratch directory, removed after the case"""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(dir=SCRATCH)
        return self._tmp

    def close_tmp(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class Check(object):
    id = None
    title = ''
    level = 'model_checking'
    rule = ''           # alphabet
    bounds = {}         # tier -> text
    assumptions = ()
    isolate = False     # run cases in own forked process, bool or function
    timeout = 240       # seconds of wall time for one case

    def setup(self):
        """Called once before forking the workers"""

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, c):
        raise NotImplementedError


SCRATCH = None
_CHECK = None
_CASES = None
_KNOWN = ()


def known_findings(prop):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(None, 2)[2]
                key, text = rest.split(None, 1)
                assert key.startswith('key=')
                keys[key[4:]] = text
    return keys


def _alarm(signum, frame):
    raise Timeout()


def _exec(i):
    """Execute one case, return result tuple"""
    case = _CASES[i]
    c = Ctx(_KNOWN)
    viol = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_CHECK.timeout)
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            # obspy's attribute warnings etc are of no interest here
            _CHECK.run(case, c)
    except Violation as ex:
        viol = str(ex)
    except Timeout:
        viol = 'no termination within %d s' % _CHECK.timeout
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as ex:
        viol = 'unexpected %s: %s' % (
            type(ex).__name__, ''.join(traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        c.close_tmp()
    return (i, viol, c.nops, c.nchecks, c.states, c.outcomes, c.findings,
            max(1, c.ntraces))


def _exec_isolated(i):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = pickle.dumps(_exec(i))
            with os.fdopen(w, 'wb') as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return (i, 'process running the case died', 0, 0, set(), set(),
                {}, 1)
    return pickle.loads(data)


def _chunk(idx):
    res = []
    for i in idx:
        iso = _CHECK.isolate
        if callable(iso):
            iso = iso(_CASES[i])
        r = _exec_isolated(i) if iso else _exec(i)
        res.append(r)
        if sum(1 for x in res if x[1]) >= MAXVIOL:
            break
    # merge
    viol = [(x[0], x[1]) for x in res if x[1]]
    states, outs, finds = set(), set(), {}
    for x in res:
        states |= x[4]
        outs |= x[5]
        for k, v in x[6].items():
            finds.setdefault(k, v)
    return (len(res), viol, sum(x[2] for x in res), sum(x[3] for x in res),
            states, outs, finds, sum(x[7] for x in res))


def _short(case):
    s = json.dumps(case)
    return case if len(s) < 1500 else s[:1500] + ' ...'


def load_check(prop):
    d = os.path.join(ROOT, 'checks')
    names = sorted(f[:-3] for f in os.listdir(d)
                   if f.startswith(prop.lower()) and f.endswith('.py'))
    if len(names) != 1:
        raise SystemExit('no check for %s' % prop)
    mod = importlib.import_module('checks.' + names[0])
    return mod.CHECK


def _setup(prop):
    global SCRATCH, _CHECK, _KNOWN
    SCRATCH = tempfile.mkdtemp(prefix='rfmc_')
    _CHECK = load_check(prop)
    _KNOWN = known_findings(prop)
    os.chdir(SCRATCH)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            _CHECK.setup()
        except Exception:   # only warms up caches, cases will show it
            traceback.print_exc()


def run_check(prop, tier, jobs=None):
    """Explore all cases, write evidence, return exit code"""
    global _CASES
    t0 = time.time()
    _setup(prop)
    try:
        return _run_check(prop, tier, jobs, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _run_check(prop, tier, jobs, t0):
    global _CASES
    _CASES = list(_CHECK.cases(tier))
    n = len(_CASES)
    if jobs is None:
        jobs = min(8, len(os.sched_getaffinity(0)))
    # interleaved chunks, because neighbouring cases have similar cost
    nchunks = max(1, min(n, jobs * 12, max(jobs, n // 4)))
    chunks = [list(range(k, n, nchunks)) for k in range(nchunks)]
    states, outs, finds, viols = set(), set(), {}, []
    nrun = nops = nchk = ntr = 0
    if jobs == 1:
        it = map(_chunk, chunks)
        pool = None
    else:
        pool = multiprocessing.get_context('fork').Pool(jobs)
        it = pool.imap_unordered(_chunk, chunks)
    try:
        for (k, v, o, ch, s, ou, f, t) in it:
            nrun += k
            ntr += t
            nops += o
            nchk += ch
            states |= s
            outs |= ou
            viols.extend(v)
            for key, val in f.items():
                finds.setdefault(key, val)
            if len(viols) >= MAXVIOL:
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    viols.sort()
    replays = []
    rdir = os.path.join(ROOT, 'out', 'replay')
    for i, msg in viols:
        os.makedirs(rdir, exist_ok=True)
        case = _CASES[i]
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
        fname = os.path.join(rdir, '%s_%s.json' % (prop, h[:12]))
        with open(fname, 'w') as fh:
            json.dump({'property': prop, 'case': case, 'message': msg}, fh,
                      indent=1)
        replays.append(fname)
    idx = sorted(set([0, n // 3, (2 * n) // 3, n - 1])) if n else []
    cov = {
        'states': len(states), 'transitions': nops,
        'traces_validated_against_impl': ntr,
        'cases_enumerated': n, 'comparisons': nchk,
        'distinct_outcomes': len(outs),
        'samples': [_short(_CASES[i]) for i in idx],
        'exhaustive': bool(nrun == n),
        'rule': _CHECK.rule, 'bounds': _CHECK.bounds.get(tier, ''),
        'known_findings_observed': sorted(finds),
    }
    ev = {'property': prop, 'tier': tier,
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': _CHECK.level, 'coverage': cov,
          'assumptions': list(_CHECK.assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    edir = os.path.join(ROOT, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    print('%s %s: cases=%d/%d states=%d transitions=%d comparisons=%d '
          'outcomes=%d violations=%d wall=%.1fs' % (
              prop, tier, nrun, n, len(states), nops, nchk, len(outs),
              len(viols), time.time() - t0))
    for key in sorted(finds):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, _KNOWN[key]))
    for (i, msg), fname in zip(viols, replays):
        print('  case %d: %s' % (i, msg.replace('\n', '\n    ')[:700]))
        print('VIOLATION property=%s replay=%s' % (prop, fname))
    return 1 if viols else 0


def replay(fname):
    """Execute the case of a replay file"""
    global _CASES
    with open(fname) as f:
        d = json.load(f)
    _setup(d['property'])
    try:
        _CASES = [d['case']]
        r = _exec(0)
    finally:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)
    print(json.dumps(d['case']))
    if r[1]:
        print(r[1])
        print('VIOLATION property=%s replay=%s' % (d['property'], fname))
        return 1
    print('case passes')
    return 0


def main(argv):
    if argv[0] == 'replay':
        return replay(os.path.abspath(argv[1]))
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    jobs = int(os.environ['MC_JOBS']) if 'MC_JOBS' in os.environ else None
    return run_check(prop, tier, jobs)
