"""C20: trim2 and slice2"""
import itertools
import math

import numpy as np
from obspy import UTCDateTime as UTC

from mc.engine import Check, plain, stats_dict
from mc.build import trace, stream, rnd, snap, T0

# (id, start offset, npts, sampling rate, onset relative to start, custom)
KINDS = {'a': ('NN.A..BHZ', 0., 21, 2., 4., 1.),
         'b': ('NN.B..BHQ', 3., 30, 4., 4.1, 7.),
         'c': ('NN.C.00.BHT', 500.123456, 12, 1., 0., -5.),
         'd': ('NN.A..BHZ', 2.25, 9, 2., 3.87, 4.),
         'e': ('NN.E..BHE', 0., 1, 10., 0., 0.),
         'f': ('NN.F..BHE', -4., 21, 2., 20., 12.),
         'z': ('NN.Z..BHE', 0., 0, 2., 0., 0.)}
TIMES = {'none': None, 'm3': -3, 'zero': 0, 'p1.5': 1.5, 'p2.3': 2.3,
         'far': 1000., 'mfar': -1000, 'U5': T0 + 5, 'U3.2': T0 + 3.2,
         'Uold': T0 - 1e5, 'p0.24': 0.24, 'p0.26': 0.26, 'np': np.float64(3)}
REFS = {'onset': 'onset', 'starttime': 'starttime', 'endtime': 'endtime',
        'custom': 'custom', 'utc': T0 + 4.5, 'default': None}
KW = [{}, {'nearest_sample': False}, {'pad': True, 'fill_value': 0.},
      {'pad': True, 'fill_value': 7., 'nearest_sample': False},
      {'pad': True}]
KWS = [{}, {'nearest_sample': False}, {'keep_empty_traces': True},
       {'keep_empty_traces': True, 'nearest_sample': False}]


def make(kinds):
    trs = []
    for n, k in enumerate(kinds):
        id, off, npts, sr, onset, custom = KINDS[k]
        start = T0 + off
        trs.append(trace(id, rnd(npts, n + 1), sr=sr, start=start,
                         onset=start + onset, custom=start + custom, num=n,
                         processing=['one']))
    return stream(trs)


def absolute(tr, t, ref):
    if t is None or isinstance(t, UTC):
        return t
    if ref == 'onset' or ref == 'custom' or ref == 'starttime':
        ref = tr.stats[ref]
    elif ref == 'endtime':
        ref = tr.stats.starttime + (tr.stats.npts - 1) / \
            tr.stats.sampling_rate if tr.stats.npts else tr.stats.starttime
    return ref + float(t)


def away(x):
    return math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)


def window(tr, t1, t2, nearest=True):
    """
    Indices [i, j) of the window, may reach beyond the trace, None if unclear

    nearest: sample next to the time, otherwise samples inside of the window
    """
    n, sr, s = tr.stats.npts, tr.stats.sampling_rate, tr.stats.starttime
    x1 = 0 if t1 is None else (t1 - s) * sr
    x2 = n - 1 if t2 is None else (t2 - s) * sr
    for x in (x1, x2):
        f = abs(x - math.floor(x) - 0.5)
        if nearest and f < 1e-3:
            return None     # in the middle of two samples
    if nearest:
        return away(x1), away(x2) + 1
    return math.ceil(x1 - 1e-5), math.floor(x2 + 1e-5) + 1


class C(Check):
    id = 'C20'
    rule = ('start and end from %s, reftime from %s, options %s %s; streams '
            'of traces %s' % (list(TIMES), list(REFS), KW, KWS, KINDS))
    bounds = {'quick': 'all pairs of times, references and options for '
                       'streams of one trace and one stream of 5 traces; all '
                       'streams up to 3 traces for selected times',
              'thorough': 'all pairs of times, references and options for '
                          'streams of up to 2 traces; all sequences of up to '
                          '3 operations'}
    assumptions = ('window samples as in ObsPy (nearest sample or inside)',)

    def cases(self, tier):
        deep = tier == 'thorough'
        sts = list('abcdefz') + ['', 'abcdf', 'fedcba']
        if deep:
            sts += [''.join(p) for p in itertools.product('abcdf', repeat=2)]
        for st, t1, t2, ref in itertools.product(sts, TIMES, TIMES, REFS):
            if ref == 'default' and not all(
                    isinstance(TIMES[t], (UTC, type(None)))
                    for t in (t1, t2)):
                continue
            yield {'k': 'pair', 'st': st, 't': (t1, t2), 'ref': ref}
        for n in (2, 3):
            for st in itertools.product('abcdf', repeat=n):
                for t in (('m3', 'p2.3'), ('zero', 'none'), ('far', 'none')):
                    yield {'k': 'pair', 'st': ''.join(st), 't': t,
                           'ref': 'onset'}
        ops = [(f, t, r) for f in ('trim2', 'slice2') for t, r in (
            (('m3', 'p2.3'), 'onset'), (('none', 'U5'), 'default'),
            (('p1.5', 'none'), 'starttime'), (('mfar', 'm3'), 'endtime'),
            (('U3.2', 'p1.5'), 'onset'))]
        for n in (2, 3) if deep else (2,):
            for h in itertools.product(ops, repeat=n):
                yield {'k': 'hist', 'h': h}
        yield {'k': 'missing'}

    def expect(self, st, t1, t2, ref, kw, trim):
        """List of (header, data) or exception"""
        kw = dict(kw)
        keep = kw.pop('keep_empty_traces', False)
        out = []
        for tr in st:
            a, b = (absolute(tr, TIMES[t], REFS[ref] if ref != 'utc' else
                             REFS['utc']) for t in (t1, t2))
            # plain trace of ObsPy with the absolute times
            from obspy import Trace
            o = Trace(np.array(tr.data), dict(
                sampling_rate=tr.stats.sampling_rate,
                starttime=tr.stats.starttime))
            try:
                o.trim(a, b, **kw)
            except Exception as ex:
                return type(ex)
            w = window(tr, a, b, kw.get('nearest_sample', True))
            n = tr.stats.npts
            if w is not None and w[0] < w[1] and n and o.stats.npts and \
                    not kw.get('pad'):
                i, j = max(0, w[0]), min(n, w[1])
                assert np.array_equal(o.data, tr.data[i:j]), (w, n)
                assert abs(o.stats.starttime - (
                    tr.stats.starttime + i / tr.stats.sampling_rate)) < 1e-6
            if o.stats.npts or (keep and not trim):
                out.append((tr, o))
        return out

    def compare(self, c, res, want, msg):
        c.eq([tr.stats.num for tr in res], [w[2] for w in want],
             msg + ': traces')
        for tr, (h, o, _) in zip(res, want):
            c.check(type(tr).__name__ == 'RFTrace', msg + ': class')
            c.check(tr.stats.npts == len(tr.data) == o.stats.npts,
                    msg + ': npts %d, expected %d', tr.stats.npts,
                    o.stats.npts)
            c.eq(tr.stats.starttime.ns, o.stats.starttime.ns,
                 msg + ': starttime')
            c.check(np.ma.isMaskedArray(tr.data) ==
                    np.ma.isMaskedArray(o.data), msg + ': masked')
            c.check(np.array_equal(np.ma.getmaskarray(tr.data),
                                   np.ma.getmaskarray(o.data)) and
                    np.array_equal(np.ma.filled(tr.data, 0),
                                   np.ma.filled(o.data, 0)),
                    msg + ': samples of trace %d' % tr.stats.num)
            hh = stats_dict(tr, ('starttime', 'npts', 'processing'))
            c.check(plain(hh) == h, msg + ': headers %s, expected %s', hh, h)
            c.eq(tr.stats.processing[0], 'one', msg + ': processing')

    def step(self, c, st, func, t, ref, kw, msg):
        t1, t2 = t
        exp = self.expect(st, t1, t2, ref, kw, func == 'trim2')
        before = snap(st)
        if not isinstance(exp, type):
            exp = [(plain(stats_dict(tr, ('starttime', 'npts',
                                          'processing'))), o, tr.stats.num)
                   for tr, o in exp]
        args = [TIMES[t1], TIMES[t2]]
        if ref != 'default':
            args.append(REFS[ref])
        c.op()
        c.trace()
        try:
            res = getattr(st, func)(*args, **kw)
        except Exception as ex:
            c.check(isinstance(exp, type) and isinstance(ex, exp),
                    msg + ': %r', ex)
            c.outcome(type(ex).__name__)
            return None
        c.check(not isinstance(exp, type), msg + ': expected %s', exp)
        if func == 'trim2':
            c.check(res is st, msg + ': returns another object')
        else:
            c.check(type(res) is type(st) and res is not st, msg + ': class')
            c.eq(snap(st), before, msg + ': source')
            c.check(not any(a is b for a in res for b in st),
                    msg + ': shares traces')
        self.compare(c, res, exp, msg)
        c.outcome(func, [tr.stats.npts for tr in res])
        return res

    def run(self, case, c):
        if case['k'] == 'pair':
            for func, kws in (('trim2', KW), ('slice2', KWS)):
                for kw in kws:
                    st = make(case['st'])
                    msg = '%s %s %s %s' % (func, case['t'], case['ref'], kw)
                    self.step(c, st, func, case['t'], case['ref'], kw, msg)
            c.state(case)
            # keyword arguments
            st1, st2 = make(case['st']), make(case['st'])
            t1, t2 = (TIMES[t] for t in case['t'])
            ref = REFS[case['ref']]
            try:
                a = st1.slice2(starttime=t1, endtime=t2, reftime=ref)
                st2.trim2(starttime=t1, endtime=t2, reftime=ref)
            except Exception:
                return
            c.op(2)
            for st in (a, st2):
                for tr in st:
                    tr.stats.pop('processing')
            c.eq(snap(a), snap(st2), 'trim2 and slice2')
        elif case['k'] == 'hist':
            st = make('abfc')
            old = []
            for n, (func, t, ref) in enumerate(case['h']):
                res = self.step(c, st, func, t, ref, {},
                                'step %d %s' % (n + 1, func))
                for o, s in old:
                    if o is not st:
                        c.eq(snap(o), s, 'earlier stream after ' + func)
                if res is None:
                    break
                if func == 'slice2':
                    old.append((st, snap(st)))
                    st = res
                c.state(case['h'][:n + 1])
        else:
            for func in ('trim2', 'slice2'):
                for bad in ('nope', 'origin'):
                    st = make('ab')
                    c.raises((KeyError, AttributeError), lambda: getattr(
                        st, func)(0, 1, reftime=bad), 'reftime ' + bad)
            c.op(4)


CHECK = C()
