"""C15: stack"""
import itertools

import numpy as np

from mc.engine import Check, plain
from mc.build import trace, stream, snap, rnd, subsets, T0

# station specific values: coordinates, sampling rate, npts, onset, phase
STA = {'A': (10., 20., 100., 10., 21, 5., 'P', 'Ps'),
       'B': (-45.5, -179.9, 0., 4., 13, 1.25, 'S', 'Sp'),
       'L': (10.1, 20.1, 101., 10., 21, 5.05, 'P', 'Ps'),
       'N': (80., 0., -20., 10., 21, 0., 'P', 'Ppps')}
ID = {'A': 'NN.AAA..BHQ', 'a': 'NN.AAA..BHT', 'B': 'NN.BBB..BHQ',
      'b': 'NN.BBB..BHL', 'L': 'NN.AAA.10.BHQ', 'N': 'MM.AAA..BHQ',
      'n': '...Q', 'X': 'NN.AAA..BHX'}
EVENT = dict(event_latitude=1., event_longitude=2., event_depth=3.,
             event_magnitude=5.5, event_id='ev', back_azimuth=33.,
             distance=55., inclination=22., slowness=6.4, pp_depth=50.,
             pp_latitude=10.2, pp_longitude=20.2, box_pos=3.,
             starttime=T0)


def make(kind, num, npts=None, dtype=float, drop=()):
    key = kind.upper() if kind.upper() in STA else 'A'
    lat, lon, el, sr, n, onset, phase, mout = STA[key]
    npts = n if npts is None else npts
    start = T0 + 86400 * num + 0.1234 * num
    data = (100 * rnd(npts, num) + 10 * num).astype(dtype)
    head = dict(EVENT)
    head.update(station_latitude=lat, station_longitude=lon,
                station_elevation=el, phase=phase, moveout=mout,
                event_time=start - 400 - num, event_magnitude=5 + 0.1 * num,
                starttime=start, onset=start + onset,
                processing=['read ' + kind])
    for k in drop:
        head.pop(k)
    return trace(ID[kind], data, sr=sr, **head)


HEAD = ('phase', 'moveout', 'station_latitude', 'station_longitude',
        'station_elevation', 'onset', 'processing')


class C(Check):
    id = 'C15'
    rule = ('sequences of traces over the seed ids %s with station specific '
            'coordinates, sampling rates, lengths, onsets and phases, every '
            'trace with its own samples, start time and event headers; '
            'subsets of headers; lengths; data types' % sorted(ID.values()))
    bounds = {'quick': 'all sequences of up to 4 traces over 6 ids, up to 3 '
                       'over 8; all header subsets; up to 4 lengths',
              'thorough': 'all sequences of up to 5 traces over 8 ids; up to '
                          '70 traces per id'}
    assumptions = ('traces of equal id share station headers, sampling rate '
                   'and the onset relative to their start',)

    def cases(self, tier):
        deep = tier == 'thorough'
        seen = set()
        for kinds, n in (('AaBLNbnX', 3), ('AaBbLN', 4)) if not deep else (
                ('AaBLNbnX', 5),):
            for m in range(n + 1):
                for seq in itertools.product(kinds, repeat=m):
                    if seq not in seen:
                        seen.add(seq)
                        yield {'k': 'seq', 'seq': ''.join(seq)}
        for drop in subsets(HEAD):
            yield {'k': 'head', 'drop': drop}
        lens = ((0, 1, 7, 8) if not deep else (0, 1, 2, 7, 8, 20))
        for m in (1, 2, 3):
            for ns in itertools.product(lens, repeat=m):
                yield {'k': 'len', 'npts': ns}
        for m in (1, 2, 3, 4):
            for ds in itertools.product(('f8', 'f4', 'i4', 'i2'), repeat=m):
                yield {'k': 'dtype', 'dtypes': ds}
        for n in (5, 8, 16, 33) if not deep else range(5, 70):
            yield {'k': 'many', 'n': n}

    def compare(self, st, c, rtol=1e-9):
        src = [(tr.id, np.array(tr.data), dict(tr.stats)) for tr in st]
        before = snap(st)
        c.op()
        c.trace()
        res = st.stack()
        c.check(type(res) is type(st), 'class %s' % type(res))
        c.eq(snap(st), before, 'source stream')
        ids = sorted(set(s[0] for s in src))
        c.eq(sorted(tr.id for tr in res), ids, 'seed ids of the stack')
        for tr in res:
            c.check(type(tr).__name__ == 'RFTrace', 'class of trace')
            group = [s for s in src if s[0] == tr.id]
            want = sum(np.asarray(g[1], dtype=float) for g in group)
            want = want / len(group)
            c.close(tr.data, want, 'stack of ' + tr.id, rtol=rtol)
            h = group[0][2]
            c.close(tr.stats.sampling_rate, h['sampling_rate'],
                    'sampling rate', rtol=1e-9)
            for k in ('phase', 'moveout', 'station_latitude',
                      'station_longitude', 'station_elevation'):
                c.eq(tr.stats.get(k), h.get(k), '%s of %s' % (k, tr.id))
            if 'onset' in h:
                c.check('onset' in tr.stats, 'onset of ' + tr.id)
                c.check(abs((tr.stats.onset - tr.stats.starttime) -
                            (h['onset'] - h['starttime'])) < 2e-6,
                        'onset relative to start of %s', tr.id)
            else:
                c.check('onset' not in tr.stats, 'onset of ' + tr.id)
            for k in EVENT:
                if k != 'starttime':
                    c.check(k not in tr.stats, 'header %s in stack', k)
            c.check('event_time' not in tr.stats, 'event_time in stack')
            p = list(tr.stats.get('processing', []))
            q = list(h.get('processing', []))
            c.eq(p[:len(q)], q, 'processing of ' + tr.id)
            c.eq(len(p), len(q) + 1, 'processing entries')
            c.state(tr.id, np.round(want, 6), sorted(
                k for k in tr.stats if k != 'starttime'))
        c.outcome(len(src), len(ids))
        return res

    def run(self, case, c):
        k = case['k']
        if k == 'seq':
            seq = case['seq']
            st = stream([make(x, i) for i, x in enumerate(seq)])
            res = self.compare(st, c)
            # any rotation and the reverse give the same
            ref = {tr.id: tr for tr in res}
            orders = [list(st.traces)[::-1]] if len(seq) > 1 else []
            if len(seq) == 3:
                orders = list(itertools.permutations(st.traces))[1:]
            for o in orders:
                st2 = stream([])
                st2.traces = list(o)
                c.op()
                for tr in st2.stack():
                    c.close(tr.data, ref[tr.id].data, 'order', rtol=1e-9)
                    for h in ('phase', 'moveout', 'station_latitude',
                              'station_longitude'):
                        c.eq(tr.stats.get(h), ref[tr.id].stats.get(h),
                             'order: ' + h)
            # stack of stack
            if len(seq):
                again = res.stack()
                c.op()
                c.eq(sorted(tr.id for tr in again), sorted(ref), 'restack')
                for tr in again:
                    c.close(tr.data, ref[tr.id].data, 'restack', rtol=1e-12)
        elif k == 'head':
            st = stream([make(x, i, drop=case['drop'])
                         for i, x in enumerate('ABaA')])
            self.compare(st, c)
        elif k == 'len':
            ns = case['npts']
            for other in ('', 'a', 'B'):
                st = stream([make('A', i, npts=n) for i, n in enumerate(ns)] +
                            [make(x, 9, npts=5) for x in other])
                if len(set(ns)) == 1:
                    if ns[0]:
                        self.compare(st, c)
                elif 1 not in ns:  # single samples might be broadcast
                    before = snap(st)
                    c.op()
                    c.trace()
                    c.raises(ValueError, st.stack, 'npts %s %s' % (ns, other))
                    c.eq(snap(st), before, 'source after error')
                    c.state(ns, other)
                    c.outcome('ValueError')
        elif k == 'dtype':
            st = stream([make('A', i, dtype=d)
                         for i, d in enumerate(case['dtypes'])])
            self.compare(st, c, rtol=1e-5)
        elif k == 'many':
            st = stream([make('A', i) for i in range(case['n'])] +
                        [make('a', 99)])
            self.compare(st, c)


CHECK = C()
