"""C17: harmonic decomposition"""
import itertools
import warnings

import numpy as np

from mc.engine import Check
from mc.build import trace, stream, snap, rnd, T0

BAZ = {'five': (3., 70., 155., 220., 301.),
       'even8': tuple(range(0, 360, 45)),
       'patchy': (10., 12., 25., 31., 100., 260., 262.),
       'close': (10., 12., 15., 19., 24., 30.),
       'dup': (10., 10., 80., 150., 150., 222., 290., 359.9),
       'ten': tuple(np.linspace(5, 341, 10)),
       'neg': (-170., -90.5, -30., 45., 120., 400.)}
FEW = {'one': (33.,), 'two': (10., 200.), 'three': (5., 120., 255.),
       'four': (0., 90., 180., 270.), 'same': (50.,) * 6}
COMPS = ('R', 'Q', 'T', 'RT', 'QT')
SCALARS = (None, (3, 0.3), (1, 1), (0.5, 7.), (3, 0.001))
AZIM = (0, 30., -45., 90, 360., 123.4)
TERMS = ['constant', 'cos', 'sin', 'cos2', 'sin2']
GONE = ('event_id', 'event_depth', 'event_latitude', 'event_longitude',
        'event_magnitude', 'inclination', 'slowness', 'event_time',
        'back_azimuth')
NPTS = (6, 7, 1)


def system(baz, azim, scalars, two):
    """
    Equations of the references as list of rows, one per datum

    R = A + B cos(t) + C sin(t) + D cos(2t) + E sin(2t) + unmodeled B..E
    T = a - B sin(t) + C cos(t) - D sin(2t) + E cos(2t) - (unmodeled shifted)
    """
    rows, trows = [], []
    s1, s2 = scalars or (3, 0.3)
    for b in baz:
        t = (b - azim) * np.pi / 180
        har = [np.cos(t), np.sin(t), np.cos(2 * t), np.sin(2 * t)]
        # shifted by a quarter of a period
        sh = [np.cos(t + np.pi / 2), np.sin(t + np.pi / 2),
              np.cos(2 * t + np.pi / 2), np.sin(2 * t + np.pi / 2)]
        if two:
            rows.append([s1] + har + [0] + har)
            trows.append([0] + sh + [s2] + [-x for x in sh])
        else:
            rows.append([1] + har)
    return np.array(rows + trows)


def make(comp, i, baz, data, sr=4., onset=0.5, **kw):
    start = T0 + 3600 * ((i * 5) % 11) + 0.37 * i
    head = dict(back_azimuth=baz, event_time=start - 400., event_id='ev%d' % i,
                event_latitude=1., event_longitude=2., event_depth=3.,
                event_magnitude=6., inclination=22., slowness=6.4, distance=50.,
                station_latitude=10., station_longitude=20.,
                station_elevation=30., phase='P', moveout='Ps', type='rf',
                onset=start + onset, processing=['read'])
    head.update(kw)
    return trace('NN.STA.00.BH' + comp, data, sr=sr, start=start, **head)


class C(Check):
    id = 'C17'
    rule = ('back azimuth sets %s; components %s; methods time, freq; azim '
            '%s; scalars %s; data made of a single harmonic or generic; '
            'orders of the traces; header subsets; invalid arguments' % (
                dict(BAZ, **FEW), COMPS, AZIM, SCALARS))
    bounds = {'quick': 'full product of back azimuth sets, components, '
                       'methods, azim, scalars; all orders of 5 traces of one '
                       'component and of 2 events with 2 components + L',
              'thorough': 'additionally all orders of 3 events with 2 '
                          'components, two deviations of back azimuth sets'}
    assumptions = ('for rank deficient systems any solution with minimal '
                   'residual is accepted',
                   'every event has all components, event_time is unique')

    def cases(self, tier):
        deep = tier == 'thorough'
        for name, comps, method, azim in itertools.product(
                list(BAZ) + list(FEW), COMPS, ('time', 'freq', None), AZIM):
            for sc in SCALARS if len(comps) == 2 else (None,):
                yield {'k': 'lsq', 'baz': name, 'comps': comps,
                       'method': method, 'azim': azim, 'scalars': sc}
        for name, comps, method, n in itertools.product(
                BAZ, COMPS, ('time', 'freq'), NPTS[1:]):
            yield {'k': 'lsq', 'baz': name, 'comps': comps, 'npts': n,
                   'method': method, 'azim': 30., 'scalars': None}
        for comps in COMPS:
            for n in NPTS:
                yield {'k': 'single', 'comps': comps, 'npts': n}
        for p in itertools.permutations(range(5)):
            yield {'k': 'order', 'comps': 'R', 'perm': p}
        for p in itertools.permutations(range(5)):
            yield {'k': 'order', 'comps': 'QT', 'perm': p}
        if deep:
            for p in itertools.permutations(range(7)):
                yield {'k': 'order', 'comps': 'RT', 'perm': p}
            for b in itertools.combinations(range(0, 360, 20), 5):
                yield {'k': 'lsq', 'baz': b, 'comps': 'RT',
                       'method': 'time', 'azim': 0, 'scalars': None}
        for m in range(4):
            for drop in itertools.combinations(
                    ('processing', 'event_id', 'inclination', 'slowness',
                     'moveout', 'phase'), m):
                yield {'k': 'head', 'drop': drop}
        yield {'k': 'invalid'}

    def data(self, comps, n, seed=0):
        return {co: [np.array(5 * rnd(self.npts, 7 * i + k + seed))
                     for i in range(n)] for k, co in enumerate(comps)}

    def call(self, c, st, **kw):
        from rf import RFStream
        kw = {k: v for k, v in kw.items() if v is not None}
        comps = kw.get('components', 'R')
        before = snap(st)
        c.op()
        c.trace()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            hd = st.harmonics(**kw)
        few = [co for co in comps
               if sum(tr.stats.channel[-1:] == co for tr in st) < 4]
        n = sum('Not enough' in str(w.message) for w in ws)
        c.check((n > 0) == bool(few), 'warnings: %s', [
            str(w.message) for w in ws])
        c.eq(snap(st), before, 'source stream')
        c.check(type(hd) is RFStream, 'class')
        n = 5 * len(comps)
        c.eq(len(hd), n, 'number of harmonics')
        t0 = st[0].stats
        for i, tr in enumerate(hd):
            s = tr.stats
            c.eq((s.channel, s.term, s.location, s.components, s.type),
                 (str(i % 5), TERMS[i % 5], 'mod' if i < 5 else 'unmod',
                  comps, 'harmonic'), 'headers of harmonic %d' % i)
            c.close(s.sampling_rate, t0.sampling_rate, 'sr', atol=1e-9)
            c.eq((s.network, s.station, s.npts),
                 (t0.network, t0.station, t0.npts), 'network station npts')
            c.check(abs((s.onset - s.starttime) -
                        (t0.onset - t0.starttime)) < 2e-6, 'onset')
            for k in ('station_latitude', 'station_longitude',
                      'station_elevation', 'phase', 'moveout'):
                c.eq(s.get(k), t0.get(k), k)
            for k in GONE:
                c.check(k not in s, 'header %s of harmonics', k)
        return np.array([tr.data for tr in hd])

    def lsq(self, c, A, d, x, msg):
        r = A.dot(x) - d
        g = A.T.dot(r)
        scale = np.abs(A).max() * np.abs(d).max() * A.shape[0]
        c.check(np.abs(g).max() < 1e-8 * scale,
                msg + ': residual is not minimal, gradient %.3g of %.3g',
                np.abs(g).max(), scale)

    def run(self, case, c):
        self.npts = case.get('npts', NPTS[0])
        getattr(self, 'run_' + case['k'])(case, c)

    def run_lsq(self, case, c):
        name, comps = case['baz'], case['comps']
        if isinstance(name, str):
            baz = BAZ[name] if name in BAZ else FEW[name]
        else:
            baz = name
        data = self.data(comps, len(baz))
        sc = case['scalars']
        kw = dict(components=comps, azim=case['azim'], method=case['method'])
        if sc is not None:
            kw['scalars'] = sc
        trs = []
        for i, b in enumerate(baz):
            for co in comps:
                trs.append(make(co, i, b, data[co][i]))
            trs.append(make('L', i, b, 99 * rnd(self.npts, 50 + i)))
        st = stream(trs)
        x = self.call(c, st, **kw)
        A = system(baz, case['azim'], sc, len(comps) == 2)
        d = np.array([y for co in comps for y in data[co]])
        self.lsq(c, A, d, x, 'least squares')
        c.state(case)
        # data composed of harmonics is reproduced
        want = np.array([rnd(self.npts, 80 + i) for i in range(5 * len(comps))])
        d = A.dot(want)
        for j, co in enumerate(comps):
            for i in range(len(baz)):
                tr = [t for t in st if t.stats.channel[-1] == co and
                      t.stats.event_id == 'ev%d' % i][0]
                tr.data = d[j * len(baz) + i]
        x = self.call(c, st, **kw)
        c.close(A.dot(x), d, 'data predicted by harmonics', rtol=1e-8)
        cond = np.linalg.cond(A) if A.shape[0] >= A.shape[1] else np.inf
        if cond < 1e5:
            c.close(x, want, 'harmonics', rtol=1e-9 * max(1, cond))
        c.outcome(cond < 1e5)

    def run_single(self, case, c):
        """One harmonic at one sample"""
        comps = case['comps']
        baz = BAZ['even8']
        for azim, method, j, k in itertools.product(
                (0, 30.), ('time', 'freq'), range(5 * len(comps)),
                range(self.npts)):
            A = system(baz, azim, None, len(comps) == 2)
            want = np.zeros((5 * len(comps), self.npts))
            want[j, k] = 2.
            d = A.dot(want)
            st = stream([make(co, i, b, d[n * len(baz) + i])
                         for i, b in enumerate(baz)
                         for n, co in enumerate(comps)])
            x = self.call(c, st, components=comps, azim=azim, method=method)
            c.close(x, want, 'harmonic %d at sample %d' % (j, k), atol=1e-8)
            c.state(comps, azim, method, j, k)

    def run_order(self, case, c):
        comps, perm = case['comps'], case['perm']
        n = {'R': 5, 'QT': 2, 'RT': 3}[comps]
        baz = BAZ['five'][:n]
        data = self.data(comps, n)
        trs = [make(co, i, b, data[co][i]) for i, b in enumerate(baz)
               for co in comps]
        if len(comps) == 2:
            trs.append(make('L', 0, baz[0], rnd(self.npts, 50)))
        st = stream([])
        st.traces = [trs[i] for i in perm]
        A = system(baz, 0, None, len(comps) == 2)
        d = np.array([y for co in comps for y in data[co]])
        for method in ('time', 'freq'):
            x = self.call(c, st, components=comps, method=method)
            self.lsq(c, A, d, x, 'least squares')
        c.state(case)

    def run_head(self, case, c):
        drop = case['drop']
        data = self.data('R', 5)
        st = stream([make('R', i, b, data['R'][i])
                     for i, b in enumerate(BAZ['five'])])
        for tr in st:
            for k in drop:
                tr.stats.pop(k)
        x = self.call(c, st)
        A = system(BAZ['five'], 0, None, False)
        self.lsq(c, A, np.array(data['R']), x, 'least squares')
        c.state(case)

    def run_invalid(self, case, c):
        data = self.data('RTQLZ', 5)
        full = stream([make(co, i, b, data[co][i])
                       for i, b in enumerate(BAZ['five'])
                       for co in 'RTQLZ'])
        for comps in ('', 'L', 'Z', 'TR', 'RQ', 'RTQ', 'r', 'LQT', 'TQ',
                      'RR', 'ZRT', None, 'LT'):
            c.raises(NotImplementedError,
                     lambda: full.harmonics(components=comps),
                     'components %r' % (comps,))
        for method in ('', 'Time', 'frequency', 'waterlevel', None, 'spectral',
                       1):
            for comps in COMPS:
                c.raises(NotImplementedError, lambda: full.harmonics(
                    components=comps, method=method), 'method %r' % method)
        for comps in COMPS:
            for have in itertools.chain(*(itertools.combinations('RTQL', m)
                                          for m in range(5))):
                st = stream([tr for tr in full
                             if tr.stats.channel[-1] in have])
                before = snap(st)
                c.op()
                c.trace()
                if set(comps) <= set(have):
                    self.call(c, st, components=comps)
                else:
                    c.raises(ValueError, lambda: st.harmonics(
                        components=comps), '%s of %s' % (comps, have))
                c.eq(snap(st), before, 'stream after error')
                c.state(comps, have)


CHECK = C()
