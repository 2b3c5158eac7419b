"""C13: rfstats keeps the records inside of the distance range"""
import itertools
import math
import warnings

import numpy as np
from obspy.core import AttribDict
from obspy.core.event import Event, Origin, Magnitude

from mc.engine import Check, plain, stats_dict
from mc.build import trace, stream, snap, T0

KM = 111.2
EQ = 6378137 * math.pi / 180 / 1000 / KM    # degree of longitude at equator

# stations at the equator, event at 0/0: distance in degree (of 111.2km)
CODES = {'in': 60., 'P<': 29.995, 'P>': 30.005, 'P)': 89.995, 'P]': 90.005,
         'S<': 49.995, 'S>': 50.005, 'S)': 84.995, 'S]': 85.005, 'near': 5.}
RANGES = {'P': (30, 90), 'S': (50, 85)}
RAY = ('distance', 'back_azimuth', 'inclination', 'onset', 'slowness', 'phase')


def ev(missing=None, depth=20000.):
    kw = dict(latitude=0., longitude=0., depth=depth, time=T0)
    if missing in kw:
        kw.pop(missing)
    e = Event(origins=[Origin(**kw)], magnitudes=[Magnitude(mag=5.)])
    if missing == 'origin':
        e.origins = []
    if missing == 'magnitude':
        e.magnitudes = []
    return e


def sta(code):
    d = CODES[code] if code in CODES else float(code)
    lon = d / EQ
    return dict(latitude=0., longitude=lon, elevation=0.)


def head(code):
    s = sta(code)
    return dict(station_latitude=0., station_longitude=s['longitude'],
                station_elevation=0.)


EVH = dict(event_latitude=0., event_longitude=0., event_depth=20.,
           event_magnitude=5., event_time=T0)


class C(Check):
    id = 'C13'
    rule = ('streams of traces with stations at distances %s, phases P, S '
            '(upper and lower case), PP, SKS; ranges default, given, None; '
            'events with any one property missing' % CODES)
    bounds = {'quick': 'all streams of up to 3 traces over 5-6 distances',
              'thorough': 'all streams of up to 4 traces, 8 ranges'}
    assumptions = ('distance in units of 111.2 km on the WGS84 ellipsoid',)

    def setup(self):
        from rf import rfstats
        for code in CODES:
            for ph in 'PS':
                rfstats(event=ev(), station=sta(code), phase=ph,
                        dist_range=None)

    def cases(self, tier):
        deep = tier == 'thorough'
        for code in CODES:
            for ph in ('P', 'S', 'p', 's'):
                yield {'k': 'single', 'code': code, 'phase': ph}
        for miss in ('origin', 'latitude', 'longitude', 'depth', 'time',
                     'magnitude', 'sta_latitude', 'sta_longitude',
                     'sta_elevation'):
            yield {'k': 'missing', 'miss': miss}
        for ph in ('PP', 'SKS', 'PS', 'SP', 'PKIKP', 'Pdiff', 'ScS', ''):
            yield {'k': 'other', 'phase': ph}
        yield {'k': 'noarrival'}
        for ph in 'PS':
            codes = ['in'] + [x for x in CODES if x[0] == ph] + (
                ['near'] if deep else [])
            for n in range(0, 5 if deep else 4):
                for cs in itertools.product(codes, repeat=n):
                    yield {'k': 'stream', 'phase': ph, 'codes': cs}
        for n in range(1, 4 if deep else 3):
            for cs in itertools.product(('in', 'near', 'P<', 'S)'), repeat=n):
                for ph in 'PS':
                    yield {'k': 'bounds', 'phase': ph, 'codes': cs}

    def run(self, case, c):
        getattr(self, 'run_' + case['k'])(case, c)

    def run_single(self, case, c):
        from rf import rfstats
        d, ph = CODES[case['code']], case['phase']
        for rng, how in itertools.product(
                ('default', None, (20, 70), [55, 62.], (d - 1e-4, d + 1e-4),
                 (d + 1e-4, 100), (0, d - 1e-4), (0, 0), (60, 50)),
                ('objs', 'headers', 'none', 'mixed')):
            kw = dict(phase=ph)
            if rng != 'default':
                kw['dist_range'] = rng
            r = RANGES[ph.upper()] if rng == 'default' else rng
            inside = r is None or r[0] <= d <= r[1]
            h = {}
            if how in ('objs', 'none', 'mixed'):
                kw['station'] = sta(case['code'])
            if how in ('objs', 'none'):
                kw['event'] = ev()
            if how in ('headers', 'mixed'):
                h.update(EVH)
            if how == 'headers':
                h.update(head(case['code']))
            tr = trace(sampling_rate=10., **h)
            obj = None if how == 'none' else tr.stats
            c.op()
            c.trace()
            try:
                res = rfstats(obj, **kw)
            except Exception as ex:
                # no arrival
                c.check(inside and 'TauPy' in str(ex), '%r %s' % (ex, kw))
                c.outcome('no arrival')
                continue
            msg = 'distance %s phase %s range %s %s' % (d, ph, rng, how)
            if inside:
                c.check(res is not None, 'discarded: ' + msg)
                c.check(obj is None or res is obj, 'object: ' + msg)
                c.check(all(k in res for k in RAY), 'header: ' + msg)
                c.check(abs(res['distance'] - d) < 1e-3, 'distance ' + msg)
                # exactly at the bounds
                e = res['distance']
                for r2, ok in (((e, 180), True), ((0, e), True),
                               ((e, e), True),
                               ((np.nextafter(e, 200), 180), False),
                               ((0, np.nextafter(e, 0)), False)):
                    kw['dist_range'] = r2
                    r = rfstats(None if obj is None else trace(**h).stats,
                                **kw)
                    c.check((r is not None) == ok, 'bound %s of %s %s' % (
                        r2, e, how))
            else:
                c.check(res is None, 'kept: ' + msg)
                if obj is not None:
                    c.check(not any(k in obj for k in RAY),
                            'ray headers of discarded record: ' + msg)
            c.state(case, str(rng), how)
            c.outcome(inside)

    def run_missing(self, case, c):
        from rf import rfstats
        miss = case['miss']
        for obj in ('none', 'stats', 'stream', 'headers'):
            s = sta('in')
            kw = dict(phase='P')
            err = ValueError
            h = {}
            if miss.startswith('sta_'):
                s.pop(miss[4:])
                err = KeyError
            if obj == 'headers':
                h = head('in')
                kw['event'] = ev(miss)
                if err is KeyError:
                    continue
            else:
                kw.update(event=ev(miss), station=s)
            st = stream([trace(sampling_rate=5., note=i, **h)
                         for i in range(2)])
            before = snap(st)
            o = {'none': None, 'stats': st[0].stats,
                 'headers': st[0].stats}.get(obj, st)
            c.op()
            c.trace()
            c.raises(err, lambda: rfstats(o, **kw), '%s missing' % miss)
            c.eq(snap(st), before, 'object changed although %s is missing' %
                 miss)
            c.state(case, obj)
        # headers only
        key = {'sta_latitude': 'station_latitude',
               'sta_longitude': 'station_longitude',
               'latitude': 'event_latitude', 'longitude': 'event_longitude',
               'depth': 'event_depth', 'time': 'event_time'}.get(miss)
        if key:
            h = dict(EVH, **head('in'))
            h.pop(key)
            st = stream([trace(**h)])
            c.raises((AttributeError, KeyError, ValueError),
                     lambda: rfstats(st), key)
        c.outcome(case)

    def run_other(self, case, c):
        from rf import rfstats
        st = stream([trace(**dict(EVH, **head('in')))])
        before = snap(st)
        c.op()
        c.raises(ValueError, lambda: rfstats(st, phase=case['phase']),
                 'default range of phase %r' % case['phase'])
        c.eq(snap(st), before, 'stream changed')
        c.raises(ValueError, lambda: rfstats(
            st[0].stats, phase=case['phase']), 'stats')
        if case['phase'] == 'PP':
            r = rfstats(st, phase='PP', dist_range=(50, 70))
            c.check(r is st and len(st) == 1, 'PP')
            r = rfstats(st, phase='PP', dist_range=(70, 80))
            c.check(r is st and len(st) == 0, 'PP')
        c.outcome(case)

    def run_noarrival(self, case, c):
        from rf import rfstats
        for d, ph in ((120., 'P'), (150., 'S'), (10., 'SKS'), (60, 'PKIKP'),
                      (60, 'Sp')):
            h = dict(EVH, **head(str(d)))
            st = stream([trace(**h)])
            before = snap(st)
            c.op()
            c.raises(Exception, lambda: rfstats(st, phase=ph,
                                                dist_range=None), ph)
            c.eq(snap(st), before, 'changed')
            c.eq(len(st), 1, 'length')
        # several arrivals
        tr = trace(**dict(EVH, **head('25')))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            s = rfstats(tr.stats, phase='P', dist_range=None)
            from obspy.taup import TauPyModel
            arr = TauPyModel('iasp91').get_travel_times(20., 25., ('P',))
        if len(arr) > 1:
            c.check(any('more than one' in str(x.message) for x in w),
                    'no warning')
            c.check(abs(s.onset - T0 - arr[0].time) < 0.01, 'first arrival')
        c.outcome(len(arr))

    def expect(self, codes, r):
        return [i for i, x in enumerate(codes)
                if r is None or r[0] <= CODES[x] <= r[1]]

    def run_stream(self, case, c):
        self.streams(case, c, ['default', None, (40, 88.5)], ('P', 'S'))

    def run_bounds(self, case, c):
        self.streams(case, c, ['default', (4, 6), (4.5, 61), (61, 100),
                               (0, 180)], 'P')

    def streams(self, case, c, ranges, dummy):
        from rf import rfstats
        codes, ph = case['codes'], case['phase']
        for rng, how, plainst in itertools.product(
                ranges, ('headers', 'event'), (False, True)):
            r = RANGES[ph] if rng == 'default' else rng
            if r is None and 'near' in codes:
                continue
            h = EVH if how == 'headers' else {}
            st = stream([trace('CX.A%d..BHZ' % (i % 2), note=i,
                               **dict(h, **head(x)))
                         for i, x in enumerate(codes)])
            if plainst:
                from obspy import Stream
                st = Stream(list(st))
            trs = list(st)
            data = [tr.data.copy() for tr in st]
            kw = dict(phase=ph)
            if how == 'event':
                kw['event'] = ev()
            if rng != 'default':
                kw['dist_range'] = rng
            c.op()
            c.trace()
            res = rfstats(st, **kw)
            want = self.expect(codes, r)
            msg = '%s %s %s' % (codes, ph, rng)
            c.check(res is st, 'returns another object: ' + msg)
            c.eq([tr.stats.note for tr in st], want, 'traces kept: ' + msg)
            for tr in st:
                i = tr.stats.note
                c.check(tr is trs[i], 'trace copied')
                c.check(abs(tr.stats.distance - CODES[codes[i]]) < 1e-3,
                        'distance of trace ' + msg)
                c.check(tr.stats.phase == ph and 'onset' in tr.stats, 'phase')
            for i, tr in enumerate(trs):
                c.check(np.array_equal(tr.data, data[i]), 'data changed')
                if i not in want:
                    c.check('slowness' not in tr.stats, 'ray header of '
                            'discarded trace')
            c.state(case, str(rng), how)
            c.outcome(want)


CHECK = C()
