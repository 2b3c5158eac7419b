"""C12: rfstats against TauPy and geographiclib"""
import itertools
import warnings
from functools import lru_cache

import numpy as np
from obspy import UTCDateTime as UTC
from obspy.core import AttribDict
from obspy.core.event import Event, Origin, Magnitude, ResourceIdentifier

from mc.engine import Check, stats_dict
from mc.build import trace, stream, pairwise_deviation, T0

EVENTS = {  # latitude, longitude, depth in m, time
    'a': (10., -60., 20000., T0), 'surf': (-35.2, 110., 0., T0),
    'deep': (43., 131.5, 555500., UTC('1999-12-31T23:59:59.999999')),
    'date': (-18., 179.99, 33300., T0), 'date2': (-18., -179.99, 100., T0),
    'npole': (90., 0., 10000., T0), 'equ': (0., 0., 12345., T0)}
STATIONS = {  # latitude, longitude, elevation
    'a': (-21., -69.5, 1200.), 'equ': (0., -110., 0.),
    'date': (15., 179.995, -20.), 'date2': (15., -180., 5.),
    'spole': (-90., 0., 2800.), 'eu': (51.3, 12.4, 153.),
    'arc': (78.9, 11.9, 42.)}
DEFAULT = dict(ev='a', sta='a', phase='P', tt='iasp91', how='objs',
               pref='one', mag=6.3, obj='stats')
ALPHA = dict(ev=list(EVENTS), sta=list(STATIONS),
             phase=['P', 'S', 'PP', 'SKS', 'PKIKP', 'ScS'],
             tt=['iasp91', 'ak135'],
             how=['objs', 'headers', 'ev', 'sta', 'both', 'mix', 'none'],
             pref=['one', 'first', 'pref2', 'pref1', 'origin2', 'mag2'],
             mag=[6.3, 0., -0.5], obj=['stats', 'stream', 'attr'])


@lru_cache(maxsize=None)
def taup(model, depth, dist, phase):
    from obspy.taup import TauPyModel
    arr = TauPyModel(model).get_travel_times(depth, dist, (phase,))
    if len(arr) == 0:
        return None
    a = min(arr, key=lambda a: a.time)
    return a.time, a.ray_param_sec_degree, a.incident_angle, len(arr)


@lru_cache(maxsize=None)
def geo(slat, slon, elat, elon):
    from geographiclib.geodesic import Geodesic
    r = Geodesic.WGS84.Inverse(slat, slon, elat, elon)
    return r['s12'] / 1000 / 111.2, r['azi1'] % 360


def origin(ev, n):
    lat, lon, dep, t = EVENTS[ev]
    if n:   # other origin
        lat, lon, dep, t = lat / 2 + 1, lon / 2 + 3, dep + 7000., t + 100
    return Origin(latitude=lat, longitude=lon, depth=dep, time=t,
                  resource_id=ResourceIdentifier('smi:or/%d' % n))


def event(ev, pref, mag):
    """Return event with several origins and magnitudes"""
    if pref == 'one':
        o, m, ip = [0], [0], None
    else:
        # wanted ones first, or second and preferred
        o = [1, 0] if pref in ('pref2', 'origin2') else [0, 1]
        m = [1, 0] if pref in ('pref2', 'mag2') else [0, 1]
        ip = 0 if pref.startswith('pref') else None
    os_ = [origin(ev, i) for i in o]
    ms = [Magnitude(mag=mag if i == 0 else 3.3,
                    resource_id=ResourceIdentifier('smi:mag/%d' % i))
          for i in m]
    e = Event(origins=os_, magnitudes=ms,
              resource_id=ResourceIdentifier('smi:ev/%s' % ev))
    if ip is not None or pref == 'origin2':
        e.preferred_origin_id = os_[o.index(0)].resource_id
    if ip is not None or pref == 'mag2':
        e.preferred_magnitude_id = ms[m.index(0)].resource_id
    return e


class C(Check):
    id = 'C12'
    rule = 'dimensions %s' % ALPHA
    bounds = {'quick': 'all events x stations x phases, all cases deviating '
                       'from the default in up to 3 dimensions',
              'thorough': 'all events x stations x phases x models, up to 4 '
                          'dimensions'}
    assumptions = ('arrivals of obspy.taup and geodesics of geographiclib '
                   'are right',)

    def setup(self):
        for m, p in itertools.product(ALPHA['tt'], 'PS'):
            taup(m, 20., 40., p)

    def cases(self, tier):
        deep = tier == 'thorough'
        yield {'k': 'obj2stats'}
        for e, s, p in itertools.product(ALPHA['ev'], ALPHA['sta'],
                                         ALPHA['phase']):
            for tt in ALPHA['tt'] if deep else ['iasp91']:
                yield dict(DEFAULT, ev=e, sta=s, phase=p, tt=tt)
        alpha = dict(ALPHA)
        if not deep:
            alpha.update(ev=['a', 'deep', 'date'], sta=['a', 'date2', 'eu'],
                         phase=['P', 'S', 'SKS'])
        for d in pairwise_deviation(DEFAULT, alpha, 4 if deep else 3):
            yield d

    def run_obj2stats(self, case, c):
        from rf.rfstream import obj2stats
        for e, p, m in itertools.product(EVENTS, ALPHA['pref'], ALPHA['mag']):
            for s in list(STATIONS) + [None]:
                for ev in (event(e, p, m), None):
                    sta = None if s is None else dict(zip(
                        ('latitude', 'longitude', 'elevation'), STATIONS[s]))
                    want = {}
                    if ev is not None:
                        want.update(self.evhead(e, m))
                    if sta is not None:
                        want.update(self.stahead(s))
                        sta['other'] = 5
                    c.op()
                    c.trace()
                    got = obj2stats(event=ev, station=sta)
                    c.eq(dict(got), want, 'obj2stats')
                    c.check(type(got.get('event_id', '')) is str,
                            'event_id is no str')
                    c.state(e, p, m, s, ev is None)
        c.outcome(case)

    def evhead(self, ev, mag):
        lat, lon, dep, t = EVENTS[ev]
        return dict(event_latitude=lat, event_longitude=lon,
                    event_depth=dep / 1000, event_magnitude=mag,
                    event_time=t, event_id='smi:ev/%s' % ev)

    def stahead(self, sta):
        return dict(zip(('station_latitude', 'station_longitude',
                         'station_elevation'), STATIONS[sta]))

    def run(self, case, c):
        from rf import rfstats
        if 'k' in case:
            return self.run_obj2stats(case, c)
        e, s, mag = case['ev'], case['sta'], case['mag']
        elat, elon, edep, t = EVENTS[e]
        slat, slon, selev = STATIONS[s]
        dist, baz = geo(slat, slon, elat, elon)
        arr = taup(case['tt'], edep / 1000, dist, case['phase'])
        # wrong headers have to be replaced by those of the objects
        bad = dict(self.evhead('equ', 1.), **self.stahead('arc'))
        head, kw = {}, {}
        evh, sth = self.evhead(e, mag), self.stahead(s)
        how = case['how']
        if how in ('objs', 'ev', 'both', 'mix', 'none'):
            kw['event'] = event(e, case['pref'], mag)
        if how in ('objs', 'sta', 'both', 'mix', 'none'):
            sta = dict(latitude=slat, longitude=slon, elevation=selev)
            kw['station'] = AttribDict(sta) if how == 'mix' else sta
        if how in ('headers', 'sta'):
            head.update(evh)
        if how in ('headers', 'ev'):
            head.update(sth)
        if how == 'both':
            head.update(bad)
        kw.update(phase=case['phase'], tt_model=case['tt'], dist_range=None)
        if how != 'both':
            # phase and model of travel times have default values
            for k, v in (('phase', 'P'), ('tt_model', 'iasp91')):
                if kw[k] == v:
                    del kw[k]
        if how == 'none':
            objs = [None]
            stats = [{}]
        elif case['obj'] == 'attr':
            objs = [AttribDict(dict(head, extra=7))]
            stats = [dict(objs[0])]
        else:
            st = stream([trace('CX.A..BH' + co, extra=7, **head)
                         for co in ('ZNE' if case['obj'] == 'stream'
                                    else 'Z')])
            stats = [stats_dict(tr) for tr in st]
            objs = [st] if case['obj'] == 'stream' else [st[0].stats]
        c.op()
        c.trace()
        if arr is None:
            c.raises(Exception, lambda: rfstats(objs[0], **kw), 'no arrival')
            c.outcome('no arrival')
            return
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            res = rfstats(objs[0], **kw)
        c.eq(any('more than one arrival' in str(x.message) for x in w),
             arr[3] > 1, 'warning about several arrivals')
        if how != 'none':
            c.check(res is objs[0], 'returned object')
            if case['obj'] == 'stream':
                got = [stats_dict(tr) for tr in res]
            elif case['obj'] == 'stats':
                got = [stats_dict(st[0])]
            else:
                got = [dict(res)]
        else:
            got = [dict(res)]
        c.check(len(got) == len(stats), 'number of traces')
        for g, w in zip(got, stats):
            w = dict(w)
            w.update(evh)
            w.update(sth)
            w['phase'] = case['phase']
            ray = {k: g.pop(k, None) for k in (
                'distance', 'back_azimuth', 'onset', 'slowness',
                'inclination')}
            c.eq(g, w, 'headers')
            c.check(type(g['event_id']) is str, 'event_id is no str')
            c.check(None not in ray.values(), 'headers missing %s' % ray)
            c.close(ray['distance'], dist, 'distance', atol=1e-4)
            if 1e-3 < dist < 179 and abs(slat) < 90:
                d = (ray['back_azimuth'] - baz + 180) % 360 - 180
                c.check(abs(d) < 1e-3 and 0 <= ray['back_azimuth'] <= 360,
                        'back azimuth %s instead of %s' % (
                            ray['back_azimuth'], baz))
            c.check(abs(ray['onset'] - (t + arr[0])) < 2e-3,
                    'onset %s instead of %s' % (ray['onset'], t + arr[0]))
            c.close(ray['slowness'], arr[1], 'slowness', atol=1e-3)
            c.close(ray['inclination'], arr[2], 'inclination', atol=1e-2)
        c.state(case)
        c.outcome(round(dist, 3), arr)


CHECK = C()
