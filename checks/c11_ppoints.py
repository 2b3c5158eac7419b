"""C11: piercing points against an independent 1D ray model"""
import itertools

import numpy as np

from mc import ray
from mc.engine import Check, stats_dict
from mc.build import trace, stream, pairwise_deviation, snap, T0
from checks.c09_moveout import MODELS, rows, make_model, model_file

DEPTHS = [50., 0., 1., 10., 15., 30., 35., 60., 77.7, 90., 110., 150., 190.]
PHASES = ['S', 'P', 'PPS', 'SSS', 'PSS', 'PPP', None]
DEFAULT = dict(depth=50., slow=6.4, phase=None, model='iasp91', method='P',
               lat=-21., lon=-69.5, baz=70., how='ppoints', case='asis')
ALPHA = dict(depth=DEPTHS, slow=[6.4, 4.5, 8.8, 0.3, 10.],
             phase=PHASES, model=list(MODELS), method=['P', 'S', 'PP', 'pP', 'SS', 'sP', 'SKS'],
             lat=[-21., 0., 51.3, 89.6, -89.3], lon=[-69.5, 0., 179.95, -180.],
             baz=[70., 0., 180., 290.5, 359.9],
             how=['ppoints', 'ppoint', 'distance', 'rfstats'],
             case=['asis', 'lower'])


def check_pp(c, lat, lon, baz, plat, plon, dist, alt, msg):
    """Check position, alt is distance of the known finding"""
    from geographiclib.geodesic import Geodesic
    r = Geodesic.WGS84.Inverse(lat, lon, plat, plon)
    got = r['s12'] / 1000
    c.check(np.isfinite(got), 'piercing point not finite: ' + msg)
    check_dist(c, got, dist, alt, msg, 1e-5)
    if got > 0.1:
        d = (r['azi1'] - baz + 180) % 360 - 180
        c.check(abs(d) < 1e-3, 'piercing point not in direction of back '
                'azimuth (%.4f instead of %.4f): %s' % (r['azi1'], baz, msg))
    c.check(-180 - 1e-9 <= plon <= 180 + 1e-9, 'longitude %s' % plon)


def check_dist(c, got, dist, alt, msg, tol=1e-8):
    if abs(got - dist) <= tol * max(1, dist):
        c.nchecks += 1
        return
    if alt is not None and abs(got - alt) <= tol * max(1, alt):
        c.nchecks += 1
        c.finding('ppoint_shift', '%s: distance %.4f km, expected %.4f km '
                  '(profile of distances is looked up one model layer too '
                  'deep)' % (msg, got, dist))
        return
    c.fail('%s: distance %.5f km, expected %.5f km' % (msg, got, dist))


def event(lat, lon, method):
    if method == 'SKS':
        elat, elon = lat + (85 if lat < 0 else -85), lon
    elif method == 'S':
        elat, elon = lat + (55 if lat < 0 else -55), lon + 10
    else:
        elat, elon = lat + (40 if lat < 0 else -40), lon + 20
    if lat == 51.3 and method != 'SKS':
        elon = lon - 20
    return elat, (elon + 180) % 360 - 180, lon


class C(Check):
    id = 'C11'
    rule = 'dimensions %s' % ALPHA
    bounds = {'quick': 'all cases deviating from the default in up to 3 '
                       'dimensions, full product of depth, slowness, phase '
                       'and model for the distance',
              'thorough': 'up to 4 dimensions'}
    assumptions = ('depth above the turning point of the ray and inside the '
                   'model',)

    def setup(self):
        from rf import rfstats
        make_model('iasp91')
        for lat in ALPHA['lat']:
            for method in ALPHA['method']:
                elat, elon, lon = event(lat, 0., method)
                rfstats(trace(
                    event_latitude=elat, event_longitude=elon,
                    event_depth=30., event_magnitude=6., event_time=T0,
                    station_latitude=lat, station_longitude=lon,
                    station_elevation=0.).stats, phase=method,
                    dist_range=None)

    def cases(self, tier):
        yield {'k': 'even'}
        for m in MODELS:
            for d, s, p in itertools.product(DEPTHS, ALPHA['slow'],
                                             PHASES[:-1]):
                yield dict(DEFAULT, depth=d, slow=s, phase=p, model=m,
                           how='distance')
        for d in pairwise_deviation(DEFAULT, ALPHA,
                                    4 if tier == 'thorough' else 3):
            yield d

    def run(self, case, c):
        if 'k' in case:
            return self.run_even(case, c)
        how, method, depth = case['how'], case['method'], case['depth']
        slow, phase = case['slow'], case['phase']
        lay = ray.layers(rows(case['model']))
        if depth >= lay[-1][0]:
            return
        p = slow / ray.DEG
        # first layer below depth is used for interpolation
        zmax = min(la[1] for la in lay if la[0] > depth)
        if any(min(la[2] ** -2, la[3] ** -2) <= p ** 2 for la in lay
               if la[0] < zmax):
            return
        arg = phase
        if phase is None:
            phase = {'P': 'S', 'S': 'P'}[method[-1]]
        elif case['case'] == 'lower':
            arg = phase.lower()
        dist = ray.distance(lay, slow, depth, phase)
        alt = ray.distance_shifted(lay, slow, depth, phase)
        msg = 'slowness %s depth %s phase %s model %s' % (
            slow, depth, phase, case['model'])
        fname = 'iasp91'
        if case['model'] != 'iasp91':
            fname = model_file(case['model'], c.tmp)
        lat, lon, baz = case['lat'], case['lon'], case['baz']
        c.op()
        c.trace()
        c.state(case)
        if how == 'distance':
            if arg is None:
                return
            m = make_model(case['model'])
            got = m.ppoint_distance(depth, slow, phase=arg)
            check_dist(c, got, dist, alt, msg)
            return c.outcome(round(got, 6))
        if how == 'ppoint':
            if arg is None:
                return
            m = make_model(case['model'])
            s = dict(slowness=slow, back_azimuth=baz, station_latitude=lat,
                     station_longitude=lon, other=5)
            old = dict(s)
            plat, plon = m.ppoint(s, depth, phase=arg)
            old.update(pp_latitude=plat, pp_longitude=plon, pp_depth=depth)
            c.eq(s, old, 'headers')
            check_pp(c, lat, lon, baz, plat, plon, dist, alt, msg)
            return c.outcome(round(plat, 6), round(plon, 6))
        if how == 'rfstats':
            from obspy.geodetics import gps2dist_azimuth
            from rf import rfstats
            # few distances, because travel times are expensive
            elat, elon, lon = event(lat, lon, method)
            tr = trace(event_latitude=elat, event_longitude=elon,
                       event_depth=30., event_magnitude=6., event_time=T0,
                       station_latitude=lat, station_longitude=lon,
                       station_elevation=0.)
            kw = {k: v for k, v, default in (
                ('phase', method, 'P'), ('pp_phase', arg, None),
                ('model', fname, 'iasp91')) if v != default}
            s = rfstats(tr.stats, dist_range=None, pp_depth=depth, **kw)
            c.check(s is tr.stats, 'rfstats return value')
            slow = s.slowness
            p = slow / ray.DEG
            if any(min(la[2] ** -2, la[3] ** -2) <= p ** 2 for la in lay
                   if la[0] < zmax):
                return
            dist = ray.distance(lay, slow, depth, phase)
            alt = ray.distance_shifted(lay, slow, depth, phase)
            _, baz, _ = gps2dist_azimuth(lat, lon, elat, elon)
            check_pp(c, lat, lon, baz, s.pp_latitude, s.pp_longitude, dist,
                     alt, msg)
            c.check(s.pp_depth == depth, 'pp_depth')
            return c.outcome(round(s.pp_latitude, 6))
        par = [(lat, lon, baz, slow), (lat / 2 + 3, lon / 2, baz / 2, slow),
               (lat, lon, baz, slow * 0.9)]
        st = stream([trace('CX.A.0%d.BHQ' % i, phase=method, type='rf',
                           onset=T0, station_latitude=a, station_longitude=o,
                           back_azimuth=b, slowness=s, distance=50.)
                     for i, (a, o, b, s) in enumerate(par)])
        old = st.copy()
        kw = {} if fname == 'iasp91' else {'model': fname}
        got = st.ppoints(depth, arg, **kw) if arg else st.ppoints(depth, **kw)
        c.check(np.shape(got) == (3, 2), 'shape of result')
        for i, (a, o, b, s) in enumerate(par):
            check_pp(c, a, o, b, got[i, 0], got[i, 1],
                     ray.distance(lay, s, depth, phase),
                     ray.distance_shifted(lay, s, depth, phase),
                     'trace %d ' % i + msg)
            h = stats_dict(old[i])
            h.update(pp_latitude=st[i].stats.pp_latitude,
                     pp_longitude=st[i].stats.pp_longitude, pp_depth=depth)
            c.eq(stats_dict(st[i]), h, 'headers')
            c.close([st[i].stats.pp_latitude, st[i].stats.pp_longitude],
                    got[i], 'headers and result', atol=1e-12)
            c.close(st[i].data, old[i].data, 'data changed', atol=0)
        c.outcome(np.round(got, 6))

    def run_even(self, case, c):
        m = make_model('iasp91')
        for ph in ('PS', 'Ps', 'SP', 'PPSS'):
            c.raises(ValueError, lambda: m.ppoint_distance(50, 6.4, ph), ph)
            st = stream([trace(onset=T0 + 1, slowness=6., phase='P',
                               back_azimuth=5., station_latitude=1.,
                               station_longitude=2.)])
            b = snap(st)
            c.raises(ValueError, lambda: st.ppoints(50, ph), ph)
            c.eq(snap(st), b, 'stream changed')
        for name in MODELS:
            m = make_model(name)
            for s, ph in itertools.product(ALPHA['slow'], PHASES[:-1]):
                d = [m.ppoint_distance(z, s, ph)
                     for z in np.arange(0, 88, 2.5)]
                c.op()
                d = [x for x in d if np.isfinite(x)]
                c.check(np.all(np.diff(d) > -1e-9), 'distance decreases '
                        'with depth %s %s %s' % (name, s, ph))
        c.outcome(case)


CHECK = C()
