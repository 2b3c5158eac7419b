"""C16: profile boxes and binning of traces"""
import itertools

import numpy as np

from mc.engine import Check
from mc.build import trace, stream, snap, rnd, T0

LATS = (0., 20., -45., 70., -89.)
LONS = (0., 179.95, -120.)
AZIS = (0., 45., 90., 200., 315., -90.)
BINS = {'u': (0, 10, 20, 30), 'n': (-40, -10, 5, 6.5, 100),
        'o': (25, 75), 'l': tuple(range(0, 1201, 200)),
        'f': (100.5, 101.25, 102.), 's': (-0.6, -0.2, 0.2, 0.5, 0.9, 1.3),
        'np': None}
WIDTHS = (4., 60., 2000.)


def bins_of(key):
    if key == 'np':
        return np.linspace(0, 50, 6)
    return BINS[key]


def direct(lat, lon, azi, km):
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84.Direct(lat, lon, azi, km * 1000)
    return g['lat2'], g['lon2'], g['azi2']


def inverse(p1, p2):
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84.Inverse(p1[0], p1[1], p2[0], p2[1])
    return g['s12'] / 1000, g['azi1']


def point(latlon0, azi, along, across):
    lat, lon, az = direct(latlon0[0], latlon0[1], azi, along)
    return direct(lat, lon, az + 90, across)[:2]


def margin(along, bins, width):
    """Edges of boxes are straight lines in the projection, not geodesics"""
    mid = 0.5 * (bins[0] + bins[-1])
    far = max(abs(along - mid), max(np.diff(bins)))
    return 0.02 + 1e-3 * width + 0.015 * far * (width / 2000) ** 2


def where(along, across, bins, width):
    """Index of bin, None outside, -1 too close to an edge"""
    m = margin(along, bins, width)
    if abs(abs(across) - width / 2) < max(m, 0.03 * width):
        return -1
    if min(abs(along - b) for b in bins) < m:
        return -1
    if abs(across) > width / 2 or not bins[0] < along < bins[-1]:
        return None
    return int(np.searchsorted(bins, along)) - 1


def tr_at(latlon, num, comp='Q', onset=5., **kw):
    start = T0 + 1000.123 * num
    head = dict(pp_latitude=latlon[0], pp_longitude=latlon[1], pp_depth=50.,
                slowness=6.4, phase='P', moveout='Ps', event_time=start - 500,
                event_magnitude=5 + num * 0.1, onset=start + onset,
                back_azimuth=10., distance=50., station_latitude=1.,
                station_longitude=2., station_elevation=3., type='rf',
                inclination=12., processing=['read'])
    head.update(kw)
    return trace('NN.S%02d..BH%s' % (num % 100, comp),
                 10 * rnd(9, num) + num, sr=2., start=start,
                 **{k: v for k, v in head.items() if v is not None})


def wrap(lon):
    return (lon + 180) % 360 - 180


class TQDM(object):
    """Stand-in for tqdm objects, they have the attribute iterable"""

    def __init__(self, iterable):
        self.iterable = iterable

    def __iter__(self):
        return iter(self.iterable)


GONE = ('event_time', 'event_magnitude', 'back_azimuth', 'distance',
        'inclination', 'pp_latitude', 'pp_longitude', 'pp_depth',
        'station_latitude', 'station_longitude', 'station_elevation')


class C(Check):
    id = 'C16'
    rule = ('profiles starting at latitudes %s, longitudes %s with azimuths '
            '%s; bins %s; widths %s; piercing points on a grid in and around '
            'every box; sequences of traces over boxes and components; stream '
            'classes; header subsets; projections' % (
                LATS, LONS, AZIS, BINS, WIDTHS))
    bounds = {'quick': 'geometries: all combinations of latitude, azimuth '
                       'and width with two pairs of longitude and bins each; '
                       'sequences of up to 3 traces over 12 kinds',
              'thorough': 'all geometries, sequences of up to 4 traces'}
    assumptions = ('piercing points are not closer to an edge of a box than '
                   '0.02 km + 0.1% of the width + 1.5% of the distance to '
                   'the centre of the profile times (width/2000km)^2 (edges '
                   'are straight lines in the projection)',
                   'geodesics of geographiclib')

    def setup(self):
        # import everything before forking
        import cartopy.crs  # noqa
        import shapely.geometry  # noqa
        import rf.profile  # noqa

    def cases(self, tier):
        deep = tier == 'thorough'
        lats = LATS + ((89.5, -90., 33.3) if deep else ())
        azis = AZIS + ((10., 135., 180., 270., 720.) if deep else ())
        n = 0
        combos = list(itertools.product(LONS + ((-180., 180., 359.) if deep
                                                else ()), BINS))
        for i, (lat, az, w) in enumerate(itertools.product(lats, azis,
                                                           WIDTHS)):
            sel = combos if deep else [combos[(i * 5) % len(combos)],
                                       combos[(i * 5 + 7) % len(combos)]]
            for lon, b in sel:
                if b == 'l' and w < 50 and not deep:
                    b = 'u'
                yield {'k': 'geo', 'lat': lat, 'lon': lon, 'azi': az,
                       'bins': b, 'width': w}
        # default width
        for b in BINS:
            yield {'k': 'geo', 'lat': -21., 'lon': -69.6, 'azi': 90.,
                   'bins': b, 'width': None}
        for m in range(0, 5 if deep else 4):
            for seq in itertools.product(range(12), repeat=m):
                yield {'k': 'seq', 'seq': seq}
        for how in ('stream', 'list', 'tuple', 'iter', 'gen', 'tqdm',
                    'tqdmlist', 'reversed'):
            for nt in (0, 1, 3, 6):
                yield {'k': 'kind', 'how': how, 'n': nt}
        for m in range(6):
            for drop in itertools.combinations(
                    ('slowness', 'phase', 'moveout', 'onset', 'processing'),
                    m):
                yield {'k': 'head', 'drop': drop}
        for crs in ('AzimuthalEquidistant', 'Orthographic',
                    'LambertAzimuthalEqualArea', 'Mercator', 'PlateCarree',
                    'Stereographic'):
            yield {'k': 'crs', 'crs': crs}

    def run(self, case, c):
        getattr(self, 'run_' + case['k'])(case, c)

    def boxes(self, c, latlon0, azi, bins, width):
        """Create boxes and check their geometry"""
        from rf.profile import get_profile_boxes
        kw = {} if width is None else {'width': width}
        c.op()
        boxes = get_profile_boxes(latlon0, azi, bins, **kw)
        width = 2000 if width is None else width
        c.eq(len(boxes), len(bins) - 1, 'number of boxes')
        p = boxes[0]['profile']
        c.close([*p['latlon'], p['azimuth'], p['length'], p['width']],
                [*latlon0, azi, bins[-1] - bins[0], width], 'profile',
                atol=1e-9)
        for i, box in enumerate(boxes):
            c.close(box['length'], bins[i + 1] - bins[i], 'length',
                    atol=1e-9)
            mid = 0.5 * (bins[i + 1] + bins[i])
            c.close(box['pos'], mid, 'pos', atol=1e-9)
            d, a = inverse(latlon0, box['latlon'])
            c.close(d, abs(mid), 'distance of box %d' % i, atol=1e-3)
            if d > 0.1 and abs(latlon0[0]) < 89.9999:
                want = azi if mid > 0 else azi + 180
                off = (a - want + 180) % 360 - 180
                c.check(abs(off) * min(d, 6000) < 0.1,
                        'azimuth of box %d: %s != %s', i, a, want)
            cs = list(box['poly'].exterior.coords)[:-1]
            c.eq(len(cs), 4, 'corners')
            corners = {}
            for along, side in itertools.product(bins[i:i + 2], (-1, 1)):
                p = point(latlon0, azi, along, side * width / 2)
                corners[along, side] = p
                ds = [inverse(p, (q[1], q[0]))[0] for q in cs]
                c.check(min(ds) < 1e-3 + 1e-6 * width,
                        'corner at %s, %s of box %d is %.3f km off',
                        along, side, i, min(ds))
        return boxes

    def compare(self, c, src, boxes, bins, res, geo, names=None):
        """src: list of (bin index, trace)"""
        latlon0, azi = geo
        want = {}
        for i, tr in src:
            if i is not None:
                want.setdefault((tr.stats.channel[-1], i), []).append(tr)
        keys = sorted(want)
        got = [(tr.stats.channel, tr.stats.box_pos) for tr in res]
        c.eq(got, [('??' + k[0], boxes[k[1]]['pos']) for k in keys],
             'traces of profile (channel, box_pos)')
        for tr, k in zip(res, keys):
            trs = want[k]
            s = tr.stats
            msg = '%s of box %s %s' % ('%s', k[1], k[0])
            c.eq(s.num, len(trs), msg % 'num')
            c.close(tr.data, np.mean([np.asarray(t.data, dtype=float)
                                      for t in trs], axis=0),
                    msg % 'samples',
                    rtol=1e-6 if any(t.data.dtype == np.float32 for t in trs)
                    else 1e-9)
            box = boxes[k[1]]
            c.eq(s.type, 'profile', msg % 'type')
            c.close(s.box_length, bins[k[1] + 1] - bins[k[1]],
                    msg % 'length', atol=1e-9)
            c.close([s.box_latitude, s.box_longitude], box['latlon'],
                    msg % 'latlon', atol=1e-9)
            c.close([s.profile_latitude, s.profile_longitude,
                     s.profile_azimuth, s.profile_length],
                    [latlon0[0], latlon0[1], azi, bins[-1] - bins[0]],
                    msg % 'profile headers', atol=1e-9)
            c.close(s.sampling_rate, trs[0].stats.sampling_rate,
                    msg % 'sampling rate', atol=1e-9)
            for h in ('slowness', 'phase', 'moveout'):
                c.eq(s.get(h), trs[0].stats.get(h), msg % h)
            if 'onset' in trs[0].stats:
                c.check(abs((s.onset - s.starttime) -
                            (trs[0].stats.onset - trs[0].stats.starttime)) <
                        2e-6, msg % 'onset')
            else:
                c.check('onset' not in s, msg % 'onset')
            p0 = trs[0].stats.get('processing', [])
            c.eq(list(s.processing[:-1]), list(p0), msg % 'processing')
            for h in GONE:
                c.check(h not in s, msg % ('header ' + h))
            c.outcome(k, len(trs))
        c.check(all(type(tr).__name__ == 'RFTrace' for tr in res),
                'class of traces')

    def run_geo(self, case, c):
        from rf.profile import profile
        latlon0 = (case['lat'], case['lon'])
        azi, width = case['azi'], case['width']
        bins = bins_of(case['bins'])
        boxes = self.boxes(c, latlon0, azi, bins, width)
        width = width or 2000.
        alongs = []
        for a, b in zip(bins[:-1], bins[1:]):
            alongs += [a + f * (b - a) for f in (0.08, 0.5, 0.93)]
        tot = bins[-1] - bins[0]
        alongs += [bins[0] - 0.1 * tot, bins[-1] + 0.1 * tot,
                   bins[0] - 2 * tot, bins[-1] + 2 * tot, -bins[-1] - 5]
        if len(alongs) > 14:    # long profiles
            alongs = alongs[::2] + alongs[-5:]
        src = []
        for along, f in itertools.product(alongs, (-0.6, -0.45, 0, 0.3,
                                                   0.58)):
            i = where(along, f * width, bins, width)
            if i == -1:
                continue
            lat, lon = point(latlon0, azi, along, f * width)
            n = len(src)
            if n % 3 == 1:
                lon = wrap(lon + 1e-12)
            elif n % 3 == 2:
                lon = lon + 360 if lon < 0 else lon
            c.state(case, round(along, 3), f)
            src.append((i, tr_at((lat, lon), n, 'QT'[n % 2])))
        # points on the other side of the Earth
        for lat, lon in ((-latlon0[0], latlon0[1] + 180), (0., latlon0[1] +
                                                           90)):
            src.append((None, tr_at((lat, lon), len(src))))
        st = stream([tr for _, tr in src])
        before = snap(st)
        c.op(len(src))
        c.trace()
        res = profile(st, boxes)
        c.eq(snap(st), before, 'source stream')
        self.compare(c, src, boxes, bins, res, (latlon0, azi))

    # 2 boxes x 3 components, 2 x outside, other headers and types of samples
    def kind(self, i, num, geo, bins):
        alongs = (5, 22, 28, -3, 33, 12)
        if i < 6:
            along, across, comp = alongs[i % 2], 0.7, 'LQT'[i // 2]
        elif i == 6:
            along, across, comp = -3, 0, 'Q'
        elif i == 7:
            along, across, comp = 5, 30, 'Q'
        elif i == 8:    # same box as 3
            along, across, comp = 28, -1.5, 'Q'
        elif i == 9:
            along, across, comp = 12, 2, 'T'
        elif i == 10:   # counts
            along, across, comp = 5.5, 1, 'Q'
        else:
            along, across, comp = 6, -1, 'Q'
        tr = tr_at(point(*geo, along, across), num, comp)
        if i == 10:
            tr.data = np.round(tr.data).astype('int32')
        elif i == 11:
            tr.data = tr.data.astype('float32')
            tr.stats.slowness = 0.
        return where(along, across, bins, 10.), tr

    def run_seq(self, case, c):
        from rf import RFStream
        from rf.profile import get_profile_boxes
        geo = (-21., -69.6), 80.
        bins = (0, 10, 20, 30)
        boxes = get_profile_boxes(*geo, bins, width=10.)
        src = [self.kind(i, n, geo, bins) for n, i in enumerate(case['seq'])]
        st = stream([tr for _, tr in src])
        before = snap(st)
        c.op()
        c.trace()
        res = st.profile(boxes)
        c.check(isinstance(res, RFStream), 'class of profile')
        c.eq(snap(st), before, 'source stream')
        self.compare(c, src, boxes, bins, res, geo)
        c.state(case['seq'])
        if len(src) > 1:
            o = src[::-1]
            st.traces = [tr for _, tr in o]
            c.op()
            self.compare(c, o, boxes, bins, st.profile(boxes), geo)

    def run_kind(self, case, c):
        from rf import RFStream
        from rf.profile import get_profile_boxes, profile
        geo = (10., 179.99), 100.
        bins = (0, 10, 20, 30)
        boxes = get_profile_boxes(*geo, bins, width=10.)
        src = [self.kind(i, n, geo, bins)
               for n, i in enumerate((1, 0, 8, 3, 6, 9)[:case['n']])]
        st = stream([tr for _, tr in src])
        how = case['how']
        if how == 'reversed':
            src = src[::-1]
        arg = {'stream': lambda: st, 'list': lambda: list(st),
               'tuple': lambda: tuple(st), 'iter': lambda: iter(st),
               'gen': lambda: (tr for tr in st), 'tqdm': lambda: TQDM(st),
               'tqdmlist': lambda: TQDM(list(st)),
               'reversed': lambda: reversed(st.traces)}[how]()
        c.op()
        c.trace()
        res = profile(arg, boxes)
        c.check(type(res) is RFStream, 'profile of %s is %s', how, type(res))
        self.compare(c, src, boxes, bins, res, geo)
        c.state(how, case['n'])

    def run_head(self, case, c):
        from rf.profile import get_profile_boxes
        geo = (50., 10.), 0.
        bins = (0, 10, 20, 30)
        boxes = get_profile_boxes(*geo, bins, width=10.)
        src = [self.kind(i, n, geo, bins) for n, i in enumerate((3, 8, 2))]
        for _, tr in src:
            for h in case['drop']:
                tr.stats.pop(h)
        st = stream([tr for _, tr in src])
        c.op()
        c.trace()
        self.compare(c, src, boxes, bins, st.profile(boxes), geo)
        c.state(case['drop'])

    def run_crs(self, case, c):
        import cartopy.crs as ccrs
        from rf.profile import get_profile_boxes
        cls = getattr(ccrs, case['crs'])
        for geo in (((5., 20.), 30.), ((-3., -70.), 270.)):
            kws = {'Mercator': [{}, {'central_longitude': geo[0][1]}],
                   'PlateCarree': [{}, {'central_longitude': geo[0][1]}]}.get(
                case['crs'], [dict(central_longitude=geo[0][1] + d,
                                   central_latitude=geo[0][0] + d)
                              for d in (0, 1.5)])
            for kw in kws:
                bins = (0, 10, 20, 30)
                boxes = get_profile_boxes(*geo, bins, width=10.)
                src = [self.kind(i, i, geo, bins) for i in range(10)]
                st = stream([tr for _, tr in src])
                c.op()
                c.trace()
                res = st.profile(boxes, crs=cls(**kw))
                self.compare(c, src, boxes, bins, res, geo)
                c.state(case, geo, sorted(kw))


CHECK = C()
