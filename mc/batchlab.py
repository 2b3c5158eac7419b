"""Small dataset and driver for the batch command line"""
import contextlib
import io
import itertools
import json
import os
import shutil
import sys
import warnings

import numpy as np
from obspy import UTCDateTime as UTC, Stream, Trace
from obspy.core.event import Catalog, Event, Origin, Magnitude
from obspy.core.inventory import Inventory, Network, Station, Channel, Site

from mc.build import rnd

FORMATS = ('Q', 'SAC', 'H5')
SR = 2.
TE = UTC('2011-02-25T13:15:38.169539Z')
EVENTS = [(10., -60., 33000., TE, 6.1), (25., -50., 12500., TE + 86400.51,
                                         5.7),
          (30., 110., 10000., TE + 2 * 86400, 6.5)]     # out of range
# station, location, latitude, longitude, elevation
SITES = [('PB01', '', -21.04, -69.49, 900.),
         ('PB02', '00', -21.3, -69.9, 1015.),
         ('PB01', '10', -21.1, -69.55, 890.)]
STAGES = ('data', 'calc', 'moveout')
HEAD = ('back_azimuth', 'inclination', 'distance', 'slowness',
        'event_latitude', 'event_longitude', 'event_depth',
        'event_magnitude', 'station_latitude', 'station_longitude',
        'station_elevation', 'pp_latitude', 'pp_longitude', 'pp_depth')
STACKHEAD = ('station_latitude', 'station_longitude', 'station_elevation')
PROFHEAD = ('slowness', 'box_pos', 'box_length')
EXTRA = ('PB03', '', -22., -70., 10.)   # has no data
WINDOW = [-20, 40]
OPTIONS = {'request_window': WINDOW, 'pp_depth': 50}
RF = {'filter': {'type': 'bandpass', 'freqmin': 0.05, 'freqmax': 0.5},
      'trim': [-15, 30], 'winsrc': [-5, 15, 2], 'solve_toeplitz': 'scipy'}
BOXES = {'latlon0': [-21.0, -69.9], 'azimuth': 90, 'bins': [0, 40, 80, 120],
         'width': 500}


def catalog():
    return Catalog([Event(
        origins=[Origin(latitude=a, longitude=o, depth=d, time=t)],
        magnitudes=[Magnitude(mag=m)]) for a, o, d, t, m in EVENTS])


def inventory(extra=True, bands=('BH',), sites=range(len(SITES))):
    stas = {}
    for code, loc, lat, lon, el in [SITES[i] for i in sites] + (
            [EXTRA] if extra else []):
        chs = [Channel(b + co, loc, lat, lon, el, 0.,
                       start_date=UTC(2000, 1, 1), end_date=UTC(2030, 1, 1),
                       sample_rate=SR)
               for b in bands for co in 'ENZ']
        sta = stas.setdefault(code, Station(
            code, lat, lon, el, channels=[], site=Site('x'),
            start_date=UTC(2000, 1, 1), end_date=UTC(2030, 1, 1)))
        sta.channels.extend(chs)
    return Inventory([Network('CX', list(stas.values()))], 'mc')


def records():
    """Keys (event, station) of events in range with data"""
    return [(e, s) for e in range(2) for s in range(len(SITES))]


def waveforms(keys=None, phases='PS', bands=('BH',)):
    """Data around the onsets"""
    from rf import rfstats
    st = Stream()
    cat, inv = catalog(), inventory()
    keys = records() if keys is None else keys
    for (e, s), ph in itertools.product(keys, phases):
        code, loc, lat, lon, el = SITES[s]
        coords = dict(latitude=lat, longitude=lon, elevation=el)
        stats = rfstats(station=coords, event=cat[e], phase=ph,
                        dist_range=(30, 90))
        start = stats.onset + WINDOW[0] - 30
        n = int((WINDOW[1] - WINDOW[0] + 60) * SR)
        for (ib, b), (k, co) in itertools.product(enumerate(bands),
                                                  enumerate('ZNE')):
            x = rnd(n, 3 * e + 7 * s + k + 41 * ib)
            x[int(50 * SR)] += 20. / (k + 1)
            x[int(54.5 * SR)] += 4. * (k + 1)
            x[int(50 * SR):] += np.convolve(rnd(int(20 * SR), e + k), x[
                int(50 * SR):], 'full')[:n - int(50 * SR)] * 0.02
            st.append(Trace(x, dict(network='CX', station=code, location=loc,
                                    channel=b + co, sampling_rate=SR,
                                    starttime=start)))
    return st


def prepare(path, bands=('BH',)):
    """Write files of the dataset"""
    os.makedirs(path, exist_ok=True)
    catalog().write(os.path.join(path, 'events.xml'), 'QUAKEML')
    inventory(bands=bands).write(os.path.join(path, 'stations.xml'), 'STATIONXML')
    waveforms(bands=bands).write(os.path.join(path, 'data.mseed'), 'MSEED')


def conf(path, **kw):
    d = {'events': os.path.join(path, 'events.xml'),
         'inventory': os.path.join(path, 'stations.xml'),
         'data': os.path.join(path, 'data.mseed'),
         'options': OPTIONS, 'rf': RF, 'boxes': BOXES}
    d.update(kw)
    return {k: v for k, v in d.items() if v != 'absent'}


def cli(args, cwd=None):
    """Run command line, return (exit code or exception, stdout, stderr)"""
    from rf.batch import run_cli
    out, err = io.StringIO(), io.StringIO()
    old = os.getcwd()
    if cwd:
        os.chdir(cwd)
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                run_cli([str(a) for a in args])
            except SystemExit as ex:
                code = ex.code
            except Exception as ex:
                code = ex
    finally:
        os.chdir(old)
    return code, out.getvalue(), err.getvalue()


def tree(path):
    """Relative names of all files"""
    out = []
    for d, _, fs in os.walk(path):
        out += [os.path.relpath(os.path.join(d, f), path) for f in fs]
    return sorted(out)


def station(tr):
    s = tr.stats
    return '%s.%s.%s' % (s.network, s.station, s.location)


def files(streams, root, fmt, kind=None):
    """Expected files: dict relative name -> list of traces"""
    out = {}
    for st in streams:
        for tr in st:
            if fmt == 'H5':
                name = root + '.h5'
            elif kind == 'profile':
                if fmt == 'Q':
                    name = root + '.QHD'
                else:
                    name = '%s/profile_%s_%s.SAC' % (
                        root, tr.stats.channel[2], tr.stats.box_pos)
            else:
                ids = tr.id if fmt == 'SAC' else station(tr)
                time = '' if kind == 'stack' else \
                    tr.stats.event_time.strftime('_%Y-%m-%dT%H:%M:%S')
                folder = '' if kind == 'stack' else station(tr) + '/'
                name = '%s/%s%s%s.%s' % (root, folder, ids, time, {
                    'Q': 'QHD', 'SAC': 'SAC'}[fmt])
            out.setdefault(name, []).append(tr)
    for name in list(out):
        if name.endswith('.QHD'):
            out[name[:-3] + 'QBN'] = None
    return out


def sig(tr):
    return (tr.id, str(tr.stats.get('event_time', ''))[:19],
            round(tr.stats.get('box_pos', 0), 2))


def library(conf, path, inv):
    """Results of the library functions for configuration"""
    from obspy import read
    from rf import iter_event_data, RFStream
    from rf.profile import get_profile_boxes
    opts = dict(conf.get('options', {}))
    if 'phase' in conf:
        opts['phase'] = conf['phase']
    mo = dict(conf.get('moveout', {}))
    if 'moveout_phase' in conf:
        mo['phase'] = conf['moveout_phase']
    st = read(os.path.join(path, 'data.mseed'))

    def source(network, station, location, channel, starttime, endtime):
        return st.select(network, station, location, channel).slice(
            starttime, endtime).copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        raw = list(iter_event_data(catalog(), inv, source,
                                   **opts))
        res = {'data': [s.copy() for s in raw]}
        for s in raw:
            s.rf(**conf.get('rf', {}))
        res['calc'] = [s.copy() for s in raw]
        for s in raw:
            s.moveout(**mo)
        res['moveout'] = [s.copy() for s in raw]
        res['datamoveout'] = [s.copy().moveout(**mo) for s in res['data']]
    for k in STAGES:
        everything = sum((s for s in res[k]), RFStream())
        stacks = {}
        for s in res[k]:
            stacks.setdefault(station(s[0]), RFStream()).extend(s)
        try:
            res['stack ' + k] = [s.stack() for s in stacks.values()]
        except ValueError:
            res['stack ' + k] = None
        if 'pp_latitude' in everything[0].stats:
            boxes = get_profile_boxes(**BOXES)
            try:
                res['profile ' + k] = [everything.profile(boxes)]
            except ValueError:
                res['profile ' + k] = None
    return res


def judge(c, streams, root, fmt, kind, lossy, msg, stage=None):
    """Files at root hold exactly these streams"""
    from rf import read_rf
    want = files(streams, root, fmt, kind)
    here = [f for f in tree('.') if f.split('/')[0] == root or
            f in (root + '.h5', root + '.QHD', root + '.QBN')]
    c.eq(here, sorted(want), msg + ': files')
    heads = {None: HEAD, 'stack': STACKHEAD, 'profile': PROFHEAD}[kind]
    for name, trs in want.items():
        if trs is None:
            continue
        st = read_rf(name)
        c.eq(sorted(sig(tr) for tr in st), sorted(sig(tr) for tr in trs),
             msg + ': traces in ' + name)
        byid = {sig(tr): tr for tr in st}
        for w in trs:
            tr = byid[sig(w)]
            m = '%s: %%s of %s in %s' % (msg, tr.id, name)
            c.check(np.asarray(tr.data).shape == w.data.shape,
                    m % ('npts %d (expected %d)' % (
                        len(tr), len(w))))
            data = np.array(tr.data, float)
            k = (w.stats.onset - w.stats.starttime) / w.stats.delta
            if (lossy > 1e-8 and stage == 'moveout' and
                    abs(k - round(k)) < 5e-3):
                # whether the sample before the onset is moved depends on
                # the precision of the onset
                data[round(k) - 1] = w.data[round(k) - 1]
            c.close(data, w.data, m % 'samples', rtol=lossy)
            c.close(tr.stats.sampling_rate, w.stats.sampling_rate,
                    m % 'sampling rate', rtol=1e-6)
            tol = 2e-3 if lossy > 1e-8 else 2e-6
            c.check(abs((tr.stats.onset - tr.stats.starttime) - (
                w.stats.onset - w.stats.starttime)) < tol, m % 'onset')
            if kind is None:
                c.check(abs(tr.stats.onset - w.stats.onset) < tol,
                        m % 'onset')
                c.check(abs(tr.stats.event_time - w.stats.event_time) <
                        tol, m % 'event_time')
            for h in heads:
                if h in w.stats:
                    c.check(h in tr.stats, m % ('missing ' + h))
                    c.close(tr.stats[h], w.stats[h], m % h,
                            atol=(2e-5 if lossy > 1e-8 else 1e-9) *
                            max(1, abs(w.stats[h])))
                else:
                    c.check(h not in tr.stats, m % ('extra ' + h))
            for h in ('phase', 'moveout', 'type'):
                c.eq(tr.stats.get(h), w.stats.get(h), m % h)
            if kind == 'profile' and fmt == 'H5':
                c.eq(int(tr.stats.num), int(w.stats.num), m % 'num')
    c.outcome(kind, fmt, len(want))
