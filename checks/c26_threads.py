"""C26: streams processed in several threads do not influence each other"""
import glob
import itertools
import os
import tempfile

import numpy as np

from mc.engine import Check
from mc.build import trace, stream, rnd, T0
from mc.interleave import Scheduler, lines, points
from checks.c09_moveout import model_file
from checks.c10_model_history import fresh

REPO = os.path.join(os.path.realpath(os.environ.get('RF_REPO', '/repo')), 'rf')
FILES = {}
HEAD = dict(event_latitude=10., event_longitude=-60., event_depth=20.,
            event_magnitude=6., event_time=T0, station_latitude=-21.,
            station_longitude=-69., station_elevation=0.)


def rfs(n=1, phase='P', cha='Q', seed=2, **kw):
    st = stream([trace('CX.S%d..BH%s' % (k, cha), rnd(300, seed + k), sr=5.,
                       onset=T0 + 20, phase=phase,
                       event_time=T0 - 400,
                       slowness=(5.5 if phase == 'P' else 9.5) + 0.4 * k,
                       back_azimuth=40. + 70 * k, inclination=20. + k,
                       station_latitude=-20. - 0.1 * k, type='rf',
                       station_longitude=-69.5, distance=40. + k, **kw)
                 for k in range(n)])
    return st


def raw(phase='P', comps='LQT', n=120, seed=1):
    on = T0 + 20 if phase == 'P' else T0 + 14
    return stream([trace('CX.S..BH' + c, rnd(n, seed + i), sr=2., onset=on,
                         phase=phase, back_azimuth=40., inclination=20.,
                         slowness=6., event_time=T0 - 400,
                         **{k: v for k, v in HEAD.items()
                            if k != 'event_time'})
                   for i, c in enumerate(comps)])


def events(mag):
    from obspy.core.event import Catalog, Event, Magnitude, Origin
    return Catalog([Event(
        origins=[Origin(latitude=10., longitude=-20. - mag, depth=20e3,
                        time=T0)], magnitudes=[Magnitude(mag=mag)])])


class Waveforms(object):
    def __call__(self, network, station, location, channel, starttime,
                 endtime, event=None):
        from obspy import Stream, Trace
        sts = Stream()
        for i, c in enumerate('ENZ'):
            h = dict(network=network, station=station, location=location,
                     channel='BH' + c, sampling_rate=1.,
                     starttime=starttime - 1)
            sts.append(Trace(rnd(int(endtime - starttime) + 4, i), h))
        return sts


class Inventory(object):
    """The two methods of an inventory which are used"""

    def __init__(self, sta):
        self.sta = sta

    def get_contents(self):
        return {'channels': ['CX.%s..BH%s' % (self.sta, c) for c in 'ENZ']}

    def get_coordinates(self, id, time=None):
        return {'latitude': -21., 'longitude': -69., 'elevation': 10.,
                'local_depth': 0.}


def res(st):
    """Data and headers of stream"""
    out = []
    for tr in st:
        h = {k: v for k, v in tr.stats.items()
             if k not in ('processing', 'format', '_format', 'sac', 'mseed')}
        out.append((tr.id, np.array(tr.data), tr.stats.npts,
                    str(tr.stats.starttime),
                    str(tr.stats.get('onset')),
                    [h.get(k) for k in (
                        'slowness', 'phase', 'moveout', 'type', 'distance',
                        'back_azimuth', 'inclination', 'slowness_before_mout'
                        'pp_latitude', 'pp_longitude', 'pp_depth', 'box_pos',
                        'box_length', 'event_magnitude', 'event_latitude')],
                    [p.split(':', 1)[1] for p in
                     tr.stats.get('processing', []) if 'rf' in p[:4]]))
    return out


def op_mo(st, *args, **kw):
    if kw.get('model') in FILES:
        kw['model'] = FILES[kw['model']]
    return res(st.moveout(*args, **kw))


def op_pp(st, depth, phase=None, model='iasp91'):
    a = st.ppoints(depth, phase, model=FILES.get(model, model))
    return [a.tolist(), res(st)]


def op_rfstats(mag, lon, model='iasp91', **kw):
    from rf import rfstats
    def call(objs):
        s = rfstats(*objs, **dict(kw, model=FILES.get(model, model)))
        return None if s is None else [s.get(k) for k in (
            'distance', 'back_azimuth', 'slowness', 'inclination',
            'pp_latitude', 'pp_longitude', 'event_magnitude', 'phase')] + [
            str(s.onset)]

    def build():
        from rf.rfstream import RFTrace
        h = dict(HEAD, event_longitude=lon, event_magnitude=mag)
        return [RFTrace(data=np.zeros(10), header=h).stats]
    return build, call


BOXES = []  # both threads use the same boxes


def op_profile(st):
    return res(st.profile(BOXES))


def op_boxes(st):
    from rf import get_profile_boxes
    boxes = get_profile_boxes((-20., -69.5), 70., np.linspace(-40, 40, 3))
    return [[b['pos'], b['length'], list(b['latlon']),
             np.array(b['poly'].exterior.coords)] for b in boxes] + res(
        st.profile(boxes))


def prof_stream(n=2, seed=1):
    st = rfs(n, seed=seed)
    for k, tr in enumerate(st):
        tr.stats.pp_latitude = -20.
        tr.stats.pp_longitude = -69.7 + 0.3 * k
        tr.stats.pp_depth = 50.
    return st


def op_iter(args):
    from rf import iter_event_data
    ev, inv, kw = args
    return [res(st) for st in iter_event_data(ev, inv, Waveforms(), **kw)]


def op_meta(args):
    from rf.util import iter_event_metadata
    ev, inv = args
    return [sorted((k, v) for k, v in d.items() if k != 'event')
            for d in iter_event_metadata(ev, inv)]


def op_groups(st):
    from rf.util import IterMultipleComponents
    return [res(s) for s in IterMultipleComponents(st, 'onset', 3)]


def op_file(fmt, seed):
    def build():
        # relative path
        return rfs(2, seed=seed), os.path.basename(
            tempfile.mkdtemp(dir=os.getcwd()))

    def call(args):
        from rf import read_rf
        st, d = args
        st.write(os.path.join(d, 'file'), fmt)
        got = []
        for f in sorted(glob.glob(os.path.join(d, '*'))):
            if not f.endswith('.QBN'):
                got.extend(res(read_rf(f)))
        return got
    return build, call


def custom(rsp, src, tshift=3, par=1, **kw):
    for tr in rsp:
        tr.data = tr.data - np.mean(src.data) * par + tshift
    return rsp


OPS = {
    # two variants of each operation, such that exchanged results show
    'mo': (rfs, lambda st: op_mo(st)),
    'mo8': (lambda: rfs(2, seed=5), lambda st: op_mo(st, 'Ppps', ref=8.)),
    'moS': (lambda: rfs(phase='S'), lambda st: op_mo(st)),
    'moA': (lambda: rfs(seed=7), lambda st: op_mo(st, model='crust')),
    'pp': (lambda: rfs(2), lambda st: op_pp(st, 50)),
    'ppS': (lambda: rfs(phase='S'), lambda st: op_pp(st, 90.5, 'P')),
    'ppA': (lambda: rfs(2), lambda st: op_pp(st, 45, None, 'crust')),
    'rs': op_rfstats(6., -60., phase='P'),
    'rsS': op_rfstats(5., -10., phase='S'),
    'rsp': op_rfstats(5.5, -50., phase='P', pp_depth=70, model='grad'),
    'rft': (raw, lambda st: res(st.rf(deconvolve='time'))),
    'rfw': (lambda: raw(seed=4),
            lambda st: res(st.rf(deconvolve='waterlevel', gauss=0.4))),
    'rfi': (lambda: raw(seed=6), lambda st: res(
        st.rf(deconvolve='iterative', itmax=3, minderr=1e-9))),
    'rfm': (lambda: raw(n=160, seed=8), lambda st: res(
        st.rf(deconvolve='multitaper', K=2, tband=3, T=10, olap=0.5))),
    'rfS': (lambda: raw('S', seed=3), lambda st: res(
        st.rf(deconvolve='time', trim=(-10, 30)))),
    'rfZ': (lambda: raw(comps='ZNE', seed=3), lambda st: res(
        st.rf(deconvolve='waterlevel', rotate='NE->RT',
              filter=dict(type='bandpass', freqmin=0.1, freqmax=0.5)))),
    'dec': (raw, lambda st: res(st.deconvolve(
        'func', func=custom, source_components='L', par=2))),
    'dec2': (lambda: raw(seed=9), lambda st: res(st.deconvolve(
        'func', func=custom, source_components='Q', par=5))),
    'stack': (lambda: rfs(2, seed=1) + rfs(2, seed=4),
              lambda st: res(st.stack())),
    'stack2': (lambda: rfs(1, seed=2) + rfs(1, cha='T'),
               lambda st: res(st.stack())),
    'prof': (prof_stream, op_profile),
    'prof2': (lambda: prof_stream(1, 5), op_profile),
    'prof3': (lambda: prof_stream(2, 3), op_boxes),
    'harm': (lambda: rfs(6, cha='R'), lambda st: res(st.harmonics())),
    'harm2': (lambda: rfs(4, cha='R') + rfs(4, cha='T', seed=5),
              lambda st: res(st.harmonics('RT', azim=30, method='freq'))),
    'trim': (lambda: rfs(2), lambda st: res(st.trim2(-5, 22, 'onset'))),
    'slice': (lambda: rfs(3), lambda st: res(st.slice2(2, 9, 'onset'))),
    'iter': (lambda: (events(5.5), Inventory('A'),
                      dict(phase='P', request_window=(-5, 10))), op_iter),
    'iterS': (lambda: (events(6.), Inventory('B'),
                       dict(phase='S', request_window=(-8, 4), pad=3)),
              op_iter),
    'meta': (lambda: (events(5.), Inventory('C')), op_meta),
    'group': (lambda: raw() + raw(seed=5), op_groups),
    'str': (lambda: rfs(2), lambda st: [str(st), st.type, st.method]),
    'sac': op_file('SAC', 1),
    'q': op_file('Q', 4),
}
MODELS = ('mo', 'mo8', 'moS', 'moA', 'pp', 'ppS', 'ppA', 'rsp')
GROUPS = (('mo', 'mo8', 'moS', 'moA', 'pp', 'ppS', 'ppA', 'rs', 'rsp'),
          ('rft', 'rfw', 'rfi', 'rfm', 'rfS', 'rfZ', 'dec', 'dec2'),
          ('stack', 'stack2', 'prof', 'prof2', 'prof3', 'harm', 'harm2', 'trim',
           'slice', 'group', 'str'),
          ('rs', 'rsS', 'iter', 'iterS', 'meta'), ('sac', 'q'))
CROSS = ('mo8', 'pp', 'rfw', 'dec', 'stack2', 'harm', 'iter', 'q')
MODELS2 = ('mo8', 'moA', 'ppA')
EXPECTED = {}
LINES = {}


def warm_up():
    """Imports of ObsPy, nothing of rf"""
    from obspy import Stream, Trace, read
    head = dict(station='S', network='N', starttime=T0, sampling_rate=2.)
    st = Stream([Trace(rnd(100, i), dict(head, channel='BH' + c))
                 for i, c in enumerate('ZNE')])
    st2 = st.copy()
    for tr in st2:
        tr.stats.starttime += 1
    (st + st2).merge()
    st.filter('bandpass', freqmin=0.1, freqmax=0.5)
    st.taper(0.1)
    st.detrend('demean')
    st.trim(T0 + 1, T0 + 30)
    st.copy().rotate('NE->RT', back_azimuth=30.)
    st.rotate('ZNE->LQT', back_azimuth=30., inclination=30.)
    st.write('warm.SAC', 'SAC')
    st.write('warm', 'Q')
    read('warm.QHD')
    read('warm01.SAC')
    import multitaper
    multitaper.mtspec.MTSpec(rnd(50, 1), 3, 2, 0.5)


def call(name):
    build, func = OPS[name]
    obj = build()
    return lambda: func(obj)


def measure(name):
    return lambda: lines(call(name), os.path.join(REPO, ''))


class C(Check):
    id = 'C26'
    isolate = True
    rule = ('pairs of calls %s on own streams in two threads under a '
            'controlled scheduler which preempts a thread before lines of '
            'the code of rf; each schedule in a fresh process; expected is the '
            'result of the call alone in a fresh process' % sorted(OPS))
    bounds = {'quick': 'pairs of calls of the same group and each call with '
                       'mo8: one preemption at the first passage of each '
                       'line; pairs of %s: two preemptions, each at the '
                       'first passage of every fifth line' % (MODELS2,),
              'thorough': 'pairs of the same group: one preemption at the '
                          'first 3 passages of each line; each call with %s: '
                          'first passage of each line; pairs of %s: two '
                          'preemptions, each at the first passage of every '
                          'fourth line' % (CROSS, MODELS)}
    assumptions = ('a preemption inside of a line of rf or inside of NumPy, '
                   'SciPy, ObsPy does not matter',)

    def setup(self):
        from rf import get_profile_boxes
        import cartopy.crs  # noqa
        import shapely.geometry  # noqa
        import multitaper  # noqa
        import scipy.signal  # noqa
        from obspy.taup import TauPyModel
        TauPyModel('iasp91').get_travel_times(20., 50., ('P', 'S'))
        warm_up()
        for name in ('crust', 'grad'):
            FILES[name] = os.path.relpath(model_file(name, os.getcwd()))
        BOXES[:] = get_profile_boxes((-20., -69.5), 90.,
                                     np.linspace(-40, 40, 3))
        for k in OPS:
            EXPECTED[k] = fresh(call(k))
            kind, seen = fresh(measure(k))
            LINES[k] = seen if kind == 'ok' else []

    def cases(self, tier):
        deep = tier == 'thorough'
        for a, b in itertools.product(OPS, repeat=2):
            group = any(a in g and b in g for g in GROUPS)
            if group or b == 'mo8' or deep and b in CROSS:
                for k in points(LINES[a], 3 if deep and group else 1):
                    yield {'ops': [a, b], 'lines': [k]}
        for a, b in itertools.product(MODELS if deep else MODELS2, repeat=2):
            pa = list(points(LINES[a], 1))[::4 if deep else 5]
            pb = list(points(LINES[b], 1))[::4 if deep else 5]
            for ka, kb in itertools.product(pa, pb):
                yield {'ops': [a, b], 'lines': [ka, kb]}

    def run(self, case, c):
        funcs = [call(name) for name in case['ops']]
        sched = Scheduler(funcs, case['lines'], REPO)
        results = sched.run()
        c.op(sched.preemptions + 1)
        c.state(case['ops'], case['lines'])
        for name, got in zip(case['ops'], results):
            want = EXPECTED[name]
            c.check(want[0] == 'ok', 'call %s failed: %s', name, want[1])
            c.check(got[0] == 'ok', 'call %s in thread failed: %s', name,
                    got[1])
            self.cmp(c, got[1], want[1], 'result of %s' % name)
        c.outcome(case['ops'], sched.preemptions)

    def cmp(self, c, got, want, msg):
        c.nchecks += 1
        if isinstance(want, (list, tuple)):
            c.check(isinstance(got, (list, tuple)) and len(got) == len(want),
                    msg)
            for g, w in zip(got, want):
                self.cmp(c, g, w, msg)
        elif isinstance(want, (float, np.ndarray)):
            if (np.shape(got) != np.shape(want) or
                    not np.allclose(got, want, rtol=1e-9, atol=1e-9,
                                    equal_nan=True)):
                c.fail(msg + ' differs from the one in a single thread: '
                       'got %.200r, expected %.200r' % (got, want))
        else:
            c.eq(got, want, msg)


CHECK = C()
