"""C18: streams do not alias each other"""
import importlib
import itertools

import numpy as np
from obspy.core import AttribDict

from mc.engine import Check, plain
from mc.build import trace, stream, rnd, T0


def fp(st):
    return [plain(tr) for tr in st.traces]


def rfs():
    """Receiver functions of 3 events, components L, Q, T"""
    trs = []
    for i, (lat, baz) in enumerate([(10.02, 30.), (10.03, 150.),
                                    (10.3, 280.)]):
        for k, comp in enumerate('LQT'):
            start = T0 + 1000 * i
            tr = trace('NN.STA..BH' + comp, rnd(12, 5 * i + k), sr=2.,
                       start=start, onset=start + 2.5, phase='P',
                       moveout='Ps', slowness=6.4 + 0.3 * i,
                       back_azimuth=baz, inclination=20., distance=50. + i,
                       event_time=start - 500, event_latitude=1.,
                       event_longitude=2., event_depth=30.,
                       event_magnitude=6., station_latitude=10.,
                       station_longitude=20., station_elevation=100.,
                       pp_latitude=lat, pp_longitude=20.01, pp_depth=50.,
                       processing=['first', 'second'])
            tr.stats.sac = AttribDict({'a': 1.})
            tr.stats.extra = {'list': [1, 2]}
            trs.append(tr)
    return stream(trs)


def raw():
    """Waveforms of 2 events"""
    trs = []
    for i in range(2):
        for k, comp in enumerate('ZNE'):
            start = T0 + 1000 * i
            d = rnd(60, 5 * i + k)
            d[20] += 20 / (k + 1)
            trs.append(trace('NN.STA..BH' + comp, d, sr=2., start=start,
                             onset=start + 10, processing=['read'],
                             event_time=start - 500, event_latitude=1.,
                             event_longitude=2. + i, event_depth=30.,
                             event_magnitude=6., station_latitude=10.,
                             station_longitude=50., station_elevation=100.,
                             back_azimuth=250. + i, inclination=20.,
                             slowness=6. + i, phase='P', distance=55.))
    return stream(trs)


def box():
    from rf.profile import get_profile_boxes
    return get_profile_boxes((10., 20.), 0, (0, 5, 10, 50), width=20)


BOXES = None


def op_profile(s):
    return s.profile(BOXES)


def minrf(s):
    import rf.util
    return rf.util.minimal_example_rf()


def minsrf(s):
    import rf.util
    return rf.util.minimal_example_Srf()


def example(s):
    from rf import read_rf
    return read_rf()


def trcopy(s):
    from rf import RFStream
    st = RFStream()
    st.traces = [tr.copy() for tr in s]
    return st


DERIVE = {'copy': lambda s: s.copy(), 'trcopy': trcopy,
          'stack': lambda s: s.stack(), 'profile': op_profile,
          'harmonics': lambda s: s.harmonics(components='Q'),
          'harmonics2': lambda s: s.harmonics(components='QT',
                                              method='freq'),
          'minrf': minrf, 'minSrf': minsrf, 'example': example}


def m_data(s):
    s[-1].data[...] += 1000.


def m_data0(s):
    s[0].data[2:4] = 7.


def m_head(s):
    s[0].stats.foo = 1
    s[0].stats.channel = 'XYZ'
    s[0].stats.onset = s[0].stats.starttime + 1.


def m_head_last(s):
    s[-1].stats.network = 'XX'
    s[-1].stats.phase = 'SKS'
    s[-1].stats.num = 99


def m_proc(s):
    s[0].stats.processing.append('mutated')


def m_proc_last(s):
    s[-1].stats.processing[0] = 'mutated'


def m_nest(s):
    s[0].stats.sac['a'] = 5.
    s[0].stats.extra['list'].append(3)


def m_start(s):
    for tr in s:
        tr.stats.starttime += 5


FILT = {'type': 'lowpass', 'freq': 0.4}
SINGLE = {'data': -1, 'data0': 0, 'head': 0, 'headlast': -1, 'proc': 0,
          'proclast': -1, 'nest': 0}


def rfstats_arg(s):
    from rf import rfstats
    rfstats(s, event=EVENT, station=STATION)


def rfstats(s):
    from rf import rfstats
    rfstats(s, phase='P')


MUTATE = {'data': m_data, 'data0': m_data0, 'head': m_head,
          'headlast': m_head_last, 'proc': m_proc, 'proclast': m_proc_last,
          'nest': m_nest, 'start': m_start,
          'moveout': lambda s: s.moveout('Ppps'),
          'ppoints': lambda s: s.ppoints(30.),
          'trim': lambda s: s.trim2(-1, 1.5, 'onset'),
          'filter': lambda s: s.filter(**FILT),
          'rf': lambda s: s.rf(method='S', rotate=None, deconvolve=None),
          'type': lambda s: setattr(s, 'type', 'x'),
          'method': lambda s: setattr(s, 'method', 'S'),
          'clear': lambda s: s.clear(),
          'sort': lambda s: s.sort(['channel'], reverse=True),
          'taper': lambda s: s.taper(0.2),
          'rfstats': rfstats}
RAW = {'rfstats': rfstats, 'rfstats2': rfstats_arg,
       'time': lambda s: s.rf(filter=FILT, trim=(-8, 18), downsample=1,
                              solve_toeplitz='scipy'),
       'water': lambda s: s.rf(deconvolve='waterlevel', rotate='NE->RT',
                               winsrc=WINSRC),
       'iter': lambda s: s.rf(deconvolve='iterative', itmax=3,
                              rotate=None),
       'decon': lambda s: s[:3].deconvolve('P', method='waterlevel',
                                           source_components='Z',
                                           winsrc=WINSRC),
       'moveout': lambda s: s.moveout('Ps'),
       'ppoints': lambda s: s.ppoints(30.),
       'trim': lambda s: s.trim2(-5, 15, 'onset'),
       'data': m_data, 'head': m_head, 'proc': m_proc}
WINSRC = [-3, 5, 1]
STATION = {'latitude': 10., 'longitude': 50., 'elevation': 100.}
EVENT = None
PLOTS = {'rf': lambda s: s.select(component='Q').plot_rf(),
         'rf2': lambda s: s.select(component='Q').plot_rf(
             trim=(-1, 2), fig_width=4, scale_factor=2,
             info=(('back_azimuth', 'baz', 'b'),)),
         'rf3': lambda s: s.plot_rf(show_vlines=True, show_traces=False),
         'profile': lambda s: s.profile(BOXES).select(
             component='Q').plot_profile(),
         'profile2': lambda s: s.profile(BOXES).select(
             component='Q').plot_profile(moveout_model='iasp91',
                                         top='hist', trim=(-1, 2)),
         'harm': lambda s: plot_harm(s)}


def plot_harm(s):
    from rf.imaging import plot_harmonics
    h = s.harmonics(components='QT')
    b = fp(h)
    plot_harmonics(h, trim=(-1, 2))
    plot_harmonics(h, h[:5])
    assert fp(h) == b, 'plot_harmonics changed its stream'


def moves(derive, mutate, depth, first=None):
    """All histories: list of (op, node), nodes are created by derive"""
    def rec(nodes, left):
        if left == 0:
            yield ()
            return
        for node in range(nodes):
            for op in derive:
                for rest in rec(nodes + 1, left - 1):
                    yield ((op, node),) + rest
            for op in mutate:
                for rest in rec(nodes, left - 1):
                    yield ((op, node),) + rest
    return rec(1, depth)


class C(Check):
    id = 'C18'
    rule = ('derivations %s and mutations %s of every stream which exists, '
            'for waveforms %s; plots %s' % (
                sorted(DERIVE), sorted(MUTATE), sorted(RAW), sorted(PLOTS)))
    bounds = {'quick': 'all histories of 2 steps and those of 3 steps which '
                       'start with a derivation and end with a mutation',
              'thorough': 'all histories of 3 steps, all of 4 steps over a '
                          'reduced alphabet'}
    assumptions = ('slices and selections share samples by design of ObsPy '
                   'and are not considered',)
    timeout = 120

    def isolate(self, case):
        return case['k'] in ('cold', 'plot')

    def setup(self):
        global BOXES, EVENT
        from obspy.core.event import Event, Origin, Magnitude
        from rf import read_rf, rfstats
        BOXES = box()
        EVENT = Event(origins=[Origin(latitude=1., longitude=2., depth=3e4,
                                      time=T0 - 500)],
                      magnitudes=[Magnitude(mag=6.)])
        rfstats(read_rf())
        s = raw()
        rfstats(s)
        rfstats_arg(s)
        rfstats_(rfs())

    def cases(self, tier):
        deep = tier == 'thorough'
        drv = ['copy', 'trcopy', 'stack', 'profile', 'harmonics',
               'harmonics2']
        mut = list(MUTATE)
        for h in moves(drv, mut, 2):
            yield {'k': 'hist', 'h': h}
        mut2 = mut
        for h in moves(drv, mut2, 3):
            if deep or (h[0][0] in drv and h[-1][0] in mut and (
                    h[-1][1] < h[1][1] + 2)):
                yield {'k': 'hist', 'h': h}
        if deep:
            for h in moves(['copy', 'stack', 'profile'],
                           ['data', 'head', 'proc', 'moveout'], 4):
                yield {'k': 'hist', 'h': h}
        for h in moves(['copy'], list(RAW), 3 if deep else 2):
            yield {'k': 'raw', 'h': h}
        # functions with cache, in a fresh process
        for name in ('minrf', 'minSrf', 'example'):
            for m1 in ('data', 'head', 'proc', 'moveout', 'clear', 'trim',
                       'start', 'filter'):
                for n in (0, 1):
                    for m2 in ('data', 'proc', 'clear', 'rf'):
                        yield {'k': 'cold', 'name': name, 'm': (m1, m2),
                               'n': n}
        for name in PLOTS:
            yield {'k': 'plot', 'name': name}

    def run(self, case, c):
        k = case['k']
        if k == 'hist':
            self.history(case['h'], c, rfs(), MUTATE)
        elif k == 'raw':
            self.history(case['h'], c, raw(), RAW)
        elif k == 'cold':
            self.cold(case, c)
        else:
            s = rfs()
            before, b2 = fp(s), plain(BOXES)
            c.op()
            c.trace()
            try:
                fig = PLOTS[case['name']](s)
            except AssertionError as ex:
                c.fail(str(ex))
            c.eq(fp(s), before, 'stream after plot')
            c.eq(plain(BOXES), b2, 'boxes')
            c.state(case)
            # the figure does not change with the stream
            def lines():
                return [plain(np.array(l.get_ydata())) for ax in fig.axes
                        for l in ax.lines]
            if fig is not None:
                ys = lines()
                for tr in s:
                    tr.data[...] = 1e3
                c.check(lines() == ys, 'stream and figure share data')

    def history(self, hist, c, s0, mutate):
        nodes = [s0]
        snaps = [fp(s0)]
        memo = {}
        args = plain([FILT, WINSRC, STATION, repr(EVENT)] +
                     [{k: v for k, v in b.items() if k != 'poly'}
                      for b in BOXES])
        c.trace()
        for step, (op, i) in enumerate(hist):
            s = nodes[i]
            c.op()
            where = 'step %d: %s of stream %d' % (step + 1, op, i)
            if op in DERIVE:
                try:
                    new = DERIVE[op](s)
                except Exception as ex:
                    new = None
                    out = type(ex).__name__
                else:
                    out = fp(new)
                key = (repr(snaps[i]), op)
                if key in memo:
                    c.check(memo[key] == out, where +
                            ': result differs from the one of an earlier '
                            'call for the same stream')
                memo[key] = out
                nodes.append(stream([]) if new is None else new)
                snaps.append(fp(nodes[-1]))
                if new is not None:
                    c.check(new is not s, where + ' is the same object')
                changed = None
            else:
                try:
                    mutate[op](s)
                except Exception:   # not possible for this kind of stream
                    pass
                changed = i
                new = fp(s)
                if op in SINGLE and len(s) > 1:
                    j = SINGLE[op] % len(s)
                    for n, (a, b) in enumerate(zip(new, snaps[i])):
                        if n != j:
                            c.check(a == b, where + ' of trace %d changed '
                                    'trace %d of the same stream' % (j, n))
                snaps[i] = new
            for n, st in enumerate(nodes):
                if n != changed:
                    got = fp(st)
                    if got != snaps[n]:
                        self.report(c, where, n, st, got, snaps[n])
                    c.nchecks += 1
            c.state(hist[:step + 1])
        c.eq(plain([FILT, WINSRC, STATION, repr(EVENT)] +
                   [{k: v for k, v in b.items() if k != 'poly'}
                    for b in BOXES]), args, 'arguments of the calls')
        c.outcome([len(x) for x in snaps])

    def report(self, c, where, n, st, got, want):
        for j, (a, b) in enumerate(zip(got, want)):
            if a != b:
                c.fail('%s changed stream %d, trace %d: %.300r != %.300r' % (
                    where, n, j, [x for x in a[1] if x not in b[1]],
                    [x for x in b[1] if x not in a[1]]))
        c.fail('%s changed number of traces of stream %d' % (where, n))

    def cold(self, case, c):
        import rf.util
        importlib.reload(rf.util)
        func = DERIVE[case['name']]
        c.op(3)
        c.trace()
        res = [func(None)]
        ref = fp(res[0])
        if case['n']:
            res.append(func(None))
            c.check(fp(res[1]) == ref, 'second call')
        for m, s in zip(case['m'], (res[-1], res[0])):
            others = [(r, fp(r)) for r in res if r is not s]
            try:
                MUTATE[m](s)
            except Exception:
                pass
            for r, b in others:
                c.check(fp(r) == b, '%s of one result of %s changed another',
                        m, case['name'])
            res.append(func(None))
            c.check(fp(res[-1]) == ref, '%s returns another stream after %s '
                    'of an earlier result', case['name'], m)
        c.state(case)


rfstats_ = rfstats
CHECK = C()
