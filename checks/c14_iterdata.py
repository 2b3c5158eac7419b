"""C14: iter_event_data with a scripted data source"""
import itertools
import warnings

import numpy as np
from obspy import UTCDateTime as UTC, Stream, Trace
from obspy.core.event import Catalog, Event, Origin, Magnitude
from obspy.core.inventory import (Inventory, Network, Station, Channel, Site)

from mc.engine import Check, plain, stats_dict
from mc.build import rnd, snap, pairwise_deviation, T0

SR = 1.
# name: latitude, longitude, time
EVENTS = {'a': (10., -60., T0), 'b': (25., -50., T0 + 86400 * 400),
          'near': (-20., -69., T0 + 7200), 'c': (-5., -20., T0 + 5 * 86400),
          'far': (30., 110., T0 + 3600), 'nomag': (11., -61., T0 + 500),
          'pref': (12., -60., T0 + 86400 * 401),
          'first': (13., -60., T0 + 86400 * 402)}
# code -> list of (latitude, longitude, start, end)
E0, E1 = UTC(2000, 1, 1), UTC(2030, 1, 1)
MID = T0 + 86400 * 100
SITES = {
    'CX.A..BH': [(-21., -69.5, E0, E1)],
    'CX.B.00.BH': [(-22., -69., E0, E1)],
    'CX.B.10.BH': [(-22.01, -69.01, E0, E1)],
    'CX.B.00.HH': [(-22., -69., E0, E1)],
    # moved between the events
    'CX.M..BH': [(-19., -70., E0, MID), (-19.5, -70.3, MID, E1)],
    # ended before event b
    'CX.O..BH': [(-18., -70., E0, MID)],
    'XX.A..BH': [(-21.3, -69.9, E0, E1)],
}
COMPS = 'ZNE'


def make_event(name):
    lat, lon, t = EVENTS[name]
    o = Origin(latitude=lat, longitude=lon, depth=33000., time=t)
    if name == 'nomag':
        return Event(origins=[o])
    ev = Event(origins=[o], magnitudes=[Magnitude(mag=6.1)])
    if name in ('pref', 'first'):
        # second origin while another epoch of the stations is valid
        o2 = Origin(latitude=lat - 1, longitude=lon, depth=5000.,
                    time=T0 + 3600)
        ev.origins = [o2, o] if name == 'pref' else [o, o2]
        if name == 'pref':
            ev.preferred_origin_id = o.resource_id
    return ev


def make_inventory(sites, comps='ENZ'):
    nets = {}
    for s in sites:
        net, sta, loc, band = s.split('.')
        st = nets.setdefault(net, {}).setdefault(sta, [])
        for lat, lon, a, b in SITES[s]:
            for co in comps:
                st.append(Channel(band + co, loc, lat, lon, 100., 0.,
                                  start_date=a, end_date=b))
    return Inventory([Network(n, [
        Station(k, chs[0].latitude, chs[0].longitude, 100., channels=chs,
                site=Site('x'), start_date=E0, end_date=E1)
        for k, chs in stas.items()]) for n, stas in nets.items()], 'mc')


def coords(site, t):
    for lat, lon, a, b in SITES[site]:
        if a <= t <= b:
            return dict(latitude=lat, longitude=lon, elevation=100.,
                        local_depth=0.)


class Oops(Exception):
    def __init__(self):     # without arguments
        pass


class Source(object):
    """Scripted get_waveforms"""

    def __init__(self, script=(), default='ok', edge=3., comps=COMPS):
        self.comps = comps
        self.script, self.default, self.edge = list(script), default, edge
        self.requests, self.answers = [], []

    def __call__(self, **kw):
        i = len(self.requests)
        self.requests.append(kw)
        a = self.script[i] if i < len(self.script) else self.default
        self.answers.append(a)
        return self.answer(a, kw, i)

    def trace(self, kw, co, t1, t2, seed, sr=SR):
        # samples at whole seconds
        t1 = UTC(round(t1.timestamp))
        n = int(round((t2 - t1) * sr)) + 1
        k = np.arange(n) / sr + t1.timestamp
        tr = Trace(np.sin(k * (0.3 + 0.05 * self.comps.find(co))) + seed)
        tr.stats.update(dict(network=kw['network'], station=kw['station'],
                             location=kw['location'], sampling_rate=sr,
                             channel=kw['channel'][:-1] + co, starttime=t1))
        return tr

    def answer(self, a, kw, i):
        t1, t2 = kw['starttime'] - self.edge, kw['endtime'] + self.edge
        mid = t1 + (t2 - t1) / 2
        full = [self.trace(kw, co, t1, t2, i) for co in self.comps]
        z = full[0]
        Z = self.comps[0]
        if '@' in a:    # the same for another component
            a, n = a.split('@')
            n = int(n)
            full = full[n:] + full[:n]
            z, Z = full[0], self.comps[n]
        if a == 'ok':
            return Stream(full)
        if a == 'rev':
            return Stream(full[::-1])
        if a == 'exc':
            raise RuntimeError('server gone')
        if a == 'exc2':
            raise KeyError('x')
        if a == 'stop':
            raise StopIteration
        if a == 'own':
            raise Oops
        if a == 'assert':
            raise AssertionError('x')
        if a == 'none':
            return None
        if a == 'empty':
            return Stream()
        if a == 'two':
            return Stream(full[:2])
        if a == 'four':
            return Stream(full + [self.trace(kw, 'X', t1, t2, i)])
        if a in ('gap', 'split', 'same', 'diff', 'srdiff', 'gappad'):
            m2 = {'gap': mid + 5, 'split': mid + 1, 'same': mid - 3,
                  'diff': mid - 3, 'srdiff': mid + 1}.get(a)
            m1 = mid
            if a == 'gappad':
                m1, m2 = t1 + self.edge + 2, t1 + self.edge + 5
            p1 = self.trace(kw, Z, t1, m1, i)
            m2 = UTC(round(m1.timestamp)) + (m2 - m1)
            sr = 2. if a == 'srdiff' else SR
            p1 = p1.slice(endtime=UTC(round(m1.timestamp))).copy()
            p2 = self.trace(kw, Z, m2, t2, i, sr)
            if a == 'diff':
                p2.data = p2.data + 1
            return Stream([p1] + full[1:] + [p2])
        if a == 'srcomp':
            return Stream([self.trace(kw, Z, t1, t2, i, 2.)] + full[1:])
        if a == 'outside':
            return Stream([self.trace(kw, co, t2 + 50, t2 + 90, i)
                           for co in self.comps])
        if a in ('masked', 'maskpad', 'maskall', 'nomask', 'fillpad'):
            # data which was merged by the data source
            for tr in full if a == 'nomask' else full[:1]:
                tr.data = np.ma.array(tr.data)
            t = z.times() + (z.stats.starttime - kw['starttime'])
            half = (t[-1] + t[0]) / 2
            z.data[{'masked': abs(t - half) <= 2, 'maskall': t > -1e6,
                    'nomask': t < -1e6}.get(a, abs(t - 1) < 1.6)] = np.ma.masked
            if a == 'fillpad':
                z.data.fill_value = 77.
            return Stream(full)
        if a == 'int':
            for tr in full:
                tr.data = (100 * tr.data).astype('int32')
            return Stream(full)
        if a == 'dtype':    # cannot be merged
            p = self.trace(kw, Z, t1, mid, i)
            p.data = p.data.astype('int32')
            return Stream([p] + full[1:] + [self.trace(kw, Z, mid, t2, i)])
        if a == 'short':
            return Stream([self.trace(kw, co, mid, t2, i) for co in self.comps])
        raise AssertionError(a)


PADONLY = ('gappad', 'maskpad', 'fillpad')
GOOD = ('ok', 'rev', 'split', 'same', 'srcomp', 'int', 'short', 'nomask'
        ) + PADONLY
WARNED = ('two', 'four', 'gap', 'diff', 'srdiff', 'dtype', 'masked',
          'maskall')
ANSWERS = ['ok', 'exc', 'none', 'empty', 'two', 'four', 'gap', 'split',
           'same', 'diff', 'srdiff', 'dtype', 'outside', 'masked', 'short',
           'gappad', 'rev', 'int', 'srcomp', 'exc2', 'stop', 'own', 'assert',
           'gap@1', 'gap@2', 'masked@1', 'masked@2', 'dtype@2', 'diff@1',
           'split@2', 'gappad@1', 'two@1', 'two@2',
           'maskpad', 'maskall', 'nomask', 'maskpad@2', 'fillpad']


class Pbar(object):
    def __init__(self):
        self.total, self.n = None, 0

    def update(self, n=1):
        self.n += n


DEFAULT = dict(evs=['a', 'c'], sites=['CX.A..BH', 'CX.B.00.BH'], phase='P',
               win=None, pad='default', opts={}, comps='ENZ', cat=True,
               ans='ok')
ALPHA = dict(evs=[['a', 'c'], ['a'], ['near'], ['near', 'b'], ['b', 'a'],
                  ['a', 'near', 'far', 'c'], [], ['far'], ['a', 'a'],
                  ['nomag', 'c'], ['a', 'nomag', 'b'], ['pref', 'a'],
                  ['a', 'first']],
             sites=[['CX.A..BH', 'CX.B.00.BH'], ['CX.M..BH'],
                    ['CX.O..BH', 'CX.A..BH'],
                    ['CX.B.00.BH', 'CX.B.10.BH', 'CX.B.00.HH'],
                    ['CX.A..BH', 'XX.A..BH'], list(SITES), []],
             phase=['P', 'S', 'PP', 'Pdiff', 'SKS'],
             win=[None, [-20, 40], [5, 30.5], [-30, -10]],
             pad=['default', 0, 25, 3.5],
             opts=[{}, {'dist_range': [0, 120]}, {'dist_range': [42, 46]},
                   {'pp_depth': 50, 'dist_range': [0, 100]},
                   {'tt_model': 'ak135', 'dist_range': [25, 80]}],
             comps=['ENZ', 'Z', '12Z', 'ZNE', '123', 'UVW', '1', 'RTZ',
                    'Z1', 'LQT'], cat=[True, False],
             ans=['ok', 'split', 'short', 'gap'])


class C(Check):
    id = 'C14'
    rule = ('answers of the data source %s; catalogs, inventories, phases, '
            'windows, pads and options %s' % (ANSWERS, ALPHA))
    bounds = {'quick': 'all assignments of answers to 2 requests, up to 2 '
                       'deviating answers among 4 requests, all '
                       'configurations deviating in up to 2 dimensions, all '
                       'interleavings of 2 iterators with 2-3 records',
              'thorough': 'all assignments to 3 requests, 3 deviations among '
                          '4, configurations up to 3 dimensions'}
    assumptions = ('every event has an origin',)

    def cases(self, tier):
        deep = tier == 'thorough'
        for d in pairwise_deviation(DEFAULT, ALPHA, 3 if deep else 2):
            yield dict(d, k='conf')
        n = 3 if deep else 2
        for s in itertools.product(ANSWERS, repeat=n):
            yield dict(DEFAULT, k='conf', script=list(s))
        full = ['ok'] * 4
        for m in range(2, 4 if deep else 3):
            for pos in itertools.combinations(range(4), m):
                for alt in itertools.product(ANSWERS[1:], repeat=m):
                    s = list(full)
                    for p, a in zip(pos, alt):
                        s[p] = a
                    yield dict(DEFAULT, k='conf', script=s)
        for w in sorted(set(itertools.permutations('111222'))):
            yield {'k': 'inter', 'order': ''.join(w)}
        yield {'k': 'meta'}
        yield {'k': 'lazy'}
        for evs, sites, how, mod, edge, kw in itertools.product(
                (['a'], ['a', 'a'], ['a', 'nomag', 'a'], ['c', 'a', 'c', 'a']),
                (['CX.A..BH'], ['CX.A..BH', 'CX.B.00.BH']),
                ('all', 'slice', 'rf', 'same'), ('data', 'head', 'proc'),
                (0., 3., 500.), ({}, {'pad': 0}, {'phase': 'S', 'dist_range':
                                                  (0, 90)})):
            yield {'k': 'shared', 'evs': evs, 'sites': sites, 'how': how,
                   'mod': mod, 'edge': edge, 'kw': kw}

    def run(self, case, c):
        getattr(self, 'run_' + case['k'])(case, c)

    def expected(self, case):
        """List of (site, event name, stats dict) of the pairs to request"""
        from rf import rfstats
        kw = dict(case['opts'])
        out = []
        for e in case['evs']:
            for s in case['sites']:
                co = coords(s, EVENTS[e][2])
                if co is None:
                    continue
                try:
                    h = rfstats(station=co, event=make_event(e),
                                phase=case['phase'], **kw)
                except Exception:
                    continue
                if h is None:
                    continue
                h = dict(h)
                h.pop('event_id')
                out.append((s, e, h))
        return out

    def run_conf(self, case, c):
        from rf import iter_event_data, RFStream
        from rf.rfstream import RFTrace
        phase = case['phase']
        evs = [make_event(e) for e in case['evs']]
        evids = [str(e.resource_id) for e in evs]
        cat = Catalog(evs) if case['cat'] else evs
        inv = make_inventory(case['sites'], case['comps'])
        comps = case['comps']
        comps = ''.join(sorted(comps)) if len(comps) == 3 else COMPS
        src = Source(case.get('script', ()), case['ans'], comps=comps)
        pbar = Pbar()
        win = case['win']
        kw = dict(case['opts'], pbar=pbar, phase=phase)
        if win is not None:
            kw['request_window'] = tuple(win)
        else:
            win = (-50, 150) if phase[-1].upper() == 'P' else (-100, 50)
        pad = 10
        if case['pad'] != 'default':
            pad = kw['pad'] = case['pad']
        exp = self.expected(case)
        c.op(max(1, len(exp)))
        c.trace()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            got = list(iter_event_data(cat, inv, src, **kw))
        npairs = len(case['evs']) * len(case['sites'])
        c.eq(pbar.total, npairs, 'total of progress bar')
        c.eq(pbar.n, npairs, 'count of progress bar')
        # requests
        reqs = []
        for (s, e, h) in exp:
            net, sta, loc, band = s.split('.')
            reqs.append(plain(dict(
                network=net, station=sta, location=loc, channel=band + '?',
                starttime=h['onset'] + win[0] - pad,
                endtime=h['onset'] + win[1] + pad)))
        seen = [plain(r) for r in src.requests]
        c.eq(sorted(map(repr, seen)), sorted(map(repr, reqs)), 'requests')
        order = []
        for r in seen:
            order.append(exp[reqs.index(r)])
        ev = [case['evs'].index(x[1]) for x in order]
        c.check(ev == sorted(ev) or len(set(case['evs'])) < len(ev) and
                len(set(case['evs'])) < len(case['evs']),
                'order of events %s' % ev)
        bys = {}
        for x in order:
            bys.setdefault(x[1], []).append(x[0])
        # yielded records
        want = []
        for k, ((s, e, h), kws, a) in enumerate(zip(order, src.requests,
                                                    src.answers)):
            if a.split('@')[0] in PADONLY and pad < 6:
                continue
            if a.split('@')[0] in GOOD:
                want.append((s, e, h, k, a))
        c.eq(len(got), len(want), 'number of records for answers %s' %
             src.answers)
        # dropped data is announced
        for site in case['sites']:
            bad = sum(s == site and (a.split('@')[0] in WARNED or
                                     a.split('@')[0] in PADONLY and pad < 6)
                      for (s, _, _), a in zip(order, src.answers))
            good = sum(s == site for s, _, _, _, _ in want)
            n = sum(site in str(w.message) for w in ws)
            c.check(n >= bad, 'data of %s dropped without warning, answers '
                    '%s', site, src.answers)
            if good == sum(x[0] == site for x in order) == len(case['evs']):
                c.eq(n, 0, 'warnings for good data of %s' % site)
        for st, (s, e, h, k, a) in zip(got, want):
            c.check(type(st) is RFStream and len(st) == 3, 'three traces')
            full = src.answer('int' if a == 'int' else 'ok',
                              src.requests[k], k)
            ids = sorted(tr.id for tr in st)
            c.eq(ids, sorted(s + co for co in comps), 'ids')
            t1, t2 = h['onset'] + win[0], h['onset'] + win[1]
            for tr in st:
                c.check(type(tr) is RFTrace, 'type of trace')
                head = stats_dict(tr)
                c.check(head.pop('event_id') in evids, 'event_id')
                for key, v in h.items():
                    if key == 'phase':
                        c.eq(head[key], phase, 'phase')
                    else:
                        c.eq(head[key], v, 'header ' + key)
                sr = 2. if a == 'srcomp' and tr.id[-1] == comps[0] else SR
                c.eq(head['sampling_rate'], sr, 'sampling rate')
                c.check(not np.ma.isMaskedArray(tr.data), 'masked')
                c.check(abs(tr.stats.starttime - t1) <= (1.01 if a == 'srcomp' else 0.51) / SR or
                        a == 'short', 'start')
                c.check(abs(tr.stats.endtime - t2) <= (1.01 if a == 'srcomp' else
                                                        0.51) / SR, 'end')
                if sr == SR:
                    ref = [t for t in full if t.id == tr.id][0]
                    ref = ref.slice(tr.stats.starttime, tr.stats.endtime)
                    c.check(len(ref) == len(tr), 'length')
                    c.close(tr.data, ref.data, 'samples', atol=1e-9)
        c.state(case['evs'], case['sites'], src.answers, phase, str(kw))
        c.outcome(len(src.requests), [x[4] for x in want])

    def run_inter(self, case, c):
        """Two iterators, also sharing inventory and catalog"""
        from rf import iter_event_data
        cat = Catalog([make_event(e) for e in ('a', 'c')])
        inv = make_inventory(['CX.A..BH', 'CX.B.00.BH'])
        for s1, s2 in itertools.product((['ok'], ['exc', 'ok']),
                                        (['two'], ['ok', 'gap'])):
            its = {}
            ref = {}
            for k, (script, ph) in {'1': (s1, 'P'), '2': (s2, 'P')}.items():
                ref[k] = [self.cmpst(st) for st in iter_event_data(
                    cat, inv, Source(script), phase=ph)]
                its[k] = iter_event_data(cat, inv, Source(script), phase=ph)
            got = {'1': [], '2': []}
            c.op(len(case['order']))
            c.trace()
            for k in case['order']:
                st = next(its[k], None)
                if st is not None:
                    got[k].append(self.cmpst(st))
                    # records belong to the caller
                    st[0].data[:] = 0
                    st[0].stats.station = 'X'
                    st.traces = st.traces[:1]
            for k in '12':
                got[k] += [self.cmpst(st) for st in its[k]]
                c.eq(got[k], ref[k], 'iterator %s' % k)
            c.state(case['order'], s1, s2)
        c.outcome([len(r) for r in ref.values()])

    def cmpst(self, st):
        return plain([[stats_dict(tr, ['event_id', 'processing']), tr.data] for tr in st])

    def run_shared(self, case, c):
        """The data source keeps the data it returns"""
        from rf import iter_event_data, RFStream
        evs = case['evs']
        inv = make_inventory(case['sites'])
        src = Source(edge=case['edge'])
        list(iter_event_data([make_event(e) for e in evs], inv, src,
                             **case['kw']))
        archive = Stream()
        for k, kw in enumerate(src.requests):
            # the same sample values for each request
            archive += src.answer('ok', kw, 0)
        archive.merge(1)
        if any(np.ma.isMaskedArray(tr.data) for tr in archive):
            archive = archive.split()
        before = snap(archive)

        def get(network, station, location, channel, starttime, endtime):
            st = archive.select(network=network, station=station,
                                location=location, channel=channel)
            if how == 'all':
                return st
            if how == 'rf':
                return RFStream(st)
            st = st.slice(starttime, endtime)
            if how == 'copy':
                return st.copy()
            if how == 'same':
                # one object for all answers
                box.traces = st.traces
                return box
            return st
        box = Stream()
        got = []
        how = 'copy'
        want = [self.cmpst(st) for st in iter_event_data(
            [make_event(e) for e in evs], inv, get, **case['kw'])]
        how = case['how']
        c.op(len(src.requests))
        c.trace()
        for st in iter_event_data([make_event(e) for e in evs], inv, get,
                                  **case['kw']):
            got.append(self.cmpst(st))
            if case['mod'] == 'data':
                for tr in st:
                    tr.data[:] = -1
            elif case['mod'] == 'head':
                for tr in st:
                    tr.stats.station = 'X'
                    tr.stats.onset += 5
                    tr.stats.starttime += 5
            else:
                st.rf(deconvolve=None)
                st.moveout()
        c.eq(snap(archive), before, 'data of the source')
        c.eq(got, want, 'records')
        c.state(case)

    def run_lazy(self, case, c):
        from rf import iter_event_data
        cat = Catalog([make_event(e) for e in ('a', 'c')])
        inv = make_inventory(['CX.A..BH', 'CX.B.00.BH'])
        src = Source()
        it = iter_event_data(cat, inv, src)
        c.op()
        for n in range(4):
            next(it)
            c.check(len(src.requests) == n + 1, 'requests ahead of use')
        c.outcome(1)

    def run_meta(self, case, c):
        from rf.util import iter_event_metadata
        for evs, sites, cat in itertools.product(
                ALPHA['evs'] + [None], ALPHA['sites'], (True, False)):
            inv = make_inventory(sites)
            e = None if evs is None else [make_event(x) for x in evs]
            if e and cat:
                e = Catalog(e)
            pbar = Pbar()
            c.op()
            c.trace()
            got = [plain(m) for m in iter_event_metadata(e, inv, pbar=pbar)]
            want = []
            for x in (evs if evs is not None else [None]):
                for s in sites:
                    n, st, lo, b = s.split('.')
                    m = dict(network=n, station=st, location=lo,
                             channel=b + '?')
                    if x is not None:
                        m['event_time'] = EVENTS[x][2]
                    want.append(plain(m))
            c.eq(sorted(map(repr, got)), sorted(map(repr, want)), 'metadata')
            c.eq((pbar.total, pbar.n), (len(want), len(want)), 'pbar')
            c.state(evs, sites, cat)
        c.outcome(len(want))


CHECK = C()
