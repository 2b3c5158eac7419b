"""C04: rf() of a collection is rf() of each record on its own"""
import itertools

import numpy as np

from mc.engine import Check, plain, stats_dict
from mc.build import trace, stream, rnd, product_dict, T0
from mc.rfmodel import record_rf

# records: id prefix, components, event (onset offset), number of samples,
# sampling rate, onset within trace, phase
RECORDS = {
    'a': ('CX.A..BH', 'ZNE', 0, 80, 5., 8.0),
    'b': ('CX.B.00.BH', 'ZNE', 0, 80, 5., 8.0),      # other station
    'c': ('CX.A..BH', 'ZNE', 500, 81, 5., 8.08),     # other event, off sample
    'd': ('CX.A.10.BH', 'NZE', 0, 120, 10., 7.5),    # location, order
    'e': ('CX.A..HH', 'ENZ', 0, 125, 10., 7.0),      # band, order
    'f': ('XX.A..BH', 'ZNE', 0.001, 75, 5., 7.2),    # nearly same onset
    'z': ('CX.A..LH', 'Z', 0, 80, 5., 8.0),          # incomplete
    'h': ('CX.D..BH', 'ZNE', 0, 80, 5., 8.0),        # E ends early
    'i': ('CX.D..BH', 'EZN', 300, 80, 5., 8.0),      # E ends early
    'j': ('CX.A..BH', 'ZNE', 3, 80, 5., 11.0),       # start time of a
    'k': ('CX.E..BH', 'ZNE', 0, 80, 5., 8.0),        # E starts late
    'g': ('CX.C..BH', 'ZNE', 0, 80, 5., 32.),        # onset beyond data
}
OPTS = {
    'rot': dict(deconvolve=None),
    'rt': dict(deconvolve=False, rotate='NE->RT'),
    'none': dict(deconvolve=None, rotate=None),
    'filter': dict(deconvolve=None, filter=dict(type='bandpass', freqmin=0.5,
                                                freqmax=2.)),
    'trim': dict(deconvolve=None, trim=(-2, 4.5)),
    'down': dict(deconvolve=None, downsample=2.5),
    'down3': dict(deconvolve=None, downsample=3.),
    'pre': dict(deconvolve=None, rotate=None, downsample=5.,
                filter=dict(type='highpass', freq=0.5), trim=(-1.5, 3)),
    'time': dict(winsrc=(-1, 2, 0.5)),
    'timeS': dict(rotate='NE->RT', winsrc=(-1, 2, 0.5), spiking=2.,
                  normalize=None),
    'length': dict(winsrc=(-1, 2, 0.5), length=50),
    'water': dict(deconvolve='waterlevel', gauss=1.5, waterlevel=0.02),
    'water2': dict(deconvolve='waterlevel', winsrc=(-1, 3, 0.5),
                   filter=dict(type='lowpass', freq=2.), trim=(-2.5, 4),
                   normalize=1),
    'iter': dict(deconvolve='iterative', itmax=3, gauss=2.),
    'multi': dict(deconvolve='multitaper', winsrc=(-1, 1, 0.2), T=2., K=2,
                  tband=2.5, gauss=2.),
    'trimrt': dict(deconvolve=None, rotate='NE->RT', trim=(-2, 4.5)),
    'trimdec': dict(rotate=None, winsrc=(-1, 2, 0.5), trim=(-2, 4.5),
                    source_components='Z'),
    'trimwat': dict(deconvolve='waterlevel', winsrc=(-1, 2, 0.5), trim=(-3, 6),
                    source_components='Z', rotate='NE->RT'),
    'norot': dict(rotate=None, winsrc=(-1, 2, 0.5), source_components='Z'),
    'func': dict(deconvolve='func', winsrc=(-1, 2, 0.5), fact=3.),
    'funcnew': dict(deconvolve='func', winsrc=(-1, 2, 0.5), fact=-2.,
                    new=True),
    'src': dict(source_components='T', winsrc=(-1, 2, 0.5)),
    'rsp': dict(response_components='QT', winsrc=(-1, 2, 0.5)),
    'full': dict(winsrc=(-1, 1.5, 0.2), downsample=2.5, trim=(-2, 4.5),
                 filter=dict(type='bandpass', freqmin=0.2, freqmax=1.)),
}
NOZ = ('rsp', 'src')


def custom(rsp, src, tshift=10, fact=1., new=False, **kw):
    """Custom deconvolution, in-place or returning new traces"""
    if new:
        rsp = rsp.copy()
    for k, tr in enumerate(rsp):
        tr.data = tr.data * fact + src.data[:1].sum() * k + tshift
        tr.stats.note = 'x%d' % len(src)
    return rsp


def build(names, phase):
    recs = []
    for j, n in enumerate(names):
        pre, comps, off, npts, sr, ons = RECORDS[n]
        onset = T0 + off
        recs.append([trace(
            pre + co, rnd(20 if n in 'hi' and co == 'E' else npts,
                          3 * ord(n) % 17 + k) * (1 + k), sr=sr,
            start=onset - ons + (2. if n == 'k' and co == 'E' else 0.),
            onset=onset, phase=phase,
            back_azimuth=20. + 70 * (ord(n) % 5), inclination=10. + ord(n) % 7,
            event_id=n, slowness=5. + j, distance=40.)
            for k, co in enumerate(comps)])
    return recs


class C(Check):
    id = 'C04'
    rule = ('streams made of records %s, permutations of all traces, option '
            'sets %s, methods P and S' % (
                {k: v[:3] for k, v in RECORDS.items()}, sorted(OPTS)))
    bounds = {'quick': 'all single records and all pairs, all option sets, '
                       '4 orders; all permutations of 2 records (6 traces) '
                       'for 3 option sets; triples for 4 option sets',
              'thorough': 'all records, pairs and triples x all option sets '
                          'x 6 orders, all permutations of 2 records for 8 '
                          'option sets'}

    def setup(self):
        # load of multitaper package
        st = stream(build('a', 'P')[0])
        st.rf(method='P', **OPTS['multi'])

    def cases(self, tier):
        quick = tier == 'quick'
        names = [n for n in RECORDS if n not in 'ghik']
        combos = [[a] for a in names]
        combos += [list(x) for x in itertools.combinations(names, 2)]
        orders = ['id', 'rev', 'inter', 'swap'] + ([] if quick else
                                                  ['rot', 'sort'])
        for opt in OPTS:
            for combo in combos:
                for m in 'PS':
                    yield dict(recs=combo, opt=opt, method=m, orders=orders)
        trip = [list(x) for x in itertools.combinations(names, 3)]
        for opt in (['rot', 'time', 'pre', 'funcnew'] if quick else OPTS):
            for combo in trip:
                yield dict(recs=combo, opt=opt, method='P', orders=orders[1:3])
        for opt in ['rot', 'none', 'trim']:
            yield dict(recs=['g'], opt=opt, method='P', orders=orders)
            yield dict(recs=['a', 'g'], opt=opt, method='S', orders=orders)
        for opt in ['trimrt', 'trimdec', 'trimwat']:
            for combo in ([['h'], ['i'], ['h', 'i'], ['h', 'g'], ['a', 'g']] +
                          [[a, b] for a in 'abcdf' for b in 'hi'] +
                          [['h', a, 'i'] for a in 'abcdf']):
                for m in 'PS':
                    yield dict(recs=combo, opt=opt, method=m, orders=orders)
        for opt in ['trimrt', 'trimdec', 'trimwat', 'trim', 'none', 'norot']:
            for combo in [['k'], ['a', 'k'], ['k', 'j', 'a'], ['h', 'k']]:
                if opt == 'trim' and 'h' in combo:
                    continue
                for m in 'PS':
                    yield dict(recs=combo, opt=opt, method=m, orders=orders)
        popts = ['rot', 'func', 'none'] + ([] if quick else [
            'rt', 'trim', 'time', 'water', 'pre'])
        pairs = [('a', 'c'), ('a', 'b')] if quick else [
            ('a', 'c'), ('a', 'b'), ('e', 'a'), ('d', 'f')]
        for opt in popts:
            for pair in pairs:
                for first in range(6):
                    for sec in range(6):
                        if sec != first:
                            yield dict(recs=list(pair), opt=opt, method='P',
                                       perm=[first, sec])

    def orders(self, case, recs):
        flat = [tr for r in recs for tr in r]
        if 'perm' in case:
            rest = [i for i in range(6) if i not in case['perm']]
            for p in itertools.permutations(rest):
                yield [flat[i] for i in case['perm'] + list(p)]
            return
        for o in case['orders']:
            if o == 'id':
                yield flat
            elif o == 'rev':
                yield flat[::-1]
            elif o == 'inter':
                yield [tr for x in itertools.zip_longest(*recs)
                       for tr in x if tr is not None]
            elif o == 'swap':
                yield flat[1::2] + flat[::2]
            elif o == 'rot':
                yield flat[2:] + flat[:2]
            elif o == 'sort':
                yield sorted(flat, key=lambda tr: tr.stats.channel[-1])

    def run(self, case, c):
        opts = dict(OPTS[case['opt']])
        if opts.get('deconvolve') == 'func':
            opts['func'] = custom
        recs = build(case['recs'], case['method'])
        if case['method'] == 'S' and case['opt'] in ('src',):
            pass
        for flat in self.orders(case, recs):
            c.trace()
            # model: each record on its own, in the order within the stream
            want = {}
            for rec in recs:
                st = stream([tr.copy() for tr in flat
                             if any(tr is t for t in rec)])
                keys = [id(tr) for tr in flat if any(tr is t for t in rec)]
                keep = list(st.traces)
                record_rf(st, case['method'], opts)
                for k, tr in zip(keys, keep):
                    if any(tr is t for t in st):
                        want[k] = tr
            st = stream([tr.copy() for tr in flat])
            byobj = {id(t): id(o) for t, o in zip(st.traces, flat)}
            held = list(st.traces)   # keep ids valid
            ret = st.rf(method=case['method'], **opts)
            c.op()
            m = 'records %s options %s method %s order %s: ' % (
                case['recs'], case['opt'], case['method'],
                [tr.id for tr in flat])
            c.check(ret is st, m + 'rf() has to return the stream')
            got = [byobj.get(id(t)) for t in st]
            c.eq(got, [id(tr) for tr in flat if id(tr) in want],
                 m + 'traces of the stream')
            for tr, k in zip(st, got):
                w = want[k]
                a = {x: plain(v) for x, v in stats_dict(
                    tr, drop=('processing',)).items()}
                b = {x: plain(v) for x, v in stats_dict(
                    w, drop=('processing',)).items()}
                c.eq(a, b, m + 'headers of %s' % tr.id)
                c.close(tr.data, w.data, m + 'data of %s' % tr.id, rtol=1e-7)
            c.state(case['opt'], case['method'], st)
            del held
        c.outcome(case['recs'], case['opt'])


CHECK = C()
