"""C06: deconvolution recovers spikes at the right time and amplitude"""
import itertools
import os

import numpy as np

from mc.engine import Check
from mc.build import trace, stream, pairwise_deviation, T0

DEFAULT = dict(method='time', m='P', sr=5., parity=0, opar=0, frac=0.,
               win='def', order='LQT', delay=[3., 5.2], amp=[0.5, -0.3],
               scale=1., how='rf', src='wavelet', taps=1)
ALPHA = dict(method=['time', 'waterlevel', 'iterative', 'multitaper'],
             m=['P', 'S'], sr=[5., 10., 4., 12.5], parity=[0, 1],
             opar=[0, 1], frac=[0., 0.3, -0.4],
             win=['def', 'a', 'b', 'c', 'd'],
             order=['LQT', 'QLT', 'TQL', 'ZRT', 'LQ'],
             delay=[[3., 5.2], [0., 1.], [8., -4.], [0.4, 12.]],
             amp=[[0.5, -0.3], [-0.8, 0.2], [0.2, 0.9]],
             scale=[1., 1e-9, 1e6], how=['rf', 'deconvolve'],
             src=['wavelet', 'double', 'neg'], taps=[1, 2])
# windows around the onset
WIN = {'a': (-5., 15., 2.), 'b': (-4.1, 11.3, 1.), 'c': (-2., 8.1, 0.5),
       'd': (-8.3, 20., 0.)}
# relative tolerance of the amplitude
ATOL = {'time': 0.06, 'waterlevel': 0.06, 'iterative': 0.05,
        'multitaper': None}


def synth(case):
    """Return stream, onset index, expected (component, delay, amplitude)"""
    sr, m = case['sr'], case['m']
    n = int(90 * sr) + case['parity']
    n -= n % 2 - case['parity'] if n % 2 != case['parity'] else 0
    i0 = int((50 if m == 'S' else 35) * sr)
    i0 += (i0 + case['opar']) % 2
    t = (np.arange(n) - i0) / sr
    a = 0.35
    w = np.exp(-(t / a) ** 2)
    if case['src'] == 'double':
        w = w - 0.4 * np.exp(-((t - 1.2) / a) ** 2)
    elif case['src'] == 'neg':
        w = -w
    w = w * case['scale']
    comps = case['order']
    main = [x for x in comps if x in ('LZ' if m == 'P' else 'QR')][0]
    others = [x for x in comps if x != main]
    sign = 1 if m == 'P' else -1
    data, exp = {main: w}, []
    for k, co in enumerate(others):
        d = int(round(case['delay'][k] * sr))
        spikes = [(d, case['amp'][k])]
        if case['taps'] == 2:
            spikes.append((d + int(round(6 * sr)), case['amp'][k] / 2.5))
        x = np.zeros(n)
        for s, amp in spikes:
            x += amp * np.roll(w, sign * s)
        data[co] = x
        exp.append((co, spikes))
    onset = T0 + (i0 + case['frac']) / sr
    st = stream([trace('CX.PB01..BH' + co, data[co], sr=sr, start=T0,
                       onset=onset, phase=m, slowness=6.) for co in comps])
    return st, i0, main, exp


class C(Check):
    id = 'C06'
    rule = ('noise-free records source*spikes; dimensions %s' % ALPHA)
    bounds = {'quick': 'all cases deviating from the default case of each of '
                       'the 4 methods and P/S in up to 2 dimensions',
              'thorough': 'up to 3 dimensions'}
    assumptions = ('wavelets are short compared to the windows, spikes lie '
                   'within the trace; tolerance one sample and %s of the '
                   'source peak; for multitaper only the sign and a factor of '
                   '0.2 to 1.2 are demanded of the amplitude' % ATOL,)

    def setup(self):
        st, _, _, _ = synth(dict(DEFAULT, method='multitaper'))
        st.deconvolve(method='multitaper')

    def cases(self, tier):
        alpha = {k: v for k, v in ALPHA.items() if k not in ('method', 'm')}
        for method in ALPHA['method']:
            for m in ALPHA['m']:
                base = dict(DEFAULT, method=method, m=m)
                if m == 'S' and method == 'multitaper':
                    pass
                for d in pairwise_deviation(base, alpha,
                                            2 if tier == 'quick' else 3):
                    yield d

    def run(self, case, c):
        st, i0, main, exp = synth(case)
        sr = case['sr']
        kw = {}
        if case['win'] != 'def':
            kw['winsrc'] = WIN[case['win']]
        elif case['how'] == 'deconvolve':
            kw['winsrc'] = case['m']
        if case['method'] in ('waterlevel', 'iterative', 'multitaper'):
            kw['gauss'] = 0.8
        if case['method'] == 'multitaper':
            kw.update(K=3, tband=2.5, T=10)
        S = case['m'] == 'S'
        c.op()
        n = len(st[0])
        if case['how'] == 'rf':
            st.rf(deconvolve=case['method'], rotate=None, **kw)
            idx = n - 1 - i0 if S else i0
        else:
            st.deconvolve(method=case['method'], source_components='QR' if S
                          else 'LZ', **kw)
            idx = i0
        c.close((st[0].stats.onset - st[0].stats.starttime) * sr, idx,
                'onset index', atol=1e-3)
        flip = case['how'] == 'rf'
        sdir = -1 if (S and case['how'] == 'deconvolve') else 1
        norm = {tr.stats.channel[-1]: tr.data for tr in st}
        ms = -1 if flip and main == 'Q' else 1
        tol = ATOL[case['method']]
        d = norm[main]
        c.close(np.max(d), 1, 'maximum of source component', atol=1e-6)
        peak = int(np.argmax(np.abs(d)))
        c.check(abs(peak - idx) <= 1, 'source component peaks at sample %d '
                'instead of onset %d' % (peak, idx))
        for co, spikes in exp:
            d = norm[co] * (-1 if flip and co == 'Q' else 1) * ms
            s, amp = spikes[0]
            want = idx + sdir * s
            peak = int(np.argmax(np.abs(d)))
            c.check(abs(peak - want) <= 1, 'component %s: extremum at sample '
                    '%d instead of %d (onset %d)' % (co, peak, want, idx))
            for s, amp in spikes:
                want = idx + sdir * s
                got = d[max(0, want - 1):want + 2]
                got = got[np.argmax(np.abs(got))]
                if case['method'] == 'multitaper':
                    # amplitude decays with delay by design of the tapers
                    ok = s != spikes[0][0] or 0.2 <= got / amp <= 1.2
                else:
                    ok = abs(got - amp) <= tol
                c.check(ok, 'component %s: amplitude %.3f instead of %.3f at '
                        'sample %d' % (co, got, amp, want))
        c.state(case, st)
        c.outcome(case['method'], case['m'], peak - idx)


CHECK = C()
