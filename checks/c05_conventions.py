"""C05: polarity, time axis and header conventions after rf()"""
import itertools

import numpy as np

from mc.engine import Check, plain
from mc.build import trace, stream, rnd, snap, T0
from mc.rfmodel import rotate

COMPS = ['ZNE', 'ENZ', 'LQT', 'QTL', 'ZRT', 'LQ', 'RZ', 'Q', 'T', 'NZE']
PHASES = ['P', 'S', 'PP', 'SKS', 'PKP', 'p', 's', 'pP', 'sP', 'Pdiff', None]
ONSETS = ['first', 'on', 'off', 'off2', 'mid', 'last', 'before', 'after']
NPTS = [16, 17, 41]
BAD = ['', 'PS', 'p', 's', 'X', 'Ps', 'Sp', 1, 'PP', 'SP', ' P']
SR = [10., 3.]


def onset(kind, start, npts, sr):
    last = (npts - 1) / sr
    return start + {'first': 0, 'on': 4 / sr, 'off': 4.3 / sr,
                    'off2': 4.75 / sr, 'mid': last / 2, 'last': last,
                    'before': -2.2 / sr, 'after': last + 3.6 / sr}[kind]


def build(comps, phase, ons, npts, sr, baz=123., inc=20.):
    st = stream([trace('CX.PB01..BH' + co, rnd(npts, k), sr=sr, start=T0,
                       back_azimuth=baz, inclination=inc,
                       onset=onset(ons, T0, npts, sr), slowness=6.)
                 for k, co in enumerate(comps)])
    if phase is not None:
        for tr in st:
            tr.stats.phase = phase
    return st


class C(Check):
    id = 'C05'
    rule = ('components %s x phase %s x onset %s x npts %s x sampling rate '
            '%s x method None/P/S x rotation x deconvolution off/recording '
            'function; all invalid methods %s; mixed phases'
            % (COMPS, PHASES, ONSETS, NPTS, SR, BAD))
    bounds = {'quick': 'complete product for deconvolution off with 2 '
                       'lengths, deconvolution for all components and '
                       'methods',
              'thorough': 'complete product'}

    def cases(self, tier):
        for comps in COMPS:
            rots = [None]
            if set(comps) == set('ZNE'):
                rots = [None, 'ZNE->LQT', 'NE->RT', 'default']
            for rot in rots:
                for phase in PHASES:
                    yield dict(kind='plain', comps=comps, rot=rot,
                               phase=phase,
                               npts=NPTS[:2] if tier == 'quick' else NPTS)
        for comps in COMPS[:7]:
            for phase in ('P', 'S', 'PP', 'SKS'):
                for m in ('P', 'S', None):
                    yield dict(kind='decon', comps=comps, phase=phase,
                               method=m)
        yield dict(kind='bad')

    def run(self, case, c):
        getattr(self, case['kind'])(case, c)

    def plain(self, case, c):
        comps, phase = case['comps'], case['phase']
        for method, ons, npts, sr, baz in itertools.product(
                (None, 'P', 'S'), ONSETS, case['npts'], SR, (123., 300.)):
            if baz == 300. and (case['rot'] is None or ons != 'off'):
                continue
            st = build(comps, phase, ons, npts, sr, baz)
            ref = build(comps, phase, ons, npts, sr, baz)
            kw = {} if case['rot'] == 'default' else {'rotate': case['rot']}
            m = 'components %s phase %s method %s onset %s npts %d %s: ' % (
                comps, phase, method, ons, npts, kw)
            eff = method
            if eff is None and phase is not None:
                eff = phase[-1].upper()
            before = snap(st)
            c.op()
            c.trace()
            if eff not in ('P', 'S'):
                c.raises(ValueError, lambda: st.rf(
                    method=method, deconvolve=None, **kw), m)
                c.eq(snap(st), before, m + 'stream changed')
                continue
            st.rf(method=method, deconvolve=None, **kw)
            self.compare(c, st, ref, eff, phase, case['rot'], m)
            c.state(st)
        c.outcome(case)

    def compare(self, c, st, ref, eff, phase, rot, m):
        data = [(tr.stats.channel[-1], tr.data) for tr in ref]
        if rot:
            data = rotate(data, 'NE->RT' if rot == 'NE->RT' else 'ZNE->LQT',
                          ref[0].stats.back_azimuth,
                          ref[0].stats.inclination)
        c.eq([tr.stats.channel for tr in st], ['BH' + d[0] for d in data],
             m + 'channels')
        for tr, r, (comp, d) in zip(st, ref, data):
            if comp == 'Q':
                d = -d
            o = r.stats.onset
            if eff == 'S':
                d = d[::-1]
                o = r.stats.starttime + (r.stats.endtime - r.stats.onset)
            c.close(tr.data, d, m + 'data of ' + comp, rtol=1e-9)
            c.check(abs(tr.stats.onset - o) < 1e-6,
                    m + 'onset at %.6f instead of %.6f' % (
                        tr.stats.onset - r.stats.starttime,
                        o - r.stats.starttime))
            c.eq(plain(tr.stats.starttime), plain(r.stats.starttime),
                 m + 'starttime')
            c.eq(tr.stats.type, 'rf', m + 'type')
            p = phase if phase and phase[-1].upper() == eff else eff
            c.eq(tr.stats.phase, p, m + 'phase')
        c.eq(st.method, eff, m + 'method')
        c.eq(st.type, 'rf', m + 'type')

    def decon(self, case, c):
        """Default source components and windows seen by custom function"""
        seen = []

        def func(rsp, src, tshift=None, **kw):
            seen.append((src.id, [tr.id for tr in rsp], src.stats.starttime,
                         src.stats.npts, tshift, kw))
            return rsp
        comps, phase, method = case['comps'], case['phase'], case['method']
        eff = method or phase[-1]
        for ons, npts, srcc in itertools.product(
                ('on', 'off', 'off2'), (16, 17), (None, 'T', 'QT', 'LZR')):
            st = build(comps, phase, ons, npts, 10.)
            ref = build(comps, phase, ons, npts, 10.)
            full = set(comps) == set('ZNE')
            cc = [x[0] for x in rotate([(x, np.zeros(3)) for x in comps],
                                       'ZNE->LQT', 0, 0)] if full else comps
            want = srcc or ('LZ' if eff == 'P' else 'QR')
            src = [x for x in cc if x in want]
            kw = dict(method=method, rotate='ZNE->LQT' if full else None,
                      deconvolve='func', func=func)
            if srcc:
                kw['source_components'] = srcc
            m = 'components %s phase %s method %s onset %s src %s: ' % (
                comps, phase, method, ons, srcc)
            seen[:] = []
            c.op()
            c.trace()
            if len(src) != 1:
                c.raises(ValueError, lambda: st.rf(**kw), m)
                continue
            st.rf(**kw)
            c.eq(len(seen), 1, m + 'number of calls')
            sid, rids, start, n, tshift, kwargs = seen[0]
            c.eq(sid[-1], src[0], m + 'source component')
            c.eq([r[-1] for r in rids], list(cc), m + 'response components')
            c.eq(tshift, 10, m + 'tshift')
            c.eq(kwargs.get('normalize'), list(cc).index(src[0]),
                 m + 'normalize')
            # nearest sample
            t = {'on': 4, 'off': 4, 'off2': 5}[ons] / 10.
            o = T0 + t
            c.check(abs(start - (o - 10)) < 1e-6, m + 'source window')
            c.eq(n, 401, m + 'length of source window')
            for r in ref:
                r.stats.onset = o
            self.compare(c, st, ref, eff, phase,
                         'ZNE->LQT' if full else None, m)
            c.state(st)
            c.outcome(seen[0][0], seen[0][1])

    def bad(self, case, c):
        for bad in BAD:
            for phase in PHASES:
                for dec in (None, 'time'):
                    st = build('ZNE', phase, 'on', 16, 10.)
                    before = snap(st)
                    c.op()
                    c.trace()
                    c.raises(ValueError, lambda: st.rf(
                        method=bad, deconvolve=dec,
                        trim=(-0.2, 0.5), filter=dict(
                            type='lowpass', freq=2.)),
                        'method %r phase %s' % (bad, phase))
                    c.eq(snap(st), before, 'stream changed with bad method')
                    c.state(bad, phase)
        # different phases in one stream, method cannot be determined
        for phases in itertools.product(('P', 'S', 'PP', None), repeat=3):
            ps = set(phases) - {None}
            st = build('LQT', None, 'on', 16, 10.)
            ref = build('LQT', None, 'on', 16, 10.)
            for tr, p in zip(st, phases):
                if p:
                    tr.stats.phase = p
            before = snap(st)
            c.op()
            if len(ps) != 1:
                c.raises(ValueError, lambda: st.rf(rotate=None,
                                                   deconvolve=None),
                         'phases %s' % (phases,))
                c.eq(snap(st), before, 'stream changed')
            else:
                st.rf(rotate=None, deconvolve=None)
                p = ps.pop()
                c.eq([tr.stats.phase for tr in st],
                     [q or p[-1] for q in phases], 'phases %s' % (phases,))
            # explicit method, phases which do not fit are replaced
            for method in 'PS':
                st = build('LQT', None, 'on', 16, 10.)
                for tr, p in zip(st, phases):
                    if p:
                        tr.stats.phase = p
                st.rf(method=method, rotate=None, deconvolve=None)
                c.op()
                c.eq([tr.stats.get('phase') for tr in st],
                     [p if p and p[-1] == method else method
                      for p in phases],
                     'phases %s method %s' % (phases, method))
            c.state(phases)


CHECK = C()
