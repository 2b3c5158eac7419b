"""C19: processing information"""
import itertools

import numpy as np

from mc.engine import Check, plain
from mc.build import trace, stream, rnd, T0, snap


def raw(nev=2, extra=False, pre=()):
    trs = []
    for i in range(nev):
        for k, comp in enumerate('ZNE'):
            start = T0 + 1000 * i
            d = rnd(60, 5 * i + k)
            d[20] += 20 / (k + 1)
            trs.append(trace('NN.STA..BH' + comp, d, sr=2., start=start,
                             onset=start + 10, event_time=start - 500,
                             event_magnitude=6., station_latitude=10.,
                             station_longitude=50., station_elevation=100.,
                             back_azimuth=250. + 40 * i, inclination=20.,
                             slowness=6. + i, phase='P', distance=55.,
                             pp_latitude=10. + 0.1 * i, pp_longitude=20.))
    if extra:   # single component, not part of a deconvolution
        trs.append(trs[0].copy())
        trs[-1].stats.onset += 5000
        trs[-1].stats.starttime += 5000
    for i, tr in enumerate(trs):
        if pre:
            tr.stats.processing = list(pre) + ['trace %d' % i]
    return stream(trs)


BOXES = None
FILT = {'type': 'lowpass', 'freq': 0.8}


def custom(rsp, src, **kwargs):
    for tr in rsp:
        tr.data = tr.data * 2
    return rsp


class Crs(object):
    def __init__(self):
        import cartopy.crs
        self.obj = cartopy.crs.AzimuthalEquidistant(20, 10)


DEF = {'rf': dict(method=None, filter=None, trim=None, downsample=None,
                  rotate='ZNE->LQT', deconvolve='time',
                  source_components=None),
       'deconvolve': dict(method='time', func=None, source_components='LZ',
                          response_components=None, winsrc='P'),
       'moveout': dict(phase=None, ref=6.4, model='iasp91'),
       'stack': {}, 'profile': dict(crs=None),
       'harmonics': dict(components='R', azim=0, method='time')}
POS = {'rf': ['method', 'filter', 'trim', 'downsample', 'rotate',
              'deconvolve', 'source_components'],
       'deconvolve': ['method', 'func', 'source_components',
                      'response_components', 'winsrc'],
       'moveout': ['phase', 'ref', 'model'], 'stack': [],
       'profile': ['boxes', 'crs'],
       'harmonics': ['components', 'azim', 'method']}
# name: (function, positional arguments, keyword arguments)
CALLS = {
    'rf': ('rf', (), {'deconvolve': None}),
    'rfw': ('rf', ('P', FILT, (-8., 18)),
            {'deconvolve': 'waterlevel', 'waterlevel': 0.1, 'gauss': 2.}),
    'rfS': ('rf', ('S',), {'rotate': None, 'deconvolve': None}),
    'rft': ('rf', (), {'rotate': 'NE->RT', 'winsrc': [-4, 8, 1],
                       'trim': (np.float64(-9.5), np.int64(19)),
                       'downsample': 1, 'spiking': 0.5}),
    'rfi': ('rf', (None,), {'deconvolve': 'iterative', 'itmax': 2,
                            'source_components': 'LZ'}),
    'rff': ('rf', (), {'deconvolve': 'func', 'func': custom,
                       'text': "it's"}),
    'dec': ('deconvolve', ('waterlevel',),
            {'source_components': 'ZL', 'response_components': 'QERT'}),
    'mo': ('moveout', (), {}),
    'mo2': ('moveout', ('Ps',), {'ref': 7}),
    'mo3': ('moveout', ('Ppps', np.float64(5.5), 'iasp91'), {}),
    'stack': ('stack', (), {}),
    'prof': ('profile', ('BOXES',), {}),
    'prof2': ('profile', (), {'boxes': 'BOXES', 'crs': 'CRS'}),
    'har': ('harmonics', ('Q',), {'azim': 30.5}),
    'har2': ('harmonics', (), {'components': 'QT', 'method': 'freq',
                               'scalars': (1, 2)}),
}
CRS = None


def resolve(x):
    if isinstance(x, str) and x == 'BOXES':
        return BOXES
    if isinstance(x, str) and x == 'CRS':
        return CRS.obj
    return x


def parse(entry):
    head, args = entry.split('(', 1)
    assert args.endswith(')')
    args = args[:-1]
    return head, sorted(args.split('::')) if args else []


def fmt(v):
    return "'%s'" % v if isinstance(v, str) else repr(v)


def expected(name, args, kw):
    import rf
    d = dict(DEF[name])
    d.update(zip(POS[name], args))
    d.update(kw)
    if 'boxes' in d:
        p = d.pop('boxes')[0]['profile']
        d.update(latlon=p['latlon'], azimuth=p['azimuth'],
                 length=p['length'])
    return ('rf %s: %s' % (rf.__version__, name),
            sorted('%s=%s' % (k, fmt(v)) for k, v in d.items()))


def own(tr):
    """Entries of rf, the other ones are from ObsPy"""
    return [e for e in tr.stats.get('processing', []) if e[:3] == 'rf ']


class C(Check):
    id = 'C19'
    rule = ('calls %s with positional, keyword and default arguments of all '
            'types; streams with 1 or 2 events, with an additional single '
            'component, with and without earlier entries' % sorted(CALLS))
    bounds = {'quick': 'all histories of up to 3 calls',
              'thorough': 'all histories of up to 4 calls'}
    assumptions = ('less than 100 entries per trace (limit of ObsPy)',)

    def setup(self):
        global BOXES, CRS
        from rf.profile import get_profile_boxes
        BOXES = get_profile_boxes((9.99, 20.), 0, (0, 5, 10, 50), width=20)
        CRS = Crs()

    def cases(self, tier):
        deep = tier == 'thorough'
        base = ({'nev': 1}, {'nev': 2, 'pre': True},
                {'nev': 1, 'extra': True, 'pre': True})
        for n in range(1, 5 if deep else 4):
            for h in itertools.product(CALLS, repeat=n):
                for b in base[:1 if n > 3 else 2 if n == 3 else 3]:
                    yield {'h': h, 'base': b}
        for name in CALLS:
            yield {'k': 'func', 'name': name}
            yield {'k': 'plain', 'name': name}

    def run(self, case, c):
        if case.get('k') == 'func':
            return self.run_func(case, c)
        if case.get('k') == 'plain':
            return self.run_plain(case, c)
        b = dict(case['base'])
        if b.get('pre'):
            b['pre'] = ['rf 0.0: old(a=1)', 'foreign']
        st = raw(**b)
        c.trace()
        args0 = repr((CALLS, [x['profile'] for x in BOXES[:1]]))
        for step, name in enumerate(case['h']):
            st = self.step(st, name, c, 'step %d %s' % (step + 1, name))
            c.state(case['h'][:step + 1], b)
            if st is None:
                break
        c.eq(repr((CALLS, [x['profile'] for x in BOXES[:1]])), args0,
             'arguments of the calls')

    def step(self, st, name, c, msg):
        func, args, kw = CALLS[name]
        args = [resolve(x) for x in args]
        kw = {k: resolve(v) for k, v in kw.items()}
        old = [(tr.id, tr.stats.get('channel')[-1], own(tr)) for tr in st]
        olds = [(tr, list(tr.stats.get('processing', []))) for tr in st]
        groups = {}
        for tr in st:
            groups.setdefault(str(tr.stats.get('onset')), []).append(tr)
        size = {id(tr): len(g) for g in groups.values() for tr in g}
        ntr = list(st.traces)
        phase0 = st[0].stats.get('phase', '') if len(st) else ''
        c.op()
        try:
            res = getattr(st, func)(*args, **kw)
        except Exception as ex:
            want = expected(func, args, kw)
            for tr, p in olds:
                new = [parse(e) for e in own(tr)[len([
                    e for e in p if e[:3] == 'rf ']):]]
                c.check(want not in new, msg + ': failed call recorded')
            c.outcome(func, type(ex).__name__)
            return None
        want = [expected(func, args, kw)]
        if func == 'rf' and kw.get('deconvolve', 'time'):
            meth = dict(zip(POS['rf'], args)).get('method')
            meth = meth or phase0[-1:].upper()
            k2 = {k: v for k, v in kw.items() if k not in DEF['rf']}
            k2.setdefault('winsrc', meth)
            sc = kw.get('source_components')
            dec = expected('deconvolve', (), dict(
                k2, method=kw.get('deconvolve', 'time'),
                source_components=sc or {'P': 'LZ', 'S': 'QR'}[meth]))
        else:
            dec = None
        if func in ('rf', 'moveout', 'deconvolve'):
            pre = {id(tr): p for tr, p in olds}
            for tr in res:
                w = list(want)
                if dec and size[id(tr)] in (2, 3):
                    w = [dec] + want
                p = [e for e in pre[id(tr)] if e[:3] == 'rf ']
                got = own(tr)
                c.eq(got[:len(p)], p, msg + ': earlier entries')
                c.eq([parse(e) for e in got[len(p):]], w,
                     msg + ': entries of %s' % tr.id)
                full = [e for e in tr.stats.processing]
                c.eq(full[:len(pre[id(tr)])], pre[id(tr)],
                     msg + ': all earlier entries')
            kept = {id(tr) for tr in res}
            for tr, p in olds:
                if id(tr) not in kept:
                    c.eq(own(tr), [e for e in p if e[:3] == 'rf '],
                         msg + ': not involved ' + tr.id)
        else:
            for tr in res:
                if func == 'harmonics':
                    p = []
                elif func == 'stack':
                    p = [o for o in old if o[0] == tr.id][0][2]
                else:   # first trace of the same component in the box
                    inbox = [t for t in ntr if t.stats.channel[-1] ==
                             tr.stats.channel[-1] and
                             tr.stats.box_pos - tr.stats.box_length / 2 <
                             1.1057 + 110.6 * (t.stats.pp_latitude - 10) <
                             tr.stats.box_pos + tr.stats.box_length / 2]
                    p = own(inbox[0])
                got = own(tr)
                c.eq(got[:len(p)], p, msg + ': earlier entries')
                c.eq([parse(e) for e in got[len(p):]], want,
                     msg + ': entries of %s' % tr.id)
            for tr, p in olds:
                c.eq(list(tr.stats.get('processing', [])), p,
                     msg + ': source')
        c.outcome(func, len(res))
        return res

    def prepare(self, func):
        st = raw(2 if func != 'deconvolve' else 1)
        if func in ('harmonics', 'moveout', 'profile', 'stack'):
            st.rf(deconvolve=None)
        for tr in st:
            tr.stats.pop('processing', None)
        return st

    def run_func(self, case, c):
        """Functions instead of methods, everything as keyword"""
        import rf
        from rf.profile import profile
        from rf.harmonics import harmonics
        from rf.deconvolve import deconvolve
        func, args, kw = CALLS[case['name']]
        args = [resolve(x) for x in args]
        kw = {k: resolve(v) for k, v in kw.items()}
        want = expected(func, args, kw)
        allkw = dict(zip(POS[func], args), **kw)
        calls = []
        f = {'profile': profile, 'harmonics': harmonics,
             'deconvolve': deconvolve}.get(func)
        if f:
            calls = [lambda s: f(s, *args, **kw),
                     lambda s: f(s, **allkw), lambda s: f(stream=s, **allkw)]
        calls += [lambda s: getattr(s, func)(**allkw),
                  lambda s: getattr(rf.RFStream, func)(s, **allkw),
                  lambda s: getattr(rf.RFStream, func)(self=s, **allkw)
                  if func in ('rf', 'moveout', 'stack') else
                  getattr(s, func)(**allkw)]
        for i, call in enumerate(calls):
            st = self.prepare(func)
            c.op()
            c.trace()
            res = call(st)
            c.check(len(res) > 0, 'no result')
            for tr in res:
                e = [parse(x) for x in own(tr)]
                c.eq(e[-1:], [want], 'entry for call %d' % i)
                c.check(len(e) == 1 or func == 'rf' and len(e) == 2,
                        'number of entries %d', len(e))
            c.state(case, i)

    def run_plain(self, case, c):
        """Recording does not change the result"""
        import rf
        from rf.profile import profile
        from rf.harmonics import harmonics
        func, args, kw = CALLS[case['name']]
        args = [resolve(x) for x in args]
        kw = {k: resolve(v) for k, v in kw.items()}
        f = {'profile': profile, 'harmonics': harmonics,
             'deconvolve': rf.deconvolve.deconvolve if hasattr(
                 rf.deconvolve, 'deconvolve') else rf.deconvolve}.get(
            func, getattr(rf.RFStream, func))
        bare = getattr(f, '__wrapped__', None)
        c.trace()
        if bare is None:
            return
        a, b = self.prepare(func), self.prepare(func)
        c.op(2)
        r1 = f(a, *args, **kw)
        r2 = bare(b, *args, **kw)
        c.check((r1 is a) == (r2 is b), 'identity of the result')
        for r in (r1, r2, a, b):
            for tr in r:
                tr.stats.pop('processing', None)
        c.eq(snap(r1), snap(r2), 'result')
        c.eq(snap(a), snap(b), 'source')
        c.state(case)


CHECK = C()
