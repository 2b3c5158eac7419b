"""C02: writing has no side effects, also with faults at every access"""
import hashlib
import itertools
import json
import os

import numpy as np

from mc import faults
from mc.engine import Check, plain, stats_dict
from mc.build import trace, stream, rnd, T0

EV = dict(event_time=T0 - 600, onset=T0 + 1, type='rf', phase='P',
          station_latitude=-21.0, station_longitude=-69.5, event_latitude=3.,
          event_longitude=44., event_depth=10.5, event_magnitude=6.,
          slowness=6.4, event_id='e1')


def build(kind):
    if kind == 'rf':
        return stream([trace('CX.PB0%d.%s.BH%s' % (i // 2 + 1, '0' * (i % 2),
                                                   'QLT'[i]), rnd((1, 8, 5)[i], i), **EV)
                       for i in range(3)])
    if kind == 'one':
        return stream([trace('CX.PB01..BHZ', rnd(8, 0), **EV)])
    if kind == 'raw':
        return stream([trace('CX.PB01..BH' + c, rnd(8, 0)) for c in 'ZN'])
    if kind == 'profile':
        return stream([trace('...??Q', rnd(8, i), start=0, onset=T0,
                             type='profile', box_pos=5. + i,
                             box_length=2., num=i) for i in range(2)])
    if kind == 'harmonic':
        return stream([trace('CX.PB01.mod.%d' % i, rnd(8, i), onset=T0 + 1,
                             type='harmonic', term='cos', components='RT',
                             phase='P') for i in range(2)])
    if kind == 'masked':
        st = build('rf')
        st[1].data = np.ma.masked_array(st[1].data, mask=[0, 1] + 6 * [0])
        return st
    if kind == 'badprofile':     # index of HDF5 cannot be filled
        st = build('profile')
        del st[1].stats.box_pos
        return st
    if kind == 'mixed':
        st = build('rf')
        st[2].stats.type = 'profile'
        return st
    if kind == 'empty':
        return stream([])


KINDS = ['one', 'rf', 'raw', 'profile', 'harmonic', 'masked', 'badprofile',
         'mixed', 'empty']
OPS = ['SAC', 'Q', 'H5', 'q', 'Qcompat', 'Qtrace', 'SACtrace', 'H5trace',
       'XYZ', 'MSEED', 'Qnodir', 'H5nodir', 'H5keep']
INDICES = [None, 'user/{network}/{station}/{location}/{channel}_'
                 '{starttime.datetime:%Y-%m-%dT%H:%M:%S}']


def write(st, op, d):
    fmt = op.replace('trace', '').replace('compat', '').replace(
        'nodir', '').replace('keep', '')
    name = 'nodir/f' if op.endswith('nodir') else 'f'
    if fmt == 'H5':
        name += '.h5'
    fname = os.path.join(d, name)
    kw = {}
    if op.endswith('compat'):
        kw['sh_compat'] = True
    if op.endswith('keep'):
        kw.update(mode='a', override='raise')
    if op.endswith('trace'):
        for i, tr in enumerate(st):
            tr.write(fname.replace('/f', '/f%d' % i), fmt, **kw)
    else:
        st.write(fname, fmt, **kw)


def view(st):
    return [(id(tr), tr.id,
             plain(stats_dict(tr, drop=('sac', 'sh', '_format'))),
             plain(tr.data)) for tr in st]


def h5content(fname):
    import h5py
    out = []

    def visit(name, obj):
        at = sorted((k, repr(v.tolist() if hasattr(v, 'tolist') else v))
                    for k, v in obj.attrs.items() if k != '_json')
        if '_json' in obj.attrs:
            js = json.loads(obj.attrs['_json'])
            at.append(('_json', sorted((k, repr(v)) for k, v in js.items()
                                       if k not in ('sac', 'sh'))))
        at = [a for a in at if a != ('_json', [])]
        out.append((name, at, obj[()].tolist() if isinstance(
            obj, h5py.Dataset) else None))
    with h5py.File(fname, 'r') as f:
        f.visititems(visit)
    return sorted(out, key=repr)


def content(d):
    """Content of the files in directory"""
    out = []
    for root, _, files in os.walk(d):
        for f in sorted(files):
            fn = os.path.join(root, f)
            if f.endswith('.h5'):
                out.append((f, h5content(fn)))
            else:
                with open(fn, 'rb') as fh:
                    out.append((f, hashlib.sha1(fh.read()).hexdigest()))
    return sorted(out)


class C(Check):
    id = 'C02'
    level = 'model_checking'
    rule = ('streams %s x histories of writes %s x user index of obspyh5 '
            'set/not set; a fault (OSError or KeyboardInterrupt) is injected '
            'at every file open, HDF5 file/group/dataset/attribute creation '
            'of the history; afterwards every write is compared with the '
            'write of a fresh stream' % (KINDS, OPS))
    bounds = {'quick': 'histories of 1 faulty write at every fault point '
                       'followed by every fault-free write; histories of 2 '
                       'faulty writes (every point x first two points)',
              'thorough': 'histories of 2 faulty writes, all fault points, '
                          'followed by every fault-free write'}
    assumptions = ('faults are injected where rf and its libraries open or '
                   'create something; torn content of a single write(2) is '
                   'the business of the file formats, not of rf',)

    def setup(self):
        faults.install()
        self.fresh = {}     # files written from a fresh stream
        import obspyh5
        self.default = obspyh5._INDEX

    def cases(self, tier):
        for kind in KINDS:
            for i in range(len(INDICES)):
                for op in OPS:
                    yield dict(kind=kind, index=i, op=op, deep=False)
        for kind in KINDS:
            for op in OPS:
                for op2 in OPS:
                    yield dict(kind=kind, index=0, op=op, op2=op2,
                               deep='all' if tier != 'quick' else 'first')

    def attempt(self, c, st, op, at, kind):
        """Write with fault, check that nothing changed. Return if hit"""
        import obspyh5
        d = os.path.join(c.tmp, 'd%d' % self.nd)
        self.nd += 1
        os.mkdir(d)
        before, order = view(st), list(st.traces)
        index = obspyh5._INDEX
        what = 'ok'
        inj = faults.inject(d, at, kind)
        with inj:
            try:
                write(st, op, d)
            except KeyboardInterrupt as ex:
                if not isinstance(ex, faults.Interrupt):
                    raise
                what = 'int'
            except Exception as ex:
                what = type(ex).__name__
        c.op()
        m = 'history %s, fault %s at %s (%s): ' % (
            self.hist + [op], kind, at, what)
        c.check(obspyh5._INDEX == index, m + 'obspyh5 index is %r, was %r' %
                (obspyh5._INDEX, index))
        c.check(len(st) == len(order) and
                all(a is b for a, b in zip(st, order)),
                m + 'traces of stream were exchanged')
        c.eq([x[1] for x in view(st)], [x[1] for x in before], m + 'ids')
        c.eq(view(st), before, m + 'headers or data')
        c.state(self.hist, op, at, kind, what, inj.hit)
        c.outcome(op, what, inj.hit)
        return inj.hit is not None, what, d

    def final(self, c, case, st):
        """Every format gives the same files as for a fresh stream"""
        for op in ('SAC', 'Q', 'H5', 'H5trace'):
            r1 = self.attempt(c, st.copy(), op, None, 'os')
            key = (case['kind'], case['index'], op)
            if key not in self.fresh:
                fresh = build(case['kind'])
                r2 = self.attempt(c, fresh, op, None, 'os')
                self.fresh[key] = (r2[1], content(r2[2]))
            want = self.fresh[key]
            c.eq(r1[1], want[0], 'outcome of %s after %s' % (op, self.hist))
            c.eq(content(r1[2]), want[1],
                 'files of %s after %s' % (op, self.hist))

    def run(self, case, c):
        import obspyh5
        self.nd = 0
        try:
            obspyh5.set_index(INDICES[case['index']] or self.default)
            if not case['deep']:
                self.hist = []
                r = self.attempt(c, build(case['kind']), case['op'], None,
                                 'os')
                for kind in faults.KINDS:
                    for at in itertools.count():
                        self.hist = []
                        c.trace()
                        st = build(case['kind'])
                        hit, what, _ = self.attempt(c, st, case['op'], at,
                                                    kind)
                        self.hist = [case['op'], kind, at]
                        if case['index'] == 0 and (
                                at == 0 or hit and kind == 'os'):
                            self.final(c, case, st)
                        if not hit:
                            break
                return
            lim = 2 if case['deep'] == 'first' else 99
            for at in range(lim):
                for at2 in range(lim):
                    self.hist = []
                    c.trace()
                    st = build(case['kind'])
                    hit, _, _ = self.attempt(c, st, case['op'], at, 'os')
                    self.hist = [case['op'], at]
                    hit2, _, _ = self.attempt(c, st, case['op2'], at2, 'os')
                    if case['deep'] == 'all':
                        self.hist += [case['op2'], at2]
                        self.final(c, case, st)
                    if not hit2:
                        break
                if not hit:
                    break
        finally:
            obspyh5.set_index(self.default)


CHECK = C()
