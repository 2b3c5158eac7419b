"""C01: metadata and samples survive SAC, Q, HDF5 and conversions"""
import itertools
import json
import os

import numpy as np

from mc.engine import Check, plain, stats_dict
from mc.build import trace, stream, rnd, product_dict, pairwise_deviation, T0, UTC

HEAD = ['station_latitude', 'station_longitude', 'station_elevation',
        'event_latitude', 'event_longitude', 'event_depth', 'event_magnitude',
        'event_time', 'onset', 'type', 'phase', 'moveout', 'distance',
        'back_azimuth', 'inclination', 'slowness', 'pp_latitude',
        'pp_longitude', 'pp_depth', 'box_pos', 'box_length']
COMMENT = ['station_latitude', 'station_longitude', 'station_elevation',
           'type', 'phase', 'moveout', 'pp_latitude', 'pp_longitude',
           'pp_depth', 'box_pos', 'box_length']
H5ONLY = {'event_id': 'smi:local/ev1', 'slowness_before_moveout': 5.4321,
          'num': 7, 'iterations': 3, 'components': 'RT', 'term': 'cos2',
          'box_latitude': -21.5, 'box_longitude': 179.99,
          'profile_azimuth': 0.0}
VALUES = {
    'typ': dict(zip(HEAD, [-21.0432, -69.4874, 920.5, -33.1235, 179.9876,
                           35.25, 6.3, 0, 0, 'rf', 'P', 'Ps', 46.123456,
                           123.4567, 20.5123, 6.41234, -21.12345, -69.7654,
                           50.25, 12.5, 25.75])),
    'zero': dict(zip(HEAD, [0.] * 7 + [0, 0, 'rf', 'S', 'Sp'] + [0.] * 9)),
    'neg': dict(zip(HEAD, [-90., -180., -3000.5, -0.001, -179.999, -1.5,
                           -0.4, 0, 0, 'rf', 'PP', 'Ppss'] +
                    [0.5, -0.25, -12.345, -1.2345, -89.9, -0.00012345,
                     -2.25, -1234.5, 0.001])),
    'sent': dict(zip(HEAD, [12.3456, -123.456, -1234.5, 1.23, -123.45,
                            123.4, 1.2345, 0, 0, 'rf', 'pP', 'Psss', 123.45,
                            12.3, 123.4, 12.34567, -12.345678, 123.4567,
                            1234.5, -123.75, 12.5])),
    'big': dict(zip(HEAD, [90., 180., 8848., 89.99, 359.9, 699.999, 9.5, 0,
                           0, 'profile', 'SKS', 'Psss', 179.99, 359.99, 90.,
                           111.2, 89.123, 180., 2889., 12345.67, 2000.])),
}
DT = {'typ': (-600.123456, 25.004321), 'zero': (0., 0.),
      'neg': (-1800.5, -3.25), 'big': (-999.999, 1.9995),
      'sent': (-123.4, 12.345)}
IDS = ['CX.PB01.00.BHZ', 'CX.PB01..BHZ', '.PB01..BHZ', 'CX.P.mod.0',
       'XX.ABCDE.10.HHN', '...BHQ', 'G.SSB..BHQ']
STARTS = [169539, 0, 999999, 500]      # microseconds after 13:15:38
CHAINS1 = [['SAC'], ['Q'], ['H5']]
CHAINS2 = [list(x) for x in itertools.product(['SAC', 'Q', 'H5'], repeat=2)]
DEFAULT = dict(chain=['SAC'], head='all', val='typ', id=0, start=0, sr=10.,
               n=1, how='stream', extra=False, npts=12)
ALPHA = dict(chain=CHAINS1 + CHAINS2,
             head=['all', 'none'] + ['-' + h for h in HEAD] +
             ['+' + h for h in HEAD],
             val=list(VALUES), id=list(range(len(IDS))),
             start=list(range(len(STARTS))), sr=[10., 0.1, 33.3, 100.],
             n=[1, 3, 4, 5, 6], how=['stream', 'trace', 'lower', 'compat'],
             extra=[False, True], npts=[12, 1, 257])

# comments and headers in files of other programs
FOREIGN = [None, 'some text', '5', '-12345', '12.5', 'null', 'true', '[1,2]',
           '"ab"', '{}', '{', '{"type":"rf"}', '{"phase":"P","box_pos":0}',
           '[["type",1]]', 'NaN', '1 2']
FHEAD = {'event_latitude': ('LAT', 'evla', 12.5),
         'event_longitude': ('LON', 'evlo', -170.25),
         'event_depth': ('DEPTH', 'evdp', 33.),
         'event_magnitude': ('MAGNITUDE', 'mag', 6.5),
         'distance': ('DISTANCE', 'gcarc', 66.25),
         'back_azimuth': ('AZIMUTH', 'baz', 200.),
         'inclination': ('INCI', 'user0', 22.), 'slowness': (
             'SLOWNESS', 'user1', 6.25)}


def headers(case, k=0):
    v = dict(VALUES[case['val']])
    start = UTC('2011-02-25T13:15:38') + STARTS[case['start']] / 1e6
    v['event_time'] = start + DT[case['val']][0]
    v['onset'] = start + DT[case['val']][1] * 12 / case['sr']
    h = case['head']
    if h == 'none':
        v = {}
    elif h.startswith('-'):
        v.pop(h[1:])
    elif h.startswith('+'):
        v = {h[1:]: v[h[1:]]}
    if v.get('type') == 'profile' and 'box_pos' not in v:
        v['type'] = 'rf'
    if case['extra']:
        v.update(H5ONLY)
    if k and 'station_elevation' in v:
        v['station_elevation'] += k
    return v, start


def build(case):
    id_ = IDS[case['id']]
    ids = [id_]
    if case['n'] == 3:
        ids = [id_[:-1] + c for c in 'NEZ']
    elif case['n'] == 4:
        net, sta, loc, cha = id_.split('.')
        ids = ['%s.%s.%s.%s' % (net, s, lo, cha[:-1] + ch) for s, lo, ch in
               ((sta, loc, 'Q'), (sta, loc, 'L'), (sta, 'z', 'Q'),
                (sta + 'X', loc, 'Q'))]
    elif case['n'] == 5:    # records shortly after each other
        ids = [id_] * 3
    elif case['n'] == 6:    # boxes of a profile, only box_pos differs
        ids = [id_] * 3
    trs = []
    for k, i in enumerate(ids):
        v, start = headers(case, k)
        if case['n'] == 5:
            start = start + [0, 1, 20][k]
            for h in ('onset', 'event_time'):
                if h in v:
                    v[h] = v[h] + [0, 1, 20][k]
        if case['n'] == 6:
            v['type'] = 'profile'
            v['station_elevation'] -= k
            v['box_pos'] = [2.5, -3.25, 0.][k]
        elif v.get('type') == 'profile':
            v['box_pos'] += k * (0.25 if case['n'] == 5 else 3)
        trs.append(trace(i, rnd(case['npts'], k), start=start, sr=case['sr'],
                         **v))
    return stream(trs)


def write_read(st, fmt, how, dir_, c):
    from rf import read_rf, RFStream
    fname = os.path.join(dir_, 'f')
    f = fmt.lower() if how == 'lower' else fmt
    kw = {}
    if how == 'compat' and fmt == 'Q':
        kw['sh_compat'] = True
    if fmt == 'H5':
        fname += '.h5'
    os.mkdir(dir_)
    c.op(2)
    if how == 'trace':
        out = RFStream()
        for i, tr in enumerate(st):
            fn = fname.replace('f', 'f%02d' % i) if fmt != 'SAC' else (
                '%s%02d' % (fname, i))
            fn = os.path.join(dir_, 'g%02d' % i + ('.h5' if fmt == 'H5'
                                                   else ''))
            tr.write(fn, f, **kw)
            out += read_rf(fn + ('.QHD' if fmt == 'Q' else ''), fmt)
        return out
    st.write(fname, f, **kw)
    if fmt == 'SAC':
        return read_rf(os.path.join(dir_, 'f*'))
    if fmt == 'Q':
        return read_rf(fname + '.QHD')
    return read_rf(fname)


def istime(k):
    return k in ('onset', 'event_time')


INTERNAL = ('sac', 'sh', '_format', 'processing', 'endtime', 'delta', 'hdf5',
            'calib', 'npts')


class C(Check):
    id = 'C01'
    rule = ('initial stream x chain of write/read transitions; alphabet: %s; '
            'plus removal or change of each header between two transitions'
            % {k: (len(v) if len(v) > 8 else v) for k, v in ALPHA.items()})
    bounds = {'quick': 'all cases deviating from the default in up to 2 '
                       'dimensions, chains up to length 2',
              'thorough': 'up to 3 dimensions, all chains of length 3 with '
                          'all header subsets'}
    assumptions = ('values within the range of the file formats; tolerance '
                   '1 ms for times and 1e-6 (float32) for numbers in SAC/Q, '
                   'exact for HDF5',)

    def cases(self, tier):
        yield {'k': 'example'}
        for f in ('SAC', 'Q', 'H5'):
            for fmt in (None, f):
                for kw in ({}, {'headonly': True}, {'start': 3.},
                           {'start': 3., 'end': 7.}, {'end': 4.},
                           {'calib': True}, {'dtype': 'float32'}):
                    yield {'k': 'options', 'f': f, 'fmt': fmt, 'kw': kw}
        for com in FOREIGN:
            for m in range(3):
                for hs in itertools.combinations(sorted(FHEAD), m):
                    yield {'k': 'foreign', 'comment': com, 'heads': hs}
        for how in ('stream', 'trace'):
            for f, kw in (('SAC', {'byteorder': '<'}),
                          ('SAC', {'byteorder': '>'}),
                          ('Q', {'byteorder': '<'}), ('Q', {'byteorder': '>'}),
                          ('Q', {'append': True}), ('Q', {'append': False}),
                          ('H5', {'mode': 'a'}), ('H5', {'mode': 'w'}),
                          ('H5', {'ignore': ('distance', 'onset')}),
                          ('H5', {'dtype': 'float32'}),
                          ('H5', {'compression': 'gzip'})):
                yield {'k': 'wopt', 'how': how, 'f': f, 'kw': kw}
        for d in pairwise_deviation(DEFAULT, ALPHA, 2 if tier == 'quick'
                                    else 3):
            if d['how'] == 'compat' and 'Q' not in d['chain']:
                continue
            if d['n'] == 6 and (d['head'] != 'all' or d['how'] == 'compat'):
                continue
            yield dict(d, mod=None)
        for ch in CHAINS2:
            for h in HEAD:
                for what in ('rm', 'chg'):
                    for val in ('typ', 'neg'):
                        if val == 'neg' and (tier == 'quick' and
                                             what == 'chg'):
                            continue
                        yield dict(DEFAULT, chain=ch, val=val, mod=[what, h])
        for f in ('SAC', 'Q'):
            for hs in (['type', 'phase'], COMMENT, HEAD):
                yield dict(DEFAULT, chain=[f, f], mod=['rmall', hs])
        if tier != 'quick':
            for ch in itertools.product(['SAC', 'Q', 'H5'], repeat=3):
                for h in ALPHA['head']:
                    for v in VALUES:
                        yield dict(DEFAULT, chain=list(ch), head=h, val=v,
                                   mod=None, n=3)

    def run_foreign(self, case, c):
        """Q and SAC files of other programs"""
        from obspy import Stream, Trace
        from obspy.core import AttribDict
        from rf import read_rf
        com, hs = case['comment'], case['heads']
        t = UTC('2011-02-25T13:15:38')
        tr = Trace(rnd(20, 1), dict(network='CX', station='A', channel='BHZ',
                                    starttime=t, sampling_rate=5.))
        files = []
        sh = tr.copy()
        sh.stats.sh = AttribDict({FHEAD[h][0]: FHEAD[h][2] for h in hs})
        if com is not None:
            sh.stats.sh.COMMENT = com
        sac = tr.copy()
        sac.stats.sac = AttribDict({FHEAD[h][1]: FHEAD[h][2] for h in hs
                                    if FHEAD[h][1]})
        if com is not None:
            # texts in headers of which some are used by rf
            for k in ('kuser0', 'kuser1', 'kuser2', 'kevnm', 'ko', 'ka'):
                sac.stats.sac[k] = com[:8]
        for x, f in ((sh, 'Q'), (sac, 'SAC')):
            fn = os.path.join(c.tmp, f)
            Stream([x]).write(fn, f)
            st = read_rf(fn + ('.QHD' if f == 'Q' else ''))
            c.op()
            c.trace()
            c.eq(len(st), 1, 'number of traces')
            got = {}
            for n, g in enumerate(('Q', 'H5', 'SAC')):
                if f == 'SAC' and com is not None and com.strip() == '':
                    continue
                st2 = st.copy()
                fn2 = os.path.join(c.tmp, '%s%s' % (f, g))
                st2.write(fn2, g)
                got[g] = read_rf(fn2 + {'Q': '.QHD', 'H5': '.h5',
                                        'SAC': ''}[g], g)
            for name, r in [(f, st)] + sorted(got.items()):
                s = r[0].stats
                c.check(np.allclose(r[0].data, tr.data, rtol=1e-5), 'data')
                c.check(abs(s.starttime - t) < 2e-3, 'starttime')
                c.eq(s.sampling_rate, 5., 'sampling rate')
                for h in FHEAD:
                    if h in hs and (f == 'Q' or FHEAD[h][1]):
                        c.close(s[h], FHEAD[h][2], '%s %s' % (name, h),
                                atol=1e-4)
                    elif (f, h) not in [('SAC', 'distance'),
                                        ('SAC', 'back_azimuth')]:
                        c.check(h not in s, '%s in %s', h, name)
                if f == 'SAC' and com is not None and com.strip():
                    c.eq(tuple(s.get(k) for k in ('type', 'phase', 'moveout')),
                         (None if com == '-12345' else com[:8].strip(),) * 3,
                         'texts')
                elif f == 'Q':
                    want = {}
                    try:
                        want = json.loads(com or '')
                    except ValueError:
                        pass
                    if isinstance(want, dict):
                        for k in want:
                            c.eq(s.get(k), want[k], k)
                    for k in ('type', 'phase', 'moveout', 'box_pos'):
                        c.check(k in s if isinstance(want, dict) and
                                k in want else k not in s, k)
            c.state(case, f)
        c.outcome(com)

    def run_wopt(self, case, c):
        """Options are passed to the writer of the format"""
        import glob
        from rf import read_rf
        f, kw = case['f'], case['kw']
        a = build(dict(DEFAULT, npts=100))
        b = a.copy()
        for tr in b:
            for h in ('starttime', 'onset', 'event_time'):
                tr.stats[h] += 5000
            tr.stats.distance += 1
        out = {}
        for name, opt in (('plain', {}), ('opt', kw)):
            d = os.path.join(c.tmp, name)
            os.mkdir(d)
            fname = os.path.join(d, 'f')
            for n, st in enumerate((a, b)):
                # formats without append mode get separate files
                fn = fname + ('%d' % n if f != 'H5' and 'append' not in kw or
                              not opt and n == 0 and f == 'Q' else '')
                for x in ([st] if case['how'] == 'stream' else st):
                    x.write(fn, f, **opt)
                    c.op()
            out[name] = sorted(glob.glob(d + '/*.QHD' if f == 'Q' else
                                         d + '/*'))
        c.trace()

        def view(files, **kw):
            st = sum([list(read_rf(fn, f, **kw)) for fn in files], [])
            return sorted([(str(tr.stats.starttime), tr.id, {
                k: v for k, v in stats_dict(tr).items()
                if k not in ('sac', 'sh')}, tr.data) for tr in st],
                          key=lambda x: x[:2])
        got = view(out['opt'], **({'byteorder': kw['byteorder']} if f == 'Q'
                                  and 'byteorder' in kw else {}))
        want = view(out['plain'])
        if f == 'H5' and kw.get('mode') == 'a':
            fn = os.path.join(c.tmp, 'second.h5')
            a.write(fn, f)
            want = view([fn]) + want
        elif kw.get('append') is False:
            want = want[len(want) // 2:]
        c.eq(len(got), len(want), 'number of traces')
        for g, w in zip(got, want):
            c.eq(g[:2], w[:2], 'id')
            hg, hw = dict(g[2]), dict(w[2])
            for h in kw.get('ignore', ()):
                c.check(h not in hg, h + ' written')
                hw.pop(h)
            c.eq(plain(hg), plain(hw), 'headers')
            if 'dtype' in kw:
                c.eq(str(g[3].dtype), kw['dtype'], 'type')
            c.check(np.allclose(g[3], w[3], rtol=1e-6), 'data')
        if f == 'H5':
            import h5py
            comp = set()
            with h5py.File(out['opt'][0]) as h:
                h.visititems(lambda n, v: comp.add(v.compression) if
                             isinstance(v, h5py.Dataset) else None)
            c.eq(comp, {kw.get('compression')}, 'compression')
        elif 'byteorder' in kw:
            raw = b''
            for fn in out['opt']:
                if f == 'Q':
                    fn = fn[:-3] + 'QBN'
                with open(fn, 'rb') as fh:
                    raw += fh.read()[632 if f == 'SAC' else 0:]
            x = np.frombuffer(raw, dtype=kw['byteorder'] + 'f4')
            y = np.concatenate([w[3] for w in want])
            c.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-5),
                    'byteorder')

    def run_read(self, case, c):
        """Arguments of read_rf are those of obspy's read"""
        import obspy
        import rf
        if case['k'] == 'example':
            got = rf.read_rf()
            fname = os.path.join(os.path.dirname(rf.__file__), 'example',
                                 'minimal_example.tar.gz')
            want = obspy.read(fname, 'SAC')
            c.check(len(got) == 9, 'number of traces of the example')
            for tr in got:
                for k in HEAD[:8]:
                    c.check(k in tr.stats, '%s missing' % k)
        else:
            fname = os.path.join(c.tmp, 'f')
            st = build(dict(DEFAULT, n=3, npts=100))
            st.write(fname, case['f'])
            fname += {'SAC': '*', 'Q': '.QHD', 'H5': '.h5'}[case['f']]
            kw = dict(case['kw'])
            if 'start' in kw:
                kw['starttime'] = st[0].stats.starttime + kw.pop('start')
            if 'end' in kw:
                kw['endtime'] = st[0].stats.starttime + kw.pop('end')
            if 'calib' in kw:
                kw['apply_calib'] = kw.pop('calib')
            got = rf.read_rf(fname, case['fmt'], **kw)
            want = obspy.read(fname, case['fmt'], **kw)
            c.check(len(got) == 3, 'number of traces')
        c.op()
        c.check(type(got) is rf.RFStream and
                all(type(tr) is rf.rfstream.RFTrace for tr in got), 'type')
        c.eq(len(got), len(want), 'number')
        for g, w in zip(got, want):
            # Q files store the complete id as station
            c.eq(g.id, w.stats.station if case.get('f') == 'Q' else w.id,
                 'id')
            for k in ('starttime', 'endtime', 'npts', 'sampling_rate'):
                c.eq(g.stats[k], w.stats[k], k)
            c.check(g.data.dtype == w.data.dtype and
                    np.array_equal(g.data, w.data), 'data')
            c.state(case, g.id, g.stats.starttime, g.stats.npts)
        c.outcome(case)

    def run(self, case, c):
        if 'k' in case:
            return getattr(self, 'run_' + {'wopt': 'wopt', 'foreign': 'foreign'}
                           .get(case['k'], 'read'))(case, c)
        st = build(case)
        ref = [dict((k, v) for k, v in tr.stats.items()) for tr in st]
        data = [tr.data.copy() for tr in st]
        ttol = 1e-7
        exact = True
        for step, fmt in enumerate(case['chain']):
            if step == 1 and case['mod']:
                what, h = case['mod']
                for tr, r in zip(st, ref):
                    if what == 'rmall':
                        for k in h:
                            tr.stats.pop(k, None)
                            r.pop(k, None)
                        continue
                    if what == 'rm':
                        tr.stats.pop(h)
                        r.pop(h)
                    else:
                        v = tr.stats[h]
                        v = {'rf': 'profile', 'P': 'S', 'Ps': 'Sp',
                             'PP': 'SS', 'Ppss': 'Psss'}[v] \
                            if isinstance(v, str) else v + 3
                        tr.stats[h] = v
                        r[h] = v
                c.op()
            st = write_read(st, fmt, case['how'],
                            os.path.join(c.tmp, 's%d' % step), c)
            if fmt == 'SAC':
                ttol += 1e-3 if case['val'] == 'neg' else 2e-4
                exact = False
            if fmt == 'Q':
                ttol += 1.1e-3
                exact = False
            if fmt != 'H5':
                for r in ref:
                    for k in H5ONLY:
                        r.pop(k, None)
            compat = case['how'] == 'compat' and fmt == 'Q'
            if compat:
                for r in ref:
                    for k in COMMENT:
                        r.pop(k, None)
            self.compare(st, ref, data, exact, ttol, fmt, c, compat)
            c.state(case, step, st)
            # SAC adds these headers
            for tr in st:
                for r in ref:
                    if tr.id == self.rid(r):
                        for k in ('distance', 'back_azimuth'):
                            if k in tr.stats and k not in r:
                                r[k] = tr.stats[k]
        c.outcome([sorted(set(tr.stats) - {'sac', 'sh'}) for tr in st])

    @staticmethod
    def rid(r):
        return '.'.join((r['network'], r['station'], r['location'],
                         r['channel']))

    def compare(self, st, ref, data, exact, ttol, fmt, c, compat):
        c.eq(sorted(tr.id for tr in st), sorted(self.rid(r) for r in ref),
             'ids')
        coords = {'station_latitude', 'station_longitude', 'event_latitude',
                  'event_longitude'}
        for r, d in zip(ref, data):
            tr = min((tr for tr in st if tr.id == self.rid(r)),
                     key=lambda tr: abs(tr.stats.starttime - r['starttime']) +
                     (abs(tr.stats.get('box_pos', 1e9) - r['box_pos'])
                      if 'box_pos' in r else 0))
            s = tr.stats
            m = '%s after %s: ' % (tr.id, fmt)
            c.eq(s.npts, len(d), m + 'npts')
            c.close(tr.data.astype(float), d, m + 'data',
                    rtol=1e-14 if exact else 1e-6)
            c.close(s.sampling_rate, r['sampling_rate'], m + 'sampling rate',
                    rtol=1e-5)
            for k, v in r.items():
                if k in INTERNAL or k == 'sampling_rate':
                    continue
                c.check(k in s, m + 'header %s=%r is missing' % (k, v))
                if isinstance(v, UTC):
                    c.check(isinstance(s[k], UTC) and abs(s[k] - v) <= ttol,
                            m + '%s: %s instead of %s' % (k, s[k], v))
                elif isinstance(v, str) or exact:
                    c.check(s[k] == v, m + '%s: %r instead of %r' %
                            (k, s[k], v))
                else:
                    c.check(abs(s[k] - v) <= 1e-6 * max(1e-3, abs(v)),
                            m + '%s: %r instead of %r' % (k, s[k], v))
            for k in s:
                if k in r or k in INTERNAL:
                    continue
                if (fmt == 'SAC' and k in ('distance', 'back_azimuth') and
                        coords <= set(r)):
                    continue
                c.check(k not in HEAD, m + 'header %s=%r was not set before' %
                        (k, s[k]))


CHECK = C()
