"""C25: RFStream and RFTrace"""
import copy
import itertools
import pickle
import re
import warnings

import numpy as np
from obspy import Stream, Trace

from mc.engine import Check, plain, stats_dict
from mc.build import rnd, subsets, T0

IDS = ('NN.STA..BHZ', 'NN.STA..BHN', 'MM.ST2.00.BHQ', 'NN.STA..BHZ')


def plain_trace(i, npts=None, **head):
    net, sta, loc, cha = IDS[i % 4].split('.')
    start = T0 + (10 if i % 4 == 3 else 0.5 * i)
    h = dict(network=net, station=sta, location=loc, channel=cha,
             sampling_rate=4. if i % 4 != 2 else 5., starttime=start,
             onset=start + 1, num=i, back_azimuth=10. * i, phase='P',
             nested={'a': [1, i]})
    h.update(head)
    return Trace(rnd(npts or 16 + i, i + 1), h)


def base(n):
    st = Stream()
    st.traces = [plain_trace(i) for i in range(n)]
    return st


def add_other(st):
    o = st.__class__([x.copy() for x in st[:1]])
    return st + o


def iadd_other(st):
    st += st[:1].copy()
    return st


def app(st):
    if len(st):
        st.append(st[0].copy())
    return st


def ext(st):
    st.extend(st[:2].copy())
    return st


def ins(st):
    if len(st):
        st.insert(0, st[-1].copy())
    return st


def rem(st):
    if len(st):
        st.remove(st[0])
    return st


def pop(st):
    if len(st):
        st.pop()
    return st


def setitem(st):
    if len(st):
        st[0] = st[-1].copy()
    return st


def delitem(st):
    if len(st):
        del st[0]
    return st


OPS = {'copy': lambda s: s.copy(), 'deepcopy': copy.deepcopy,
       'shallow': copy.copy,
       'pickle': lambda s: pickle.loads(pickle.dumps(s)),
       'select': lambda s: s.select(component='Z'),
       'select2': lambda s: s.select(station='ST?', sampling_rate=5.),
       'selid': lambda s: s.select(id='NN.*'),
       'slice': lambda s: s.slice(T0 + 1, T0 + 3),
       'sort': lambda s: s.sort(), 'sort2': lambda s: s.sort(
           ['channel', 'num'], reverse=True),
       'add': add_other, 'addtr': lambda s: s + s[0] if len(s) else s,
       'iadd': iadd_other,
       'idx': lambda s: s[1:], 'rev': lambda s: s[::-1],
       'reverse': lambda s: s.reverse(),
       'filter': lambda s: s.filter('lowpass', freq=0.5),
       'detrend': lambda s: s.detrend('demean'),
       'normalize': lambda s: s.normalize(),
       'norm2': lambda s: s.normalize(global_max=True),
       'taper': lambda s: s.taper(0.1),
       'decimate': lambda s: s.decimate(2),
       'resample': lambda s: s.resample(3.),
       'diff': lambda s: s.differentiate(),
       'integrate': lambda s: s.integrate(),
       'merge': lambda s: s.merge(), 'merge1': lambda s: s.merge(
           1, fill_value=0),
       'trim': lambda s: s.trim(T0 + 1,
                                                              T0 + 5),
       'pad': lambda s: s.trim(T0 - 1, T0 + 8, pad=True),
       'cutout': lambda s: s.cutout(T0 + 2, T0 + 3),
       'append': app, 'extend': ext, 'insert': ins, 'remove': rem,
       'pop': pop, 'setitem': setitem, 'delitem': delitem,
       'clear': lambda s: s.clear()}


class C(Check):
    id = 'C25'
    rule = ('containers of ObsPy and rf traces; operations %s run in parallel '
            'on an ObsPy stream and a RFStream; combinations of type, phase '
            'and other headers' % sorted(OPS))
    bounds = {'quick': 'all histories of up to 2 operations from streams of '
                       '0, 1, 4 traces; all header subsets',
              'thorough': 'all histories of up to 3 operations'}
    assumptions = ('ObsPy is right about its own operations',
                   'Stream.__mul__ and Stream.split of ObsPy always return '
                   'a plain Stream and are left out')

    def cases(self, tier):
        deep = tier == 'thorough'
        for n in (0, 1, 2, 4):
            for kinds in itertools.product('op', repeat=n):
                yield {'k': 'make', 'kinds': kinds}
        for n in (0, 1, 4):
            for m in range(1, 4 if deep and n == 4 else 3):
                for h in itertools.product(OPS, repeat=m):
                    yield {'k': 'hist', 'n': n, 'h': h}
        for n in range(0, 4):
            for vals in itertools.product(
                    (None, 'rf', 'profile', 'x'), repeat=n):
                yield {'k': 'type', 'vals': vals}
            for vals in itertools.product(
                    (None, 'P', 'S', 'SP', 'SKS', 'p', 'PcS', 'Pdif'),
                    repeat=n):
                yield {'k': 'method', 'vals': vals}
        heads = ('type', 'phase', 'event_magnitude', 'distance',
                 'back_azimuth', 'box_pos', 'slowness', 'moveout', 'onset')
        for sub in subsets(heads):
            for v in range(3):
                yield {'k': 'str', 'heads': sub, 'v': v}
        yield {'k': 'strvals'}

    def same(self, c, a, b, msg, drop=()):
        """Traces of ObsPy stream a and RFStream b are the same"""
        c.eq(len(b), len(a), msg + ': number of traces')
        for i, (x, y) in enumerate(zip(a, b)):
            c.check(type(y).__name__ == 'RFTrace', msg + ': trace %d is %s',
                    i, type(y))
            c.check(plain(stats_dict(x, drop)) == plain(stats_dict(y, drop)),
                    msg + ': headers of trace %d: %s, expected %s' % (
                        i, dict(y.stats), dict(x.stats)))
            c.check(plain(x.data) == plain(y.data),
                    msg + ': samples of trace %d' % i)

    def run(self, case, c):
        getattr(self, 'run_' + case['k'])(case, c)

    def run_make(self, case, c):
        from rf import RFStream
        from rf.rfstream import RFTrace
        n = len(case['kinds'])
        ref = base(n)

        def trs():
            return [plain_trace(i) if k == 'o' else
                    RFTrace(trace=plain_trace(i))
                    for i, k in enumerate(case['kinds'])]
        ways = {'list': lambda: RFStream(trs()),
                'kw': lambda: RFStream(traces=trs()),
                'tuple': lambda: RFStream(tuple(trs())),
                'gen': lambda: RFStream(tr for tr in trs()),
                'iter': lambda: RFStream(iter(trs())),
                'dict': lambda: RFStream({i: t for i, t in enumerate(
                    trs())}.values()),
                'stream': lambda: RFStream(Stream(trs())),
                'rfstream': lambda: RFStream(RFStream(trs())),
                'append': lambda: self.appended(trs()),
                'add': lambda: sum((RFStream([t]) for t in trs()),
                                   RFStream())}
        if n == 1:
            ways['trace'] = lambda: RFStream(trs()[0])
            ways['header'] = lambda: RFStream(RFTrace(
                data=ref[0].data, header=dict(ref[0].stats)))
            ways['header2'] = lambda: RFStream(RFTrace(
                ref[0].data, ref[0].stats))
        if n == 0:
            ways = {'none': lambda: RFStream(), 'None': lambda: RFStream(
                None), 'list': lambda: RFStream([]),
                'stream': lambda: RFStream(Stream())}
            c.eq(len(RFTrace()), 0, 'RFTrace()')
            c.eq(RFTrace().stats.npts, 0, 'RFTrace()')
        for w, f in ways.items():
            c.op()
            c.trace()
            st = f()
            c.check(type(st) is RFStream, w)
            self.same(c, ref, st, 'RFStream from ' + w)
            c.state(case, w)
            # reading format specific headers changes nothing here
            c.check(isinstance(st, Stream), 'Stream')

    def appended(self, trs):
        from rf import RFStream
        from rf.rfstream import RFTrace
        st = RFStream()
        for t in trs:
            st.append(RFTrace(trace=t))
        return st

    def run_hist(self, case, c):
        from rf import RFStream
        a = base(case['n'])
        b = RFStream(base(case['n']))
        c.trace()
        for step, op in enumerate(case['h']):
            msg = 'step %d %s' % (step + 1, op)
            c.op()
            try:
                r = OPS[op](a)
            except Exception as ex:
                want = type(ex)
            else:
                want = None
            try:
                q = OPS[op](b)
            except Exception as ex:
                c.check(want is not None, msg + ': %r', ex)
                c.check(isinstance(ex, want), msg + ': %r', ex)
                break
            c.check(want is None, msg + ': no exception, ObsPy raises %s',
                    want)
            c.check((r is None) == (q is None), msg + ': return value')
            c.check((r is a) == (q is b), msg + ': in-place or new')
            self.same(c, a, b, msg + ' (source)', ('processing',))
            if q is not None:
                c.check(type(q) is RFStream, msg + ': %s', type(q))
                self.same(c, r, q, msg, ('processing',))
                a, b = r, q
            for i in range(-len(b), len(b)):
                c.check(type(b[i]).__name__ == 'RFTrace', 'index')
            c.eq([tr.stats.get('processing') for tr in b] == [
                tr.stats.get('processing') for tr in a], True,
                msg + ': processing')
            c.state(case['n'], case['h'][:step + 1])
            str(b)
        c.outcome([tr.stats.npts for tr in b])

    def run_type(self, case, c):
        from rf import RFStream
        vals = case['vals']
        st = RFStream([plain_trace(i, **({} if v is None else {'type': v}))
                       for i, v in enumerate(vals)])
        u = set(vals) - {None}
        c.op()
        c.trace()
        self.unique(c, lambda: st.type, u, 'type of %s' % (vals,),
                    list(u)[0] if len(u) == 1 else None)
        for v in ('rf', 'profile', 'other'):
            st.type = v
            c.eq([tr.stats.type for tr in st], [v] * len(st), 'set type')
            c.eq(st.type, v if len(st) else None, 'type')
        c.state(case)

    def unique(self, c, func, u, msg, want):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            got = func()
        c.eq(got, want, msg)
        c.eq(len(w) > 0, len(u) > 1, msg + ': warning')

    def run_method(self, case, c):
        from rf import RFStream
        vals = case['vals']
        st = RFStream([plain_trace(i) for i, v in enumerate(vals)])
        for tr, v in zip(st, vals):
            if v is None:
                tr.stats.pop('phase')
            else:
                tr.stats.phase = v
        u = set(vals) - {None}
        c.op()
        c.trace()
        want = list(u)[0][-1].upper() if len(u) == 1 else None
        self.unique(c, lambda: st.method, u, 'method of %s' % (vals,), want)
        for v in ('P', 'S', 'SKS', 'SP', 'PS'):
            st.method = v
            c.eq([tr.stats.phase for tr in st], [v] * len(st), 'set method')
            c.eq(st.method, v[-1] if len(st) else None, 'method')
        c.state(case)

    SHOWS = [{'event_magnitude': (5.55, 'mag:5.5'), 'distance': (
                66.66, 'dist:66.7'),
              'back_azimuth': (359.96, 'baz:360.0'),
              'box_pos': (-12.346, 'pos:-12.35km'),
              'slowness': (6.4, 'slow:6.40'),
              'moveout': ('Ppps', '(Ppps moveout)')},
             {'event_magnitude': (0., 'mag:0.0'), 'distance': (0., 'dist:0.0'),
              'back_azimuth': (0, 'baz:0.0'), 'box_pos': (0., 'pos:0.00km'),
              'slowness': (0., 'slow:0.00'),
              'moveout': ('Ps', '(Ps moveout)')},
             {'event_magnitude': (-0.4, 'mag:-0.4'), 'distance': (
                 179.94, 'dist:179.9'), 'back_azimuth': (-10.06, 'baz:-10.1'),
              'box_pos': (12345.678, 'pos:12345.68km'),
              'slowness': (-1.234, 'slow:-1.23'),
              'moveout': ('Sp', '(Sp moveout)')}]
    MARK = {'event_magnitude': 'mag:', 'distance': 'dist:',
            'back_azimuth': 'baz:', 'box_pos': 'pos:', 'slowness': 'slow:',
            'moveout': 'moveout)'}

    def run_str(self, case, c):
        from rf import RFStream
        heads = case['heads']
        show = self.SHOWS[case['v']]
        for typ, phase, cha, start, masked in itertools.product(
                ('rf', 'profile', 'harmonic'), ('P', 'PS', 's'),
                ('BHQ', '??Q', '', '.Q', 'sQ'), (T0, None), (False, True)):
            if ('type' not in heads and typ != 'rf') or (
                    'phase' not in heads and phase != 'P'):
                continue
            tr = plain_trace(0, channel=cha)
            for k in ('onset', 'phase', 'back_azimuth'):
                tr.stats.pop(k)
            if cha in ('??Q', '.Q'):
                tr.stats.network = ''
                tr.stats.station = '' if cha == '??Q' else 'STA'
            elif cha == 'sQ':
                tr.stats.station = ''
            if start is None:
                tr.stats.starttime = 0
            if masked:
                tr.data = np.ma.masked_greater(tr.data, 0.5)
            for h in heads:
                if h in show:
                    tr.stats[h] = show[h][0]
            if 'type' in heads:
                tr.stats.type = typ
            if 'phase' in heads:
                tr.stats.phase = phase
            if 'onset' in heads:
                tr.stats.onset = tr.stats.starttime + 1.27
            st = RFStream([tr])
            c.op()
            c.trace()
            s = str(st[0])
            self.shown(c, s, st[0], heads, typ, phase, show)
            c.check(s in str(st), 'stream does not show trace')
            c.check('1 Trace' in str(st), 'number of traces')
            c.outcome(s)
        c.state(case)

    def shown(self, c, s, tr, heads, typ, phase, show):
        msg = ' in %r' % s

        def field(x):
            return re.search(r'(?<![^\s|])%s(?![^\s|])' % re.escape(x),
                             s) is not None
        if 'onset' not in heads:
            c.check(tr.id in s and '16 samples' in s, 'no id' + msg)
            return
        n = tr.stats.npts
        if tr.id.startswith('...') and 'type' in heads:
            c.check('(Q)' in s or not tr.id.endswith('Q'),
                    'component' + msg)
        else:
            c.check(field(tr.id), 'id' + msg)
        c.check(field('%.1fs - %.1fs' % (-1.27, (n - 1) / 4. - 1.27)),
                'time range' + msg)
        c.check(field('4.0 Hz, %d samples' % n), 'sampling' + msg)
        if tr.stats.starttime.timestamp != 0:
            c.check(field('onset:%s' % tr.stats.onset), 'onset' + msg)
        for h in show:
            if h in heads:
                c.check(field(show[h][1]), h + msg)
            else:
                c.check(self.MARK[h] not in s, h + msg)
        if 'type' in heads:
            m = phase[-1].upper() if 'phase' in heads else ''
            c.eq(s.split()[0], m + 'rf', 'type' + msg)
            c.check(typ == 'rf' or field(typ), 'type' + msg)
        c.eq('(masked)' in s, np.ma.count_masked(tr.data) > 0,
             'masked' + msg)

    def run_strvals(self, case, c):
        """Kinds of header values and longer streams"""
        from rf import RFStream
        for cast in (float, np.float64, np.float32, int, np.int64):
            tr = plain_trace(0, type='rf', moveout='Ps')
            for h in ('event_magnitude', 'distance', 'back_azimuth',
                      'box_pos', 'slowness'):
                tr.stats[h] = cast(7)
            s = str(RFStream([tr]))
            c.op()
            for x in ('mag:7.0', 'dist:7.0', 'baz:7.0', 'pos:7.00km',
                      'slow:7.00', '(Ps moveout)'):
                c.check(re.search(r'(?<!\S)%s(?!\S)' % re.escape(x), s),
                        '%s in %r', x, s)
        for n in (0, 1, 2, 19, 20, 21, 22, 50):
            st = RFStream([plain_trace(i) for i in range(n)])
            c.op()
            c.trace()
            for ext in (False, True):
                s = st.__str__(extended=ext)
                c.check('%d Trace' % n in s, 'number of traces')
                k = sum(' Hz, ' in line for line in s.split('\n'))
                c.check(k == n if ext or n <= 20 else 1 <= k <= n,
                        'lines %d of %d', k, n)
            c.state(n)


CHECK = C()
