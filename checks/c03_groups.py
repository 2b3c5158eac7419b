"""C03: IterMultipleComponents partitions traces into records"""
import itertools
import json

from mc.engine import Check
from mc.build import trace, stream, T0

# alphabet of traces: id, offset of onset, entry 'k' (None: absent)
A = [('N.A..BHZ', 0), ('N.A..BHN', 0), ('N.A..BHZ', 5), ('N.A.00.BHZ', 0),
     ('N.A..HHZ', 0), ('N.B..BHZ', 0), ('M.A..BHZ', 0), ('N.A..BHE', 0),
     ('N.A..BHZ', 1e-6), ('N.A.10.HHE', 0), ('...Z', 0),
     ('N.A..BLZ', 0), ('N.A..Z', 0)]
KEYS = [None, 'onset', 'starttime', 'station', 'event_id', 'event_depth']
NUMS = [None, 1, 2, 3, [2, 3], [1], [], [1, 3], 0]


def build(sel):
    trs = []
    for j, i in enumerate(sel):
        id_, off = A[i]
        tr = trace(id_, data=[float(j)] * 4, start=T0 - 10 + j % 2,
                   onset=T0 + off, event_id='ev%d' % (off != 0),
                   event_depth=[0.0, 10.5][j % 2])
        trs.append(tr)
    return stream(trs)


def expected(st, key, num):
    """Reference model"""
    groups = []
    for tr in st:
        s = tr.stats
        k = (s.network, s.station, s.location, s.channel[:-1],
             None if key is None else s[key])
        for g in groups:
            if g[0] == k:
                g[1].append(tr)
                break
        else:
            groups.append((k, [tr]))
    ok = (lambda n: True) if num is None else (
        lambda n: n == num) if isinstance(num, int) else (lambda n: n in num)
    return [g[1] for g in groups if ok(len(g[1]))]


class C(Check):
    id = 'C03'
    rule = ('all streams over an alphabet of 13 (id, onset) pairs '
            '(multisets and all orders), all keys %s, all number_components '
            '%s' % (KEYS, NUMS))
    bounds = {'quick': 'all sequences of up to 3 traces, all multisets of 4 '
                       'traces with 2 orders',
              'thorough': 'all sequences of up to 4 traces, all multisets of '
                          '6 traces with 3 orders'}

    def cases(self, tier):
        n = len(A)
        L = 3 if tier == 'quick' else 4
        seqs = []
        for k in range(L + 1):
            seqs += itertools.product(range(n), repeat=k)
        for k in range(L + 1, (5 if tier == 'quick' else 7)):
            for s in itertools.combinations_with_replacement(range(n), k):
                seqs += [s, s[::-1]]
                if tier != 'quick':
                    seqs.append(s[::2] + s[1::2])
        B = 40
        for i in range(0, len(seqs), B):
            yield {'streams': [list(s) for s in seqs[i:i + B]]}

    def run(self, case, c):
        from rf.util import IterMultipleComponents
        for sel in case['streams']:
            st = build(sel)
            order = list(st.traces)
            c.trace()
            for key in KEYS:
                for num in NUMS:
                    n2 = tuple(num) if isinstance(num, list) else num
                    it = IterMultipleComponents(st, key=key,
                                                number_components=n2)
                    c.op()
                    got = list(it)
                    want = expected(st, key, num)
                    m = 'stream %s key=%s number=%s' % (
                        json.dumps(sel), key, num)
                    c.eq(len(it), len(want), m + ' len()')
                    g = sorted([[[x is t for x in order].index(True)
                                 for t in s] for s in got])
                    w = sorted([[[x is t for x in order].index(True)
                                 for t in s] for s in want])
                    c.eq(g, w, m + ' groups')
                    for s in got:
                        c.check(type(s) is type(st), m + ' class')
                    again = list(it)
                    c.eq([[id(t) for t in s] for s in again],
                         [[id(t) for t in s] for s in got], m + ' 2nd pass')
                    c.state(sel, g)
                    c.outcome(g)
            c.check(len(st) == len(order) and
                    all(a is b for a, b in zip(st, order)),
                    'stream changed by grouping')


CHECK = C()
