"""C10: results of models do not depend on previous calls"""
import itertools
import os
import pickle
import sys

import numpy as np

from mc.engine import Check, plain
from mc.build import trace, stream, rnd, T0
from mc.interleave import lines, points
from checks.c09_moveout import MODELS, make_model

REPO = os.path.join(os.path.realpath(os.environ.get('RF_REPO', '/repo')), 'rf',
                    '')
FILES = {}
LINES = {}


def st_p():
    return stream([trace('CX.A..BHQ', rnd(600, 2), sr=10., onset=T0 + 20,
                         phase='P', slowness=s, back_azimuth=baz,
                         station_latitude=-20., station_longitude=-69.5,
                         type='rf', distance=40.)
                   for s, baz in ((5.1, 40.), (7.3, 130.))])


def st_s():
    st = st_p()
    for tr in st:
        tr.stats.phase = 'S'
        tr.stats.slowness += 4
    return st


OWN = {}    # model instances of this process


def own(name):
    if name not in OWN:
        OWN[name] = make_model(name)
    return OWN[name]


def arg(model):
    return os.path.relpath(FILES[model]) if model in FILES else model


def moveout(method, phase, ref, model='iasp91', inst=None):
    st = st_p() if method == 'P' else st_s()
    if inst:
        own(inst).moveout(st, phase=phase, ref=ref)
    else:
        st.moveout(phase, ref=ref, model=arg(model))
    return [tr.data for tr in st], [tr.stats.slowness for tr in st]


def ppoints(method, depth, phase, model='iasp91'):
    st = st_p() if method == 'P' else st_s()
    return st.ppoints(depth, pp_phase=phase, model=arg(model)).tolist()


def delays(slow, phase, model='iasp91', inst=None):
    from rf.simple_model import load_model
    m = own(inst) if inst else load_model(arg(model))
    a = m.calculate_delay_times(slow, phase)
    b, r = m.stretch_delay_times(slow, phase, 7.)
    res = a.copy(), b.copy(), r.copy()
    # arrays belong to the caller
    for x in (a, b, r):
        x[:] = 99.
    return res


def stats_(phase, depth, model='iasp91'):
    from rf import rfstats
    from rf.rfstream import RFTrace
    s = RFTrace(data=np.zeros(10), header=dict(
        event_latitude=10., event_longitude=-60., event_depth=20.,
        event_magnitude=6., event_time=T0, station_latitude=-21.,
        station_longitude=-69., station_elevation=0.)).stats
    s = rfstats(s, phase=phase, pp_depth=depth, model=arg(model),
                dist_range=None)
    return [s.pp_latitude, s.pp_longitude, s.pp_depth, s.slowness]


def plot(model, slow, phase):
    import matplotlib.pyplot as plt
    st = st_p()
    for k, tr in enumerate(st):
        tr.stats.box_pos = 10. * k
        tr.stats.box_length = 10.
        tr.stats.slowness = slow
        tr.stats.moveout = phase
        tr.stats.profile = {}
    fig = st.plot_profile(moveout_model=arg(model))
    res = []
    fig.canvas.draw()
    for ax in fig.axes:
        res.append([t.get_text() for t in ax.get_yticklabels()])
        res.append(np.asarray(ax.get_yticks(), dtype=float))
        res.append(list(ax.get_ylim()))
    plt.close('all')
    return res


def failing(func, *args, **kw):
    """Type of exception"""
    try:
        func(*args, **kw)
    except Exception as ex:
        return type(ex).__name__
    return 'no exception'


OPS = {
    # calls which fail
    'eNo': lambda: failing(moveout, 'P', 'Ps', 6.4, 'nofile.dat'),
    'eBad': lambda: failing(moveout, 'P', 'Ps', 6.4, 'bad'),
    'eDeep': lambda: failing(ppoints, 'P', 9999, None),
    'ePh': lambda: failing(moveout, 'P', 'Pps', 6.4),
    'mo': lambda: moveout('P', 'Ps', 6.4),
    'mo8': lambda: moveout('P', 'Ps', 8.),
    'mo6': lambda: moveout('P', 'Ps', 6.4004),
    'moUP': lambda: moveout('P', 'PS', 5.),
    'momul': lambda: moveout('P', 'Ppss', 8.),
    'moA': lambda: moveout('P', 'Ps', 6.4, 'crust'),
    'moB': lambda: moveout('P', 'Ps', 6.4, 'grad'),
    'moC': lambda: moveout('P', 'Ps', 6.4, 'case'),
    'moI': lambda: moveout('P', 'Ps', 6.4, inst='crust'),
    'moI8': lambda: moveout('P', 'Ps', 8., inst='crust'),
    'moIg': lambda: moveout('P', 'Ps', 6.4, inst='grad'),
    'moS': lambda: moveout('S', 'Sp', 8.),
    'moSA': lambda: moveout('S', 'Sp', 6.4, 'crust'),
    'pp': lambda: ppoints('P', 50, None),
    'ppP': lambda: ppoints('P', 50, 'P'),
    'ppS': lambda: ppoints('S', 90.5, None),
    'ppA': lambda: ppoints('P', 50, 'S', 'crust'),
    'dt': lambda: delays(6.4, 'Ps'),
    'dt7': lambda: delays(7., 'Ps'),
    'dtA': lambda: delays(6.4, 'Ps', 'crust'),
    'dtI': lambda: delays(6.4, 'Ppps', inst='grad'),
    'rs': lambda: stats_('P', 50),
    'rsB': lambda: stats_('P', 70, 'grad'),
}
SLOW = {'plot': lambda: plot('iasp91', 6.4, 'Ps'),
        'plotA': lambda: plot('crust', 6.4, 'Ps'),
        'plot8': lambda: plot('iasp91', 8., 'Ppss')}
ALL = dict(OPS, **SLOW)


def fresh(func):
    """Run in forked child"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', func())
            except Exception as ex:
                out = ('error', repr(ex))
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def models():
    """All model instances which are easily found"""
    from rf import simple_model
    cached = getattr(simple_model, '_MODEL_CACHE', None)
    cached = list(cached.values()) if isinstance(cached, dict) else []
    return [m for m in cached + list(OWN.values())
            if isinstance(m, simple_model.SimpleModel)]


def interrupted(name, n):
    """Raise KeyboardInterrupt before n-th line of rf the call passes"""
    left = [n]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == -1:
                raise KeyboardInterrupt
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(REPO) else None
    sys.settrace(glob)
    try:
        ALL[name]()
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    return left[0] < 0


def debruijn(items, n, size):
    """
    Yield lists of about size items, which together contain each sequence of
    n items as consecutive calls
    """
    k = len(items)
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    seq = seq + seq[:n - 1]
    for i in range(0, len(seq) - n + 1, size):
        yield [items[x] for x in seq[i:i + size + n - 1]]


EXPECTED = {}


class C(Check):
    id = 'C10'
    isolate = True
    rule = ('histories of calls %s, calls may fail or be interrupted by '
            'KeyboardInterrupt; each history in its own process, expected '
            'result of a call is its result in a fresh process' % sorted(ALL))
    bounds = {'quick': 'all histories of up to 2 calls from a fresh process; '
                       'de Bruijn histories of 60 calls containing every '
                       'sequence of 3 calls (without plots); calls interrupted '
                       'before the first passage of each line of rf followed '
                       'by the same and other calls',
              'thorough': 'all histories of up to 3 calls (without plots, with '
                          'plots 2) from a fresh process; de Bruijn histories '
                          'of 300 calls containing every sequence of 4 calls; '
                          'calls interrupted before the first 3 passages of '
                          'each line'}
    assumptions = ('model files do not change during the history',)

    def setup(self):
        import rf  # noqa
        import matplotlib.pyplot  # noqa
        from checks.c09_moveout import model_file
        for name in ('crust', 'grad'):
            # same file name in different directories
            d = os.path.join(os.getcwd(), 'm_' + name)
            os.mkdir(d)
            fname = os.path.join(d, 'model.dat')
            os.rename(model_file(name, os.getcwd()), fname)
            FILES[name] = fname
        # file name only differs in letter case
        fname = os.path.join(os.path.dirname(FILES['crust']), 'MODEL.dat')
        os.rename(model_file('nodup', os.getcwd()), fname)
        FILES['case'] = fname
        FILES['bad'] = os.path.join(os.getcwd(), 'bad.dat')
        with open(FILES['bad'], 'w') as f:
            f.write('0 5.8\n10 5.8\n20 6.1\n')
        for k, op in ALL.items():
            EXPECTED[k] = fresh(op)
            kind, seen = fresh(lambda: lines(op, REPO))
            LINES[k] = seen if kind == 'ok' else []

    def cases(self, tier):
        deep = tier == 'thorough'
        # calls which are interrupted, in a fresh process or after another one
        for name in OPS:
            for k in points(LINES[name], 3 if deep else 1):
                for first in ([], ['mo8', 'moIg']):
                    yield first + [[name, k], name, 'moA', 'mo', 'moIg', 'rsB']
        for n in (1, 2):
            for h in itertools.product(ALL, repeat=n):
                yield list(h)
        if deep:
            for h in itertools.product(OPS, repeat=3):
                yield list(h)
        for h in debruijn(list(OPS), 4 if deep else 3, 300 if deep else 60):
            yield h

    def run(self, case, c):
        for k, name in enumerate(case):
            c.op()
            if isinstance(name, list):
                interrupted(*name)
                c.state(case[:k + 1])
                continue
            kind, want = EXPECTED[name]
            c.check(kind == 'ok', 'call %s failed: %s' % (name, want))
            snaps = {id(m): plain([m.z, m.dz, m.vp, m.vs])
                     for m in models()}
            got = ALL[name]()
            self.cmp(c, got, want, 'call %d (%s) of history ...%s' % (
                k, name, case[max(0, k - 5):k + 1]))
            for m in models():
                if id(m) in snaps:
                    c.eq(plain([m.z, m.dz, m.vp, m.vs]), snaps[id(m)],
                         'model changed')
            c.state(case[:k + 1])
            c.outcome(got)

    def cmp(self, c, got, want, msg):
        if isinstance(want, (list, tuple)):
            c.check(len(got) == len(want), msg)
            for g, w in zip(got, want):
                self.cmp(c, g, w, msg)
        elif isinstance(want, str):
            c.eq(got, want, msg)
        else:
            c.nchecks += 1
            if not np.allclose(got, want, rtol=1e-9, atol=1e-9,
                               equal_nan=True) or (np.shape(got) !=
                                                   np.shape(want)):
                c.fail(msg + ': result differs from the one of a fresh '
                       'process')


CHECK = C()
