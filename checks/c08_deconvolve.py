"""C08: deconvolve() uses the right traces and windows"""
import itertools

import numpy as np
from obspy import Trace

from mc.engine import Check, plain, stats_dict
from mc.build import trace, stream, rnd, snap, subsets, T0
from checks.c07_solvers import (ref_time, xcorr, ref_waterlevel,
                                ref_iterative, ref_multitaper)


class Recorder(object):
    """Custom deconvolution function"""

    def __init__(self, how='inplace'):
        self.how = how
        self.calls = []

    def __call__(self, rsp, src, tshift=None, **kw):
        self.calls.append((rsp, [tr for tr in rsp], rsp.copy(), src.copy(),
                           tshift, kw))
        if self.how == 'new':
            rsp = rsp.copy()
        for k, tr in enumerate(rsp):
            tr.data = np.arange(len(tr)) * (k + 1.) + 0.5
            tr.stats.custom = k
        return rsp


def build(comps, n=60, sr=2., ion=20, frac=0., dur=None):
    onset = T0 + (ion + frac) / sr
    return stream([trace('CX.A..BH' + co, rnd(n, k + 1) * (k + 1), sr=sr,
                         onset=onset, phase='P', mark=k, slowness=5.)
                   for k, co in enumerate(comps)])


def src_window(data, ion, sr, win):
    """Zero padded and tapered source window"""
    i0 = ion + int(round(win[0] * sr))
    i1 = ion + int(round(win[1] * sr))
    x = np.array([data[i] if 0 <= i < len(data) else 0.
                  for i in range(i0, i1 + 1)])
    tr = Trace(x)
    tr.stats.sampling_rate = sr
    tr.taper(max_percentage=None, max_length=win[2])
    return tr.data


COMPS = ['ZNE', 'LQT', 'ZRT']
SRC = ['LZ', 'QR', 'Z', 'T', 'NT', '', 'X', 'ZNE']
RSP = [None, 'QT', 'Z', 'RT', 'NE', 'X', '', 'LQT', 'EZ']
WINS = [(-5, 10, 2), (-2, 3, 0), (-10, 30, 5), (0, 8, 1), (1, 6, 0.5),
        (-8, -1, 1), (-15, 6, 3), (-4.5, 3.5, 1.1), 'P', 'S']
METHODS = ['time', 'waterlevel', 'freq', 'iterative', 'multitaper']


def default_win(win, method, onset, dur):
    if win not in ('P', 'S'):
        return win
    if method in ('time', 'multitaper', 'func'):
        return (-10, 30, 5)
    if method == 'iterative':
        return (-onset, dur - onset, 0)
    if win == 'P':
        return (-onset, dur - onset, 5)
    return (-10, dur - onset, 5)


class C(Check):
    id = 'C08'
    rule = ('streams of all subsets (1-4 traces, also duplicates) of %s in '
            'all orders, source_components %s, response_components %s; '
            'windows %s; methods %s, custom function in-place and new; '
            'normalize default, None, 0-2; onset positions on and off sample'
            % (COMPS, SRC, RSP, WINS, METHODS))
    bounds = {'quick': 'selection: full product; windows: full product over '
                       'trace lengths, 4 onsets; methods: full product with '
                       '4 windows', 'thorough': 'more lengths and windows'}

    def setup(self):
        build('ZNE').deconvolve(method='multitaper', winsrc=(-5, 10, 1), T=5)

    def cases(self, tier):
        deep = tier == 'thorough'
        seen = set()
        for n in range(1, 5):
            for cs in COMPS:
                for sub in itertools.product(cs, repeat=n):
                    # duplicates only of one component
                    if len(set(sub)) < len(sub) - 1 or sub in seen:
                        continue
                    seen.add(sub)
                    yield {'k': 'select', 'comps': ''.join(sub)}
        for comps in ('LQT', 'ZNE', 'TQL'):
            for win in WINS:
                for n in ((60, 61, 80, 31) if deep else (60, 61)):
                    for sr in (1., 2., 5.):
                        yield {'k': 'window', 'comps': comps, 'win': win,
                               'n': n, 'sr': sr}
        for comps in ('LQT', 'TZR', 'LQ'):
            for method in METHODS:
                for win in WINS if deep else WINS[:4] + WINS[-3:]:
                    for n in (60, 61) + ((121, 130) if isinstance(
                            win, str) and method == 'multitaper' else ()):
                        yield {'k': 'method', 'comps': comps, 'win': win,
                               'method': method, 'n': n}
        for method in ('Time', '', None, 'xyz', 'multi', 'P'):
            yield {'k': 'invalid', 'method': method}

    def run(self, case, c):
        getattr(self, 'run_' + case['k'])(case, c)

    def run_invalid(self, case, c):
        for comps in ('LQT', 'L', 'ZNE'):
            st = build(comps)
            before = snap(st)
            c.raises(NotImplementedError,
                     lambda: st.deconvolve(method=case['method']), 'method')
            c.eq(snap(st), before, 'stream changed by refused call')
        c.outcome(case)

    def run_select(self, case, c):
        from rf.deconvolve import deconvolve
        comps = case['comps']
        for src, rsp, func in itertools.product(SRC, RSP, (False, True)):
            st = build(comps, frac=0.3)
            orig = list(st)
            before = snap(st)
            ns = [i for i, x in enumerate(comps) if x in src and src]
            nr = [i for i, x in enumerate(comps) if rsp is None or
                  rsp and x in rsp]
            rec = Recorder()
            kw = dict(method='func', func=rec, source_components=src,
                      response_components=rsp, winsrc=(-3, 5, 1), extra=7)
            call = ((lambda: deconvolve(st, **kw)) if func else
                    (lambda: st.deconvolve(**kw)))
            msg = '%s src=%r rsp=%r' % (comps, src, rsp)
            c.op()
            c.trace()
            if len(ns) != 1 or not 0 < len(nr) < 4:
                c.raises(ValueError, call, msg)
                c.eq(snap(st), before, 'stream changed: ' + msg)
                c.check(not rec.calls, 'function called: ' + msg)
                c.outcome('err')
                continue
            out = call()
            c.check(len(rec.calls) == 1, 'calls of function: ' + msg)
            rstream, rtr, rcopy, source, tshift, kwargs = rec.calls[0]
            want = {'extra': 7}
            if ns[0] in nr:
                want['normalize'] = nr.index(ns[0])
            c.eq(kwargs, want, 'kwargs ' + msg)
            c.check(source.stats.channel[-1] == comps[ns[0]],
                    'source ' + msg)
            c.eq([tr.stats.mark for tr in rtr], nr, 'responses ' + msg)
            c.check(type(rstream) is type(st), 'type of responses')
            c.eq([tr.stats.mark for tr in out], nr, 'results ' + msg)
            c.check(len(out) == len(nr) and type(out) is type(st),
                    'type of results')
            if func:
                c.eq([id(t) for t in st], [id(t) for t in orig],
                     'traces of stream')
            else:
                c.check(out is st, 'method returns another stream')
            new_onset = T0 + 20 / 2.
            for i, tr in enumerate(orig):
                ref = build(comps, frac=0.3)[i]
                if i in nr:
                    k = nr.index(i)
                    c.close(tr.data, np.arange(len(tr)) * (k + 1.) + 0.5,
                            'result', atol=0)
                    ref.stats.custom = k
                else:
                    c.close(tr.data, ref.data, 'samples of other trace',
                            atol=0)
                if i in nr or i in ns:
                    ref.stats.onset = new_onset
                c.eq(stats_dict(tr, ['processing']),
                     stats_dict(ref, ['processing']), 'headers ' + msg)
            c.state(comps, src, rsp)
            c.outcome(ns, nr)

    def run_window(self, case, c):
        comps, n, sr = case['comps'], case['n'], case['sr']
        srcc = 'LZ'
        isrc = [i for i, x in enumerate(comps) if x in srcc][0]
        for ion, frac, how in itertools.product(
                (0, 1, 20, n - 2), (0., 0.3, -0.4), ('inplace', 'new')):
            if ion == 0 and frac < 0:
                continue
            st = build(comps, n, sr, ion, frac)
            orig = [tr.data.copy() for tr in st]
            rec = Recorder(how)
            c.op()
            c.trace()
            win = default_win(case['win'], 'func', ion / sr, (n - 1) / sr)
            win = tuple(round(w * sr) / sr if j < 2 else w
                        for j, w in enumerate(win))
            arg = case['win'] if isinstance(case['win'], str) else win
            st.deconvolve(method='func', func=rec, winsrc=arg)
            msg = 'ion=%d frac=%s' % (ion, frac)
            _, _, rcopy, source, tshift, kwargs = rec.calls[0]
            c.close(source.data, src_window(orig[isrc], ion, sr, win),
                    'source window ' + msg, atol=1e-9)
            c.check(abs(tshift + win[0]) < 1e-9, 'tshift %r' % tshift)
            c.check(source.stats.sampling_rate == sr, 'sampling rate')
            c.check(abs(source.stats.starttime -
                        (T0 + ion / sr + win[0])) < 1e-5, 'start of source')
            for i, tr in enumerate(rcopy):
                c.close(tr.data, orig[i], 'response data', atol=0)
                c.eq(tr.stats.starttime, T0, 'start of response')
            for i, tr in enumerate(st):
                c.check(abs(tr.stats.onset - (T0 + ion / sr)) < 2e-6,
                        'onset of result ' + msg)
                c.close(tr.data, np.arange(n) * (i + 1.) + 0.5, 'result of '
                        'function lost (%s)' % how, atol=0)
                c.eq(tr.stats.custom, i, 'header of result lost')
            c.state(case, ion, frac)
            c.outcome(len(source), tshift)

    def run_method(self, case, c):
        comps, method, n, sr = case['comps'], case['method'], case['n'], 2.
        isrc = [i for i, x in enumerate(comps) if x in 'LZ'][0]
        m = 'waterlevel' if method == 'freq' else method
        opts = {'time': [{}, {'spiking': 0.2, 'solve_toeplitz': 'scipy'}],
                'waterlevel': [{}, {'gauss': None, 'waterlevel': 0.2}],
                'iterative': [{'itmax': 3},
                              {'itmax': 2, 'gauss': 0.3, 'mute_shift': True}],
                'multitaper': [{'T': 5, 'K': 2}, {'T': 6, 'tband': 3}]}[m]
        win0 = case['win']
        for ion, frac, rsp, norm, opt in itertools.product(
                (20, 23), (0.2,), (None, 'QT', 'LZ', 'RT'),
                ('default', None, 0, 1), opts):
            st = build(comps, n, sr, ion, frac)
            orig = [tr.data.copy() for tr in st]
            nr = [i for i, x in enumerate(comps) if rsp is None or x in rsp]
            if not nr or norm == 1 and len(nr) < 2:
                continue
            win = default_win(win0, m, ion / sr, (n - 1) / sr)
            src = src_window(orig[isrc], ion, sr, win)
            if m == 'multitaper' and len(src) > n - 16:
                continue
            kw = dict(opt)
            if norm != 'default':
                kw['normalize'] = norm
                wn = norm
            elif isrc in nr:
                wn = nr.index(isrc)
            else:
                wn = 0
            arg = dict(kw)
            ropt = {k: v for k, v in opt.items() if k != 'solve_toeplitz'}
            rsps = [orig[i] for i in nr]
            ts = -win[0]
            c.op()
            c.trace()
            if m == 'time':
                # delay 0 of the result at the onset of the responses
                want = ref_time(rsps, src, int(round(ts * sr)) - len(src) // 2,
                                normalize=wn, **ropt)
            elif m == 'waterlevel':
                want = ref_waterlevel(rsps, src, sr, tshift=ts, normalize=wn,
                                      **ropt)
            elif m == 'iterative':
                if ts < 0:
                    continue
                want = ref_iterative(rsps, src, sr, tshift=ts, normalize=wn,
                                     **ropt)
                if want is not None:
                    its = want[1]
                    want = want[0]
            else:
                noises = [[o[:ion - 9] for o in orig]]
                noises.append([0.3 * rnd(20, 7 + k)
                               for k in range(len(orig))])
                useown = 'tband' in opt
                if useown:
                    # as stream
                    nst = build(comps, 20, sr, 10)
                    for k, tr in enumerate(nst):
                        tr.data = noises[1][k]
                    arg['noise'] = nst
                    nbefore = snap(nst)
                if int(4 * len(noises[useown][0]) / (opt['T'] * sr)) < 1:
                    continue
                want = ref_multitaper(
                    rsps, src, [noises[useown][i] for i in nr], sr, -ts,
                    normalize=wn, **ropt)
            if want is None:
                continue
            argcopy = dict(arg)
            # defaults of the arguments
            call = dict(method=method, winsrc=win0, response_components=rsp)
            for key, default in (('method', 'time'), ('winsrc', 'P'),
                                 ('response_components', None)):
                if call[key] == default:
                    call.pop(key)
            st.deconvolve(**call, **arg)
            if 'noise' in arg:
                c.eq(snap(arg['noise']), nbefore, 'noise stream changed')
            c.eq(sorted(arg), sorted(argcopy), 'keyword arguments changed')
            c.eq([tr.stats.mark for tr in st], nr, 'results')
            sc = max(np.max(np.abs(w)) for w in want)
            for k, (tr, w) in enumerate(zip(st, want)):
                c.close(tr.data, np.real(w), '%s rsp=%s norm=%s %s' % (
                    method, rsp, norm, opt), atol=1e-4 * sc)
                c.check(tr.data.dtype.kind == 'f', 'result is not real')
                c.check(abs(tr.stats.onset - (T0 + ion / sr)) < 2e-6, 'onset')
                if m == 'iterative':
                    c.eq(int(tr.stats.iterations), its[k], 'iterations')
                c.eq(tr.stats.starttime, T0, 'starttime')
                c.eq(tr.stats.slowness, 5., 'slowness')
            c.state(case, ion, rsp, norm, opt)
            c.outcome(method, snap(st))


CHECK = C()
