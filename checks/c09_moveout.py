"""C09: moveout correction against an independent 1D ray model"""
import itertools
import os

import numpy as np

from mc import ray
from mc.engine import Check, ROOT, stats_dict
from mc.build import trace, stream, rnd, pairwise_deviation, snap, T0

# rows of depth, vp, vs(, n)
MODELS = {
    'iasp91': None,
    'crust': [(0, 5.5, 3.2), (0, 5.5, 3.2), (30, 6.5, 3.8), (30, 8., 4.5),
              (90, 8.1, 4.5), (200, 8.4, 4.7)],
    'nodup': [(0, 5.5, 3.2), (12.5, 6., 3.5), (35, 6.5, 3.8), (60, 8., 4.5),
              (120, 8.1, 4.5), (220, 8.4, 4.7)],
    'grad': [(0, 5., 2.9, 0), (0, 5., 2.9, 0), (40, 7., 4., 7),
             (160, 8.5, 4.8, 11), (400, 9.5, 5.2, 30)],
}
PHASES = ['Ps', 'Ppss', 'Ppps', 'Psss', 'Pppp', 'Sp', 'Spss', 'Spps', 'Sppp',
          'Pppsps', 'Sppsps', 'Ssss']
DEFAULT = dict(phase='Ps', model='iasp91', slow=6.4, ref=6.4, pre=25.,
               post=75., frac=0., sr=10., how='stream', letters='asis', other=6.)
ALPHA = dict(phase=PHASES, model=list(MODELS),
             slow=[6.4, 4.4, 5.1, 7.9, 8.8, 2., 10.5, 12.5, 0.5],
             ref=[6.4, 5., 8.5, 9.5, 11., 1.],
             pre=[25., 0., 3.2, 60., 300.], post=[75., 2., 30.4, 0., 260.],
             frac=[0., 0.4, -0.3], sr=[10., 5., 4., 12.5],
             how=['stream', 'model', 'default'],
             letters=['asis', 'upper', 'lower'], other=[6., 8.1, None])


def rows(name):
    if MODELS[name] is None:
        if ray.IASP is None:
            ray.set_table(open(os.path.join(ROOT, 'mc', 'iasp91.txt')).read())
        return ray.IASP
    return MODELS[name]


_FILES = {}


def model_file(name, d):
    """Write model file into directory d"""
    fname = os.path.join(d, name + '.dat')
    with open(fname, 'w') as f:
        f.write('# test model\n')
        for r in MODELS[name]:
            f.write(' '.join('%g' % x for x in r) + '\n')
    return fname


def make_model(name):
    from rf.simple_model import SimpleModel, load_model
    if MODELS[name] is None:
        return load_model()
    cols = [np.array(x, dtype=float) for x in zip(*MODELS[name])]
    if len(cols) == 4:
        cols[3] = cols[3].astype(int)
    return SimpleModel(*cols)


def stretch(lay, slow, ref, phase):
    """Side (1 or -1) and arrays with depth, time, reference time"""
    a = ray.delay_times(lay, slow, phase)
    b = ray.delay_times(lay, ref, phase)
    n = min(len(a), len(b))
    z = np.array([x[0] for x in a[:n]])
    t = np.array([x[1] for x in a[:n]])
    tr = np.array([x[1] for x in b[:n]])
    side = 1
    if phase[0].upper() == 'S':
        # time reversed: conversions at depth arrive after onset,
        # multiples before
        t, tr = -t, -tr
        if len(phase) > 3:
            side, t, tr = -1, -t, -tr
    keep = np.hstack((True, np.diff(z) > 0))    # zero thickness layers
    return side, z[keep], t[keep], tr[keep]


def turns(lay, slow, ref, phase):
    n = len(lay) + 1
    return (len(ray.delay_times(lay, slow, phase)) < n or
            len(ray.delay_times(lay, ref, phase)) < n)


def expected(data, x0, sr, lay, slow, ref, phase):
    """
    Return expected data and boolean arrays for untouched and corrected range

    x0: position of onset in samples
    """
    side, _, t, tref = stretch(lay, slow, ref, phase)
    assert np.all(np.diff(t) > 0) and np.all(np.diff(tref) > 0)
    i = np.arange(len(data))
    u = side * (i - x0) / sr
    same = u <= -1 / sr + 1e-6
    # odd continuation close to onset
    k = min(11, len(t))
    tt = np.hstack((-t[1:k][::-1], t))
    rr = np.hstack((-tref[1:k][::-1], tref))
    ok = (u >= max(tt[0], -1.001 / sr)) & (u <= tt[-1])
    src, dst = u[ok], np.interp(u[ok], tt, rr)
    order = np.argsort(dst)
    exp = np.interp(u, dst[order], data[ok][order])
    # last position reached
    comp = (u >= (1 / sr - 1e-6 if side < 0 else 1e-6))
    # if one of the rays turns, the layer above may be left out
    last = -2 if turns(lay, slow, ref, phase) and len(t) > 2 else -1
    if np.any(ok):
        use = u[ok] <= t[last] + 1e-9
        comp &= u <= np.max(dst[use], initial=-1) - 1e-6
    else:
        comp &= False
    if abs(x0 - round(x0)) < 1e-6:
        # zero delay stays at zero delay
        same[int(round(x0))] = True
    if slow == ref:
        inside = u <= tref[last] - 1 / sr - 1e-6
        same |= inside
        comp &= ~same
    # beyond the deepest layer nothing is known, zero
    zero = u > max(np.max(tref), np.max(dst) if np.any(ok) else 0) + 1e-6
    zero &= u >= 1 / sr
    return exp, same, comp, zero


class C(Check):
    id = 'C09'
    rule = 'one dense trace; dimensions %s' % ALPHA
    bounds = {'quick': 'all phases x slowness x reference for iasp91 and one '
                       'more model; all cases deviating from the default in '
                       'up to 3 of the dimensions',
              'thorough': 'up to 4 dimensions, full product of phase, '
                          'slowness, reference and model'}
    assumptions = ('samples closer than one sample to the onset (before it, '
                   'for S multiples also after it) are only compared if the '
                   'onset is on a sample',)

    def setup(self):
        make_model('iasp91')

    def cases(self, tier):
        deep = tier == 'thorough'
        yield {'k': 'odd'}
        yield {'k': 'onset'}
        yield {'k': 'delays'}
        yield {'k': 'again'}
        for m in MODELS if deep else ('iasp91', 'crust'):
            for ph, s, r in itertools.product(PHASES, ALPHA['slow'],
                                              ALPHA['ref']):
                yield dict(DEFAULT, phase=ph, slow=s, ref=r, model=m,
                           frac=0.4)
        n = 0
        for d in pairwise_deviation(dict(DEFAULT, slow=5.1), ALPHA,
                                    4 if deep else 3):
            yield d
        for ph in PHASES[1:]:
            for d in pairwise_deviation(
                    dict(DEFAULT, slow=10.5, ref=8.5, phase=ph),
                    {k: v for k, v in ALPHA.items() if k != 'phase'},
                    3 if deep else 2):
                yield d

    def run(self, case, c):
        if 'k' in case:
            return getattr(self, 'run_' + case['k'])(case, c)
        sr = case['sr']
        i0 = int(case['pre'] * sr)
        n = i0 + int(case['post'] * sr) + 1
        x0 = i0 + case['frac']
        if x0 < 0 or x0 > n - 1:
            return
        phase = case['phase']
        method = phase[0]
        if case['letters'] == 'upper':
            phase = phase.upper()
        elif case['letters'] == 'lower':
            phase = phase.lower()
        slow, ref = case['slow'], case['ref']
        lay = ray.layers(rows(case['model']))
        side, z, t, tref = stretch(lay, slow, ref, phase)
        if np.any(np.diff(t) <= 0) or np.any(np.diff(tref) <= 0):
            return      # delay time does not define the depth
        # second trace with other slowness and onset
        slow2, x2, off = case['other'], x0, 0
        if slow2 is not None:
            _, _, t, _ = stretch(lay, slow2, ref, phase)
            if np.any(np.diff(t) <= 0):
                return
            off, x2 = 7, x0 + 2 if x0 + 2 <= n + 4 else x0
        else:
            slow2 = slow
        par = [(slow, x0), (slow2, x2)]
        st = stream([trace('CX.A..BHQ', rnd(n, 3), sr=sr, onset=T0 + x0 / sr,
                           phase=method, slowness=slow, type='rf', distance=30.),
                     trace('CX.A..BHT', rnd(n + off, 4), sr=sr,
                           onset=T0 + x2 / sr, phase=method,
                           slowness=slow2, type='rf')])
        ref_st = st.copy()
        c.op()
        c.trace()
        if case['how'] == 'model':
            kw = {k: v for k, v, default in (
                ('phase', phase, 'Ps'), ('ref', ref, 6.4)) if v != default}
            make_model(case['model']).moveout(st, **kw)
        else:
            kw = {} if ref == 6.4 else dict(ref=ref)
            if case['model'] != 'iasp91':
                kw['model'] = model_file(case['model'], c.tmp)
            if case['how'] == 'stream':
                kw['phase'] = phase
            elif len(phase) > 2:
                return
            r = st.moveout(**kw)
            c.check(r is st, 'return value')
            for tr, old in zip(st, ref_st):
                h = stats_dict(old, ['processing'])
                h.update(moveout='Ps' if case['how'] == 'default' and
                         method == 'P' else
                         'Sp' if case['how'] == 'default' else phase,
                         slowness=ref,
                         slowness_before_moveout=old.stats.slowness)
                c.eq(stats_dict(tr, ['processing']), h, 'headers')
        for tr, old, (slow, x0) in zip(st, ref_st, par):
            c.check(len(tr) == len(old), 'number of samples')
            exp, same, comp, zero = expected(old.data, x0, sr, lay, slow, ref,
                                             phase)
            g = tr.data
            c.check(np.all(np.isfinite(g)), 'result not finite')
            c.close(g[same], old.data[same], 'samples on the other side of '
                    'the onset', atol=1e-9)
            c.close(g[comp], exp[comp], 'corrected samples', atol=1e-5)
            c.close(g[zero], 0 * g[zero], 'samples beyond model', atol=1e-12)
        c.state(case)
        c.outcome(g)

    def run_odd(self, case, c):
        m = make_model('iasp91')
        for ph in ('P', 'S', 'Pps', 'SPP', 'Pppss'):
            st = stream([trace(onset=T0 + 1, slowness=6., phase='P')])
            b = snap(st)
            c.raises(ValueError, lambda: st.moveout(ph), ph)
            c.raises(ValueError, lambda: m.stretch_delay_times(6., ph), ph)
            c.eq(snap(st), b, 'stream changed')
        c.outcome(case)

    def run_again(self, case, c):
        """Histories of up to three corrections"""
        ops = [('Ps', 6.4), ('Ps', 8.), (None, 5.), ('Ppss', 6.4)]
        for n in (1, 2, 3):
            for hist in itertools.product(ops, repeat=n):
                st = stream([trace('CX.A..BH%s' % ch, rnd(200, k), sr=4.,
                                   onset=T0 + 10, phase='P', slowness=s)
                             for k, (ch, s) in enumerate(
                                 (('Q', 5.1), ('T', 7.2)))])
                for k, (ph, ref) in enumerate(hist):
                    # same data and slowness without the history
                    st2 = stream([trace(tr.id, tr.data.copy(), sr=4.,
                                        onset=T0 + 10, phase='P',
                                        slowness=tr.stats.slowness)
                                  for tr in st])
                    slow = [tr.stats.slowness for tr in st]
                    st.moveout(ph, ref=ref)
                    st2.moveout(ph, ref=ref)
                    c.op(2)
                    for tr, tr2, s in zip(st, st2, slow):
                        c.close(tr.data, tr2.data, 'moveout after moveout',
                                atol=1e-12)
                        got = [tr.stats[h] for h in (
                            'slowness', 'slowness_before_moveout', 'moveout')]
                        c.eq(got, [ref, s, ph or 'Ps'], 'headers %s' % (
                            hist[:k + 1],))
                c.state(hist)
        c.outcome(case)

    def run_onset(self, case, c):
        # 20 samples with 10 Hz, endtime at 1.9s
        for off, ok in ((-0.01, False), (0., True), (0.04, True), (1.9, True),
                        (1.91, False), (5., False), (-5, False)):
            for ph in ('Ps', 'Spss', 'Sp'):
                st = stream([trace(onset=T0 + off, slowness=6., phase=ph[0])])
                b = st[0].data.copy()
                if ok:
                    st.moveout(ph)
                    c.check(len(st[0]) == 20, 'length')
                else:
                    c.raises(ValueError, lambda: st.moveout(ph), 'onset')
                    c.close(st[0].data, b, 'data changed', atol=0)
                    c.check('moveout' not in st[0].stats, 'header set')
        c.outcome(case)

    def run_delays(self, case, c):
        """Delay times of the model"""
        for name in MODELS:
            m = make_model(name)
            lay = ray.layers(rows(name))
            for ph, s in itertools.product(
                    ('P', 's', 'PS', 'sp', 'Ppps', 'SSS', None),
                    ALPHA['slow'] + [15., 20.]):
                kw = {} if ph is None else {'phase': ph}
                q = m.calculate_vertical_slowness(s, **kw)
                c.check(len(q) == 2, 'vertical slowness')
                for k, x in enumerate('PS'):
                    if x not in (ph or 'PS').upper():
                        continue
                    w = np.array([la[2 + k] ** -2. - (s / ray.DEG) ** 2
                                  for la in lay])
                    with np.errstate(invalid='ignore'):
                        w = np.sqrt(w)
                    c.check(np.array_equal(np.isnan(q[k]), np.isnan(w)),
                            'vertical slowness %s %s' % (ph, s))
                    c.close(np.nan_to_num(q[k]), np.nan_to_num(w),
                            'vertical slowness %s %s' % (ph, s), rtol=1e-7,
                            atol=1e-9)
            for s in ALPHA['slow']:
                c.check(np.array_equal(
                    m.calculate_delay_times(s),
                    m.calculate_delay_times(s, 'PS'), equal_nan=True),
                    'default phase')
            for ph, s in itertools.product(PHASES, ALPHA['slow']):
                want = np.array(ray.delay_times(lay, s, ph))
                got = m.calculate_delay_times(s, ph)
                for p2 in (ph.upper(), ph.lower()):
                    c.check(np.array_equal(
                        m.calculate_delay_times(s, p2), got, equal_nan=True),
                        'letter case of phase')
                c.op()
                c.trace()
                fin = np.isfinite(got)
                c.check(fin.sum() == len(want) - 1, 'turning point %s %s' % (
                    ph, s))
                c.close(got[fin], want[1:, 1], 'delay times %s %s %s' % (
                    name, ph, s), rtol=1e-9)
                for r in ALPHA['ref']:
                    a, b = m.stretch_delay_times(s, ph, r)
                    w = ray.delay_times(lay, r, ph)
                    k = min(len(w), len(want))
                    sg = -1 if ph[0] == 'S' else 1
                    c.check(len(a) == len(b), 'length')
                    # odd continuation, then zero, then depths
                    neg = (len(a) - k) if not turns(lay, s, r, ph) else None
                    if neg is None:
                        k -= 1
                        neg = min(10, k - 1)
                        if len(a) > k + neg:    # last layer not left out
                            k += 1
                            neg = min(10, k - 1)
                    c.check(len(a) == k + neg, 'number of delay times')
                    c.close(a[-k:], sg * want[:k, 1], 'stretch times',
                            rtol=1e-9)
                    c.close(b[-k:], sg * np.array(w)[:k, 1], 'stretch ref',
                            rtol=1e-9)
                    c.state(name, ph, s, r)
        c.outcome(case)


CHECK = C()
