"""C24: plots"""
import itertools
import os
import warnings

import numpy as np

from mc import ray
from mc.engine import Check
from checks import c09_moveout as moveout
from mc.build import trace, stream, rnd, snap, T0, pairwise_deviation


def rf_trace(i, id='NN.STA..BHQ', npts=15, sr=2., onset=2.5, amp=1., **kw):
    start = T0 + 1000 * i
    head = dict(back_azimuth=30. + 100 * i, distance=50 + 7. * i,
                slowness=6. + i, moveout='Ps', phase='P', type='rf',
                event_time=start - 500, inclination=20.,
                station_latitude=10., station_longitude=20.,
                station_elevation=0.)
    head.update(kw)
    return trace(id, amp * rnd(npts, i + 1), sr=sr, start=start,
                 onset=start + onset, **head)


STREAMS = {
    'one': lambda: [rf_trace(0)],
    'two': lambda: [rf_trace(0), rf_trace(1, amp=5.)],
    'three': lambda: [rf_trace(2, amp=.1), rf_trace(0), rf_trace(1, amp=3)],
    'comps': lambda: [rf_trace(0), rf_trace(1, 'NN.STA..BHT')],
    'stations': lambda: [rf_trace(0), rf_trace(1, 'NN.ST2..BHQ')],
    'nets': lambda: [rf_trace(0), rf_trace(1, 'NZ.STA..BHQ')],
    'bands': lambda: [rf_trace(0), rf_trace(1, 'NN.STA..HHQ')],
    'locs': lambda: [rf_trace(0), rf_trace(1, 'NN.STA.00.BHQ')],
    'npts': lambda: [rf_trace(0), rf_trace(1, npts=12)],
    'onset': lambda: [rf_trace(0), rf_trace(1, onset=2.63)],
    'early': lambda: [rf_trace(0, onset=0.), rf_trace(1, onset=0.)],
    'late': lambda: [rf_trace(0, onset=-1.), rf_trace(1, onset=-3.)],
    'before': lambda: [rf_trace(0, onset=20.), rf_trace(1, onset=9.)],
    'neg': lambda: [rf_trace(0, amp=-2.), rf_trace(1, amp=-4.)],
    'part': lambda: [rf_trace(0), rf_trace(1, onset=-3.), rf_trace(2)],
    'zero': lambda: [rf_trace(0), rf_trace(1, amp=0.), rf_trace(2, amp=.5)],
    'dead': lambda: [rf_trace(0, amp=0.)],
    'six': lambda: [rf_trace(i % 3, amp=1 + i) for i in range(6)],
}
INFOB = ('back_azimuth', 'baz', 'C0')
INFOD = ('distance', 'dist', 'r')
INFOS = ('slowness', 'slow', 'C2')
RF_OPT = {
    'trace_scale': (False, True), 'scale_factor': (1, 0.5, 3.),
    'fillcolors': ((None, None), ('b', None), (None, 'r'), ('0.5', 'g')),
    'trim': (None, (-1, 2), (0, 1.5), (-100, 100), [-1.3, 1.1]),
    'info': ('default', None, (), (INFOS,), (INFOD, INFOB), [INFOS, INFOD]),
    'show_traces': (True, False), 'show_vlines': (False, True),
    'fname': (None, 'fig.png'), 'fig_width': (7., 4),
    'trace_height': (0.5, 0.2), 'stack_height': (0.5, 1), 'dpi': (None, 60)}
PR_OPT = {
    'scale': (1, 0.5, 2.), 'fillcolors': (
        ('C3', 'C0'), ('b', None), (None, 'r'), (None, None)),
    'trim': (None, (-1, 2), (-100, 100)), 'top': (None, 'hist'),
    'moveout_model': ('iasp91', None, 'crust', 'nodup', 'grad'), 'figsize': (None, (4, 3)),
    'dpi': (None, 60), 'fname': (None, 'fig.png')}
HD_OPT = {'fillcolors': (('b', 'r'), (None, None), ('g', None)),
          'trim': (None, (-1, 2), (0, 1.5))}


def cut(tr, trim):
    """times relative to onset and samples of trimmed trace"""
    t = np.arange(tr.stats.npts) / tr.stats.sampling_rate - (
        tr.stats.onset - tr.stats.starttime)
    d = np.array(tr.data)
    if trim:
        dt = 0.5 / tr.stats.sampling_rate - 1e-6
        ok = (t >= trim[0] - dt) & (t <= trim[1] + dt)
        t, d = t[ok], d[ok]
    return t, d


def find(ax, x, y, c, msg):
    """There is exactly one line with these coordinates"""
    def eq(a, b):
        a = np.asarray(a, dtype=float)
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-5)
    n = [l for l in ax.lines if eq(l.get_xdata(), x) and eq(
        l.get_ydata(), y) and l.get_visible()]
    if len(n) != 1:
        for l in ax.lines:
            if len(l.get_xdata()) == len(x):
                msg += ' [line x %.4g..%.4g y max %.5g at %d]' % (
                    l.get_xdata()[0], l.get_xdata()[-1],
                    np.max(l.get_ydata()), np.argmax(l.get_ydata()))
        c.fail('%s: %d lines, expected x %.4g..%.4g y max %.5g at %d' % (
            msg, len(n), x[0], x[-1], np.max(y), np.argmax(y)))
    c.check(n[0].get_linestyle() == '-' and n[0].get_linewidth() > 0,
            msg + ': no line')
    return n[0]


def fills(ax, c, curves, colors, msg, vert=False):
    """
    Check filled areas between curves and their base lines

    curves: list of (t, value, base), value > base is positive
    """
    from matplotlib.colors import to_rgba
    polys = [(p.get_facecolor()[0], [q.vertices for q in p.get_paths()])
             for p in ax.collections]
    want = [(to_rgba(col), sign, cu) for cu in curves
            for col, sign in zip(colors, (1, -1)) if col]
    c.eq(len(polys), len(want), msg + ': number of filled areas')
    for col, sign, (t, v, base) in want:
        peak = np.max(sign * (v - base))
        hit = 0
        for fc, verts in polys:
            if not np.allclose(fc, col):
                continue
            vs = [np.asarray(x) for x in verts if len(x)]
            if not vs:
                hit += peak <= 0
                continue
            vs = np.vstack(vs)
            val = (vs[:, 0] if vert else vs[:, 1]) - base
            if abs(np.max(sign * val) - max(peak, 0)) < 1e-5 + 1e-5 * abs(
                    peak) and np.min(sign * val) > -1e-6 - 1e-6 * abs(peak):
                hit += 1
        c.check(hit >= 1, msg + ': filled area for base %s, sign %d', base,
                sign)


class C(Check):
    id = 'C24'
    rule = ('plot_rf for streams %s and options %s; plot_profile with %s; '
            'plot_harmonics with %s; maps' % (
                sorted(STREAMS), {k: len(v) for k, v in RF_OPT.items()},
                PR_OPT, HD_OPT))
    bounds = {'quick': 'all pairs of deviations from the default options for '
                       'two streams, single deviations for all streams, full '
                       'product of harmonics and profile options up to '
                       'pairs',
              'thorough': 'all triples of deviations, all pairs for all '
                          'streams'}
    assumptions = ('figures are judged by the artists in the axes',)
    timeout = 120

    def setup(self):
        import matplotlib.pyplot as plt
        from rf.simple_model import load_model
        load_model('iasp91')
        with open(os.path.join(os.path.dirname(ray.__file__),
                               'iasp91.txt')) as f:
            ray.set_table(f.read())
        plt.close(plt.figure())

    def cases(self, tier):
        deep = tier == 'thorough'
        d = {k: v[0] for k, v in RF_OPT.items()}
        for n, st in enumerate(STREAMS):
            m = 1 if st not in ('two', 'three') else 2
            if deep:
                m = 3 if st in ('two', 'npts') else 2
            for o in pairwise_deviation(d, RF_OPT, m):
                yield {'k': 'rf', 'st': st, 'opt': {
                    k: v for k, v in o.items() if v != d[k]}}
        d = {k: v[0] for k, v in PR_OPT.items()}
        for st in ('one', 'three', 'uneven', 'comps', 'part', 'zero',
                   'dead'):
            for o in pairwise_deviation(d, PR_OPT, 3 if deep else
                                        2 if st == 'uneven' else 1):
                yield {'k': 'profile', 'st': st, 'opt': {
                    k: v for k, v in o.items() if v != d[k]}}
        for slow, mo in itertools.product((4., 6.4, 8.),
                                          ('Ps', 'Ppps', 'Sp')):
            yield {'k': 'profile', 'st': 'three', 'opt': {}, 'slow': slow,
                   'moveout': mo}
        for st in ('R', 'QT', 'RTamp', 'R+R', 'R+RT', 'perm', 'dead', 'R+dead'):
            for fc, tm in itertools.product(*HD_OPT.values()):
                yield {'k': 'harm', 'st': st, 'opt': {'fillcolors': fc,
                                                      'trim': tm}}
        for k in ('empty', 'invalid'):
            yield {'k': k}
        for what in ('stations', 'stationsinv', 'stationsdup', 'stationsdupinv',
                     'ppoints', 'ppinv', 'map', 'mapall', 'mapcrs', 'axes',
                     'style'):
            for loc in ((10., 20.), (-21., -69.5), (0., 179.9), (60., -150.)):
                yield {'k': 'map', 'what': what, 'loc': loc}

    def run(self, case, c):
        import matplotlib.pyplot as plt
        os.chdir(c.tmp)
        try:
            getattr(self, 'run_' + case['k'])(case, c)
        finally:
            plt.close('all')
        c.state(case)

    def figure(self, c, func, st, opt):
        import matplotlib.pyplot as plt
        before = snap(st)
        kw = dict(opt)
        caught = []
        fig = None
        if kw.get('fname'):
            # catch the figure before it is closed
            from matplotlib.figure import Figure
            orig = Figure.savefig
            seen = []

            def savefig(self, fname, **kw):
                seen.append((self, fname))
                return orig(self, fname, **kw)
            Figure.savefig = savefig
        n0 = len(plt.get_fignums())
        c.op()
        c.trace()
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                res = func(**kw)
        finally:
            if kw.get('fname'):
                Figure.savefig = orig
        if kw.get('fname'):
            c.check(res is None, 'figure returned although saved')
            c.check(os.path.getsize(kw['fname']) > 100, 'figure not saved')
            c.eq(len(plt.get_fignums()), n0, 'open figures')
            c.eq(len(seen), 1, 'saved figures')
            fig = seen[0][0]
        else:
            fig = res
            c.check(fig is not None and hasattr(fig, 'axes'), 'no figure')
            c.eq(len(plt.get_fignums()), n0 + 1, 'open figures')
        c.eq(snap(st), before, 'stream after plot')
        return fig, [str(w.message) for w in caught]

    def run_rf(self, case, c):
        st = stream(STREAMS[case['st']]())
        opt = {k: v for k, v in case['opt'].items()}
        o = {k: v[0] for k, v in RF_OPT.items()}
        o.update(opt)
        if not any(len(cut(tr, o['trim'])[0]) for tr in st):
            import matplotlib.pyplot as plt
            n = len(plt.get_fignums())
            c.check(st.plot_rf(**opt) is None, 'figure without data')
            c.eq(len(plt.get_fignums()), n, 'open figures')
            c.outcome('no data')
            return
        fig, warn = self.figure(c, st.plot_rf, st, opt)
        c.close(fig.get_size_inches()[0], o['fig_width'], 'width', atol=1e-6)
        if o['dpi'] and not o['fname']:
            c.close(fig.dpi, o['dpi'], 'dpi', atol=1e-6)
        curves = [cut(tr, o['trim']) for tr in st]
        # traces without samples after trimming are not plotted
        st = [tr for tr, (t, _) in zip(st, curves) if len(t)]
        curves = [x for x in curves if len(x[0])]
        gmax = max(np.max(np.abs(d)) for _, d in curves) or 1
        N = len(st)
        axs = list(fig.axes)
        want = []
        for i, (t, d) in enumerate(curves):
            m = (np.max(np.abs(d)) or 1) if o['trace_scale'] else gmax
            want.append((t, d / m * o['scale_factor'] + i + 1, i + 1))
        tmin = min([0] + [t[0] for t, _ in curves])
        tmax = max([0] + [t[-1] for t, _ in curves])
        left = list(axs)
        if o['show_traces']:
            ax = [a for a in axs if a.get_xlabel() == 'time (s)']
            c.eq(len(ax), 1, 'axes with traces')
            ax = ax[0]
            left.remove(ax)
            c.eq(len(ax.lines), N, 'number of lines')
            for i, (t, y, b) in enumerate(want):
                find(ax, t, y, c, 'trace %d' % i)
            fills(ax, c, want, o['fillcolors'], 'traces')
            c.close(ax.get_xlim(), [tmin, tmax], 'time limits', atol=1e-6)
            y0, y1 = ax.get_ylim()
            c.check(y0 <= 0.5 and y1 >= N + 0.5, 'y limits')
            self.grid(c, ax, o['show_vlines'])
            info = o['info']
            if info == 'default':
                info = (('back_azimuth', None, 'C0'), ('distance', None,
                                                       'C3'))
            for key, label, color in info or ():
                from matplotlib.colors import to_rgba
                v = [tr.stats[key] for tr in st]
                ia = [a for a in left if len(a.lines) == 1 and
                      len(a.lines[0].get_xdata()) == N and np.allclose(a.lines[0].get_ydata(), np.arange(N) + 1)
                      and np.allclose(a.lines[0].get_xdata(), v)]
                c.eq(len(ia), 1, 'axes with ' + key)
                left.remove(ia[0])
                c.eq(to_rgba(ia[0].lines[0].get_color()), to_rgba(color),
                     'color of ' + key)
                if label:
                    c.eq(ia[0].get_xlabel(), label, 'label')
                c.check(ia[0].lines[0].get_marker() not in (
                    None, 'None', '', ' '), 'no marks for ' + key)
                # tick labels tell the value at the tick
                for x, t in zip(ia[0].get_xticks(), ia[0].get_xticklabels()):
                    t = t.get_text().replace(u'\u2212', '-')
                    if t.strip('-').replace('.', '', 1).isdigit():
                        c.close(float(t), x, 'tick label of ' + key,
                                atol=1e-6)
                c.close(ia[0].get_ylim(), ax.get_ylim(), 'shared y axis',
                        atol=1e-6)
                lo, hi = ia[0].get_xlim()
                c.check(lo <= min(v) and hi >= max(v) or key ==
                        'back_azimuth', 'limits of ' + key)
            texts = [x.get_text() for x in ax.texts]
            c.check(any('%d traces' % N in x for x in texts), 'title')
            if len(set(tr.id for tr in st)) == 1:
                c.check(any(st[0].id in x for x in texts), 'id in title')
            # codes which all traces have in common, and no other codes
            names = [set(tr.id.split('.')[i] for tr in st) for i in range(2)]
            if all(len(n) == 1 for n in names):
                c.check(any('%s.%s' % (st[0].stats.network, st[0].stats.station)
                            in x for x in texts), 'station in title')
            else:
                c.check(not any(n in x for n in set.union(*names)
                                for x in texts), 'title of several stations')
            if len(set(tr.stats.channel for tr in st)) > 1:
                c.check(not any(tr.stats.channel in x for x in texts
                                for tr in st), 'title of several components')
        same = len(set(tr.id for tr in st)) == 1
        equal = len(set(len(d) for t, d in curves)) == 1
        if same and equal:
            c.eq(len(left), 1, 'axes left for the stack')
            mean = np.mean([d for _, d in curves], axis=0)
            ax2 = left[0]
            c.eq(len(ax2.lines), 1, 'lines in stack')
            t = [t for t, _ in curves if np.allclose(
                t, ax2.lines[0].get_xdata(), atol=1e-6)]
            c.check(len(t) > 0, 'times of stack')
            find(ax2, t[0], mean, c, 'stack')
            fills(ax2, c, [(t[0], mean, 0)], o['fillcolors'], 'stack')
            c.close(ax2.get_xlim(), [tmin, tmax], 'limits of stack',
                    atol=1e-6)
            self.grid(c, ax2, o['show_vlines'])
            if o['show_traces']:
                p1, p2 = ax.get_position(), ax2.get_position()
                c.check(p1.y1 <= p2.y0 + 1e-6, 'stack is not above traces')
                c.close([p1.x0, p1.x1], [p2.x0, p2.x1], 'extent of stack',
                        atol=1e-6)
        else:
            c.eq(len(left), 0, 'axes although there is no stack')
            c.check(any('stack' in w for w in warn), 'no warning')
        for a in axs:
            pa = a.get_position()
            c.check(min(pa.x0, pa.y0) >= 0 and max(pa.x1, pa.y1) <= 1 and
                    pa.width > 0.05 and pa.height > 0.05 * min(
                        1, o['stack_height']), 'axes outside of figure')
            if o['show_traces'] and a.get_xlabel() != 'time (s)' and not (
                    same and equal and a is ax2):
                c.check(pa.x0 >= ax.get_position().x1 - 1e-6 or
                        a.get_xlabel() == '', 'info over traces')
        c.outcome(len(axs), same, equal)

    def grid(self, c, ax, on):
        vis = [g.get_visible() for g in ax.get_xgridlines()]
        c.check(all(vis) if on else not any(vis), 'vertical lines')

    def profile(self, name, slow=6.4, mo='Ps'):
        boxes = {'one': [(10., 20., 3)],
                 'three': [(5., 10., 3), (15., 10., 1), (25., 10., 7)],
                 'uneven': [(-20., 30., 2), (10., 8., 9), (30., 15., 4)],
                 'part': [(5., 10., 3), (15., 10., 1), (25., 9., 7)],
                 'zero': [(5., 10., 3), (15., 10., 1), (25., 10., 7)],
                 'dead': [(5., 10., 3), (15., 10., 1)],
                 'comps': [(5., 10., 3), (5., 10., 3), (15., 10., 2)]}[name]
        trs = []
        for i, (pos, length, num) in enumerate(boxes):
            tr = rf_trace(i, '...??' + ('QT'[i % 2] if name == 'comps'
                                        else 'Q'), amp=0 if name == 'dead'
                          or (name == 'zero' and i == 1) else 1 + i,
                          onset=-3. if name == 'part' and i == 1 else 2.5,
                          box_pos=pos, box_length=length, num=num,
                          moveout=mo, slowness=slow, type='profile',
                          npts=30)
            trs.append(tr)
        return stream(trs)

    def run_profile(self, case, c):
        slow, mo = case.get('slow', 6.4), case.get('moveout', 'Ps')
        st = self.profile(case['st'], slow, mo)
        opt = case['opt']
        o = {k: v[0] for k, v in PR_OPT.items()}
        o.update(opt)
        model = o['moveout_model']
        if model not in (None, 'iasp91'):
            opt = dict(opt, moveout_model=moveout.model_file(model, c.tmp))
        fig, warn = self.figure(c, st.plot_profile, st, opt)
        if o['figsize']:
            c.close(fig.get_size_inches(), o['figsize'], 'figsize', atol=1e-6)
        curves = [cut(tr, o['trim']) for tr in st]
        st = [tr for tr, (t, _) in zip(st, curves) if len(t)]
        curves = [x for x in curves if len(x[0])]
        gmax = max(np.max(np.abs(d)) for _, d in curves) or 1
        w = min(tr.stats.box_length for tr in st)
        ax = [a for a in fig.axes if a.get_xlabel() == 'distance (km)']
        c.eq(len(ax), 1, 'axes with profile')
        ax = ax[0]
        c.eq(len(ax.lines), len(st), 'number of lines')
        cs = []
        for tr, (t, d) in zip(st, curves):
            x = tr.stats.box_pos + o['scale'] * d / gmax * w
            find(ax, x, t, c, 'trace at %s' % tr.stats.box_pos)
            cs.append((t, x, tr.stats.box_pos))
        fills(ax, c, cs, o['fillcolors'], 'profile', vert=True)
        t = curves[0][0]
        c.close(ax.get_ylim(), [t[-1], t[0]], 'time axis', atol=1e-6)
        lo, hi = ax.get_xlim()
        c.check(lo <= min(np.min(x[1]) for x in cs) and
                hi >= max(np.max(x[1]) for x in cs), 'distance limits')
        da = [a for a in fig.axes if a.get_ylabel() == 'depth (km)']
        c.eq(len(da), 1 if o['moveout_model'] else 0, 'depth axis')
        if da:
            fig.canvas.draw()
            c.close(da[0].get_ylim(), ax.get_ylim(), 'limits of depth axis',
                    atol=1e-6)
            lay = ray.layers(moveout.rows(model))
            dt = ray.delay_times(lay, slow, mo)
            z, tt = zip(*dt)
            labels = [l.get_text() for l in da[0].get_yticklabels()]
            locs = da[0].yaxis.get_ticklocs()
            n = 0
            for lab, loc in zip(labels, locs):
                if lab == '' or float(lab) > z[-1]:
                    continue
                n += 1
                c.close(loc, np.interp(float(lab), z, tt),
                        'time of depth %s' % lab, atol=2e-3 + 1e-4 *
                        abs(loc))
            c.check(n > 2, 'depth labels %s' % labels)
        ha = [a for a in fig.axes if a not in [ax] + da]
        c.eq(len(ha), 1 if o['top'] else 0, 'axes on top')
        if ha:
            bars = [p for p in ha[0].patches]
            got = sorted((p.get_x(), p.get_x() + p.get_width(),
                          p.get_height()) for p in bars)
            want = sorted((tr.stats.box_pos - tr.stats.box_length / 2,
                           tr.stats.box_pos + tr.stats.box_length / 2,
                           tr.stats.num) for tr in st)
            c.close(got, want, 'histogram', atol=1e-6)
            c.close(ha[0].get_xlim(), ax.get_xlim(), 'shared axis',
                    atol=1e-6)
        c.outcome(len(fig.axes))

    def harm(self, comps, seed=0, amp=1.):
        trs = []
        for j in range(5 * len(comps)):
            a = amp * (3 if j == 7 and amp > 1 else 1 + 0.1 * j)
            tr = rf_trace(j + seed, 'NN.STA.%s.%d' % (
                'mod' if j < 5 else 'unmod', j % 5), amp=a)
            tr.stats.update(dict(components=comps, type='harmonic',
                                 term=str(j % 5)))
            tr.stats.starttime, off = T0, tr.stats.onset - tr.stats.starttime
            tr.stats.onset = T0 + off
            trs.append(tr)
        return stream(trs)

    def run_harm(self, case, c):
        from rf.imaging import plot_harmonics
        st, opt = case['st'], case['opt']
        hd2 = None
        if st == 'R' or st == 'QT':
            hd = self.harm(st)
        elif st == 'RTamp':
            hd = self.harm('RT', 3, 4.)
        elif st == 'R+R':
            hd, hd2 = self.harm('R'), self.harm('Q', 9, 5.)
        elif st == 'dead':
            hd = self.harm('RT', amp=0.)
        elif st == 'R+dead':
            hd, hd2 = self.harm('R'), self.harm('Q', 9, 0.)
        elif st == 'R+RT':
            hd, hd2 = self.harm('RT', 0, 4.), self.harm('QT', 9, 2.)
        else:
            hd = self.harm('RT')
            hd.traces = hd.traces[::-1]
        both = stream(list(hd) + list(hd2 or []))
        before = snap(both)
        c.op()
        c.trace()
        fig = plot_harmonics(hd, hd2, **opt)
        c.eq(snap(both), before, 'streams after plot')
        trim = opt['trim']
        ref0 = max(np.max(np.abs(cut(tr, trim)[1])) for tr in hd) or 1
        if hd2 is not None:
            right = [tr for tr in hd2 if tr.stats.location == 'mod']
            ref1 = max(np.max(np.abs(cut(tr, trim)[1])) for tr in right) or 1
        else:
            right = [tr for tr in hd if tr.stats.location == 'unmod']
            ref1 = ref0
        left = [tr for tr in hd if tr.stats.location == 'mod']
        c.eq(len(fig.axes), 2, 'panels')
        fig.canvas.draw()
        axs = sorted(fig.axes, key=lambda a: a.get_position().x0)
        for ax, trs, ref, name in zip(axs, (left, right), (ref0, ref1),
                                      ('left', 'right')):
            c.eq(len(ax.lines), len(trs), 'lines %s' % name)
            cs = []
            for tr in trs:
                t, d = cut(tr, trim)
                j = 4 - int(tr.stats.channel)
                find(ax, t, d / ref + j, c, '%s channel %s' % (
                    name, tr.stats.channel))
                cs.append((t, d / ref + j, j))
            fills(ax, c, cs, opt['fillcolors'], name)
        labels = [l.get_text() for l in axs[0].get_yticklabels()]
        c.eq(len(labels), 5, 'labels')
        locs = axs[0].yaxis.get_ticklocs()
        for lab, y in zip(labels, locs):
            want = {4: 'constant', 3: 'cos', 2: 'sin', 1: 'cos', 0: 'sin'}[
                int(round(y))]
            c.check(lab.startswith(want), 'label %s at %s', lab, y)
            c.check(('2' in lab) == (y < 1.5), 'label %s at %s', lab, y)
        c.check(hd[0].stats.components in axs[0].get_title(), 'title')
        if hd2 is not None:
            c.check(hd2[0].stats.components in axs[1].get_title(), 'title')

    def run_empty(self, case, c):
        import matplotlib.pyplot as plt
        from rf import RFStream
        from rf.imaging import plot_rf, plot_profile
        for f in (plot_rf, plot_profile):
            for kw in ({}, {'trim': (-1, 2)}, {'fname': 'x.png'}):
                c.op()
                c.check(f(RFStream(), **kw) is None, 'figure of empty stream')
                c.check(not os.path.exists('x.png'), 'file')
                c.eq(plt.get_fignums(), [], 'open figures')
        # no samples left
        for f, st in ((plot_rf, stream(STREAMS['three']())),
                      (plot_profile, self.profile('three'))):
            for kw in ({}, {'fname': 'x.png'}):
                for trim in ((100, 200), (-50, -40)):
                    before = snap(st)
                    c.op()
                    c.check(f(st, trim=trim, **kw) is None,
                            'figure of empty stream')
                    c.check(not os.path.exists('x.png'), 'file')
                    c.eq(plt.get_fignums(), [], 'open figures')
                    c.eq(snap(st), before, 'stream after plot')

    def run_invalid(self, case, c):
        st = self.profile('three')
        c.op()
        c.raises(NotImplementedError, lambda: st.plot_profile(top='stack'),
                 'top')

    def run_map(self, case, c):
        import cartopy.crs as ccrs
        from obspy.core.inventory import Inventory, Network, Station
        from rf.imaging import (plot_stations, plot_ppoints,
                                plot_profile_map)
        from rf.profile import get_profile_boxes
        lat, lon = case['loc']
        sta = [(lat + 0.1, lon), (lat - 0.2, lon + 0.05), (lat, lon - 0.4)]
        names = ['S%d' % i for i in range(3)]
        pps = [(lat + 0.03 * i, lon - 0.02 * i) for i in range(5)]
        what = case['what']
        inv = Inventory(networks=[
            Network('AA', stations=[Station(n, a, o, 0.) for n, (a, o) in
                                    zip(names[:2], sta[:2])]),
            Network('BB', stations=[Station(names[2], *sta[2], 0.)])],
            source='')
        boxes = get_profile_boxes((lat, lon), 60., (0, 10, 20, 35), width=30)
        st = stream([rf_trace(i, 'NN.%s..BHQ' % names[i % 3],
                              station_latitude=sta[i % 3][0],
                              station_longitude=sta[i % 3][1])
                     for i in range(6)])
        c.op()
        c.trace()
        pts, bx, lab = [], [], []
        if what.startswith('stationsdup'):
            # stations of different networks with the same name
            for tr in st[:1] + st[3:4]:
                tr.stats.station = names[1]
            inv[0][0].code = names[1]
            names[0] = names[1]
        if what == 'stations':
            ax = plot_stations(st)
            pts, lab = [sta], names
        elif what == 'stationsdup':
            ax = plot_stations(st)
            pts, lab = [sta], names
        elif what == 'stationsdupinv':
            ax = plot_stations(inv)
            pts, lab = [sta], names
        elif what == 'axes':
            import matplotlib.pyplot as plt
            ax = plt.axes(projection=ccrs.Mollweide())
            for f, args in ((plot_stations, (st,)), (plot_ppoints, (pps,)),
                            (plot_profile_map, (boxes,))):
                c.check(f(*args, ax=ax) is ax, 'other axes')
            c.eq(len(plt.get_fignums()), 1, 'open figures')
            c.eq(len(ax.figure.axes), 1, 'axes')
            bx, pts, lab = boxes, [sta, pps], names
        elif what == 'style':
            from matplotlib.colors import to_rgba
            ax = plot_stations(st, s=33, c='b')
            plot_ppoints(pps, ax=ax, s=21, color='g', alpha=None)
            plot_profile_map(boxes, ax=ax, edgecolor='r')
            bx, pts, lab = boxes, [sta, pps], names
            for s, col in ((33, 'b'), (21, 'g')):
                cl = [k for k in ax.collections
                      if hasattr(k, 'get_sizes') and list(k.get_sizes()) == [s]]
                c.eq(len(cl), 1, 'points with size %d' % s)
                c.eq(tuple(cl[0].get_facecolor()[0]), to_rgba(col), 'color')
        elif what == 'stationsinv':
            ax = plot_stations(inv, label_stations=False, color=None)
            pts = [sta]
        elif what == 'ppoints':
            ax = plot_ppoints(pps)
            pts = [pps]
        elif what == 'ppinv':
            ax = plot_ppoints(pps, inventory=inv)
            pts, lab = [sta, pps], names
        elif what == 'map':
            ax = plot_profile_map(boxes)
            bx = boxes
        elif what == 'mapall':
            ax = plot_profile_map(boxes, inventory=st, ppoints=pps,
                                  label_stations=False)
            bx, pts = boxes, [sta, pps]
        else:
            crs = ccrs.Orthographic(lon, lat)
            ax = plot_profile_map(boxes, inventory=inv, ppoints=pps, crs=crs)
            c.eq(ax.projection == crs, True, 'crs')
            bx, pts, lab = boxes, [sta, pps], names
        pc = ccrs.PlateCarree()

        def xy(latlons):
            p = [ax.projection.transform_point(o, a, pc) for a, o in latlons]
            return sorted(map(tuple, np.round(ax.transData.transform(p), 3)))
        cols = [k for k in ax.collections if len(k.get_offsets()) > 1]
        c.eq(len(cols), len(pts), 'scatter plots')
        got = sorted(sorted(map(tuple, np.round(
            k.get_offset_transform().transform(k.get_offsets()), 3)))
            for k in cols)
        want = sorted(xy(p) for p in pts)
        for g, w in zip(got, want):
            c.close(g, w, 'points', atol=0.02)
        c.eq(sorted(t.get_text() for t in ax.texts), sorted(lab), 'labels')
        if lab:
            c.eq(sorted((t.get_text(), tuple(t.xy)) for t in ax.texts),
                 sorted((n, (o, a)) for n, (a, o) in zip(names, sta)),
                 'labels')
        arts = [a for a in ax.artists if hasattr(a, '_feature')] + [
            a for a in ax.collections if hasattr(a, '_feature')]
        if arts or bx:
            geoms = [g for a in arts for g in a._feature.geometries()]
            c.eq(len(geoms), len(bx), 'boxes')
            for g, b in zip(geoms, bx):
                c.check(g.equals(b['poly']), 'polygon of box')


CHECK = C()
