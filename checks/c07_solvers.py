"""C07: deconvolution solvers against independent reference solvers"""
from functools import lru_cache
import itertools

import numpy as np

from mc.engine import Check
from mc.build import rnd, pairwise_deviation


def lag0(N, L, M):
    """Lag of sample 0 of the cross-correlation for shift 0"""
    return (N - L - M + 1) // 2


def xcorr(a, b, lags):
    """sum_j a[j + lag] b[j] with zeros outside of a"""
    out = []
    for lag in lags:
        s = 0.
        for j in range(len(b)):
            if 0 <= j + lag < len(a):
                s += a[j + lag] * b[j]
        out.append(s)
    return np.array(out)


def ref_time(rsps, src, shift, spiking=1., length=None, normalize=0):
    M = len(rsps[0]) if length is None else length
    ac = xcorr(src, src, range(M))
    ac = ac / ac[0]
    A = np.array([[ac[abs(i - j)] for j in range(M)] for i in range(M)])
    A += spiking * np.eye(M)
    out = []
    for r in rsps:
        l0 = lag0(len(r), len(src), M) - shift
        out.append(np.linalg.solve(A, xcorr(r, src, range(l0, l0 + M))))
    if normalize is not None:
        nrm = np.max(np.abs(out[normalize]))
        if nrm < 1e-8:
            return None
        out = [o / nrm for o in out]
    return out


def dft(x, n):
    x = np.concatenate([np.asarray(x, dtype=complex)[:n],
                        np.zeros(max(0, n - len(x)))])
    k = np.arange(n)
    return np.exp(-2j * np.pi * np.outer(k, k) / n).dot(x)


def idft(x):
    n = len(x)
    k = np.arange(n)
    return np.exp(2j * np.pi * np.outer(k, k) / n).dot(x) / n


def freqs(n, sr):
    return np.array([k if k < (n + 1) // 2 else k - n
                     for k in range(n)]) * sr / n


def fastlen(n):
    while True:
        m = n
        for p in (2, 3, 5):
            while m % p == 0:
                m //= p
        if m == 1:
            return n
        n += 1


def gaussf(n, sr, g):
    return np.exp(-0.5 * (freqs(n, sr) / g) ** 2)


def shiftf(n, sr, t):
    return np.exp(-2j * np.pi * freqs(n, sr) * t)


def ref_waterlevel(rsps, src, sr, waterlevel=0.05, gauss=0.5, tshift=10.,
                   length=None, normalize=0, nfft=None):
    N = len(rsps[0]) if length is None else length
    n = fastlen(N) if nfft is None else nfft
    F = shiftf(n, sr, tshift)
    if gauss is not None:
        F = F * gaussf(n, sr, gauss)
    S = dft(src, n)
    P = np.abs(S) ** 2
    P = np.maximum(P, waterlevel * np.max(P))

    def dec(x):
        return idft(F * dft(x, n) * np.conj(S) / P)[:N]
    out = [dec(r) for r in rsps]
    base = None
    if normalize == 'src':
        base = dec(src)
    elif normalize is not None:
        base = out[normalize]
    if base is not None:
        i = np.argsort(base.real)
        if (abs(base[i[-1]]) < 1e-8 or len(i) > 1 and
                base.real[i[-1]] - base.real[i[-2]] < 1e-9):
            return None
        out = [o / base[i[-1]] for o in out]
    return out


def ref_iterative(rsps, src, sr, tshift=10, gauss=0.5, itmax=400,
                  minderr=0.001, mute_shift=False, normalize=0):
    """Return results, iterations and error or None if ambiguous"""
    out, its, errs = [], [], []
    for r in rsps:
        N = len(r)
        n = fastlen(2 * N)
        G = gaussf(n, sr, gauss)
        k = np.arange(n)
        DF = np.exp(-2j * np.pi * np.outer(k, k) / n)
        IF = np.conj(DF) / n
        rf = IF.dot(DF[:, :N].dot(r) * G).real
        m = min(n, len(src))
        s = IF.dot(DF[:, :m].dot(src[:m]) * G).real
        ps, pr = np.sum(s ** 2), np.sum(rf ** 2)
        if pr < 1e-12 or ps < 1e-12:
            return None
        # circular shift matrix of the filtered source: column i is a
        # source starting at sample i
        Smat = np.array([np.roll(s, i) for i in range(n)]).T
        allowed = np.zeros(n, dtype=bool)
        allowed[:N] = True
        if not mute_shift:
            ns = int(round(tshift * sr))
            if ns > 0:
                allowed[n - ns:] = True
        p = np.zeros(n)
        rest, old, err = rf.copy(), 1, []
        it = 0
        while it < itmax:
            # dt cancels in spike * source * dt
            a = Smat.T.dot(rest) / ps * sr
            a[~allowed] = 0
            i = np.argsort(np.abs(a))
            if np.abs(a[i[-1]]) - np.abs(a[i[-2]]) < 1e-9 * np.max(np.abs(a)):
                return None
            p[i[-1]] += a[i[-1]]
            rest = rf - Smat.dot(p) / sr
            e = np.sum(rest ** 2) / pr
            err.append(e)
            it += 1
            d = abs(100 * (old - e))
            old = e
            if abs(d - minderr) < 1e-9 + 1e-6 * minderr:
                return None
            if d <= minderr:
                break
        res = IF.dot(DF.dot(p) * G * shiftf(n, sr, tshift)).real[:N]
        out.append(res)
        its.append(it)
        errs.append(np.array(err + [0] * (itmax - it)))
    if normalize is not None:
        nrm = np.max(np.abs(out[normalize]))
        if nrm < 1e-8:
            return None
        out = [o / nrm for o in out]
    return out, its, errs


def detr(x):
    x = np.asarray(x, dtype=float)
    A = np.array([np.ones(len(x)), np.arange(len(x))]).T
    return x - A.dot(np.linalg.lstsq(A, x, rcond=None)[0])


@lru_cache(maxsize=None)
def slepian(ntap, tband, K):
    from scipy.signal.windows import dpss
    return dpss(ntap, tband, K, return_ratios=True)


def ref_multitaper(rsps, src, nses, sr, tshift, gauss=0.5, K=3, tband=4,
                   T=10, olap=0.75, normalize=0):
    n = len(rsps[0])
    ntap = int(round(T * sr))
    taps, lam = slepian(ntap, tband, K)
    ofac = 1 / (1 - olap)
    L = len(src)

    def est(x, nwin, strict):
        y = np.zeros(n)
        y[:len(x)] = detr(x)
        # windowing is linear, sum up the tapers first
        W = np.zeros((K, n))
        for j in range(nwin):
            js = int(j * ntap / ofac)
            if strict and js + ntap >= n:
                continue
            W[:, js:js + ntap] += taps
        return np.array([np.fft.fft(w * y) for w in W])
    nw = int(ofac * L / ntap)
    S = est(src, nw, False) * L / (nw * n)
    out = []
    for r, ns in zip(rsps, nses):
        nw = int(ofac * len(ns) / ntap)
        Nz = est(ns, nw, True) * L / (nw * n)
        nw = int(ofac * n / ntap) - 1
        D = est(r, nw, True) / nw
        s0 = np.sum(np.abs(Nz) ** 2 / lam[:, None], axis=0)
        rec = np.sum(np.conj(S) * D, axis=0) / (
            np.sum(np.abs(S) ** 2, axis=0) + s0)
        # positive delay is positive time, zero delay at -tshift
        if gauss is not None:
            rec = rec * gaussf(n, sr, gauss)
        rec = rec * shiftf(n, sr, -tshift)
        out.append(np.fft.ifft(rec).real)
    if normalize is not None:
        nrm = np.max(np.abs(out[normalize]))
        if nrm < 1e-8:
            return None
        out = [o / nrm for o in out]
    return out


def wavelet(L, kind):
    if kind == 'spike':
        x = np.zeros(L)
        x[min(L - 1, 2)] = 2.
        return x
    t = np.arange(L)
    if kind == 'decay':
        return np.exp(-t / 2.5) * np.cos(t * 0.9)
    if kind == 'sym':
        return np.exp(-(t - L // 2) ** 2 / 4.) - 0.1
    return rnd(L, 5)


class C(Check):
    id = 'C07'
    rule = ('time: all sources over {-1,0,1,2} of length 1-3 (thorough 4) x '
            'response unit vectors and a dense vector of length 1-6 x shift '
            '-3..3 x length None,1..7 x spiking x normalize x solver; '
            'waterlevel, iterative, multitaper: full product of parameter '
            'values on 2-3 responses')
    bounds = {'quick': 'as stated', 'thorough': 'longer signals, all pairs of '
              'parameter values of all parameters'}
    assumptions = ('inputs with ties in the greedy choice or with vanishing '
                   'norm are not compared', 'toeplitz package not installed')

    def cases(self, tier):
        deep = tier == 'thorough'
        for L in range(1, 5 if deep else 4):
            for src in itertools.product([0, 1, -1, 2], repeat=L):
                if any(src):
                    yield {'k': 'time', 'src': src, 'Nmax': 7 if deep else 5}
        for N, L in itertools.product([9, 12, 15, 16] if deep else [9, 12],
                                      [4, 9, 12, 14]):
            for kind in ('decay', 'sym', 'dense', 'spike'):
                yield {'k': 'timelong', 'N': N, 'L': L, 'src': kind}
        for N in ([7, 8, 12, 17, 22] if deep else [7, 8, 17]):
            for L in (N - 3, N, N + 2):
                for kind in ('decay', 'sym', 'dense', 'spike'):
                    for sr in (1., 4., 2.5):
                        yield {'k': 'water', 'N': N, 'L': L, 'src': kind,
                               'sr': sr}
        for N in ([7, 8, 12, 16, 21] if deep else [8, 13]):
            for L in (N - 3, N):
                for kind in ('decay', 'sym', 'dense', 'spike'):
                    for sr in (1., 4.):
                        yield {'k': 'iter', 'N': N, 'L': L, 'src': kind,
                               'sr': sr}
        for N in ([60, 61, 75, 100] if deep else [60, 75]):
            for L in (25, 30, 41):
                for kind in ('decay', 'sym', 'dense'):
                    for sr in (2., 1., 2.5):
                        yield {'k': 'multi', 'N': N, 'L': L, 'src': kind,
                               'sr': sr, 'dev': 3 if deep else 2}

    def inputs(self, c, arrs, func):
        """Call func, check that arrs are unchanged afterwards"""
        before = [a.copy() for a in arrs]
        c.op()
        res = func()
        for a, b in zip(arrs, before):
            c.check(a.dtype == b.dtype and np.array_equal(a, b),
                    'input array modified')
        return res

    def same(self, c, got, want, msg, rtol=1e-6):
        c.trace()
        c.check(len(got) == len(want), msg + ': number of results')
        sc = max(np.max(np.abs(w)) for w in want)
        for g, w in zip(got, want):
            c.close(g, w, msg, atol=rtol * max(sc, 1e-3))

    def run(self, case, c):
        getattr(self, 'run_' + case['k'])(case, c)

    def run_time(self, case, c):
        from rf.deconvolve import deconv_time
        src = np.array(case['src'], dtype=float)
        L = len(src)
        for N in range(1, case['Nmax'] + 1):
            rsps = [np.eye(N)[i] for i in range(N)] + [rnd(N, 2)]
            for M in [None] + list(range(1, N + 3)):
                for shift in range(-3, 4):
                    for spiking in (1., 0.3):
                        kw = dict(spiking=spiking, length=M)
                        got = self.inputs(c, rsps + [src], lambda: deconv_time(
                            rsps, src, shift, normalize=None,
                            solve_toeplitz='scipy', **kw))
                        want = ref_time(rsps, src, shift, normalize=None, **kw)
                        self.same(c, got, want, 'N=%d shift=%d %s' % (
                            N, shift, kw))
        c.state(case['src'])
        c.outcome(got)

    def run_timelong(self, case, c):
        from rf.deconvolve import deconv_time
        N, L = case['N'], case['L']
        src = wavelet(L, case['src'])
        rsps = [rnd(N, 1), -2.5 * rnd(N, 2), 1e-3 * np.roll(rnd(N, 3), 2)]

        def custom(a, b):
            A = np.array([[a[abs(i - j)] for j in range(len(a))]
                          for i in range(len(a))])
            return np.linalg.solve(A, b)
        for M, shift, spiking, norm, solver in itertools.product(
                (None, N - 4, N + 3), (0, 1, -2, 5, -6), (1., 0.1, 10.),
                (None, 0, 1, 2, -1), ('toeplitz', 'scipy', 'custom')):
            kw = dict(spiking=spiking, length=M, normalize=norm)
            want = ref_time(rsps, src, shift, **kw)
            if want is None:
                continue
            sol = custom if solver == 'custom' else solver
            msg = 'shift=%s %s %s' % (shift, kw, solver)
            got = self.inputs(c, rsps + [src], lambda: deconv_time(
                rsps, src, shift, solve_toeplitz=sol, **kw))
            self.same(c, got, want, msg)
            if solver == 'scipy':
                got = deconv_time(tuple(rsps), src, shift,
                                  solve_toeplitz=sol, **kw)
                self.same(c, got, want, 'tuple ' + msg)
                if norm in (None, 0):
                    for r in rsps:
                        got = deconv_time(r, src, shift, solve_toeplitz=sol,
                                          **kw)
                        w1 = ref_time([r], src, shift, **kw)
                        if w1 is not None:
                            self.same(c, [got], w1, 'single array ' + msg)
            c.state(case, kw, shift)
        c.outcome(case)

    def run_water(self, case, c):
        from rf.deconvolve import deconv_waterlevel
        N, L, sr = case['N'], case['L'], case['sr']
        src = wavelet(L, case['src'])
        rsps = [rnd(N, 1) + 0.5, 3 * rnd(N, 2)]
        for wl, g, ts, M, norm, nfft in itertools.product(
                (0.05, 0.5, 0.), (None, 0.5, 1.7, 7.), (0., 2., 1.3, -1.),
                (None, N - 3, N + 3), (None, 0, 1, 'src'), (None, N + 7)):
            if wl == 0 and case['src'] not in ('spike', 'dense'):
                continue
            kw = dict(waterlevel=wl, gauss=g, tshift=ts, length=M,
                      normalize=norm, nfft=nfft)
            want = ref_waterlevel(rsps, src, sr, **kw)
            if want is None:
                continue
            got = self.inputs(c, rsps + [src], lambda: deconv_waterlevel(
                rsps, src, sr, **kw))
            self.same(c, got, want, str(kw))
            if wl == 0.05 and nfft is None:
                got, info = self.inputs(
                    c, rsps + [src], lambda: deconv_waterlevel(
                        rsps, src, sr, return_info=True, **kw))
                self.same(c, got, want, 'return_info ' + str(kw))
                c.check(info['N'] == len(got[0]), 'info N')
                got = deconv_waterlevel(tuple(rsps), src, sr, **kw)
                self.same(c, got, want, 'tuple ' + str(kw))
                if norm != 1:
                    w1 = ref_waterlevel(rsps[1:], src, sr, **kw)
                    if w1 is not None:
                        got = deconv_waterlevel(rsps[1], src, sr, **kw)
                        self.same(c, [got], w1, 'single array ' + str(kw))
            c.state(case, kw)
        c.outcome(case)

    def run_iter(self, case, c):
        from rf.deconvolve import deconv_iterative
        N, L, sr = case['N'], case['L'], case['sr']
        src = wavelet(L, case['src'])
        rsps = [rnd(N, 1), np.roll(rnd(N, 2), 1) * 4]
        n = 0
        for ts, g, itmax, mind, mute, norm in itertools.product(
                (0., 2., 4.), (0.5, 1.2, 6.), (1, 3, 40), (0.001, 1.),
                (False, True), (None, 0, 1)):
            if ts * sr > N - 1:
                continue
            kw = dict(tshift=ts, gauss=g, itmax=itmax, minderr=mind,
                      mute_shift=mute, normalize=norm)
            want = ref_iterative(rsps, src, sr, **kw)
            if want is None:
                continue
            n += 1
            got = self.inputs(c, rsps + [src], lambda: deconv_iterative(
                rsps, src, sr, **kw))
            self.same(c, got[0], want[0], str(kw), rtol=1e-5)
            c.eq([int(i) for i in got[1]], want[1], 'iterations %s' % kw)
            for g2, w2 in zip(got[2], want[2]):
                c.close(g2, w2, 'error %s' % kw, atol=1e-6)
            if norm != 1:
                got = self.inputs(c, rsps + [src], lambda: deconv_iterative(
                    rsps[1], src, sr, **kw))
                w = ref_iterative(rsps[1:], src, sr, **kw)
                self.same(c, [got[0]], w[0], 'single ' + str(kw), rtol=1e-5)
                c.eq(int(got[1]), w[1][0], 'iterations of single array')
                got = deconv_iterative(tuple(rsps), src, sr, **kw)
                self.same(c, got[0], want[0], 'tuple ' + str(kw), rtol=1e-5)
            if itmax == 3 and norm != 1:
                # responses of different length are independent
                r2 = rsps + [rnd(N + 3, 4), rnd(N - 2, 5)]
                w = ref_iterative(r2, src, sr, **kw)
                if w is not None and ts * sr < N - 3:
                    got = self.inputs(c, r2 + [src], lambda: deconv_iterative(
                        r2, src, sr, **kw))
                    self.same(c, got[0], w[0], 'lengths ' + str(kw),
                              rtol=1e-5)
            c.state(case, kw)
        c.outcome(case, n)

    def run_multi(self, case, c):
        from rf.deconvolve import deconv_multitaper
        N, L, sr = case['N'], case['L'], case['sr']
        src = wavelet(L, case['src'])
        rsps = [rnd(N, 1), np.roll(rnd(N, 2), 1) * 4, rnd(N, 4) + 2]
        alpha = dict(nl=(20, N), ts=(0., -4., -10.), g=(None, 0.3, 5.),
                     K=(2, 3, 4),
                     tb=(2.5, 4), T=(8, 10), olap=(0.75, 0.5),
                     norm=(None, 0, 2))
        default = dict(nl=20, ts=-4., g=0.3, K=3, tb=2.5, T=8, olap=0.75,
                       norm=0)
        for d in pairwise_deviation(default, alpha, case['dev']):
            nl, ts, g, K, tb, T, olap, norm = [d[k] for k in alpha]
            if T * sr > L or tb >= T * sr / 2:
                continue
            nses = [0.1 * rnd(nl, s) for s in (5, 6, 7)]
            ofac = 1 / (1 - olap)
            if int(ofac * nl / (T * sr)) < 1:
                continue
            kw = dict(gauss=g, K=K, tband=tb, T=T, olap=olap, normalize=norm)
            if int(ofac * L / round(T * sr)) * T * sr / ofac + T * sr > N + 20:
                continue
            want = ref_multitaper(rsps, src, nses, sr, ts, **kw)
            try:
                got = self.inputs(
                    c, rsps + [src] + nses, lambda: deconv_multitaper(
                        rsps, src, nses, sr, ts, **kw))
            except ValueError:
                c.fail('multitaper failed %s' % kw)
            self.same(c, got, want, 'nl=%d tshift=%s %s' % (nl, ts, kw),
                      rtol=1e-4)
            c.state(case, nl, ts, kw)
            c.outcome(got)


CHECK = C()
