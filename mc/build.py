"""Builders for streams and helpers shared by the checks"""
import itertools

import numpy as np
from obspy import UTCDateTime as UTC

T0 = UTC('2011-02-25T13:15:38.169539Z')


def rnd(n, seed):
    """Deterministic, smooth-free pseudo data (no random generator)"""
    x = np.arange(1, n + 1, dtype=float)
    s = np.sin(x * (1.2345 + 0.111 * seed)) + 0.7 * np.cos(
        x * x * (0.01 + 0.003 * seed) + seed)
    return s + 0.3 * np.sin(7.77 * x + 3 * seed)


def trace(id='NN.STA..BHZ', data=None, sr=10., start=T0, **head):
    from rf.rfstream import RFTrace
    net, sta, loc, cha = id.split('.')
    h = {'network': net, 'station': sta, 'location': loc, 'channel': cha,
         'sampling_rate': sr, 'starttime': UTC(start)}
    h.update(head)
    if data is None:
        data = rnd(20, 1)
    return RFTrace(data=np.array(data), header=h)


def stream(traces):
    from rf import RFStream
    return RFStream(list(traces))


def snap(st):
    """Comparable snapshot of stream (order, headers, data)"""
    from mc.engine import plain
    return [plain(tr) for tr in st]


def subsets(items, minlen=0, maxlen=None):
    items = list(items)
    if maxlen is None:
        maxlen = len(items)
    for n in range(minlen, maxlen + 1):
        for s in itertools.combinations(items, n):
            yield s


def product_dict(**kw):
    """Iterate over dicts of all combinations, first keys vary slowest"""
    keys = list(kw)
    for vals in itertools.product(*[kw[k] for k in keys]):
        yield dict(zip(keys, vals))


def pairwise_deviation(default, alphabet, maxdev):
    """
    All dicts deviating from default in at most maxdev keys

    Exhaustive up to the deviation bound, ordered by number of deviations.
    """
    keys = list(alphabet)
    for n in range(maxdev + 1):
        for ks in itertools.combinations(keys, n):
            alts = [[v for v in alphabet[k] if v != default[k]] for k in ks]
            for vals in itertools.product(*alts):
                d = dict(default)
                d.update(zip(ks, vals))
                yield d
