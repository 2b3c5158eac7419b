"""Reference model of RFStream.rf for a single record"""
import numpy as np


def rotate(traces, mode, baz, inc):
    """Rotate list of (component, data), return the same list type"""
    d = dict(traces)
    b, i = np.radians(baz), np.radians(inc)
    if mode == 'NE->RT':
        n, e = d.pop('N'), d.pop('E')
        new = {'N': ('R', -e * np.sin(b) - n * np.cos(b)),
               'E': ('T', -e * np.cos(b) + n * np.sin(b))}
    else:
        z, n, e = d.pop('Z'), d.pop('N'), d.pop('E')
        new = {'Z': ('L', z * np.cos(i) - n * np.sin(i) * np.cos(b) -
                     e * np.sin(i) * np.sin(b)),
               'N': ('Q', z * np.sin(i) + n * np.cos(i) * np.cos(b) +
                     e * np.cos(i) * np.sin(b)),
               'E': ('T', n * np.sin(b) - e * np.cos(b))}
    return [new[c] if c in new else (c, x) for c, x in traces]


def record_rf(rec, method, opts):
    """
    Apply documented steps to a single record, in-place

    rec: plain obspy Stream with the traces of the record.
    """
    from rf.deconvolve import deconvolve
    from rf import RFStream
    opts = dict(opts)
    filt = opts.pop('filter', None)
    trim = opts.pop('trim', None)
    down = opts.pop('downsample', None)
    rot = opts.pop('rotate', 'ZNE->LQT')
    dec = opts.pop('deconvolve', 'time')
    srcc = opts.pop('source_components', None)
    if srcc is None:
        srcc = 'LZ' if method == 'P' else 'QR'
    if filt:
        for tr in rec:
            tr.filter(**filt)
    if trim:
        for tr in rec:
            tr.trim(tr.stats.onset + trim[0], tr.stats.onset + trim[1])
        rec.traces = [tr for tr in rec if len(tr) > 0]
    if down:
        for tr in rec:
            sr = tr.stats.sampling_rate
            if down <= sr:
                tr.decimate(int(sr / down + 1e-6))
    full = len(rec) in (2, 3)
    comps = set(tr.stats.channel[-1:] for tr in rec)
    if rot and full and comps >= set(rot.split('->')[0]):
        s = rec[0].stats
        out = rotate([(tr.stats.channel[-1], tr.data) for tr in rec], rot,
                     s.back_azimuth, s.inclination)
        for tr, (comp, data) in zip(rec, out):
            tr.stats.channel = tr.stats.channel[:-1] + comp
            tr.data = data
    for tr in rec:
        if tr.stats.channel[-1:] == 'Q':
            tr.data = -tr.data
    if dec and full:
        opts.setdefault('winsrc', method)
        st = RFStream()
        st.traces = rec.traces
        res = deconvolve(st, method=dec, source_components=srcc, **opts)
        for tr in res:      # custom function can return new traces
            old = [t for t in rec if t.id == tr.id][0]
            old.data, old.stats = tr.data, tr.stats
    if method == 'S':
        for tr in rec:
            tr.data = tr.data[::-1].copy()
            tr.stats.onset = tr.stats.starttime + (tr.stats.endtime -
                                                   tr.stats.onset)
    for tr in rec:
        tr.stats.type = 'rf'
    return rec
