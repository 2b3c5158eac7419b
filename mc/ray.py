"""Independent model of 1D rays (layered flat earth, linear interpolation)"""
import numpy as np

DEG = 111.2

# first rows of the iasp91 table are given as (depth, vp, vs, n) with n
# additional support points in the layer above this depth
IASP = None


def set_table(text):
    global IASP
    IASP = [tuple(float(v) for v in line.split())
            for line in text.splitlines()
            if line.strip() and not line.startswith('#')]


def layers(rows):
    """
    Return list of layers (ztop, zbottom, vp, vs)

    rows of (z, vp, vs[, n]): Between two rows, n+1 layers of equal
    thickness, velocities are sampled at the top of each layer on the line
    connecting the rows.
    """
    out = []
    for a, b in zip(rows[:-1], rows[1:]):
        n = int(b[3]) + 1 if len(b) > 3 else 1
        for k in range(n):
            f = k / n
            g = (k + 1) / n
            out.append((a[0] + f * (b[0] - a[0]), a[0] + g * (b[0] - a[0]),
                        a[1] + f * (b[1] - a[1]), a[2] + f * (b[2] - a[2])))
    return out


def legs(phase):
    """Number of additional P and S legs compared to the direct wave"""
    phase = phase.upper()
    nP, nS = phase.count('P'), phase.count('S')
    if phase[0] == 'P':
        return nP - 2, nS
    return nP, nS - 2


def delay_times(lay, slow, phase):
    """List of (depth, delay time) of ray, ends where the ray turns"""
    nP, nS = legs(phase)
    useP = 'P' in phase.upper()
    useS = 'S' in phase.upper()
    p = slow / DEG
    out = [(0., 0.)]
    t = 0.
    for zt, zb, vp, vs in lay:
        qp = vp ** -2 - p ** 2
        qs = vs ** -2 - p ** 2
        if (useP and qp < 0) or (useS and qs < 0):
            break
        dt = 0.
        if useP:
            dt += nP * np.sqrt(qp)
        if useS:
            dt += nS * np.sqrt(qs)
        t += dt * (zb - zt)
        out.append((zb, t))
    return out


def distance(lay, slow, depth, phase):
    """Horizontal distance in km of ray between surface and depth"""
    phase = phase.upper()
    nP, nS = phase.count('P'), phase.count('S')
    p = slow / DEG
    x = 0.
    for zt, zb, vp, vs in lay:
        h = min(zb, depth) - zt
        if h <= 0:
            continue
        if nP:
            x += nP * h * p / np.sqrt(vp ** -2 - p ** 2)
        if nS:
            x += nS * h * p / np.sqrt(vs ** -2 - p ** 2)
    return x


def distance_shifted(lay, slow, depth, phase):
    """
    Distance with the known defect: depth is looked up in the tops of the
    layers, but distances are those at the bottom of the layers
    """
    tops = [la[0] for la in lay]
    i = [k for k, z in enumerate(tops) if z <= depth][-1]
    if i + 1 >= len(tops):
        return None
    # same as in a model without zero thickness layers
    x0 = distance(lay, slow, lay[i][1], phase)
    x1 = distance(lay, slow, lay[i + 1][1], phase)
    return x0 + (x1 - x0) * (depth - tops[i]) / (
        tops[i + 1] - tops[i])
