"""
Reference evaluations: what the definitions say, by direct (slow) evaluation on the plain data of a Model.
Nothing here calls the code under observation.
"""
import math

import numpy

# ---------------------------------------------------------------- time origins


def skip_of(norigins, nframes, block, npart):
    """Spacing of time origins documented for `norigins`"""
    if norigins is None:
        if block == 1:
            skip = int(nframes * npart / 40000)
        else:
            skip = block
    else:
        f = float(norigins)
        if f < 0 or norigins == '1.0':
            skip = block
        elif f > 1:
            nbl = nframes // block
            skip = max(1, int(nbl / f)) * block
        elif f == 1:
            skip = nframes
        else:
            skip = int(1 / f + 1e-9) * block
    return min(nframes, max(1, skip))


def separations(steps, block, offset=True):
    """Step differences from the frames of the first block: {dt: [(off, i), ...]}"""
    out = {}
    for off in (range(block) if offset else [0]):
        for j in range(off, len(steps)):
            out.setdefault(steps[j] - steps[off], []).append((off, j - off))
    return out


def conservative_separations(steps, block, offset=True):
    out = set()
    for off in (range(block) if offset else [0]):
        for j in range(off, len(steps) - off):
            out.add(steps[j] - steps[off])
    return sorted(out)


def timecorr_candidates(f, steps, block, skip, dt, offset=True):
    """
    Admissible averages of f(i0, i0+i) at step difference dt: one for each frame of the first block from
    which dt can be reached.  Returns a list of (value, number of origins).
    """
    n = len(steps)
    out = []
    for off, i in separations(steps, block, offset).get(dt, []):
        vals = [f(i0, i0 + i) for i0 in range(off, n - i, skip) if steps[i0 + i] - steps[i0] == dt]
        if vals:
            out.append((numpy.mean(vals, axis=0), len(vals)))
    return out


# ---------------------------------------------------------------- one body functions

def msd(x0, x1):
    tot = 0.0
    for a, b in zip(x0, x1):
        tot += sum((bi - ai)**2 for ai, bi in zip(a, b))
    return tot / len(x0)


def vacf(v0, v1):
    tot = 0.0
    for a, b in zip(v0, v1):
        tot += sum(ai * bi for ai, bi in zip(a, b))
    return tot / len(v0)


def alpha2(x0, x1):
    d = len(x0[0])
    dr2 = [sum((bi - ai)**2 for ai, bi in zip(a, b)) for a, b in zip(x0, x1)]
    m2 = sum(dr2) / len(dr2)
    m4 = sum(x**2 for x in dr2) / len(dr2)
    if m2 == 0.0:
        return 0.0
    return d * m4 / ((d + 2.0) * m2**2) - 1.0


def count_self_overlap(x0, x1, a):
    return float(sum(1 for p, q in zip(x0, x1) if sum((qi - pi)**2 for pi, qi in zip(p, q)) < a**2))


def count_collective_overlap(x0, x1, side, a):
    n = 0
    for q in x1:
        d = x0 - q
        if side is not None:
            d = d - numpy.rint(d / side) * side
        n += int((numpy.sum(d**2, axis=1) < a**2).sum())
    return float(n)


# ---------------------------------------------------------------- real space statics

def minimum_image(d, side):
    return d - numpy.rint(d / side) * side


def pair_distances(x, y, side, same, margin=None):
    """All minimum-image distances of distinct pairs; `same` if x and y are the same group (i<j only)"""
    out = []
    for i in range(len(x)):
        yy = y[i+1:] if same else y
        if len(yy) == 0:
            continue
        d = yy - x[i]
        if side is not None:
            d = minimum_image(d, side)
        out.append(numpy.sqrt(numpy.sum(d**2, axis=1)))
    return numpy.concatenate(out) if out else numpy.zeros(0)


def shell_volume(r0, r1, ndim):
    """Volume of the d-dimensional shell"""
    c = math.pi**(ndim / 2.0) / math.gamma(ndim / 2.0 + 1.0)
    return c * (r1**ndim - r0**ndim)


def gr(frames, r, dr, volume):
    """
    g(r) in the bins [r-dr/2, r+dr/2): frames is a list of (distances of the pairs i in 0, j in 1 ordered as
    i<j when the groups are the same, n0, n1, same)
    """
    r = numpy.asarray(r, dtype=float)
    tot = numpy.zeros(len(r))
    n0 = numpy.mean([f[1] for f in frames])
    n1 = numpy.mean([f[2] for f in frames])
    same = frames[0][3]
    for dist, _, _, _ in frames:
        tot += histogram(dist, r, dr)
    tot /= len(frames)
    return tot, n0, n1, same


def histogram(dist, r, dr):
    lo, hi = r - dr / 2, r + dr / 2
    d = numpy.sort(dist)
    return (numpy.searchsorted(d, hi, side='left') - numpy.searchsorted(d, lo, side='left')).astype(float)


def bond_angles(x0, x1, ids0, ids1, rcut, side):
    """Angles (degrees) of all ordered pairs of distinct neighbors of the central particles"""
    out = []
    for i in range(len(x0)):
        d = minimum_image(x0[i] - x1, side)
        dd = numpy.sqrt(numpy.sum(d**2, axis=1))
        nb = [j for j in range(len(x1)) if dd[j] < rcut[ids0[i]][ids1[j]]]
        for j in nb:
            for k in nb:
                if j == k or dd[j] == 0.0 or dd[k] == 0.0:
                    continue
                c = numpy.dot(d[j], d[k]) / (dd[j] * dd[k])
                out.append(math.degrees(math.acos(max(-1.0, min(1.0, c)))))
    return numpy.array(out)


# ---------------------------------------------------------------- Fourier space

def rho(kvec, pos, weight=None):
    """Density mode sum_j w_j exp(i k.r_j)"""
    phase = numpy.exp(1j * numpy.dot(pos, numpy.asarray(kvec, dtype=float)))
    return numpy.sum(phase if weight is None else weight * phase)


def lattice_vectors(side, kmax):
    """All the vectors compatible with the cell and norm below kmax: list of (norm, integers)"""
    k0 = 2 * math.pi / numpy.asarray(side, dtype=float)
    rng = [range(-int(kmax / k) - 1, int(kmax / k) + 2) for k in k0]
    grids = numpy.array(numpy.meshgrid(*[numpy.array(list(r)) for r in rng], indexing='ij')).reshape(len(k0), -1).T
    norms = numpy.sqrt(numpy.sum((grids * k0)**2, axis=1))
    keep = (norms <= kmax) & numpy.any(grids != 0, axis=1)
    return norms[keep], grids[keep]


def shells(side, kgrid, dk, tol=1e-9):
    """
    Vectors of each shell: those within dk of k, assigned to the first matching shell; dk of an empty
    shell is increased by 20% until there is one.  Also returns the ambiguous ones (on a border).
    """
    dks = [float(dk)] * len(kgrid)
    while True:
        kmax = max(k + d for k, d in zip(kgrid, dks))
        norms, ints = lattice_vectors(side, kmax)
        out = [[] for _ in kgrid]
        ambiguous = False
        for nrm, ik in zip(norms, ints):
            for i, k in enumerate(kgrid):
                if abs(abs(nrm - k) - dks[i]) < tol or abs(nrm - kmax) < tol:
                    ambiguous = True
                if abs(nrm - k) < dks[i]:
                    out[i].append(tuple(int(x) for x in ik))
                    break
        empty = [i for i in range(len(out)) if not out[i]]
        if not empty:
            return out, dks, ambiguous
        for i in empty:
            dks[i] *= 1.2


# ---------------------------------------------------------------- analysis

def crossing(x, f, fstar):
    """
    First crossing of the data with fstar by linear interpolation; None if there is none. An entry equal to
    fstar counts as a crossing there.
    """
    for i in range(1, len(f)):
        a, b = f[i-1] - fstar, f[i] - fstar
        if a * b < 0:
            return x[i-1] + (x[i] - x[i-1]) * (-a) / (b - a)
    return None


def vertex(x, f):
    """Parabolic vertex around the largest entry, or that entry at the border"""
    i = int(numpy.argmax(f))
    if i == 0 or i == len(f) - 1:
        return x[i], f[i]
    # Lagrange form, solved as a linear system
    A = numpy.array([[xx**2, xx, 1.0] for xx in x[i-1:i+2]], dtype=float)
    a, b, c = numpy.linalg.solve(A, numpy.array(f[i-1:i+2], dtype=float))
    if a == 0:
        return None
    xv = -b / (2 * a)
    return xv, a * xv**2 + b * xv + c


def slope(x, y):
    x, y = numpy.asarray(x, dtype=float), numpy.asarray(y, dtype=float)
    xm, ym = x.mean(), y.mean()
    return float(numpy.sum((x - xm) * (y - ym)) / numpy.sum((x - xm)**2))
