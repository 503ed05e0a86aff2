"""C24: compiled kernels compute the same numbers as their definition"""
import itertools
import math

import numpy

from .. import boot, gen
from ..harness import Skip

RULE = ('one case = calls of one kernel (both memory layouts and both index conventions where they exist) on generated positions in '
        '1-4 dimensions, cubic and elongated boxes, any number of particles including none, coincident particles and particles at '
        'the walls, random cutoffs per pair of species, against an elementary evaluation of its definition pair by pair')
MINIMUM = 200
REQUIRED_COUNTS = {'pairs': 20000, 'calls': 500}
ASSUMPTIONS = ['positions are within one cell (the kernels handle the images next to the central cell)', 'pairs within rounding of the '
               'border of a bin or of a cutoff may fall on either side', 'the matrix of the cutoffs is symmetric where a single list of '
               'pairs is searched']

KINDS = ['self_overlap', 'pbc', 'bin_in_cell', 'surface', 'bond_angle', 'neighbors_list', 'neighbors_list_distinct', 'neighbors', 'neighbors_full',
         'neighbors_subset', 'gr_self', 'gr_distinct', 'gr_neighbors_self', 'gr_neighbors_distinct', 'distances', 'sk_bare', 'fskt', 'expo']


def cases(tier, seed):
    out = []
    n = 3000 if tier == 'quick' else 25000
    for i in range(n):
        rng = gen.rng_for('C24', seed, i)
        out.append(dict(kind=KINDS[i % len(KINDS)], seed=rng.randrange(10**6), ndim=rng.choice([1, 2, 3, 3, 4]), N=rng.choice([1, 2, 5, 17, 40]),
                        M=rng.choice([0, 1, 4, 29]), bins=rng.choice([1, 2, 9, 60]), where=rng.choice(['uniform', 'uniform', 'wall', 'cluster', 'coincident']),
                        shape=rng.choice(['cubic', 'any', 'any', 'infinite'])))
    return out


def image(d, box):
    """Minimum image, coordinate by coordinate"""
    out = []
    for x, L in zip(d, box):
        x = float(x)
        best = min((x, x - L, x + L), key=abs)
        out.append(best)
    return out


def distance(x, y, box):
    return math.sqrt(sum(c * c for c in image([b - a for a, b in zip(x, y)], box)))


def histogram(ds, dr, nb):
    """Counts, and the bins whose counts depend on rounding"""
    h, amb = [0] * nb, set()
    for d in ds:
        x = d / dr
        j = int(math.floor(x))
        if abs(x - round(x)) < 1e-9 * max(1.0, x) and round(x) > 0:
            amb.update((int(round(x)) - 1, int(round(x))))
        if j < nb:
            h[j] += 1
    return h, amb


def run(case, obs):
    boot.load()
    from atooms.postprocessing import fourierspace
    try:
        from atooms.postprocessing.realspace_wrap import compute
        from atooms.postprocessing.fourierspace_wrap import fourierspace_module
    except ImportError:
        raise Skip('no kernels')
    rng = numpy.random.RandomState(case['seed'])
    d, N, M, nb, kind = case['ndim'], case['N'], case['M'], case['bins'], case['kind']
    box = numpy.ones(d) * 4.0 if case['shape'] == 'cubic' else rng.uniform(2.0, 7.0, size=d)

    def cloud(n):
        x = rng.uniform(-0.5, 0.5, size=(n, d)) * box
        if case['where'] == 'wall' and n:
            w = rng.rand(n, d) < 0.4
            x = numpy.where(w, numpy.where(rng.rand(n, d) < 0.5, 0.5, -0.5) * box * (1 - 1e-10 * rng.rand(n, d)), x)
        elif case['where'] == 'cluster':
            x = rng.normal(size=(n, d)) * 0.2
        elif case['where'] == 'coincident' and n > 1:
            x[n // 2:] = x[:n - n // 2]
        return x

    x, y = cloud(N), cloud(M)
    side = box
    if case['shape'] == 'infinite' and kind.startswith(('gr_', 'neighbors', 'distances')):
        # the way open boundaries are handled
        side = numpy.ones(d) * numpy.finfo(float).max

    def kernel(mod, name):
        if not hasattr(mod, name):
            raise Skip('no kernel ' + name)
        obs.count('calls')
        obs.count('kernel/' + name)
        return getattr(mod, name)

    def dist(a, b):
        obs.count('pairs')
        return distance(a, b, side)

    ns = 3
    ids = rng.randint(1, ns + 1, size=N).astype(numpy.int32)
    rcut = rng.uniform(0.6, 1.4, size=(ns, ns)) * rng.choice([0.4, 1.0, 2.5])
    sym = (rcut + rcut.T) / 2
    dr = float(rng.choice([0.05, 0.21, 0.5, 3.0]))

    if kind == 'self_overlap':
        z = x + rng.normal(size=x.shape) * rng.choice([0.1, 0.5, 2.0])
        a2 = float(rng.choice([0.01, 0.3, 4.0]))
        want = 0
        for p, q in zip(x, z):
            obs.count('pairs')
            want += sum((float(u) - float(v))**2 for u, v in zip(p, q)) < a2
        obs.same(float(kernel(compute, kind)(x, z, numpy.array(a2))), float(want), 'self_overlap', 'number of particles within %r' % math.sqrt(a2))
        obs.same(float(kernel(compute, kind)(x, x.copy(), numpy.array(a2))), float(N), 'self_overlap', 'particles that did not move')

    elif kind == 'pbc':
        for p in cloud(10):
            v = (p - x[0]) * rng.choice([0.5, 1.0, 1.4])
            want = image(v, box)
            obs.count('pairs')
            for name, args in (('pbc', (box,)), ('pbch', (box, box / 2))):
                w = v.copy()
                kernel(compute, name)(w, *args)
                obs.close(w, want, 'pbc', rtol=1e-12, atol=1e-12, msg='%s of %s in a cell of side %s' % (name, v.tolist(), box.tolist()))

    elif kind == 'bin_in_cell':
        n = rng.randint(1, 6, size=d)
        g = numpy.zeros((d, N), dtype=numpy.int64, order='F')
        kernel(compute, kind)(x.T, box / 2, box / n, g)
        want = [[int(math.floor((float(p[k]) + box[k] / 2) / (box[k] / n[k]))) for p in x] for k in range(d)]
        obs.same(g.tolist(), want, 'bin_in_cell', 'cells of the particles')

    elif kind == 'surface':
        for delta in (0.0, 0.3, 0.7, 10.0):
            want = [any(abs(float(c)) > L / 2 - delta for c, L in zip(p, box)) for p in x]
            for name, arg in (('on_surface', x.T), ('on_surface_c', x)):
                got = kernel(compute, name)(arg, box, delta)
                obs.count('pairs', N)
                obs.same([bool(g) for g in got], want, 'surface', '%s: particles within %s of the surface' % (name, delta))

    elif kind == 'bond_angle':
        if M == 0:
            y = cloud(3)
        M = len(y)
        dtheta = float(rng.choice([1.0, 4.0, 7.0, 30.0]))
        for neigh in (numpy.arange(M), rng.permutation(M)[:max(1, M // 2)], numpy.array([], dtype=int)):
            h = numpy.ones(nb, dtype=numpy.int32)
            kernel(compute, kind)(x[0], y.T, neigh.astype(numpy.int32), box, dtheta, h)
            want, amb = [0] * nb, set()
            for j, k in itertools.permutations(neigh.tolist(), 2):
                obs.count('pairs')
                u, v = [image([a - b for a, b in zip(x[0], y[i])], box) for i in (j, k)]
                nu, nv = [math.sqrt(sum(c * c for c in w)) for w in (u, v)]
                if nu * nv == 0:
                    continue
                cos = sum(a * b for a, b in zip(u, v)) / (nu * nv)
                theta = math.degrees(math.acos(max(-1.0, min(1.0, cos))))
                b = int(math.floor(theta / dtheta))
                if abs(theta / dtheta - round(theta / dtheta)) < 1e-5:
                    amb.update((int(round(theta / dtheta)) - 1, int(round(theta / dtheta))))
                if b < nb:
                    want[b] += 1
            ok = [i for i in range(nb) if i not in amb]
            obs.same([int(h[i]) for i in ok], [want[i] for i in ok], 'bond_angle', 'angles in bins of %s degrees around %s, %d neighbours' % (dtheta, x[0].tolist(), len(neigh)))

    elif kind in ('neighbors_list', 'neighbors_full', 'neighbors_subset'):
        sub = None
        if kind == 'neighbors_subset':
            # A list of candidates, each pair once
            sub = [[j for j in range(i + 1, N) if rng.rand() < 0.8] for i in range(N)]
        for off in 'CF':
            shift = 0 if off == 'C' else 1
            nn, ne = numpy.zeros(N, dtype=numpy.int32), numpy.full((N, max(1, N)), -7, dtype=numpy.int32, order='F')
            if sub is None:
                kernel(compute, kind)(off, side, x.T, ids, sym, nn, ne)
            else:
                num = numpy.array([len(s) for s in sub], dtype=numpy.int32)
                arr = numpy.zeros((N, max(1, int(num.max()))), dtype=numpy.int32, order='F')
                for i, s in enumerate(sub):
                    arr[i, :len(s)] = [j + shift for j in s]
                kernel(compute, kind)(off, side, x.T, arr, num, ids, sym, nn, ne)
            want = [[] for _ in range(N)]
            close = set()
            for i in range(N):
                for j in (range(i + 1, N) if sub is None else sub[i]):
                    r, rc = dist(x[i], x[j]), sym[ids[i] - 1, ids[j] - 1]
                    if abs(r - rc) < 1e-9:
                        close.update((i, j))
                    if r < rc:
                        want[i].append(j)
                        want[j].append(i)
            for i in range(N):
                if i in close:
                    continue
                got = [int(j) for j in ne[i, :nn[i]]]
                if sub is not None and off == 'F':
                    # (the offset of the indices in the output is that of the input)
                    got = [j - 1 for j in got]
                    obs.same(sorted(got), sorted(want[i]), kind, 'neighbours of particle %d, offset %s' % (i, off))
                else:
                    obs.same(sorted(j - shift for j in got), sorted(want[i]), kind, 'neighbours of particle %d, offset %s' % (i, off))

    elif kind == 'neighbors_list_distinct':
        if M == 0:
            y = cloud(2)
        M = len(y)
        both = rng.randint(1, ns + 1, size=max(N, M)).astype(numpy.int32)
        for off in 'CF':
            shift = 0 if off == 'C' else 1
            nn, ne = numpy.zeros(N, dtype=numpy.int32), numpy.full((N, M), -7, dtype=numpy.int32, order='F')
            kernel(compute, kind)(off, side, x.T, y.T, both, rcut, nn, ne)
            for i in range(N):
                r = [dist(x[i], y[j]) for j in range(M)]
                rc = [rcut[both[i] - 1, both[j] - 1] for j in range(M)]
                if any(abs(a - b) < 1e-9 for a, b in zip(r, rc)):
                    continue
                obs.same([int(j) - shift for j in ne[i, :nn[i]]], [j for j in range(M) if r[j] < rc[j]], kind, 'neighbours of particle %d, offset %s' % (i, off))

    elif kind == 'neighbors':
        if M == 0:
            y = cloud(2)
        M = len(y)
        idy = rng.randint(1, ns + 1, size=M).astype(numpy.int32)
        for off in 'CF':
            shift = 0 if off == 'C' else 1
            for i in range(min(N, 5)):
                nn, ne = numpy.array(3, dtype=numpy.int32), numpy.full(M, -7, dtype=numpy.int32)
                row = rcut[ids[i] - 1]
                # species have the same offset as the indices
                kernel(compute, kind)(off, side, x[i], y.T, idy - 1 + shift, row, nn, ne)
                r = [dist(x[i], y[j]) for j in range(M)]
                rc = [row[idy[j] - 1] for j in range(M)]
                if any(abs(a - b) < 1e-9 for a, b in zip(r, rc)):
                    continue
                obs.same([int(j) - shift for j in ne[:int(nn)]], [j for j in range(M) if r[j] < rc[j]], kind, 'neighbours of a particle, offset %s' % off)

    elif kind in ('gr_self', 'gr_distinct', 'gr_neighbors_self', 'gr_neighbors_distinct'):
        distinct = kind.endswith('distinct')
        other = y if distinct else x
        if len(other) == 0:
            other = y = cloud(1)
        n1 = len(other)
        listed = None
        if 'neighbors' in kind:
            listed = [[j for j in (range(n1) if distinct else range(i + 1, N)) if rng.rand() < 0.8] for i in range(N)]
        ds = []
        for i in range(N):
            for j in (listed[i] if listed is not None else (range(n1) if distinct else range(i + 1, N))):
                ds.append(dist(x[i], other[j]))
        want, amb = histogram(ds, dr, nb)
        ok = [i for i in range(nb) if i not in amb]
        results = {}
        for off in 'CF' if listed is not None else ['']:
            pre = []
            if listed is not None:
                num = numpy.array([len(s) for s in listed])
                arr = numpy.zeros((N, max(1, int(num.max()))), dtype=int)
                for i, s in enumerate(listed):
                    arr[i, :len(s)] = [j + (0 if off == 'C' else 1) for j in s]
                pre = [arr, num]
            for suffix in ('', '_c'):
                h, b = numpy.full(nb, 5, dtype=numpy.int64), numpy.zeros(nb)
                args = [x if suffix else x.T] + ([other if suffix else other.T] if distinct else [])
                kernel(compute, kind + suffix)(*(([off] if off else []) + args + pre + [side, dr, h, b]))
                results[off + suffix] = h.tolist()
                obs.same([int(h[i]) for i in ok], [want[i] for i in ok], kind, 'pairs per bin, width %s, %s layout, offset %r' % (dr, 'C' if suffix else 'F', off))
                obs.close(b, [dr * j + dr / 2 for j in range(nb)], kind + '/bins', rtol=1e-12, msg='centers of the bins')
        first = sorted(results)[0]
        for key in sorted(results):
            obs.same(results[key], results[first], kind + '/variants', 'variant %r against %r' % (key, first))

    elif kind == 'distances':
        for start, end in ((1, N), (1, 1), (N, N), (max(1, N // 2), N)):
            want = [dist(x[i], x[j]) for i in range(start - 1, end) for j in range(i + 1, N)]
            g = numpy.full(len(want) + 3, -1.0)
            n = kernel(compute, 'distances_self')(start, end, x.T, side, side / 2, g)
            obs.same(int(n), len(want), 'distances/self', 'number of distances')
            obs.close(g[:len(want)], want, 'distances/self', rtol=1e-9, atol=1e-9, msg='distances of particles %d..%d' % (start, end))
            if M:
                want = [dist(x[i], y[j]) for i in range(start - 1, end) for j in range(M)]
                g = numpy.full(len(want) + 3, -1.0)
                n = kernel(compute, 'distances_distinct')(start, end, x.T, y.T, side, side / 2, g)
                obs.same(int(n), len(want), 'distances/distinct', 'number of distances')
                obs.close(g[:len(want)], want, 'distances/distinct', rtol=1e-9, atol=1e-9, msg='distances of particles %d..%d' % (start, end))
        if M:
            want = [dist(x[0], y[j]) for j in range(M)]
            g = numpy.full(len(want) + 3, -1.0)
            n = kernel(compute, 'distances_single')(x[0], y.T, side, side / 2, g)
            obs.same(int(n), len(want), 'distances/single', 'number of distances')
            obs.close(g[:len(want)], want, 'distances/single', rtol=1e-9, atol=1e-9, msg='distances from a particle')

    elif kind == 'sk_bare':
        nk = 1 + nb % 11
        e = rng.normal(size=(N, 3, nk)) + 1j * rng.normal(size=(N, 3, nk))
        nv = rng.randint(1, 12)
        ik = numpy.asfortranarray(rng.randint(1, nk + 1, size=(3, nv)).astype(numpy.int32))
        for arr in (e, numpy.asfortranarray(e)):
            g = numpy.zeros(nv, dtype=complex)
            kernel(fourierspace_module, kind)(arr, ik, g)
            obs.count('pairs', N * nv)
            want = [sum(e[i, 0, ik[0, v] - 1] * e[i, 1, ik[1, v] - 1] * e[i, 2, ik[2, v] - 1] for i in range(N)) for v in range(nv)]
            obs.close(g.real, numpy.real(want), kind, rtol=1e-9, atol=1e-9, msg='density modes')
            obs.close(g.imag, numpy.imag(want), kind, rtol=1e-9, atol=1e-9, msg='density modes')

    elif kind == 'fskt':
        nk, nt = 1 + nb % 5, rng.randint(1, 6)
        for dim, name in ((3, 'fskt_kernel_3d'), (2, 'fskt_kernel_2d'), (d, 'fskt_kernel_nd'), (2, 'fskt_kernel_nd'), (3, 'fskt_kernel_nd')):
            e = numpy.asfortranarray(rng.normal(size=(nt, N, dim, nk)) + 1j * rng.normal(size=(nt, N, dim, nk)))
            for _ in range(4):
                t1, t2 = rng.randint(1, nt + 1), rng.randint(1, nt + 1)
                ik = rng.randint(1, nk + 1, size=dim).astype(numpy.int32)
                want = 0j
                for i in range(N):
                    p = 1 + 0j
                    for a in range(dim):
                        p *= e[t1 - 1, i, a, ik[a] - 1] * e[t2 - 1, i, a, ik[a] - 1].conjugate()
                    want += p
                obs.count('pairs', N)
                got = complex(kernel(fourierspace_module, name)(e, t1, t2, ik))
                scale = abs(e).max()**(2 * dim) * N
                obs.close([got.real, got.imag], [want.real, want.imag], kind, rtol=1e-9, atol=1e-12 * scale + 1e-9, msg='%s, frames %d and %d, vector %s' % (name, t1, t2, ik.tolist()))

    elif kind == 'expo':
        # Tables of exponentials
        k0 = 2 * math.pi / box
        for name in ('expo_sphere', 'expo_sphere_safe'):
            if not hasattr(fourierspace, name):
                raise Skip('no ' + name)
            nk = int(rng.randint(1, 7))
            pos = numpy.array([cloud(N) for _ in range(2)])
            # (the safe version takes the largest norm)
            top = nk if name == 'expo_sphere' else (nk - 0.5) * min(k0)
            e = getattr(fourierspace, name)(k0, top, pos)
            obs.count('calls')
            obs.count('kernel/' + name)
            obs.same(list(e.shape), [2, N, d, 2 * nk + 1], kind, name + ': shape of the table')
            n = numpy.arange(-nk, nk + 1)
            ph = k0[None, None, :, None] * pos[..., None] * n
            obs.count('pairs', N)
            obs.close(e.real, numpy.cos(ph), kind, rtol=1e-9, atol=1e-9, msg=name)
            obs.close(e.imag, numpy.sin(ph), kind, rtol=1e-9, atol=1e-9, msg=name)
