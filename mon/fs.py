"""
Monitors shared by the Fourier space correlations: what was requested, which wave-vectors were used.
"""
import math

import numpy

from . import gen, ref


def random_request(rng, side, kmax=5.0):
    """Wave-vector request: keyword arguments of the Fourier space classes"""
    kind = rng.choice(['grid', 'grid', 'unsorted', 'auto', 'auto', 'kmin', 'negative', 'narrow', 'wide', 'fine'])
    k0 = 2 * math.pi / max(side)
    kw = dict(nk=rng.choice([1, 2, 5, 20, 1000]), dk=rng.choice([0.1, 0.2, 0.5]))
    top = min(kmax, 5 * k0)
    if kind in ('grid', 'unsorted', 'negative', 'narrow', 'wide', 'fine'):
        n = rng.choice([1, 2, 4])
        g = [round(k0 * 0.9 + (top - k0 * 0.9) * rng.random(), 3) for _ in range(n)]
        if kind == 'fine':
            # shells that compete for the same vectors
            g = [round(2 * k0 + 0.13 * i, 3) for i in range(4)]
            kw['dk'] = 0.3
        g.sort()
        if kind == 'negative':
            g[0] = -1.0
        if kind == 'unsorted':
            rng.shuffle(g)
        if kind == 'narrow':
            kw['dk'] = 0.01
        if kind == 'wide':
            kw['dk'] = 1.0
        kw['kgrid'] = g
    elif kind == 'auto':
        kw.update(kmin=-1, kmax=round(top, 2), ksamples=rng.choice([2, 5]))
    elif kind == 'kmin':
        kw.update(kmin=round(k0 * 1.5, 2), kmax=round(max(top, 2 * k0), 2), ksamples=rng.choice([1, 4]))
    return kw


def requested(kw, side, defaults):
    """Sorted list of requested norms"""
    k0 = 2 * math.pi / numpy.asarray(side, dtype=float)
    g = kw.get('kgrid')
    if g is None:
        kmin, kmax, n = [kw.get(x, defaults[x]) for x in ('kmin', 'kmax', 'ksamples')]
        start = kmin if kmin > 0 else float(min(k0))
        return [start + i * (kmax - start) / (n - 1) for i in range(n)] if n > 1 else [start]
    g = sorted(g)
    if g[0] < 0:
        g[0] = float(min(k0))
    return g


def norms_of(klist):
    return [math.sqrt(float(numpy.dot(k, k))) for k in klist]


def check_vectors(obs, mech, cf, side, req, nk, dk, kgrid=None, complete=True, msg=''):
    """The wave-vectors an object reports, against the request. Returns the integer vectors."""
    k0 = 2 * math.pi / numpy.asarray(side, dtype=float)
    kv = cf.kvectors
    kgrid = cf.kgrid if kgrid is None else kgrid
    if not obs.check(len(kv) == len(req) == len(kgrid), mech + '/count', lambda: '%s: %d shells, %d values of k, %d requested'
                     % (msg, len(kv), len(kgrid), len(req))):
        return None
    shells, dks, ambiguous = ref.shells(side, req, dk)
    seen = {}
    ints = []
    for i, klist in enumerate(kv):
        ints.append([])
        for k in klist:
            x = numpy.asarray(k, dtype=float) / k0
            n = numpy.rint(x)
            obs.check(numpy.all(numpy.abs(x - n) < 1e-7), mech + '/lattice', lambda: '%s: wave-vector %s is not compatible with the cell %s' % (msg, k, side))
            t = tuple(int(y) for y in n)
            ints[-1].append(t)
            obs.check(any(t), mech + '/null', lambda: '%s: null wave-vector in shell %d' % (msg, i))
            obs.check(t not in seen, mech + '/unique', lambda: '%s: wave-vector %s is both in shell %s and %s' % (msg, t, seen[t], i))
            seen[t] = i
            norm = math.sqrt(float(numpy.dot(k, k)))
            obs.check(abs(norm - req[i]) < dks[i] + 1e-9, mech + '/shell', lambda: '%s: wave-vector %s of norm %r is in the shell of %r, dk=%r (effective %r)'
                      % (msg, k, norm, req[i], dk, dks[i]))
            obs.count('vectors')
        norms = norms_of(klist)
        obs.check(len(norms) > 0 and abs(kgrid[i] - numpy.mean(norms)) < 1e-9 * max(1.0, kgrid[i]), mech + '/mean',
                  lambda: '%s: reported k=%r, the mean norm of the shell is %r' % (msg, kgrid[i], numpy.mean(norms)))
        if complete and not ambiguous:
            want = min(nk, len(shells[i]))
            obs.check(len(klist) == want, mech + '/capped', lambda: '%s: %d wave-vectors in the shell of %r, expected %d (nk=%r, available %d)'
                      % (msg, len(klist), req[i], want, nk, len(shells[i])))
            av = set(shells[i])
            obs.check(all(t in av for t in ints[-1]), mech + '/available', lambda: '%s: wave-vectors %s are not those of the shell' % (msg, [t for t in ints[-1] if t not in av][:4]))
            obs.count('shells')
    return ints


def modes(klist, pos, weight=None):
    """Density modes of all the vectors in a list"""
    ph = numpy.exp(1j * numpy.dot(numpy.asarray(klist, dtype=float), numpy.asarray(pos).T))
    if weight is not None:
        ph = ph * numpy.asarray(weight)[None, :]
    return ph.sum(axis=1)


def fourier_spec(rng, **over):
    """Static trajectory for Fourier space correlations"""
    spec = gen.statics_spec(rng, nframes=rng.choice([1, 2, 3, 5]), N=rng.choice([9, 16, 30]))
    spec.update(over)
    return spec


# ---------------------------------------------------------------- scattering functions

def random_kgrid(rng, side):
    k0 = 2 * math.pi / max(side)
    return sorted(round(k0 * (1.0 + 3 * rng.random()), 3) for _ in range(rng.choice([1, 2, 3])))


def tgrid_for(rng, nframes):
    """Requested times, see tc.tgrid()"""
    from . import tc
    g = tc.random_tgrid(rng, nframes)
    return g


def phases(kvecs, pos):
    """exp(i k.r) as an array (vectors, particles)"""
    return numpy.exp(1j * numpy.dot(numpy.asarray(kvecs, dtype=float), numpy.asarray(pos).T))


def flat(kv):
    return [k for l in kv for k in l]


def by_shell(x, kv):
    """Averages over the vectors of each shell"""
    out, n = [], 0
    for l in kv:
        out.append(float(numpy.mean(x[n:n + len(l)])))
        n += len(l)
    return numpy.array(out)


def check_scattering(obs, mech, m, cf, f, norigins, block, normalize, scale=1.0, tol=1e-8, msg=''):
    """
    Values over (k,t) against averages of f(i, j) (array over k) over the documented origins. Normalized values
    are compared after multiplication by the value at t=0, which may vanish
    """
    from . import ref, tc
    offset = norigins not in ('1', 1)
    skip = ref.skip_of(norigins, m.n, block, m.N)
    value = numpy.array(cf.value, dtype=float)
    times = [float(t) for t in cf.grid[1]]
    nk = len(cf.grid[0])
    if not obs.check(value.shape == (nk, len(times)), mech + '/shape', lambda: '%s: value has shape %s for %d k and %d times' % (msg, value.shape, nk, len(times))):
        return
    dts = tc.check_grid(obs, mech, m, times, block, offset, msg)
    if dts is None:
        return
    memo = {}

    def g(i0, i1):
        if (i0, i1) not in memo:
            memo[(i0, i1)] = f(i0, i1)
        return memo[(i0, i1)]
    zeros = [None]
    if normalize:
        obs.check(dts[0] == 0, mech + '/zero', lambda: '%s: t=0 is not in the grid of a normalized function: %s' % (msg, times))
        zeros = [numpy.asarray(w) for w, n in ref.timecorr_candidates(g, m.steps, block, skip, 0, offset)]
    fits = [True] * len(zeros)
    worst = None
    for it, dt in enumerate(dts):
        cand = ref.timecorr_candidates(g, m.steps, block, skip, dt, offset)
        obs.count('times')
        obs.count('points', nk)
        if max(n for _, n in cand) > 1:
            obs.count('multi_origin_times')
        for iz, z in enumerate(zeros):
            got = value[:, it] if z is None else value[:, it] * z
            ok = any(bool(numpy.all(numpy.abs(got - w) <= tol * (numpy.abs(w) + scale))) for w, _ in cand)
            if not ok:
                fits[iz] = False
                worst = worst or (dt, got.tolist()[:5], [numpy.asarray(w).tolist()[:5] for w, _ in cand][:4])
    obs.values += value.size
    obs.check(any(fits), mech + '/value', lambda: '%s: at dt=%s got %s expected one of %s (norigins=%r, skip=%d, block=%d)'
              % ((msg,) + worst + (norigins, skip, block)))
    if normalize and any(fits):
        ok = numpy.all(numpy.abs(value[:, 0] - 1.0) < 1e-9)
        obs.check(ok, mech + '/one', lambda: '%s: normalized value at t=0 is %s' % (msg, value[:, 0]))
