"""C27: the correlations of one trajectory are consistent with each other"""
import os

import numpy

from .. import boot, fs, gen, ref, tc
from . import c05, c07

RULE = ('one case = one generated trajectory on which several correlations are computed by the package and compared with each other through '
        'an exact relation: N S(k) and unnormalized F(k,0), small-k limits of F_s and S_4 and MSD and chi_4, moments of chi_4 and overlaps, '
        'chi_4 and the generic susceptibility, g(r) and the collective overlap at t=0, MSD and VACF of ballistic particles, F and F_s of a '
        'single particle, I(k) and S(k) of equal spheres, F(k,t) of a frame with itself; nothing is compared with a formula alone')
MINIMUM = 120
REQUIRED_COUNTS = {'relations': 300, 'points': 2000}
ASSUMPTIONS = ['relations hold on the same frames, origins, wave-vectors and particles', 'limits k to 0 are taken in cells of side 1e3 to 1e7 and '
               'compared within the bound of the remainder']

KINDS = ['sk_fkt', 'sk_fkt', 'fs_msd', 'chi4_q', 'suscept', 'gr_qt', 'ballistic', 'single', 's4_chi4', 'ik_sk', 'chi4_suscept', 'inverse_gr', 'fs_vacf']
SMALL = ['default_args', 'suscept', 'chi4_suscept']


def cases(tier, seed):
    out = []
    n = 600 if tier == 'quick' else 15000
    for i in range(n):
        rng = gen.rng_for('C27', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.dynamics_spec(rng)
        spec['store_unf'] = False
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached'])
        groups = 'all'
        norigins = rng.choice([-1, -1, '-1', '1', 2, 3, 0.5])
        g = None
        while g is None:
            g = tc.random_tgrid(rng, spec['nframes'])
        if kind == 'sk_fkt':
            groups = rng.choice(['all', 'pair', 'self', 'one', 'overlap'])
            if groups in ('pair', 'self'):
                spec['species'] = rng.choice(gen.SPECIES[2:])
            g = ['frames', [0, 1, 2]]
        elif kind in ('fs_msd', 's4_chi4', 'fs_vacf'):
            spec.update(shape='cubic', corner=False, sampling=rng.choice(['even', 'even', 'blocks']))
            how = 'ram'
        elif kind in ('suscept', 'chi4_suscept'):
            spec.update(sampling='even', amp=rng.choice([0.05, 0.1, 0.2]), nframes=rng.choice([8, 12, 20]))
            norigins = rng.choice([-1, -1, 2, 3, 1]) if kind == 'suscept' else -1
            if kind == 'suscept' and rng.random() < 0.5:
                # periodic blocks
                spec['sampling'] = 'blocks'
                spec['block'], spec['period'] = rng.choice([([0, 1, 2, 4, 8], 16), ([0, 1, 3, 7], 10), ([0, 2, 6], 14), ([0, 1], 5)])
                spec['closing'] = rng.choice([True, False])
            g = ['frames', list(range(0, max(1, rng.choice([1, 2, 3, spec['nframes'] // 2 + 1, spec['nframes'] - 1]))))]
        elif kind == 'chi4_q':
            spec['amp'] = rng.choice([0.05, 0.1, 0.2])
        elif kind in ('gr_qt', 'inverse_gr'):
            spec = gen.statics_spec(rng, nframes=rng.choice([2, 3]), N=rng.choice([16, 30, 60]))
            norigins = rng.choice([-1, -1, 1, 2])
            groups = rng.choice(['all', 'pair', 'one'])
            if spec['ndim'] == 2 or how.startswith('xyz'):
                how = 'ram'
        elif kind == 'ballistic':
            spec.update(motion='ballistic', sampling=rng.choice(['even', 'blocks', 'irregular']))
        elif kind == 'single':
            spec['single'] = True
            spec['species'] = {'A': 1}
        elif kind == 'ik_sk':
            spec = gen.statics_spec(rng, nframes=rng.choice([1, 2, 3]), N=rng.choice([16, 30]), ndim=3)
            norigins = rng.choice([-1, -1, 1, 2])
        out.append(dict(kind=kind, spec=spec, how=how, norigins=norigins, tgrid=g, groups=groups, a=rng.choice([0.1, 0.2, 0.3, 0.5]), sel=rng.randrange(1000)))
    gen.enlarge(out, 'C27', seed, 16 if tier == 'quick' else 192, frames=(26, 40), particles=(100, 200), ok=lambda c: c['kind'] not in SMALL)
    return out


def explicit(cf, ints, side):
    k0 = 2 * numpy.pi / numpy.asarray(side, dtype=float)
    cf.kvectors = [[list(numpy.array(v) * k0) for v in l] for l in ints]
    return cf


def huge(m, L):
    """The same particles in a huge cell"""
    m = m.copy()
    m.side = [numpy.ones(m.ndim) * L for _ in m.side]
    m.pos = [u.copy() for u in m.unf]
    return m


def axes(d):
    return [[tuple(int(i == j) for j in range(d)) for i in range(d)]]


def ambiguous(m, a):
    """Displacements equal to the overlap distance within rounding"""
    for i in range(m.n):
        for j in range(i, m.n):
            d2 = ((m.unf[j] - m.unf[i])**2).sum(axis=1)
            if numpy.any(numpy.abs(d2 - a * a) < 1e-9):
                return True
    return False


def run(case, obs):
    pp = boot.load()
    globals()['rel_' + case['kind']](pp, case, obs)
    obs.count('kind:' + case['kind'])


def done(obs, got):
    obs.count('relations')
    obs.count('points', numpy.array(got).size)


def rel_sk_fkt(pp, case, obs):
    m = gen.build(case['spec'])
    s0, s1, same, filters = c05.groups_of(case, m)
    ints = c07.explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0])
    make = lambda name, **kw: c05.attach(explicit(getattr(pp, name)(gen.container(m, case['how'], obs.tmp), norigins=case['norigins'], **kw), ints, m.side[0]), filters)
    f = make('IntermediateScattering', tgrid=tc.tgrid(case, m), normalize=False)
    f.compute()
    if not obs.check(f.grid[1][0] == 0.0, 'sk_fkt/zero', lambda: 'no t=0 in the grid %s' % list(f.grid[1])):
        return
    f0 = numpy.array([float(v[0]) for v in f.value])
    n = float(len(s0(0)) * len(s1(0)))**0.5
    for name in ('StructureFactorLegacy', 'StructureFactorFast'):
        s = make(name)
        s.compute()
        obs.close(s.grid, f.grid[0], 'sk_fkt/k', msg='k of %s and F(k,t)' % name)
        obs.close(numpy.array(s.value) * n, f0, 'sk_fkt', 1e-8, 1e-8 * n, 'N S(k) (%s, got) and unnormalized F(k,0), groups %s, norigins %r' % (name, case['groups'], case['norigins']))
        done(obs, f0)


def rel_fs_msd(pp, case, obs):
    m0 = gen.build(case['spec'])
    L = 1e3 * float(max(1.0, numpy.abs(numpy.array(m0.unf)).max()))
    m = huge(m0, L)
    g = tc.tgrid(case, m)
    g = sorted(set([0.0] + g))
    k = 2 * numpy.pi / L
    msd = pp.MeanSquareDisplacement(gen.to_ram(m), tgrid=g, norigins=case['norigins'])
    msd.compute()
    r4 = max(float(((m.unf[j] - m.unf[i])**4).sum(axis=1).mean()) for i in range(m.n) for j in range(i, m.n))
    for name in ('SelfIntermediateScatteringLegacy', 'SelfIntermediateScatteringFast'):
        f = explicit(getattr(pp, name)(gen.to_ram(m), tgrid=g, norigins=case['norigins']), axes(m.ndim), m.side[0])
        f.compute()
        if not obs.close(f.grid[1], msd.grid, 'fs_msd/times', msg='times of %s and of the mean square displacement, norigins %r' % (name, case['norigins'])):
            return
        want = k**2 * numpy.array(msd.value) / (2 * m.ndim)
        got = 1.0 - numpy.array(f.value[0])
        obs.close(got, want, 'fs_msd', 0, k**4 * r4 / (24 * m.ndim) * 1.01 + 1e-13, '1 - F_s(k,t) (%s, got) and k^2 MSD / 2d' % name)
        done(obs, got)


def rel_fs_vacf(pp, case, obs):
    """The velocity autocorrelation is the mean square displacement of ... particles placed at their velocities"""
    # <v0.vt> = (<v0^2> + <vt^2> - <|vt - v0|^2>) / 2: the last term is the mean square displacement of a
    # trajectory whose positions are the velocities
    m = gen.build(case['spec'])
    w = m.copy()
    top = float(numpy.abs(numpy.array(m.vel)).max())
    w.side = [numpy.ones(m.ndim) * 20 * top for _ in m.side]
    w.unf = [v.copy() for v in m.vel]
    w.pos = [v.copy() for v in m.vel]
    g = sorted(set([0.0] + tc.tgrid(case, m)))
    block = gen.to_ram(m).block_size
    norigins = case['norigins']
    msd = pp.MeanSquareDisplacement(gen.to_ram(w), tgrid=g, norigins=norigins)
    msd.compute()
    vacf = pp.VelocityAutocorrelation(gen.to_ram(m), tgrid=g, norigins=norigins)
    vacf.compute()
    if not obs.close(vacf.grid, msd.grid, 'fs_vacf/times', msg='times of the velocity autocorrelation and mean square displacement'):
        return
    skip = ref.skip_of(norigins, m.n, block, m.N)
    v2 = lambda i, j: 0.5 * float((m.vel[i]**2).sum() + (m.vel[j]**2).sum()) / m.N
    for t, d2, v in zip(msd.grid, msd.value, vacf.value):
        dt = int(round(t / m.timestep))
        cand = ref.timecorr_candidates(v2, m.steps, block, skip, dt, norigins != '1')
        obs.check(any(abs(v - (c - 0.5 * d2)) < 1e-8 * (1 + abs(c)) for c, _ in cand), 'fs_vacf', lambda: 'at t=%r VACF is %r, <v^2>-|dv|^2/2 is %r'
                  % (t, v, [(c - 0.5 * d2) for c, _ in cand]))
    done(obs, vacf.value)


def rel_chi4_q(pp, case, obs):
    m = gen.build(case['spec'])
    if ambiguous(m, case['a']):
        return
    kw = dict(tgrid=tc.tgrid(case, m), a=case['a'], norigins=case['norigins'])
    q = pp.SelfOverlap(gen.container(m, case['how'], obs.tmp), **kw)
    q.compute()
    for name in ('Chi4SelfOverlap', 'Chi4SelfOverlapOptimized'):
        x = getattr(pp, name)(gen.container(m, case['how'], obs.tmp), **kw)
        x.compute()
        if not obs.close(x.grid, q.grid, 'chi4_q/times', msg='times of %s and self overlap' % name):
            continue
        obs.close(numpy.array(x.average.value) / m.N, q.value, 'chi4_q/average', msg='average of %s / N (got) and self overlap' % name)
        av, sq = numpy.array(x.average.value), numpy.array(x.variance.value)
        obs.close((sq - av**2) / m.N, x.value, 'chi4_q/moments', 1e-8, 1e-9, msg='%s from its moments' % name)
        obs.check(bool(numpy.all(numpy.array(x.value) >= -1e-9)), 'chi4_q/positive', 'negative susceptibility')
        done(obs, x.value)
    c = pp.CollectiveOverlap(gen.container(m, case['how'], obs.tmp), **kw)
    c.compute()
    if case['a'] < 0.5 * min(m.side[0]):
        obs.close(c.grid, q.grid, 'chi4_q/times', msg='times of collective and self overlap')
        obs.check(bool(numpy.all(numpy.array(c.value) >= numpy.array(q.value) - 1e-9)), 'chi4_q/collective', lambda: 'collective overlap %s is smaller than the self one %s' % (list(c.value), list(q.value)))


def rel_suscept(pp, case, obs):
    """Generic susceptibility against single-origin correlations computed one by one"""
    from atooms.trajectory import Sliced
    m = gen.build(case['spec'])
    if ambiguous(m, case['a']):
        return
    th = gen.to_ram(m)
    block = len(case['spec']['block']) if case['spec']['sampling'] == 'blocks' else 1
    th.block_size = block
    name = ['SelfOverlap', 'SelfOverlap', 'MeanSquareDisplacement', 'VelocityAutocorrelation', 'CollectiveOverlap'][case['sel'] % 5]
    cls = getattr(pp, name)
    kw = {'a': case['a']} if 'Overlap' in name else {}
    g = tc.tgrid(case, m)
    exact = block == 1
    if not exact:
        # Times that separate frames of a block, but may not be available from its first frame
        g = list(g) + [(m.steps[j] - m.steps[i]) * m.timestep for j in range(block) for i in range(j)
                       if (m.steps[j] - m.steps[i]) * m.timestep < max(g)]
    x = pp.Susceptibility(cls, th, norigins=case['norigins'], tgrid=list(g), **kw)
    x.compute()
    single = []
    skip = ref.skip_of(case['norigins'], m.n, block, m.N)
    for i in range(0, m.n, skip):
        t = gen.to_ram(m.slice(slice(i, None)))
        t.block_size = block
        c = cls(t, norigins='1', tgrid=list(g), **kw)
        c.compute()
        single.append({int(round(a / m.timestep)): float(b) for a, b in zip(c.grid, c.value)})
    got = {int(round(a / m.timestep)): float(b) for a, b in zip(x.grid, x.value)}
    want = sorted(set(int(round(t / m.timestep)) for t in g)) if exact else sorted(single[0])
    if not obs.check(sorted(got) == want, 'suscept/times', lambda: 'times %s, requested %s, expected %s' % (sorted(got), g, want)):
        return
    # Starting frames from which all the requested times can be reached
    use = [s for i, s in zip(range(0, m.n, skip), single) if m.steps[-1] - m.steps[i] >= max(got)] if got else []
    want = {dt: m.N * float(numpy.var([s[dt] for s in use])) for dt in got}
    obs.check(all(abs(got[dt] - want[dt]) < 1e-8 * (1 + abs(want[dt])) for dt in got), 'suscept',
              lambda: 'susceptibility of %s, norigins %r: %s, N times the variance over %d starting frames %s' % (name, case['norigins'], got, len(use), want))
    obs.count('starting_frames', len(use))
    done(obs, x.value)


def rel_chi4_suscept(pp, case, obs):
    """chi_4 and the generic susceptibility of the self overlap on the same origins"""
    m = gen.build(case['spec'])
    if ambiguous(m, case['a']):
        return
    x = pp.Susceptibility(pp.SelfOverlap, gen.to_ram(m), norigins=-1, tgrid=tc.tgrid(case, m), a=case['a'])
    x.compute()
    dts = [int(round(t / m.timestep)) for t in x.grid]
    index = [m.steps.index(m.steps[0] + d) for d in dts]
    fits = []
    for n in range(1, m.n):
        # n starting frames: the first n-1+i frames
        vals = []
        for i in index:
            if n + i > m.n:
                vals.append(None)
                continue
            c = pp.Chi4SelfOverlap(gen.to_ram(m.slice(slice(0, n + i))) if n + i > 1 else gen.to_ram(m.slice(slice(0, 2))), norigins=-1,
                                   tgrid=[(m.steps[i] - m.steps[0]) * m.timestep], a=case['a'])
            c.compute()
            vals.append(float(c.value[0]) if len(c.value) else None)
        if all(v is not None and abs(v - w) < 1e-9 + 1e-9 * abs(w) for v, w in zip(vals, x.value)):
            fits.append(n)
    obs.check(fits, 'chi4_suscept', lambda: 'susceptibility of the self overlap %s is not chi_4 on any number of origins' % list(x.value))
    done(obs, x.value)


def rel_gr_qt(pp, case, obs):
    """Neighbors up to a distance: g(r) and the collective overlap at t=0"""
    m = gen.build(case['spec'])
    if min(len(set(map(len, m.species))), 1) == 0 or m.n < 2:
        return
    L = float(min(m.side[0]))
    dr = 0.04 + 0.01 * (case['sel'] % 7)
    nb = max(1, int(0.5 * L / dr * (0.2 + 0.7 * (case['sel'] % 10) / 10.0)))
    nb = min(nb, int(0.5 * L / dr) - 1)
    if nb < 1:
        return
    a = nb * dr
    for i in range(m.n):
        d = ref.pair_distances(m.pos[i], m.pos[i], m.side[i], True)
        if numpy.any(numpy.abs(d / dr - numpy.rint(d / dr)) < 1e-6):
            obs.count('ambiguous')
            return
    V = float(numpy.prod(m.side[0]))
    frames = list(range(0, m.n, ref.skip_of(case['norigins'], m.n, 1, m.N)))
    th = gen.to_ram(m)
    th.block_size = 1
    q = pp.CollectiveOverlap(th, tgrid=[0.0, m.timestep * (m.steps[1] - m.steps[0])], a=a, norigins=case['norigins'])
    q.compute()
    for name in ('RadialDistributionFunctionFast', 'RadialDistributionFunctionLegacy'):
        th = gen.to_ram(m)
        th.block_size = 1
        g = getattr(pp, name)(th, dr=dr, norigins=case['norigins'])
        g.compute()
        r = numpy.array(g.grid)[:nb]
        got = 1.0 + (m.N / V) * float(numpy.sum(numpy.array(g.value)[:nb] * ref.shell_volume(r - dr / 2, r + dr / 2, m.ndim)))
        obs.close(got, q.value[0], 'gr_qt', 1e-8, 1e-9, 'particles within %r of a particle: from %s (got) and collective overlap, norigins %r, %d frames' % (a, name, case['norigins'], len(frames)))
        done(obs, r)


def rel_inverse_gr(pp, case, obs):
    """The two g(r) on the same bins, and with limited range"""
    m = gen.build(case['spec'])
    L = float(min(m.side[0]))
    s0, s1, same, filters = c05.groups_of(case, m)
    dr = [0.05, 0.1, 0.25][case['sel'] % 3]
    rmax = 0.24 * L
    if dr > rmax:
        return
    for i in range(m.n):
        d = ref.pair_distances(m.pos[i], m.pos[i], m.side[i], True)
        if numpy.any(numpy.abs(d / dr - numpy.rint(d / dr)) < 1e-9):
            obs.count('ambiguous')
            return
    vals = []
    for name, kw in (('RadialDistributionFunctionFast', {}), ('RadialDistributionFunctionLegacy', {}), ('RadialDistributionFunctionFast', dict(rmax=rmax)),
                     ('RadialDistributionFunctionLegacy', dict(rmax=rmax))):
        g = c05.attach(getattr(pp, name)(gen.container(m, case['how'], obs.tmp), dr=dr, norigins=case['norigins'], **kw), filters)
        g.compute()
        vals.append((name, kw, numpy.array(g.grid), numpy.array(g.value)))
    for name, kw, r, v in vals[1:]:
        n = min(len(r), len(vals[0][2]))
        obs.close(r[:n], vals[0][2][:n], 'inverse_gr/distances', msg='distances of %s %s' % (name, kw))
        obs.close(v[:n], vals[0][3][:n], 'inverse_gr', 1e-8, 1e-8, msg='g(r) of %s %s (got) and fast one, groups %s' % (name, kw, case['groups']))
        done(obs, v)


def rel_ballistic(pp, case, obs):
    """Constant velocities: MSD = <v^2> t^2 and VACF = <v^2>"""
    m = gen.build(case['spec'])
    v = m.vel[0] * 0.3 / max(1e-3, float(numpy.abs(m.vel[0]).max())) * float(min(m.side[0])) / max([1] + [b - a for a, b in zip(m.steps, m.steps[1:])]) / m.timestep
    m.unf = [m.unf[0] + v * (s - m.steps[0]) * m.timestep for s in m.steps]
    m.vel = [v.copy() for _ in m.steps]
    m.fold()
    g = tc.tgrid(case, m)
    x = pp.MeanSquareDisplacement(gen.container(m, case['how'], obs.tmp, 'a.xyz'), tgrid=g, norigins=case['norigins'])
    x.compute()
    y = pp.VelocityAutocorrelation(gen.container(m, case['how'], obs.tmp, 'b.xyz'), tgrid=[0.0] + g, norigins=case['norigins'])
    y.compute()
    z = pp.NonGaussianParameter(gen.container(m, case['how'], obs.tmp, 'c.xyz'), tgrid=g, norigins=case['norigins'])
    z.compute()
    v2 = float(y.value[0])
    obs.close(y.value, numpy.ones(len(y.value)) * v2, 'ballistic/vacf', 1e-9, 0, 'velocity autocorrelation of constant velocities')
    obs.close(x.value, v2 * numpy.array(x.grid)**2, 'ballistic/msd', 1e-7, 1e-9 * float(min(m.side[0])), 'MSD (got) and VACF(0) t^2')
    tail = [b for a, b in zip(z.grid, z.value) if a > 0]
    if tail:
        obs.close(tail, numpy.ones(len(tail)) * tail[0], 'ballistic/alpha2', 1e-6, 1e-6, 'non-Gaussian parameter of ballistic particles, which does not depend on time')
    done(obs, x.value)


def rel_single(pp, case, obs):
    """One particle: coherent and self functions are the same"""
    m = gen.build(case['spec'])
    m.species = [['B'] + ['A'] * (m.N - 1) for _ in m.species]
    if m.N - 1 == m.ndim:
        return
    from atooms.postprocessing.helpers import filter_species
    ints = c07.explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0])
    g = sorted(set([0.0] + tc.tgrid(case, m)))
    c = explicit(pp.IntermediateScattering(gen.container(m, case['how'], obs.tmp, 'a.xyz'), tgrid=g, norigins=case['norigins'], normalize=False), ints, m.side[0])
    c.add_filter(filter_species, 'B')
    c.compute()
    for name in ('SelfIntermediateScatteringLegacy', 'SelfIntermediateScatteringFast'):
        f = explicit(getattr(pp, name)(gen.container(m, case['how'], obs.tmp, name + '.xyz'), tgrid=g, norigins=case['norigins'], normalize=case['sel'] % 2 == 0), ints, m.side[0])
        f.add_filter(filter_species, 'B')
        f.compute()
        if not obs.close(f.grid[1], c.grid[1], 'single/times', msg='times of %s and F(k,t)' % name):
            continue
        obs.close(f.grid[0], c.grid[0], 'single/k', msg='k of %s and F(k,t)' % name)
        obs.close(f.value, c.value, 'single', 1e-7, 1e-7, 'F_s (%s, got) and F(k,t) of a single particle' % name)
        done(obs, f.value)


def rel_s4_chi4(pp, case, obs):
    """chi_4 is the limit of S_4 when k goes to 0"""
    m0 = gen.build(case['spec'])
    if ambiguous(m0, case['a']):
        return
    R = float(max(1.0, numpy.abs(numpy.array(m0.unf)).max()))
    L = 1e6 * R
    m = huge(m0, L)
    kw = dict(tgrid=tc.tgrid(case, m), a=case['a'])
    x = pp.Chi4SelfOverlap(gen.to_ram(m), norigins=case['norigins'], **kw)
    x.compute()
    s = explicit(pp.S4ktOverlap(gen.to_ram(m), norigins=case['norigins'], kgrid=[2 * numpy.pi / L], **kw) if False else
                 pp.S4ktOverlap(gen.to_ram(m), norigins=case['norigins'], **kw), axes(m.ndim), m.side[0])
    s.compute()
    if not obs.close(s.grid[0], x.grid, 's4_chi4/times', msg='times of S_4 and chi_4'):
        return
    got = numpy.array([float(v[0]) for v in s.value])
    # the phases are all equal within 2 pi R sqrt(d) / L
    bound = 4 * (2 * numpy.pi * R / L) * m.N
    obs.close(got, x.value, 's4_chi4', 1e-9, bound, 'S_4(k,t) for k to 0 (got) and chi_4')
    done(obs, got)


def rel_ik_sk(pp, case, obs):
    """Spectral density of equal spheres"""
    m = gen.build(case['spec'])
    R = 0.3 + 0.01 * (case['sel'] % 20)
    m.radius = [numpy.ones(len(x)) * R for x in m.radius]
    ints = [[v] for l in c07.explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0]) for v in l]
    radii = gen.to_xyz(m, os.path.join(obs.tmp, 'radii.xyz'), ['name', 'pos', 'radius'])
    a = explicit(pp.SpectralDensity(gen.to_ram(m), radii, norigins=case['norigins']), ints, m.side[0])
    a.compute()
    b = explicit(pp.StructureFactor(gen.to_ram(m), norigins=case['norigins']), ints, m.side[0])
    b.compute()
    obs.close(a.grid, b.grid, 'ik_sk/k', msg='k of I(k) and S(k)')
    k = numpy.array(b.grid)
    v = 4 * numpy.pi * (numpy.sin(k * R) - k * R * numpy.cos(k * R)) / k**3
    rho = m.N / float(numpy.prod(m.side[0]))
    obs.close(a.value, rho * v**2 * numpy.array(b.value), 'ik_sk', 1e-7, 1e-9 * rho, 'I(k) (got) and rho v(k)^2 S(k) of equal spheres')
    done(obs, k)
