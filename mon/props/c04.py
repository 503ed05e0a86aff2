"""C04: the norigins option selects the documented set of time origins"""
import numpy

from .. import boot, gen, ref, tc
from ..harness import Skip

RULE = ('one case = one trajectory x one correlation x one value of norigins: the result must be the average over exactly the '
        'documented origins (direct evaluation, or the same correlation of a trajectory holding only these frames), the same for '
        'the option given as a string; plus sweeps of adjust_skip over (frames, block, norigins)')
MINIMUM = 60
REQUIRED_COUNTS = {'spacings': 500, 'multi_origin_times': 60, 'subsampled': 20}
ASSUMPTIONS = ['norigins=1.0 given as a float is not told apart from the documented integer and is not used']

NORIG = [-1, '-1', '-1.0', 1, '1', 2, 3, 4, 7, '2', '5', 0.5, '0.5', 0.34, '0.34', 0.25, 0.1, '0.1', 0.2, 0.3, 50, '1.0', 0.9, None]


def cases(tier, seed):
    out = []
    n = 300 if tier == 'quick' else 16000
    for i in range(n):
        rng = gen.rng_for('C04', seed, i)
        kind = ['msd', 'vacf', 'qst', 'chi4', 'gr', 'sk', 'skfast', 'ba', 'fkt', 'fskt', 'string', 'sweep', 'ik'][i % 13]
        spec = gen.dynamics_spec(rng)
        spec['sampling'] = rng.choice(['even', 'even', 'blocks'])
        spec['block'], spec['period'] = rng.choice([([0, 1, 2, 4, 8], 16), ([0, 1, 3, 7], 10), ([0, 2, 6], 14), ([0, 1], 5)])
        spec['closing'] = rng.choice([True, False])
        spec['nframes'] = rng.choice([5, 10, 16, 23, 31])
        spec['N'] = rng.choice([5, 8, 12])
        if kind in ('ba', 'ik'):
            spec['ndim'] = 3
        out.append(dict(kind=kind, spec=spec, how='ram', norigins=rng.choice(NORIG), seed=rng.randrange(10**6),
                        tgrid=['frac', [0.0, 0.1, 0.3, 0.5]]))
    for i in range(2 if tier == 'quick' else 12):
        # the heuristics
        rng = gen.rng_for('C04h', seed, i)
        spec = gen.dynamics_spec(rng, N=rng.choice([1400, 2100]), nframes=rng.choice([40, 65]), sampling='even', ndim=2)
        out.append(dict(kind='msd', spec=spec, how='ram', norigins=None, seed=1, tgrid=['frac', [0.0, 0.1, 0.3, 0.5]]))
    return out


class _Stub(object):
    """The part of the trajectory interface that decides the spacing of origins"""

    class _S(object):
        pass

    def __init__(self, nframes, block, npart):
        self.steps = list(range(nframes))
        self.block_size = block
        self._s = _Stub._S()
        self._s.particle = [None] * npart

    def __getitem__(self, i):
        return self._s

    def __len__(self):
        return len(self.steps)


def sweep(case, obs):
    from atooms.postprocessing import helpers
    if not hasattr(helpers, 'adjust_skip'):
        raise Skip('no adjust_skip')
    rng = gen.rng_for('sweep', case['seed'])
    for _ in range(150):
        block = rng.choice([1, 1, 2, 3, 5, 8])
        n = block * rng.randint(1, 60) + (rng.choice([0, 1]) if block > 1 else 0)
        norigins = rng.choice(NORIG)
        npart = rng.choice([10, 300, 5000])
        skip = helpers.adjust_skip(_Stub(n, block, npart), norigins)
        want = ref.skip_of(norigins, n, block, npart)
        obs.count('spacings')
        obs.check(skip == want, 'spacing/value', lambda: 'frames=%d block=%d norigins=%r particles=%d: spacing %r, documented %r'
                  % (n, block, norigins, npart, skip, want))
        obs.check(skip % block == 0 or skip >= n, 'spacing/blocks', lambda: 'spacing %r is not a multiple of the block %d' % (skip, block))
        used = len(range(0, n, skip))
        if norigins is not None and float(norigins) > 1:
            obs.check(used >= min(float(norigins), n // block), 'spacing/atleast',
                      lambda: 'norigins=%r: only %d origins out of %d blocks' % (norigins, used, n // block))
        if norigins in (1, '1'):
            obs.check(used == 1, 'spacing/one', lambda: 'norigins=1: %d origins' % used)


def run(case, obs):
    pp = boot.load()
    kind, norigins = case['kind'], case['norigins']
    if kind == 'sweep':
        return sweep(case, obs)
    m = gen.build(case['spec'])
    th = gen.to_ram(m)
    block = tc.block_of(m, th)
    grid = tc.tgrid(case, m)
    obs.count('kind:' + kind)
    if kind in ('msd', 'vacf', 'qst'):
        cls = {'msd': pp.MeanSquareDisplacement, 'vacf': pp.VelocityAutocorrelation, 'qst': pp.SelfOverlap}[kind]
        cf = cls(th, tgrid=grid, norigins=norigins)
        cf.compute()
        vec = {'msd': lambda i, j: float(((m.unf[j] - m.unf[i])**2).sum() / m.N),
               'vacf': lambda i, j: float((m.vel[j] * m.vel[i]).sum() / m.N),
               'qst': lambda i, j: float((((m.unf[j] - m.unf[i])**2).sum(axis=1) < 0.3**2).sum() / float(m.N))}
        tc.check_values(obs, kind, m, cf.grid, cf.value, vec[kind], norigins, block, msg='%s norigins=%r' % (kind, norigins))
    elif kind == 'chi4':
        from . import c02
        cf = pp.Chi4SelfOverlap(th, tgrid=grid, norigins=norigins)
        cf.compute()
        c02.check_moments(obs, kind, m, cf, lambda i, j: ref.count_self_overlap(m.unf[i], m.unf[j], 0.3), norigins, block)
    elif kind in ('fkt', 'fskt'):
        k0 = 2 * numpy.pi / m.side[0]
        kv = numpy.zeros(m.ndim)
        kv[0] = k0[0]
        kv2 = k0 * 1.0
        cls = pp.IntermediateScattering if kind == 'fkt' else pp.SelfIntermediateScattering
        cf = cls(th, tgrid=grid, norigins=norigins, normalize=False, kgrid=[1.0])
        cf.kvectors = [[list(kv)], [list(kv2)]]
        cf.compute()
        for row, k in zip(cf.value, (kv, kv2)):
            if kind == 'fkt':
                r = [ref.rho(k, p) for p in m.pos]
                f = lambda i, j: float((r[j] * r[i].conjugate()).real)
            else:
                f = lambda i, j: float(numpy.cos(numpy.dot(m.pos[j] - m.pos[i], k)).mean())
            tc.check_values(obs, kind, m, cf.grid[1], row, f, norigins, block, msg='%s norigins=%r' % (kind, norigins))
    elif kind in ('gr', 'sk', 'skfast', 'ba', 'ik'):
        # Static correlations: the same as those of a trajectory with only the origins
        skip = ref.skip_of(norigins, m.n, block, m.N)
        sub = m.slice(slice(0, None, skip))
        ts = gen.to_ram(sub)
        obs.count('subsampled', int(1 < sub.n < m.n))
        L = float(min(m.side[0]))
        kw = dict(kgrid=[2 * numpy.pi / L * x for x in (1.0, 1.9)], nk=10, dk=0.4 / L)
        paths = {}
        if kind == 'ik':
            cols = ['name', 'pos', 'radius']
            paths = {th: gen.to_xyz(m, obs.tmp + '/a.xyz', cols), ts: gen.to_xyz(sub, obs.tmp + '/b.xyz', cols)}
        make = {'gr': lambda t, n: pp.RadialDistributionFunction(t, norigins=n, dr=0.2),
                'sk': lambda t, n: pp.StructureFactorLegacy(t, norigins=n, **kw),
                'skfast': lambda t, n: pp.StructureFactorFast(t, norigins=n, **kw),
                'ba': lambda t, n: pp.BondAngleDistribution(t, norigins=n, dtheta=20.0, rcut=[[0.4 * L] * 5] * 5),
                'ik': lambda t, n: pp.SpectralDensity(t, paths[t], norigins=n, **kw)}[kind]
        # all the frames of the subset, whatever the blocks it seems to consist of
        ts.block_size = 1
        a, b = make(th, norigins), make(ts, -1)
        a.compute()
        b.compute()
        obs.close(a.grid, b.grid, kind + '/frames', msg='grid, norigins=%r' % norigins)
        obs.close(a.value, b.value, kind + '/frames', rtol=1e-9, atol=1e-11, msg='norigins=%r (spacing %d)' % (norigins, skip))
    elif kind == 'string':
        if norigins is None or norigins == '1.0':
            norigins = 3
        if block > 1 and float(norigins) == 1:
            norigins = 2
        num = float(norigins)
        num = int(num) if num == int(num) else num
        for cls in (pp.MeanSquareDisplacement, pp.SelfOverlap, pp.NonGaussianParameter):
            a = cls(th, tgrid=grid, norigins=num)
            b = cls(th, tgrid=grid, norigins=str(num))
            a.compute()
            b.compute()
            obs.close(a.grid, b.grid, 'string/grid', msg='norigins=%r and %r' % (num, str(num)))
            obs.close(a.value, b.value, 'string/value', rtol=1e-12, atol=0, msg='norigins=%r and %r' % (num, str(num)))
