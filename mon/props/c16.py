"""C16: results do not depend on particle order, origin of space or periodic images"""
import os

import numpy

from .. import boot, fs, gen, ref, tc
from ..harness import Skip

RULE = ('one case = one generated trajectory x one correlation x one transformation (permutation of particles, translation and folding, periodic images, '
        'permutation and reflection of the axes, units of length and time by powers of two, folded or unfolded input, species renamed): the result on the transformed '
        'trajectory is compared with the rescaled result on the original one')
MINIMUM = 120
REQUIRED_COUNTS = {'pairs': 300}
ASSUMPTIONS = ['all the wave-vectors in a shell are used when axes are permuted', 'random configurations, so that no distance sits on a bin border']

TIME = ['MeanSquareDisplacement', 'VelocityAutocorrelation', 'NonGaussianParameter', 'SelfOverlap', 'CollectiveOverlap', 'Chi4SelfOverlap',
        'Chi4SelfOverlapOptimized', 'SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy', 'IntermediateScattering', 'S4ktOverlap']
STATIC = ['RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'StructureFactorLegacy', 'StructureFactorFast', 'BondAngleDistribution', 'SpectralDensity']
UNFOLDED = ['MeanSquareDisplacement', 'NonGaussianParameter', 'SelfOverlap', 'Chi4SelfOverlap', 'Chi4SelfOverlapOptimized', 'S4ktOverlap']
TRANSFORMS = ['permute', 'translate', 'images', 'axes', 'reflect', 'units', 'unfolded', 'rename']


def cases(tier, seed):
    out = []
    n = 1200 if tier == 'quick' else 16000
    allc = TIME + STATIC
    for i in range(n):
        rng = gen.rng_for('C16', seed, i)
        name = allc[i % len(allc)]
        tr = TRANSFORMS[(i // len(allc)) % len(TRANSFORMS)]
        if name in STATIC:
            spec = gen.statics_spec(rng, N=rng.choice([16, 30, 60]), structure=rng.choice(['random', 'cluster', 'separated']), L=rng.choice([4.0, 6.0]), radvar=rng.random() < 0.3)
            if rng.random() < 0.15 and name in ('RadialDistributionFunction', 'StructureFactorLegacy'):
                spec.update(cellvar='iso', nframes=3)
        else:
            spec = gen.dynamics_spec(rng, motion=rng.choice(['brownian', 'strong', 'ballistic']))
        if name == 'SpectralDensity':
            spec['ndim'] = 3
        side = [spec['L'] * x for x in gen.SIDES[spec['shape']][:spec['ndim']]]
        out.append(dict(kind=tr, cls=name, spec=spec, how=rng.choice(['ram', 'ram', 'xyz', 'ramview']), norigins=rng.choice([-1, 1, 2, 0.5]), tgrid=tc.random_tgrid(rng, spec['nframes']),
                        kgrid=fs.random_kgrid(rng, side), nk=rng.choice([2, 20]) if tr not in ('axes', 'reflect') else 10**6, sel=rng.randrange(1000),
                        s=rng.choice([0.5, 2.0, 4.0, 0.125]), tau=rng.choice([0.5, 4.0, 1.0]), pair=rng.random() < 0.4, rmax=rng.choice([-1.0, 0.47, 0.87])))
    gen.enlarge(out, 'C16', seed, 16 if tier == 'quick' else 192)
    return out


def make(pp, case, m, th, tmp, s=1.0, names=None):
    name = case['cls']
    cls = getattr(pp, name)
    kw = dict(norigins=case['norigins'])
    args = []
    if name.startswith('Radial'):
        kw['dr'] = 0.2 * s
        if case['rmax'] > 0:
            kw['rmax'] = case['rmax'] * s
    elif name == 'BondAngleDistribution':
        ns = len(set(x for sp in m.species for x in sp))
        kw['rcut'] = [[1.3 * s] * ns] * ns
    elif name.startswith('Structure') or 'Scattering' in name or name in ('SpectralDensity', 'S4ktOverlap'):
        kw.update(kgrid=[k / s for k in case['kgrid']], nk=case['nk'], dk=0.2 / s)
        if name == 'IntermediateScattering':
            kw['normalize'] = False
        if name == 'SpectralDensity':
            args = [gen.to_xyz(m, os.path.join(tmp, 'radii.xyz'), ['name', 'pos', 'radius'])]
        if name == 'S4ktOverlap':
            kw.pop('norigins')
    if name in TIME:
        g = tc.tgrid(case, m)
        kw['tgrid'] = g if g is not None else [0.0] + [f * (m.steps[-1] - m.steps[0]) * m.timestep for f in (0.25, 0.5, 0.75)]
    if 'verlap' in name:
        kw['a'] = 0.2 * s
    cf = cls(th, *args, **kw)
    if names:
        from atooms.postprocessing.helpers import filter_species
        for x in names[:1 if cf.nbodies == 1 else 2]:
            cf.add_filter(filter_species, x)
    return cf


def scales(name, s, tau):
    """(factors of the grids, factor of the value)"""
    t, k = tau, 1 / s
    if name == 'MeanSquareDisplacement':
        return [t], s**2
    if name == 'VelocityAutocorrelation':
        return [t], (s / tau)**2
    if name.startswith('Radial'):
        return [s], 1.0
    if name.startswith('Structure'):
        return [k], 1.0
    if name == 'SpectralDensity':
        return [k], s**3
    if 'Scattering' in name:
        return [k, t], 1.0
    if name == 'S4ktOverlap':
        return [t, k], 1.0
    if name == 'BondAngleDistribution':
        return [1.0], 1.0
    return [t], 1.0


def run(case, obs):
    pp = boot.load()
    name, tr = case['cls'], case['kind']
    m = gen.build(case['spec'])
    rng = numpy.random.RandomState(case['sel'])
    names = sorted(set(m.species[0]))
    pair = None
    if case['pair'] and len(names) > 1 and name not in ('SpectralDensity', 'BondAngleDistribution'):
        pair = [names[0], names[-1]]
    block = tc.block_of(m)
    th = gen.container(m, case['how'], obs.tmp)
    cf = make(pp, case, m, th, obs.tmp, names=pair)
    cf.compute()
    m2 = m.copy()
    s, tau = 1.0, 1.0
    pair2 = pair
    how = 'ram'
    if tr == 'permute':
        p = rng.permutation(m.N)
        m2 = m.select(lambda i: p)
    elif tr == 'translate':
        v = rng.uniform(-2, 2, size=m.ndim) * m.side[0]
        if case['spec'].get('corner'):
            m2.unf = [u - x / 2 for u, x in zip(m2.unf, m2.side)]
        m2.unf = [u + v for u in m2.unf]
        m2.fold()
    elif tr == 'images':
        if name in UNFOLDED:
            # a different image of each particle, throughout
            shift = rng.randint(-2, 3, size=m.pos[0].shape)
            m2.pos = [p + shift * x for p, x in zip(m.pos, m.side)]
        else:
            m2.pos = [p + rng.randint(-2, 3, size=p.shape) * x for p, x in zip(m.pos, m.side)]
    elif tr == 'axes':
        ax = rng.permutation(m.ndim)
        for x in ('pos', 'unf', 'vel'):
            setattr(m2, x, [y[:, ax].copy() for y in getattr(m, x)])
        m2.side = [x[ax].copy() for x in m.side]
    elif tr == 'reflect':
        sign = rng.choice([-1, 1], size=m.ndim)
        sign[rng.randint(m.ndim)] = -1
        for x in ('pos', 'unf', 'vel'):
            setattr(m2, x, [y * sign for y in getattr(m, x)])
    elif tr == 'units':
        s, tau = case['s'], case['tau']
        for x in ('pos', 'unf', 'radius', 'side'):
            setattr(m2, x, [y * s for y in getattr(m, x)])
        m2.vel = [y * s / tau for y in m.vel]
        m2.timestep = m.timestep * tau
    elif tr == 'unfolded':
        if case['sel'] % 2:
            # positions that were never folded
            m2.pos = [u.copy() for u in m.unf]
        else:
            m2.store_unf = True
    elif tr == 'rename':
        db = dict(zip(names, ['X%d' % i for i in range(len(names))])) if case['sel'] % 2 else dict(zip(names, ['zz', 'yy', 'xx', 'aa', 'bb', 'cc']))
        m2.species = [[db[x] for x in sp] for sp in m.species]
        pair2 = [db[x] for x in pair] if pair else None
    if case['how'] == 'xyz' and tr not in ('unfolded',) and case['sel'] % 2:
        how = 'xyz'
    th2 = gen.container(m2, how, obs.tmp, 'other.xyz')
    th2.block_size = block
    os.makedirs(os.path.join(obs.tmp, 'second'))
    c2 = make(pp, case, m2, th2, os.path.join(obs.tmp, 'second'), s, names=pair2)
    c2.compute()
    gs, vs = scales(name, s, tau)
    obs.count('pairs')
    obs.count('transform:' + tr)
    msg = '%s, %s' % (name, tr)
    if len(gs) == 2:
        for x, y, f in zip(cf.grid, c2.grid, gs):
            obs.close(y, numpy.array(x) * f, tr + '/grid', 1e-9, 1e-10, msg + ': grid')
    else:
        obs.close(c2.grid, numpy.array(cf.grid) * gs[0], tr + '/grid', 1e-9, 1e-10, msg + ': grid')
    atol = 1e-9
    if name == 'SpectralDensity':
        atol = 1e-11 * m.N**2 * vs
    elif name == 'IntermediateScattering':
        atol = 1e-9 * m.N
    elif name == 'BondAngleDistribution' and numpy.any(numpy.isnan(cf.value)):
        raise Skip('no bonds')
    obs.close(c2.value, numpy.array(cf.value) * vs, tr + '/value', 1e-7, atol, msg)
