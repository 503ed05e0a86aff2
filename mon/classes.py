"""The correlation classes and arguments for them, shared by the monitors that go over all of them."""
import os

import numpy

from . import fs, gen, tc

TIME = ['MeanSquareDisplacement', 'VelocityAutocorrelation', 'NonGaussianParameter', 'SelfOverlap', 'CollectiveOverlap', 'Chi4SelfOverlap',
        'Chi4SelfOverlapOptimized', 'SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy', 'IntermediateScattering', 'S4ktOverlap']
STATIC = ['RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'StructureFactorLegacy', 'StructureFactorFast', 'BondAngleDistribution', 'SpectralDensity']
ALL = TIME + STATIC
TWO = ['RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'StructureFactorLegacy', 'StructureFactorFast', 'IntermediateScattering',
       'BondAngleDistribution']
FIXCM = ['MeanSquareDisplacement', 'SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy', 'IntermediateScattering']
NOPARTIAL = ['BondAngleDistribution', 'SpectralDensity']
FOURIER = ['SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy', 'IntermediateScattering', 'S4ktOverlap', 'StructureFactorLegacy', 'StructureFactorFast',
           'SpectralDensity']


def spec_for(rng, name, **over):
    if name in STATIC:
        spec = gen.statics_spec(rng, N=rng.choice([16, 30, 40]), structure=rng.choice(['random', 'cluster', 'separated']), L=rng.choice([4.0, 6.0]))
        if name == 'SpectralDensity':
            spec['ndim'] = 3
    else:
        spec = gen.dynamics_spec(rng, motion=rng.choice(['brownian', 'strong', 'ballistic']))
    spec.update(over)
    return spec


def args_for(rng, name, spec):
    """JSON description of the arguments"""
    side = [spec['L'] * x for x in gen.SIDES[spec['shape']][:spec['ndim']]]
    return dict(norigins=rng.choice([-1, 1, 2, 0.5]), tgrid=tc.random_tgrid(rng, spec['nframes']), kgrid=fs.random_kgrid(rng, side), nk=rng.choice([1, 4, 20]),
                rmax=rng.choice([-1.0, 0.47, 0.87]), fix_cm=rng.random() < 0.3, normalize=rng.random() < 0.6, auto=rng.random() < 0.25)


def kwargs(a, name, m):
    """Keyword arguments of a class"""
    kw = dict(norigins=a['norigins'])
    if name.startswith('Radial'):
        kw['dr'] = 0.2
        if a['rmax'] > 0:
            kw['rmax'] = a['rmax']
    elif name == 'BondAngleDistribution':
        ns = len(set(x for sp in m.species for x in sp))
        kw['rcut'] = [[1.3] * ns for _ in range(ns)]
    elif name in FOURIER:
        kw.update(kgrid=list(a['kgrid']), nk=a['nk'], dk=0.2)
        if 'Scattering' in name:
            kw['normalize'] = a['normalize']
        if name == 'S4ktOverlap':
            kw.pop('norigins')
    if name in TIME:
        g = tc.tgrid(a, m)
        kw['tgrid'] = g if g is not None else [0.0] + [f * (m.steps[-1] - m.steps[0]) * m.timestep for f in (0.25, 0.5, 0.75)]
        if a['auto'] and name != 'S4ktOverlap':
            # the grids are set up by the class
            kw.pop('tgrid')
            if name not in ('MeanSquareDisplacement',):
                pass
    if name in FIXCM and a['fix_cm']:
        kw['fix_cm'] = True
    if 'verlap' in name:
        kw['a'] = 0.2
    return kw


def create(pp, name, th, m, a, tmp, kw=None):
    """Correlation object"""
    kw = kwargs(a, name, m) if kw is None else kw
    args = []
    if name == 'SpectralDensity':
        path = os.path.join(tmp, 'radii.xyz')
        if not os.path.exists(path):
            gen.to_xyz(m, path, ['name', 'pos', 'radius'])
        args = [path]
    return getattr(pp, name)(th, *args, **kw)


def plain(x):
    """Copy of a grid or value, as nested lists (arrays and lists alike)"""
    if hasattr(x, 'tolist'):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, '__iter__'):
        return [plain(y) for y in x]
    return float(x)


def identical(x, y):
    """Bit for bit (nan is equal to itself)"""
    x, y = plain(x), plain(y)
    return repr(x) == repr(y)
