"""C13: partial correlations are those of the species, and compose to the total"""
import numpy

from .. import boot, fs, gen, ref, tc
from ..harness import Skip
from . import c07

RULE = ('one case = one generated mixture (2 or 3 species, names or numbers, even / block sampling) x one correlation: (a) each partial '
        'result is compared with the same correlation computed on a trajectory with only those species, (b) pair (B,A) with (A,B) and '
        'with reversed filters, (c) the concentration-weighted sum of the partial results with the total one')
MINIMUM = 80
REQUIRED_COUNTS = {'partials': 300, 'sums': 60}
ASSUMPTIONS = ['the interval between time origins is given explicitly: the default one depends on the number of particles']

ONE = ['MeanSquareDisplacement', 'VelocityAutocorrelation', 'NonGaussianParameter', 'SelfOverlap', 'CollectiveOverlap', 'Chi4SelfOverlap',
       'Chi4SelfOverlapOptimized', 'SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy']
TWO = ['RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'StructureFactorLegacy', 'StructureFactorFast', 'IntermediateScattering',
       'BondAngleDistribution']
LINEAR = ['MeanSquareDisplacement', 'VelocityAutocorrelation', 'SelfOverlap', 'SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy']


def cases(tier, seed):
    out = []
    n = 600 if tier == 'quick' else 12000
    for i in range(n):
        rng = gen.rng_for('C13', seed, i)
        name = (ONE + TWO)[i % len(ONE + TWO)]
        static = name in TWO and name != 'IntermediateScattering'
        species = rng.choice(gen.SPECIES[2:] + [{'A': 1, 'B': 4}, {'B': 1, 'Ar': 2, 'C': 2}])
        if static:
            spec = gen.statics_spec(rng, N=rng.choice([20, 30, 45]), structure=rng.choice(['random', 'cluster', 'wall']), L=rng.choice([4.0, 6.0]))
        else:
            spec = gen.dynamics_spec(rng, N=rng.choice([14, 20, 26]), motion=rng.choice(['brownian', 'strong', 'ballistic']))
            spec['store_unf'] = rng.random() < 0.2
        spec['species'] = species
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached'])
        if how.startswith('xyz'):
            spec['store_unf'] = False
        if name == 'BondAngleDistribution':
            spec['structure'] = 'random'
        side = [spec['L'] * x for x in gen.SIDES[spec['shape']][:spec['ndim']]]
        norig = rng.choice([-1, '-1', 1, '1', 2, 3, 0.5])
        out.append(dict(kind='one' if name in ONE else 'two', cls=name, spec=spec, how=how, norigins=norig,
                        tgrid=tc.random_tgrid(rng, spec['nframes']), kgrid=fs.random_kgrid(rng, side), nk=rng.choice([1, 4, 30]), sel=rng.randrange(1000),
                        order=rng.randrange(6)))
    gen.enlarge(out, 'C13', seed, 16 if tier == 'quick' else 192)
    return out


def args_of(case, m, pair=None):
    name = case['cls']
    kw = dict(norigins=case['norigins'])
    if name in TWO:
        if name.startswith('Radial'):
            kw['dr'] = 0.2
            if case['sel'] % 3 == 0:
                kw['rmax'] = 1.0
        elif name.startswith('Structure'):
            kw.update(kgrid=list(case['kgrid']), nk=case['nk'])
        elif name == 'BondAngleDistribution':
            names = sorted(set(m.species[0]))
            rc = lambda a, b: 1.0 + 0.13 * ((ord(a[0]) * 7 + ord(b[0]) * 5) % 5)
            use = names if pair is None else sorted(set(pair))
            kw['rcut'] = [[rc(a, b) for b in use] for a in use]
        else:
            kw.update(kgrid=list(case['kgrid']), nk=case['nk'], normalize=case['sel'] % 2 == 0)
    elif 'Scattering' in name:
        kw.update(kgrid=list(case['kgrid']), nk=case['nk'], normalize=case['sel'] % 2 == 0)
    if name not in TWO or name == 'IntermediateScattering':
        g = tc.tgrid(case, m)
        kw['tgrid'] = g if g is not None else [0.0] + [f * (m.steps[-1] - m.steps[0]) * m.timestep for f in (0.2, 0.5, 0.9)]
    if 'Overlap' in name:
        kw['a'] = 0.2
    return kw


def same_grid(obs, mech, a, b, msg):
    ga, gb = a.grid, b.grid
    two = len(ga) == 2 and hasattr(ga[0], '__len__')
    for x, y in (zip(ga, gb) if two else [(ga, gb)]):
        obs.close(x, y, mech + '/grid', msg=msg + ': grid')


def run(case, obs):
    pp = boot.load()
    from atooms.postprocessing.partial import Partial
    from atooms.postprocessing.helpers import filter_species
    name = case['cls']
    cls = getattr(pp, name)
    m = gen.build(case['spec'])
    th = gen.container(m, case['how'], obs.tmp)
    block = th.block_size
    names = sorted(set(m.species[0]))
    order = list(names)
    gen.rng_for(case['order']).shuffle(order)
    count = {a: m.species[0].count(a) for a in names}
    p = Partial(cls, order, th, **args_of(case, m))
    p.compute()
    rtol, atol = 1e-9, 1e-10

    def only(sel, **kw):
        t = gen.to_ram(m.select(sel))
        t.block_size = block
        return t
    if case['kind'] == 'one':
        obs.same(sorted(p.partial), names, 'keys', 'partial correlations')
        for a in names:
            c = cls(only(m.where(a)), **args_of(case, m))
            c.compute()
            obs.count('partials')
            same_grid(obs, 'direct', p.partial[a], c, '%s of species %s' % (name, a))
            obs.close(p.partial[a].value, c.value, 'direct/value', rtol, atol, '%s of species %s, against that of the species only' % (name, a))
            if name.startswith('Chi4'):
                obs.close(p.partial[a].average.value, c.average.value, 'direct/average', rtol, atol, '%s average of species %s' % (name, a))
    else:
        obs.same(sorted(p.partial), sorted((a, b) for a in names for b in names), 'keys', 'partial correlations')
        for a in names:
            for b in names:
                sel = (lambda i: numpy.array([j for j, s in enumerate(m.species[i]) if s in (a, b)], dtype=int))
                t = only(sel)
                c = cls(t, **args_of(case, m, (a, b)))
                if a != b:
                    c.add_filter(filter_species, a)
                    c.add_filter(filter_species, b)
                sym = name != 'BondAngleDistribution' and order.index(b) < order.index(a)
                if sym and name == 'IntermediateScattering':
                    # reported as (b, a)
                    c = cls(t, **args_of(case, m, (a, b)))
                    c.add_filter(filter_species, b)
                    c.add_filter(filter_species, a)
                c.compute()
                obs.count('partials')
                vals = numpy.array(c.value)
                if name == 'IntermediateScattering' and a != b and args_of(case, m)['normalize']:
                    # normalization by a value that may be small
                    same_grid(obs, 'direct', p.partial[(a, b)], c, '%s of %s-%s' % (name, a, b))
                    obs.close(p.partial[(a, b)].value, vals, 'direct/value', 1e-6, 1e-6, '%s of %s-%s' % (name, a, b))
                    continue
                same_grid(obs, 'direct', p.partial[(a, b)], c, '%s of %s-%s' % (name, a, b))
                obs.close(p.partial[(a, b)].value, vals, 'direct/value', 1e-8, 1e-8, '%s of %s-%s, against that of a trajectory with these species only' % (name, a, b))
    if name != 'BondAngleDistribution' and case['kind'] == 'two':
        for a in names:
            for b in names:
                obs.close(p.partial[(a, b)].value, p.partial[(b, a)].value, 'symmetric', msg='%s of %s-%s and %s-%s' % (name, a, b, b, a))
    # Composition
    N = float(sum(count.values()))
    c = {a: count[a] / N for a in names}
    if name in LINEAR:
        tot = cls(gen.container(m, 'ram', obs.tmp), **args_of(case, m))
        tot.compute()
        obs.count('sums')
        obs.close(sum(c[a] * numpy.array(p.partial[a].value) for a in names), tot.value, 'sum', 1e-8, 1e-9, '%s: weighted sum of the partial results (got), against the total' % name)
    elif name.startswith('Radial') or name.startswith('Structure'):
        tot = cls(gen.container(m, 'ram', obs.tmp), **args_of(case, m))
        tot.compute()
        obs.count('sums')
        if name.startswith('Radial'):
            s = sum(c[a] * c[b] * numpy.array(p.partial[(a, b)].value) for a in names for b in names)
        else:
            s = sum((c[a] * c[b])**0.5 * numpy.array(p.partial[(a, b)].value) for a in names for b in names)
        obs.close(s, tot.value, 'sum', 1e-8, 1e-8, '%s: weighted sum of the partial results (got), against the total' % name)
    elif name == 'IntermediateScattering':
        kw = dict(args_of(case, m), normalize=False)
        tot = cls(gen.container(m, 'ram', obs.tmp), **kw)
        tot.compute()
        s = 0.0
        for a in names:
            for b in names:
                f = cls(gen.container(m, 'ram', obs.tmp), **kw)
                f.add_filter(filter_species, a)
                f.add_filter(filter_species, b)
                f.compute()
                s = s + numpy.array(f.value)
        obs.count('sums')
        obs.close(s, tot.value, 'sum', 1e-8, 1e-8, '%s: sum of the partial results (got), against the total' % name)
