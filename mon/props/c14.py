"""C14: a filter restricts a correlation to exactly the particles that satisfy it"""
import copy

import numpy

from .. import boot, fs, gen, ref, tc
from ..harness import Skip

RULE = ('one case = one generated trajectory x one correlation x condition(s) on particle properties (comparisons, logical operators, species, '
        'positions and velocities for static functions; frame-dependent selections) or callbacks: the filtered result is compared with the unfiltered '
        'one of a trajectory with only the selected particles; conditions true for all, single conditions, one filter too many and traces on '
        'the particles are monitored')
MINIMUM = 80
REQUIRED_COUNTS = {'filtered': 150, 'refused': 20, 'particles_inspected': 1000}
ASSUMPTIONS = ['conditions are evaluated on the attributes of the particles', 'groups with as many particles as dimensions are left out (trajectory library)']

ONE = ['MeanSquareDisplacement', 'VelocityAutocorrelation', 'NonGaussianParameter', 'SelfOverlap', 'CollectiveOverlap', 'Chi4SelfOverlap',
       'SelfIntermediateScattering', 'SelfIntermediateScatteringLegacy']
TWO = ['RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'StructureFactorLegacy', 'StructureFactorFast', 'IntermediateScattering',
       'BondAngleDistribution']
CONDS = ['radius < %(r)r', 'radius>=%(r)r', 'mass > %(m)r', 'charge == 0.5', 'charge != -1.0', "species == 'A'", 'species != "B"',
         "species == 'A' and radius < %(r)r", 'radius < %(r)r or charge > 0', 'not charge > 0', 'abs(charge) < 1', "species in ['A', 'C']",
         'radius * mass < %(r)r * %(m)r', '0.4 < radius < 0.6', 'max(radius, 0.5) > 0.5']
DYN = ['position[0] > 0', 'velocity[0]**2 + velocity[1]**2 > 1', 'position[1] < 0.3 and position[0] > -1', 'position.dot(position) < 4']


def cases(tier, seed):
    out = []
    n = 1300 if tier == 'quick' else 14000
    for i in range(n):
        rng = gen.rng_for('C14', seed, i)
        kind = ['equal', 'equal', 'all', 'single', 'refused', 'callback', 'nested'][i % 7]
        name = rng.choice(ONE + TWO)
        if kind == 'single':
            name = rng.choice(TWO)
        static = name in TWO and name != 'IntermediateScattering'
        if static:
            spec = gen.statics_spec(rng, N=rng.choice([24, 30, 45]), structure=rng.choice(['random', 'wall', 'lattice']), L=rng.choice([4.0, 6.0]))
            if name == 'BondAngleDistribution':
                spec['structure'] = 'random'
        else:
            spec = gen.dynamics_spec(rng, N=rng.choice([24, 30]), motion=rng.choice(['brownian', 'strong', 'ballistic']))
            spec['store_unf'] = rng.random() < 0.2
        spec.update(species=rng.choice([{'A': 1}, {'A': 3, 'B': 2}, {'A': 2, 'B': 1, 'C': 1}]), masses=True)
        if static and rng.random() < 0.3:
            spec['radvar'] = True
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached'])
        if how.startswith('xyz'):
            # (the format does not store the masses of the particles)
            spec.update(store_unf=False, masses=False)
        side = [spec['L'] * x for x in gen.SIDES[spec['shape']][:spec['ndim']]]
        pool = CONDS + (DYN if name in TWO else [])
        if spec.get('radvar') or name == 'IntermediateScattering' or static:
            pool = pool + DYN
        out.append(dict(kind=kind, cls=name, spec=spec, how=how, norigins=rng.choice([-1, 1, 2, 0.5]), tgrid=tc.random_tgrid(rng, spec['nframes']),
                        kgrid=fs.random_kgrid(rng, side), nk=rng.choice([1, 4, 30]), conds=[rng.choice(pool), rng.choice(pool)], sel=rng.randrange(1000)))
    gen.enlarge(out, 'C14', seed, 16 if tier == 'quick' else 192)
    return out


def fill(c, m):
    if '%' not in c:
        return c
    return c % dict(r=float(numpy.median(m.radius[0])), m=float(numpy.median(m.mass[0])))


def select(m, c):
    """Particles that satisfy a condition, frame by frame"""
    def f(i):
        out = []
        for j in range(len(m.pos[i])):
            env = dict(species=m.species[i][j], radius=float(m.radius[i][j]), mass=float(m.mass[i][j]), charge=float(m.charge[i][j]),
                       position=m.pos[i][j], velocity=m.vel[i][j])
            if eval(c, {'abs': abs, 'max': max}, env):
                out.append(j)
        return numpy.array(out, dtype=int)
    memo = {}

    def g(i):
        if i not in memo:
            memo[i] = f(i)
        return memo[i]
    return g


def args_of(case, m):
    name = case['cls']
    kw = dict(norigins=case['norigins'])
    if name.startswith('Radial'):
        kw['dr'] = 0.2
    elif name == 'BondAngleDistribution':
        kw['rcut'] = [[1.3] * 5] * 5
    elif name.startswith('Structure') or 'Scattering' in name:
        kw.update(kgrid=list(case['kgrid']), nk=case['nk'])
        if 'Scattering' in name:
            kw['normalize'] = False
    if name not in TWO or name == 'IntermediateScattering':
        g = tc.tgrid(case, m)
        kw['tgrid'] = g if g is not None else [0.0] + [f * (m.steps[-1] - m.steps[0]) * m.timestep for f in (0.2, 0.5, 0.9)]
    if 'Overlap' in name:
        kw['a'] = 0.2
    return kw


def usable(case, m, *sels):
    for s in sels:
        ns = [len(s(i)) for i in range(m.n)]
        if min(ns) < 2 or m.ndim in ns:
            raise Skip('too few particles, or as many as dimensions')
        if case['cls'] in ONE and any(list(s(i)) != list(s(0)) for i in range(m.n)):
            raise Skip('the group changes')


def compare(obs, mech, a, b, msg):
    ga, gb = a.grid, b.grid
    two = len(ga) == 2 and hasattr(ga[0], '__len__')
    for x, y in (zip(ga, gb) if two else [(ga, gb)]):
        obs.close(x, y, mech + '/grid', msg=msg + ': grid')
    obs.close(a.value, b.value, mech + '/value', 1e-8, 1e-8, msg)


def run(case, obs):
    pp = boot.load()
    name, kind = case['cls'], case['kind']
    cls = getattr(pp, name)
    two = name in TWO
    m = gen.build(case['spec'])
    conds = [fill(c, m) for c in case['conds']]
    th = gen.container(m, case['how'], obs.tmp)
    block = th.block_size

    def ram(sel=None):
        t = gen.to_ram(m if sel is None else m.select(sel))
        t.block_size = block
        return t
    before = None
    if case['how'] == 'ramview':
        before = [sorted(p.__dict__) for s in th for p in s.particle]
    if kind == 'refused':
        cf = cls(th, **args_of(case, m))
        n = 0
        try:
            pp.Filter(cf, ','.join([conds[0]] * 3 if two else [conds[0]]))
            if not two:
                pp.Filter(cf, conds[1])
            n = 1
        except ValueError:
            pass
        obs.count('refused')
        obs.check(n == 0, 'refused/' + ('three' if two else 'second'), lambda: '%s: more conditions than bodies were accepted' % name)
        cf = cls(ram(), **args_of(case, m))
        for _ in range(2 if two else 1):
            cf.add_filter(lambda s: s)
        try:
            cf.add_filter(lambda s: s)
            obs.violation('refused/add', '%s: one filter too many was accepted' % name)
        except ValueError:
            obs.count('refused')
            obs.comparisons += 1
        return
    if kind == 'all':
        c = ['mass > -1', 'True', 'radius > 0 and mass > 0', "species != 'nobody'"][case['sel'] % 4]
        cf = pp.Filter(cls(th, **args_of(case, m)), c if not two or case['sel'] % 3 else '%s,%s' % (c, c))
        cf.compute()
        ref_ = cls(ram(), **args_of(case, m))
        ref_.compute()
        obs.count('filtered')
        compare(obs, 'all', cf, ref_, '%s with a condition true for all particles' % name)
    elif kind == 'single':
        # The second group is not filtered
        s = select(m, conds[0])
        usable(case, m, s)
        if ',' in conds[0]:
            raise Skip('commas')
        cf = pp.Filter(cls(th, **args_of(case, m)), conds[0])
        cf.compute()
        c2 = pp.Filter(cls(ram(), **args_of(case, m)), conds[0] + ',True')
        c2.compute()
        obs.count('filtered')
        compare(obs, 'single', cf, c2, '%s with a single condition %r, against an explicit second group' % (name, conds[0]))
    elif kind == 'callback':
        # Callbacks with arguments
        names = sorted(set(m.species[0]))
        a = names[case['sel'] % len(names)]
        from atooms.postprocessing.helpers import filter_species
        s = m.where(a)
        usable(case, m, s)
        cf = cls(th, **args_of(case, m))
        if case['sel'] % 2:
            cf.add_filter(filter_species, a)
        else:
            cf.add_filter(lambda system, species=None: filter_species(system, species), species=a)
        cf.compute()
        c2 = cls(ram(s), **args_of(case, m))
        c2.compute()
        obs.count('filtered')
        compare(obs, 'callback', cf, c2, '%s filtered for species %s, against the trajectory with only that' % (name, a))
        if name == 'BondAngleDistribution':
            return
        cf = cls(ram(), **args_of(case, m))
        cf.add_filter(filter_species, None)
        cf.compute()
        c2 = cls(ram(), **args_of(case, m))
        c2.compute()
        compare(obs, 'none', cf, c2, '%s filtered for all species' % name)
    elif kind == 'nested' and two:
        # Two conditions, the union of groups
        s0, s1 = select(m, conds[0]), select(m, conds[1])
        usable(case, m, s0, s1)
        either = lambda i: numpy.array(sorted(set(s0(i)) | set(s1(i))), dtype=int)
        usable(case, m, either)
        if any(',' in c for c in conds):
            raise Skip('commas')
        cf = pp.Filter(cls(th, **args_of(case, m)), ','.join(conds))
        cf.compute()
        t = ram(either)
        c2 = pp.Filter(cls(t, **args_of(case, m)), ','.join(conds))
        c2.compute()
        obs.count('filtered')
        compare(obs, 'pair', cf, c2, '%s with two conditions %s, removing the other particles' % (name, conds))
    else:
        c = conds[0]
        s = select(m, c)
        usable(case, m, s)
        if two and ',' in c:
            raise Skip('commas')
        cf = pp.Filter(cls(th, **args_of(case, m)), '%s,%s' % (c, c) if two else c)
        cf.compute()
        c2 = cls(ram(s), **args_of(case, m))
        c2.compute()
        obs.count('filtered')
        compare(obs, 'equal', cf, c2, '%s filtered by %r, against the trajectory with only those particles' % (name, c))
    if before is not None:
        after = [sorted(p.__dict__) for s in th for p in s.particle]
        obs.count('particles_inspected', len(after))
        obs.same(after, before, 'trace', 'attributes of the particles after filtering')
