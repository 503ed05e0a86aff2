"""C19: analysis never alters the trajectory or the arguments it is given"""
import copy
import hashlib
import os

import numpy

from .. import boot, classes, fs, gen, ref, tc
from ..harness import Skip

RULE = ('one case = one generated trajectory (memory, live views, files, cached, sliced) x one analysis (class with filters, fixed centre of mass, weights, partial '
        'sets, analysis and output; high-level function; susceptibility; generic correlators; helpers): an exact snapshot of every frame, of the '
        'trajectory file and of every argument is taken before and compared after, and results are then overwritten to reveal shared memory')
MINIMUM = 150
REQUIRED_COUNTS = {'particles': 5000, 'arguments': 200, 'files': 60}
ASSUMPTIONS = ['copying a weight field from another trajectory adds that field to the particles, by design']
KINDS = ['compute', 'compute', 'do', 'partial', 'filter', 'weight', 'fixcm', 'explicit', 'alias', 'args', 'api', 'susceptibility']


def cases(tier, seed):
    out = []
    n = 1200 if tier == 'quick' else 14000
    for i in range(n):
        rng = gen.rng_for('C19', seed, i)
        name = classes.ALL[i % len(classes.ALL)]
        kind = KINDS[(i // len(classes.ALL)) % len(KINDS)]
        if kind == 'weight':
            name = rng.choice(['StructureFactorLegacy', 'StructureFactorFast'])
        if kind == 'fixcm':
            name = rng.choice(classes.FIXCM)
        if kind == 'explicit':
            name = rng.choice([x for x in classes.FOURIER])
        if kind == 'susceptibility':
            name = rng.choice(['SelfOverlap', 'MeanSquareDisplacement', 'CollectiveOverlap'])
        spec = classes.spec_for(rng, name)
        if kind == 'partial':
            spec['species'] = rng.choice(gen.SPECIES[2:])
            if name in classes.NOPARTIAL:
                kind = 'compute'
        if kind == 'weight':
            spec['chargevar'] = True
        if kind == 'susceptibility':
            spec.update(sampling='even', nframes=9)
        if name in classes.STATIC and name != 'BondAngleDistribution' and rng.random() < 0.2:
            spec.update(cellvar='iso', nframes=3)
        how = rng.choice(['ram', 'ramview', 'ramview', 'ramview', 'xyz', 'xyzcached', 'xyzcached', 'ramfile'])
        if kind == 'api':
            how = 'xyz'
        if not how.startswith('xyz'):
            spec['masses'] = True
            spec['store_unf'] = rng.random() < 0.4
        if rng.random() < 0.3:
            spec['inside'] = False
        sl = None
        if rng.random() < 0.25 and spec.get('sampling', 'even') == 'even' and spec['nframes'] > 3 and kind not in ('api', 'susceptibility'):
            sl = [rng.choice([0, 1]), rng.choice([None, spec['nframes'] - 1]), 1]
        open_ = name.startswith('RadialDistribution') and kind not in ('api', 'susceptibility') and rng.random() < 0.5
        if open_:
            # Open boundaries
            spec.update(periodic=[False] * spec['ndim'], N=40)
            how = rng.choice(['ram', 'ramview', 'ramview', 'ramview'])
        args = classes.args_for(rng, name, spec)
        if open_:
            args['rmax'] = args.get('rmax') or 2.0
        if spec['nframes'] < 4:
            sl = None
        out.append(dict(kind=kind, cls=name, spec=spec, how=how, slice=sl, args=args, sel=rng.randrange(10**6),
                        cond=rng.choice(['radius < 0.5', 'charge > 0', 'radius >= 0.45'])))
    for i in range(60 if tier == 'quick' else 2000):
        rng = gen.rng_for('C19', seed, 'data', i)
        out.append(dict(kind='data', seed=rng.randrange(10**6), what=['acf', 'gcf', 'gcf_offset', 'linkedcells', 'helpers', 'expo'][i % 6]))
    return out


def snapshot(th):
    """Everything in the frames of a trajectory, by value"""
    out = dict(steps=list(th.steps), timestep=float(th.timestep), n=len(th), block=th.block_size, filename=th.filename, frames=[], ncallbacks=len(th.callbacks or []))
    for i in range(len(th)):
        s = th[i]
        frame = []
        for p in s.particle:
            d = {}
            for k, v in p.__dict__.items():
                d[k] = (v.dtype.str, v.shape, v.tobytes()) if isinstance(v, numpy.ndarray) else repr(v)
            frame.append(d)
        cell = None
        if s.cell is not None:
            cell = (numpy.array(s.cell.side).tobytes(), numpy.array(s.cell.center).tobytes(), repr(getattr(s.cell, 'periodic', None)),
                    sorted(k for k in s.cell.__dict__))
        out['frames'].append((frame, cell))
    return out


def compare(obs, before, after, msg):
    for k in ('steps', 'timestep', 'n', 'block', 'filename', 'ncallbacks'):
        obs.check(before[k] == after[k], 'trajectory/' + k, lambda: '%s: %s of the trajectory is %r, it was %r' % (msg, k, after[k], before[k]))
    for i, (x, y) in enumerate(zip(before['frames'], after['frames'])):
        obs.check(x[1] == y[1], 'cell', lambda: '%s: the cell of frame %d has changed' % (msg, i))
        if not obs.check(len(x[0]) == len(y[0]), 'particles/number', lambda: '%s: frame %d has %d particles, it had %d' % (msg, i, len(y[0]), len(x[0]))):
            continue
        for j, (p, q) in enumerate(zip(x[0], y[0])):
            obs.count('particles')
            if p != q:
                names = [k for k in sorted(set(p) | set(q)) if p.get(k) != q.get(k)]
                obs.violation('particles/' + ','.join(names), '%s: %s of particle %d in frame %d have changed' % (msg, names, j, i))
                break
        obs.comparisons += 1


def digest(path):
    st = os.stat(path)
    return hashlib.sha256(open(path, 'rb').read()).hexdigest(), st.st_mtime_ns, st.st_size


def frozen(x):
    """Arguments, by value and type"""
    if isinstance(x, numpy.ndarray):
        return ('array', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, dict):
        return ('dict', sorted((repr(k), frozen(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(y) for y in x])
    return repr(x)


def overwrite(x):
    """Write all over a result"""
    if isinstance(x, numpy.ndarray):
        try:
            x[...] = -123
        except ValueError:
            pass
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], (list, numpy.ndarray)):
                overwrite(x[i])
            else:
                x[i] = -123.0
        x.append(-321.0)
    elif isinstance(x, tuple):
        for y in x:
            overwrite(y)


def data(case, obs):
    """Generic correlators and helpers"""
    boot.load()
    from atooms.postprocessing import correlation, helpers
    rng = numpy.random.RandomState(case['seed'])
    what = case['what']
    n = rng.randint(5, 20)
    t = sorted(rng.permutation(100)[:n].tolist())
    x = rng.normal(size=(n, 4, 3)) if what != 'acf' else rng.normal(size=n)
    grid = [0, 1, 2] if what != 'gcf_offset' else [(0, 0), (0, 1), (1, 2)]
    if rng.rand() < 0.5 and what == 'acf':
        x = list(x)
    args = [t, x, grid]
    if what in ('acf', 'gcf', 'gcf_offset'):
        before = frozen(args)
        f = lambda a, b: float(numpy.sum(a * b))
        res = correlation.acf(grid, 1, t, x) if what == 'acf' else getattr(correlation, what)(f, grid, 1, t, x)
        obs.count('arguments')
        obs.check(frozen(args) == before, 'data/' + what, '%s modified its arguments' % what)
        overwrite(list(res[:2]))
        obs.check(frozen(args) == before, 'data/%s/alias' % what, '%s: results share memory with the arguments' % what)
    elif what == 'linkedcells':
        from atooms.postprocessing.linkedcells import LinkedCells
        box = rng.uniform(5, 8, size=3)
        pos = rng.uniform(-0.5, 0.5, size=(40, 3)) * box
        other = rng.uniform(-0.5, 0.5, size=(30, 3)) * box
        args = [box, pos, other]
        before = frozen(args)
        lc = LinkedCells(rcut=1.2)
        try:
            res = lc.compute(box, pos, other) if rng.rand() < 0.5 else lc.compute(box, pos)
        except TypeError as e:
            raise Skip(str(e))
        obs.count('arguments')
        obs.check(frozen(args) == before, 'data/linkedcells', 'linked cells modified their arguments')
    elif what == 'helpers':
        x = sorted(rng.rand(9).tolist())
        f = rng.normal(size=9)
        f = f.tolist() if rng.rand() < 0.5 else f
        args = [x, f]
        before = frozen(args)
        helpers.feqc(x, f, 0.1)
        helpers.ifabsmm(x, f)
        helpers.linear_fit(numpy.array(x), numpy.array(f))
        obs.count('arguments')
        obs.check(frozen(args) == before, 'data/helpers', 'helpers modified their arguments')
        from atooms.postprocessing.helpers import filter_species
        m = gen.build(dict(seed=case['seed'], nframes=1, species={'A': 2, 'B': 1}))
        th = gen.to_ram(m, view=True)
        b = snapshot(th)
        s = filter_species(th[0], 'A')
        s.particle.pop()
        compare(obs, b, snapshot(th), 'filter_species')
    else:
        from atooms.postprocessing.fourierspace import expo_sphere
        pos = rng.normal(size=(3, 7, 3))
        k0 = rng.uniform(0.5, 1, size=3)
        args = [pos, k0]
        before = frozen(args)
        e = expo_sphere(k0, 4, pos)
        obs.count('arguments')
        overwrite(e)
        obs.check(frozen(args) == before, 'data/expo', 'tabulated exponentials: arguments modified')


def api(pp, case, obs):
    from atooms.postprocessing import api as a
    m = gen.build(case['spec'])
    path = gen.to_xyz(m, os.path.join(obs.tmp, 'traj.xyz'), ['name', 'pos', 'vel', 'radius', 'charge'])
    before = digest(path)
    name = case['cls']
    kw = dict(norigins=case['args']['norigins'])
    opts = ['center', 'filter', 'no_cache', 'species_layout', 'first', 'update', 'fix_cm', 'none']
    o = opts[case['sel'] % len(opts)]
    if o == 'center' or o == 'no_cache' or o == 'update':
        kw[o] = True
    elif o == 'filter':
        kw[o] = 'radius < 10'
    elif o == 'species_layout':
        kw[o] = ['F', 'C', 'A'][case['sel'] // 8 % 3]
    elif o == 'first' and m.n > 4 and case['spec'].get('sampling', 'even') == 'even':
        kw[o] = 1
    kg = ','.join(str(k) for k in case['args']['kgrid'])
    fcm = dict(fix_cm=True) if o == 'fix_cm' else {}
    todo = {'MeanSquareDisplacement': ('msd', dict(fcm)), 'VelocityAutocorrelation': ('vacf', {}), 'NonGaussianParameter': ('alpha2', {}), 'SelfOverlap': ('qst', {}),
            'CollectiveOverlap': ('qt', {}), 'Chi4SelfOverlap': ('chi4qs', {}), 'Chi4SelfOverlapOptimized': ('chi4qs', dict(fast=True)),
            'SelfIntermediateScatteringFast': ('fskt', dict(kgrid=kg, **fcm)), 'SelfIntermediateScatteringLegacy': ('fskt', dict(kgrid=kg, legacy=True)),
            'IntermediateScattering': ('fkt', dict(kgrid=kg, **fcm)), 'RadialDistributionFunction': ('gr', {}), 'RadialDistributionFunctionLegacy': ('gr', dict(legacy=True)),
            'StructureFactorLegacy': ('sk', dict(kgrid=kg)), 'StructureFactorFast': ('sk', dict(kgrid=kg, fast=True)), 'SpectralDensity': ('ik', dict(kgrid=kg))}
    if name not in todo:
        raise Skip('not available')
    f, extra = todo[name]
    kw.update(extra)
    if f == 'ik':
        kw.pop('filter', None)
        kw.pop('species_layout', None)
    if f in ('fkt', 'fskt', 'sk', 'ik'):
        kw['nk'] = 3
    getattr(a, f)(path, **kw)
    obs.count('files')
    obs.check(digest(path) == before, 'file/api', lambda: 'the trajectory file was modified by api.%s(%s)' % (f, kw))
    out = [x for x in os.listdir(obs.tmp) if x != 'traj.xyz']
    obs.check(all(x.startswith('traj.xyz.pp.') for x in out), 'file/other', lambda: 'api.%s(%s) left %s' % (f, kw, out))


def run(case, obs):
    kind = case['kind']
    if kind == 'data':
        return data(case, obs)
    pp = boot.load()
    if kind == 'api':
        return api(pp, case, obs)
    from atooms.postprocessing.partial import Partial
    name = case['cls']
    th, m = tc.trajectory(case, gen.build(case['spec']), obs.tmp)
    path = os.path.join(obs.tmp, 'traj.xyz')
    a = case['args']
    kw = classes.kwargs(a, name, m)
    if kind == 'fixcm':
        kw['fix_cm'] = True
    if 'tgrid' in kw and case['sel'] % 3 == 0:
        kw['tgrid'] = numpy.array(kw['tgrid']) if case['sel'] % 2 else tuple(kw['tgrid'])
        if 'Scattering' in name or name == 'S4ktOverlap':
            kw['tgrid'] = list(kw['tgrid'])
    if 'rcut' in kw and case['sel'] % 2:
        kw['rcut'] = numpy.array(kw['rcut'])
    if 'kgrid' in kw and case['sel'] % 2:
        # not sorted
        kw['kgrid'] = kw['kgrid'][::-1]
    args0 = frozen(kw)
    file0 = digest(path) if os.path.exists(path) else None
    before = snapshot(th)
    names = sorted(set(m.species[0]))
    msg = '%s, %s (%s)' % (name, kind, case['how'])
    extra = None
    try:
        if kind == 'partial':
            species = list(names)
            cf = Partial(getattr(pp, name), species, th, **kw)
            cf.compute()
            obs.same(species, names, 'arguments/species', msg)
            cfs = list(cf.partial.values())
        elif kind == 'susceptibility':
            g = [0.0] + [f * (m.steps[-1] - m.steps[0]) * m.timestep for f in (0.25, 0.5)]
            kw = dict(tgrid=g)
            args0 = frozen(kw)
            cf = pp.Susceptibility(getattr(pp, name), th, norigins=-1, **kw)
            cf.compute()
            cfs = [cf]
        else:
            cf = classes.create(pp, name, th, m, a, obs.tmp, kw=kw)
            if kind == 'filter' and name != 'SpectralDensity':
                sel = {'radius < 0.5': lambda r, c: r < 0.5, 'charge > 0': lambda r, c: c > 0, 'radius >= 0.45': lambda r, c: r >= 0.45}[case['cond']]
                ok = all(sum(bool(sel(r, c)) for r, c in zip(m.radius[i], m.charge[i])) not in (0, 1, m.ndim) for i in range(m.n))
                if not ok:
                    raise Skip('too few particles')
                cf = pp.Filter(cf, case['cond'] if cf.nbodies == 1 else '%s,%s' % (case['cond'], case['cond']))
            elif kind == 'weight':
                cf.add_weight(field='charge', fluctuations=bool(case['sel'] % 2))
            elif kind == 'explicit':
                k0 = 2 * numpy.pi / m.side[0]
                extra = [[list(k0 * numpy.array([1] + [0] * (m.ndim - 1))), list(k0 * numpy.array([0] * (m.ndim - 1) + [2]))], [list(k0 * 1.0)]]
                if case['sel'] % 2:
                    extra = [[numpy.array(k) for k in l] for l in extra]
                e0 = frozen(extra)
                cf.kvectors = extra
            if kind == 'do':
                try:
                    cf.do()
                except ValueError:
                    if not ('Scattering' in name and cf.grid[1][0] > 0):
                        raise
            else:
                cf.compute()
                if case['sel'] % 2:
                    cf.compute()
            cfs = [cf]
    finally:
        compare(obs, before, snapshot(th), msg)
        obs.count('arguments')
        obs.check(frozen(kw) == args0, 'arguments', lambda: '%s: the arguments were modified: %s' % (msg, kw))
    obs.count('class:' + name)
    if extra is not None:
        obs.check(frozen(extra) == e0, 'arguments/kvectors', lambda: '%s: the wave-vectors given were modified' % msg)
    if file0 is not None:
        obs.count('files')
        obs.check(digest(path) == file0, 'file', '%s: the trajectory file has changed' % msg)
    # Write over the arguments: results stay
    states = [(repr(classes.plain(c.grid)), repr(classes.plain(c.value))) for c in cfs]
    if kind in ('args', 'explicit', 'partial', 'do'):
        kw2 = list(kw.values()) + ([extra] if extra is not None else [])
        for x in kw2:
            overwrite(x)
        for c, s in zip(cfs, states):
            obs.check((repr(classes.plain(c.grid)), repr(classes.plain(c.value))) == s, 'alias/arguments', lambda: '%s: the results change with the arguments' % msg)
        return
    # Write over the results: arguments and trajectory stay
    for c in cfs:
        overwrite(c.grid)
        overwrite(c.value)
    obs.count('overwritten')
    compare(obs, before, snapshot(th), msg + ', results overwritten')
    obs.check(frozen(kw) == args0, 'alias/results', lambda: '%s: the results share memory with the arguments: %s' % (msg, kw))
    if extra is not None:
        obs.check(frozen(extra) == e0, 'alias/kvectors', lambda: '%s: the results share memory with the wave-vectors given' % msg)
