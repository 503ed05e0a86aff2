"""C03: reported time grids are real, sorted and closest to the requested times"""
import numpy

from .. import boot, gen, ref, tc

RULE = ('one case = one generated trajectory (even, block, irregular sampling) x one time-dependent correlation x one requested '
        'time grid; each reported time is looked up among the step differences, each request among the reported times')
MINIMUM = 80
REQUIRED_COUNTS = {'requests': 400}
ASSUMPTIONS = ['requested times within half a step of each other are not told apart',
               'available separations are those between a frame of the first sampling block and later frames']

KINDS = ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4opt', 'fskt', 'fsktlegacy', 'fkt', 's4']


def cases(tier, seed):
    out = []
    n = 1500 if tier == 'quick' else 24000
    for i in range(n):
        rng = gen.rng_for('C03', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.dynamics_spec(rng)
        spec['sampling'] = rng.choice(['even', 'blocks', 'blocks', 'irregular'])
        spec['block'], spec['period'] = rng.choice([([0, 1, 2, 4, 8], 16), ([0, 1, 3, 7], 10), ([0, 2, 6], 14), ([0, 1], 5)])
        spec['closing'] = rng.choice([True, False])
        spec['N'] = rng.choice([5, 8, 12])
        spec['timestep'] = rng.choice([1.0, 0.002, 0.001, 0.1, 0.3, 1e-4])
        spec['stepmult'] = rng.choice([1, 1, 3, 10, 100])
        spec['nframes'] = rng.choice([4, 6, 9, 15, 23])
        if kind in ('alpha2',) and spec['motion'] == 'hop':
            spec['motion'] = 'strong'
        tg = tc.random_tgrid(rng, spec['nframes'])
        if rng.random() < 0.25:
            tg = ['frames', sorted(rng.sample(range(spec['nframes']), min(4, spec['nframes'])))]
        if kind == 's4' and tg is None:
            tg = ['frac', [0.0, 0.3, 0.6]]
        out.append(dict(kind=kind, spec=spec, how=rng.choice(['ram', 'xyz', 'path']), tgrid=tg,
                        norigins=rng.choice([-1, '-1', None, '1', 1, 3, 0.5]),
                        normalize=rng.choice([True, True, False])))
    return out


def run(case, obs):
    pp = boot.load()
    m0 = gen.build(case['spec'])
    th, m = tc.trajectory(case, m0, obs.tmp)
    block = tc.block_of(m, th)
    kind, norigins = case['kind'], case['norigins']
    grid = tc.tgrid(case, m)
    kw = {} if norigins is None else {'norigins': norigins}
    normalized = False
    L = float(min(m.side[0]))
    kgrid = [2 * numpy.pi / L * 1.1]
    asked = list(grid) if grid is not None else None
    if kind == 'msd':
        cf = pp.MeanSquareDisplacement(th, tgrid=grid, **kw)
    elif kind == 'vacf':
        cf = pp.VelocityAutocorrelation(th, tgrid=grid, **kw)
    elif kind == 'alpha2':
        cf = pp.NonGaussianParameter(th, tgrid=grid, **kw)
    elif kind == 'qst':
        cf = pp.SelfOverlap(th, tgrid=grid, **kw)
    elif kind == 'qt':
        cf = pp.CollectiveOverlap(th, tgrid=grid, **kw)
    elif kind == 'chi4':
        cf = pp.Chi4SelfOverlap(th, tgrid=grid, **kw)
    elif kind == 'chi4opt':
        cf = pp.Chi4SelfOverlapOptimized(th, tgrid=grid, **kw)
    elif kind in ('fskt', 'fsktlegacy', 'fkt'):
        cls = {'fskt': pp.SelfIntermediateScatteringFast, 'fsktlegacy': pp.SelfIntermediateScatteringLegacy,
               'fkt': pp.IntermediateScattering}[kind]
        normalized = case['normalize']
        cf = cls(th, kgrid=kgrid, tgrid=grid, nk=2, dk=0.3 * kgrid[0], normalize=case['normalize'], **kw)
    elif kind == 's4':
        cf = pp.S4ktOverlap(th, tgrid=grid, kgrid=kgrid, nk=2, dk=0.3 * kgrid[0], **kw)
    cf.compute()
    if kind in ('fskt', 'fsktlegacy', 'fkt'):
        times, values = cf.grid[1], cf.value[0]
        obs.check(len(cf.value) == len(cf.grid[0]), kind + '/length', 'one row per wave-vector')
    elif kind == 's4':
        times, values = cf.grid[0], cf.value
    else:
        times, values = cf.grid, cf.value
    obs.count('kind:' + kind)
    obs.count('sampling:' + case['spec']['sampling'])
    obs.check(len(times) == len(values), kind + '/length', lambda: '%d times, %d values' % (len(times), len(values)))
    offset = norigins != '1'
    if norigins == 1:
        offset = None
    dts = tc.check_grid(obs, kind, m, times, block, offset, kind)
    if dts is None:
        return
    obs.count('times', len(dts))
    if asked is not None:
        obs.same(list(grid), asked, kind + '/request-changed', 'requested grid')
        tc.check_requested(obs, kind, m, times, asked, block, offset, zero=normalized, msg=kind)
    if normalized:
        obs.check(dts[0] == 0, kind + '/normalization-zero', lambda: 'no t=0 to normalize with: %s' % dts)
    if dts[0] == 0:
        zero = {'msd': 0.0, 'alpha2': 0.0, 'qst': 1.0, 'chi4': 0.0, 'chi4opt': 0.0, 'fskt': 1.0, 'fsktlegacy': 1.0}.get(kind)
        if kind == 'fkt' and case['normalize']:
            zero = 1.0
        if zero is not None:
            obs.close(values[0], zero, kind + '/zero', rtol=1e-9, atol=1e-9, msg='value at t=0')
        if kind == 'vacf':
            skip = ref.skip_of(norigins, m.n, block, m.N)
            cand = [numpy.mean([ref.vacf(m.vel[i], m.vel[i]) for i in range(off, m.n, skip)]) for off in range(block)]
            obs.check(any(abs(c - values[0]) < 1e-8 * (1 + abs(c)) for c in cand), kind + '/zero', 'VACF at t=0')
