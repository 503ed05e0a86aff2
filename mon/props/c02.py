"""C02: overlap functions and their dynamic susceptibility"""
import numpy

from .. import boot, gen, ref, tc

RULE = ('one case = one generated trajectory x one of self overlap/collective overlap/chi4 (plain, optimized) x overlap '
        'distance x norigins x time grid; each reported time is compared with the count of overlapping particles or pairs '
        'over its origins, and with the moments of that count')
MINIMUM = 60
REQUIRED_COUNTS = {'times': 300, 'multi_origin_times': 100, 'nontrivial_overlaps': 100, 'no_cell': 10, 'partly_periodic': 5}
ASSUMPTIONS = ['collective overlap is checked on cells that do not change along the trajectory']

KINDS = ['qst', 'qt', 'chi4', 'chi4opt', 'chi4', 'chi4opt']
SMALL = ['default_args']


def cases(tier, seed):
    out = []
    n = 1600 if tier == 'quick' else 24000
    for i in range(n):
        rng = gen.rng_for('C02', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.dynamics_spec(rng)
        spec['amp'] = rng.choice([0.05, 0.1, 0.2, 0.3])
        if spec['motion'] == 'ballistic':
            spec['motion'] = 'brownian'
        if kind == 'qt':
            spec['structure'] = rng.choice(['random', 'cluster', 'wall'])
        spec['store_unf'] = rng.random() < 0.2
        if rng.random() < 0.08 and kind != 'chi4opt':
            spec['ndim'], spec['shape'] = rng.choice([1, 4]), 'cubic'
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached', 'path'])
        if spec['ndim'] in (1, 4):
            how = 'ram'
        if how in ('xyz', 'xyzcached', 'path'):
            spec['store_unf'] = False
        if how.startswith('ram') and rng.random() < 0.12:
            # no cell, hence unfolded positions
            spec.update(has_cell=False, inside=False, store_unf=True)
        elif how.startswith('ram') and kind == 'qt' and rng.random() < 0.3:
            spec['periodic'] = [rng.random() < 0.5 for _ in range(spec['ndim'])]
        out.append(dict(kind=kind, spec=spec, how=how, norigins=rng.choice([-1, '-1', None] + tc.NORIGINS),
                        tgrid=tc.random_tgrid(rng, spec['nframes']), a=rng.choice([0.1, 0.3, 0.3, 0.5, 1.1])))
    gen.enlarge(out, 'C02', seed, 40 if tier == 'quick' else 480, ok=lambda c: c['kind'] not in SMALL)
    return out


def check_moments(obs, kind, m, cf, count, norigins, block):
    skip = ref.skip_of(norigins, m.n, block, m.N)
    dts = tc.check_grid(obs, kind, m, cf.grid, block, norigins != '1', kind)
    obs.check(len(cf.grid) == len(cf.value), kind + '/length', 'lengths of grid and value differ')
    obs.close(cf.average.grid, cf.grid, kind + '/moments-grid', msg='grid of the average')
    obs.close(cf.variance.grid, cf.grid, kind + '/moments-grid', msg='grid of the second moment')
    if dts is None:
        return
    memo = {}

    def g(i, j):
        if (i, j) not in memo:
            memo[(i, j)] = count(i, j)
        return memo[(i, j)]
    seps = ref.separations(m.steps, block, norigins != '1')
    for k, dt in enumerate(dts):
        cand = []
        for off, i in seps[dt]:
            w = [g(i0, i0 + i) for i0 in range(off, m.n - i, skip) if m.steps[i0 + i] - m.steps[i0] == dt]
            if w:
                w = numpy.array(w)
                cand.append((float((w**2).mean() - w.mean()**2) / m.N, float(w.mean()), float((w**2).mean()), len(w)))
        obs.count('times')
        if max(c[3] for c in cand) > 1:
            obs.count('multi_origin_times')
        if any(c[0] > 0 for c in cand):
            obs.count('nontrivial_overlaps')
        got = (float(cf.value[k]), float(cf.average.value[k]), float(cf.variance.value[k]))
        obs.values += 3
        ok = any(all(abs(x - y) <= 1e-9 + 1e-9 * abs(y) for x, y in zip(got, c)) for c in cand)
        obs.check(ok, kind + '/value', lambda: '%s: at dt=%d got (chi4, <Q>, <Q^2>)=%r, expected one of %r (chi4, <Q>, <Q^2>, origins), skip=%d block=%d'
                  % (kind, dt, got, cand[:6], skip, block))


def run(case, obs):
    pp = boot.load()
    m0 = gen.build(case['spec'])
    th, m = tc.trajectory(case, m0, obs.tmp)
    block = tc.block_of(m, th)
    kind, a, norigins = case['kind'], case['a'], case['norigins']
    obs.count('no_cell', int(not m.has_cell))
    grid = tc.tgrid(case, m)
    kw = {} if norigins is None and kind != 'qst' else {'norigins': norigins}
    if not kw:
        norigins = -1  # the documented default
    count = lambda i, j: ref.count_self_overlap(m.unf[i], m.unf[j], a)
    if kind == 'qst':
        cf = pp.SelfOverlap(th, tgrid=grid, a=a, **kw)
        cf.compute()

        def f(i, j):
            q = count(i, j) / m.N
            obs.count('nontrivial_overlaps', int(0 < q < 1))
            return q
        tc.check_values(obs, kind, m, cf.grid, cf.value, f, norigins, block, msg=kind)
        if float(cf.grid[0]) == 0.0:
            obs.close(cf.value[0], 1.0, kind + '/zero', msg='Q_s(0)')
    elif kind == 'qt':
        cf = pp.CollectiveOverlap(th, tgrid=grid, a=a, **kw)
        cf.compute()
        side = m.side[0] if m.has_cell else None
        if side is not None and m.periodic is not None:
            side = numpy.where(m.periodic, side, 1e100)
            obs.count('partly_periodic')
        f = lambda i, j: ref.count_collective_overlap(m.pos[i], m.pos[j], side, a) / m.N
        tc.check_values(obs, kind, m, cf.grid, cf.value, f, norigins, block, msg=kind)
    else:
        cls = pp.Chi4SelfOverlap if kind == 'chi4' else pp.Chi4SelfOverlapOptimized
        cf = cls(th, tgrid=grid, a=a, **kw)
        cf.compute()
        check_moments(obs, kind, m, cf, count, norigins, block)
        other = (pp.Chi4SelfOverlapOptimized if kind == 'chi4' else pp.Chi4SelfOverlap)(th, tgrid=grid, a=a, **kw)
        other.compute()
        obs.close(other.grid, cf.grid, 'chi4/implementations', msg='grids of the plain and optimized chi4')
        obs.close(other.value, cf.value, 'chi4/implementations', msg='plain and optimized chi4')
        obs.close(other.average.value, cf.average.value, 'chi4/implementations', msg='average, plain and optimized chi4')
        obs.close(other.variance.value, cf.variance.value, 'chi4/implementations', msg='variance, plain and optimized chi4')
