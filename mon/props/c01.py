"""C01: displacement and velocity correlations are exact time-origin averages"""
import numpy

from .. import boot, gen, ref, tc
from ..harness import Skip

RULE = ('one case = one generated trajectory (dimension, composition, even/block/irregular sampling, container, slice) x one of '
        'MSD/VACF/alpha2 x norigins x time grid; each reported time is compared with the direct average over its origins')
MINIMUM = 60
REQUIRED_COUNTS = {'times': 300, 'multi_origin_times': 100, 'spaced_origins': 4}
ASSUMPTIONS = ['alpha2 is not evaluated where all particles stand still (0/0)',
               'any frame of the first sampling block may serve to reach a given separation']

KINDS = ['msd', 'vacf', 'alpha2', 'msd_rmax', 'msd_nooffset']


def cases(tier, seed):
    out = []
    n = 800 if tier == 'quick' else 40000
    for i in range(n):
        rng = gen.rng_for('C01', seed, i)
        kind = KINDS[i % 3] if i % 8 else rng.choice(KINDS)
        spec = gen.dynamics_spec(rng)
        if kind == 'alpha2' and spec['motion'] == 'hop':
            spec['motion'] = 'strong'
        spec['store_unf'] = rng.random() < 0.25
        if rng.random() < 0.06:
            spec['N'], spec['nframes'] = rng.choice([(90, 12), (8, 60), (40, 30)])
        spec['masses'] = rng.random() < 0.3
        if rng.random() < 0.1:
            spec['ndim'] = rng.choice([1, 4])
            spec['shape'] = 'cubic'
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached', 'path'])
        if spec['ndim'] in (1, 4):
            how = 'ram'
        if how in ('xyz', 'xyzcached', 'path'):
            spec['store_unf'] = False
        if how.startswith('ram') and rng.random() < 0.08:
            # no cell, hence unfolded positions
            spec.update(has_cell=False, inside=False, store_unf=True)
        sl = None
        if rng.random() < 0.25 and how != 'path':
            a = rng.choice([0, 1, 2])
            b = rng.choice([None, spec['nframes'] - 1])
            if spec['sampling'] != 'even':
                a = 0  # keep the sampling pattern from the start of a block
            st = 2 if spec['sampling'] == 'even' and (kind == 'vacf' or spec['store_unf']) and rng.random() < 0.5 else 1
            sl = [a, b, st]
        if spec['nframes'] < 4:
            sl = None
        out.append(dict(kind=kind, spec=spec, how=how, slice=sl, norigins=rng.choice(tc.NORIGINS),
                        tgrid=tc.random_tgrid(rng, spec['nframes']), rmax=rng.choice([0.2, 1.0, 5.0])))
    for i in range(2 if tier == 'quick' else 40):
        # large enough for the time origins to be spaced by default
        rng = gen.rng_for('C01', seed, 'large', i)
        nframes, N = rng.choice([(170, 500), (90, 1000), (260, 480), (410, 210)])
        spec = gen.dynamics_spec(rng, ndim=3, N=N, nframes=nframes, L=8.0, sampling='even', species={'A': 1}, motion='brownian')
        out.append(dict(kind=rng.choice(['msd', 'vacf']), spec=spec, how='ram', slice=None, norigins=None,
                        tgrid=['frames', [0, 1, rng.randrange(2, nframes), rng.randrange(nframes // 2, nframes)]], rmax=1.0))
    return out


def run(case, obs):
    pp = boot.load()
    m0 = gen.build(case['spec'])
    th, m = tc.trajectory(case, m0, obs.tmp)
    block = tc.block_of(m, th)
    kind = case['kind']
    grid = tc.tgrid(case, m)
    norigins = case['norigins']
    no_offset = False
    if kind == 'vacf':
        cf = pp.VelocityAutocorrelation(th, tgrid=grid, norigins=norigins)
        f = lambda i, j: ref.vacf(m.vel[i], m.vel[j])
    elif kind == 'alpha2':
        cf = pp.NonGaussianParameter(th, tgrid=grid, norigins=norigins)
        f = lambda i, j: ref.alpha2(m.unf[i], m.unf[j])
    else:
        kw = {}
        if kind == 'msd_rmax':
            grid = None
            kw['rmax'] = case['rmax']
        elif kind == 'msd_nooffset':
            no_offset = kw['no_offset'] = True
        cf = pp.MeanSquareDisplacement(th, tgrid=grid, norigins=norigins, **kw)
        f = lambda i, j: ref.msd(m.unf[i], m.unf[j])
    g, v = cf.compute()
    obs.count('kind:' + kind)
    obs.count('sampling:' + case['spec']['sampling'])
    obs.check(list(g) == list(cf.grid) and list(v) == list(cf.value), kind + '/returned', 'compute() does not return grid and value')
    tc.check_values(obs, kind, m, cf.grid, cf.value, f, norigins, block, no_offset=no_offset, msg=kind)
    if float(cf.grid[0]) == 0.0 and kind != 'vacf':
        obs.close(cf.value[0], 0.0, kind + '/zero', msg='value at t=0')
