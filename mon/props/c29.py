"""C29: the stress autocorrelation is the origin average of the products of the off-diagonal stress"""
import numpy

from .. import boot, gen, ref, tc
from ..harness import Skip

RULE = ('one case = one generated trajectory in memory (2d/3d, even/block/irregular sampling, masses, slices, live views) whose frames carry a random stress '
        'tensor, symmetric or not, x norigins x time grid: each reported value is compared with the direct average over its origins of the products '
        'of the off-diagonal components (interaction plus kinetic part), and each reported time with the requested ones; computing again gives the same')
MINIMUM = 60
REQUIRED_COUNTS = {'times': 300, 'multi_origin_times': 100}
ASSUMPTIONS = ['the cell, the particles and their masses do not change along the trajectory', 'the components above the diagonal of the tensor are those in use']


def cases(tier, seed):
    out = []
    n = 1200 if tier == 'quick' else 16000
    for i in range(n):
        rng = gen.rng_for('C29', seed, i)
        spec = gen.dynamics_spec(rng)
        spec['masses'] = rng.random() < 0.7
        sl = None
        if rng.random() < 0.25:
            a = rng.choice([0, 1, 2]) if spec['sampling'] == 'even' else 0
            sl = [a, rng.choice([None, spec['nframes'] - 1]), rng.choice([1, 2]) if spec['sampling'] == 'even' else 1]
        g = tc.random_tgrid(rng, spec['nframes'])
        if g is None:
            g = ['frames', list(range(0, spec['nframes'], 2))]
        if spec['nframes'] < 4:
            sl = None
        out.append(dict(kind='sacf', spec=spec, slice=sl, view=rng.random() < 0.3, norigins=rng.choice(tc.NORIGINS), tgrid=g,
                        scale=rng.choice([0.0, 1.0, 1.0, 50.0]), symmetric=rng.random() < 0.7, again=rng.random() < 0.2))
    return out


def run(case, obs):
    boot.load()
    try:
        from atooms.postprocessing.sacf import StressAutocorrelation
        from atooms.system.interaction import Interaction
        from atooms.trajectory.ram import TrajectoryRam, TrajectoryRamView
        from atooms.trajectory import Sliced
    except ImportError as e:
        raise Skip(str(e))
    m = gen.build(case['spec'])
    rng = numpy.random.RandomState(case['spec']['seed'])
    stress = []
    base = rng.normal(size=(m.ndim, m.ndim)) * case['scale']
    for i in range(m.n):
        s = base + rng.normal(size=(m.ndim, m.ndim)) * case['scale']
        stress.append(s + s.T if case['symmetric'] else s)
    th = (TrajectoryRamView if case['view'] else TrajectoryRam)()
    for i, step in enumerate(m.steps):
        s = gen.system_of(m, i)
        s.interaction = Interaction()
        s.interaction.stress = stress[i].copy()
        th.write(s, step)
    th.timestep = m.timestep
    sl = tc.slice_of(case)
    if sl is not None:
        th, m, stress = Sliced(th, sl), m.slice(sl), stress[sl]
    block = tc.block_of(m, th)
    grid = tc.tgrid(case, m)
    norigins = case['norigins']
    cf = StressAutocorrelation(th, list(grid), norigins=norigins)
    cf.compute()
    d = m.ndim
    comp = []
    for i in range(m.n):
        comp.append(numpy.array([stress[i][a, b] + numpy.sum(m.mass[0] * m.vel[i][:, a] * m.vel[i][:, b]) for a in range(d) for b in range(a + 1, d)]))
    V = float(numpy.prod(m.side[0]))
    big = max(float(numpy.max(numpy.abs(c))) for c in comp)
    f = lambda i, j: float(numpy.mean(comp[i] * comp[j])) / V
    tc.check_values(obs, 'sacf', m, cf.grid, cf.value, f, norigins, block, msg='stress autocorrelation', atol=1e-11 * big**2 / V + 1e-14)
    tc.check_requested(obs, 'sacf/grid', m, cf.grid, grid, block, tc.offset_of(norigins) if norigins != 1 or isinstance(norigins, str) else None,
                       msg='stress autocorrelation')
    obs.count('sampling:' + case['spec']['sampling'])
    obs.count('dimension:%d' % d)
    if case['again']:
        g, v = list(cf.grid), list(cf.value)
        cf.compute()
        obs.close(cf.grid, g, 'sacf/again', msg='times, computed again')
        obs.close(cf.value, v, 'sacf/again', msg='values, computed again')
    for i in range(len(th)):
        obs.check(numpy.array_equal(th[i].interaction.stress, stress[i]), 'sacf/input', 'the stress of frame %d has changed' % i)
