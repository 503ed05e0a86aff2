"""
Workload generator: seeded trajectories, described by a JSON spec, realized as plain numpy data (the
`Model`, which the oracles use) and as the trajectory objects or files given to the code under observation.
"""
import copy
import math
import os
import random as _random

import numpy

SIDES = {
    'cubic': (1.0, 1.0, 1.0),
    'slab': (1.0, 1.0, 0.55),
    'long': (1.0, 0.62, 1.37),
    'tall': (0.8, 1.3, 1.0),
}


class Model(object):
    """Plain data of a trajectory"""

    def __init__(self):
        self.steps = []
        self.timestep = 1.0
        self.side = []      # per frame (ndim,)
        self.pos = []       # folded positions
        self.unf = []       # unfolded positions
        self.vel = []
        self.species = []   # per frame, list of str
        self.mass = []
        self.radius = []
        self.charge = []
        self.periodic = None  # None or list of bool
        self.has_cell = True
        self.store_unf = False

    @property
    def n(self):
        return len(self.steps)

    @property
    def ndim(self):
        return self.pos[0].shape[1]

    @property
    def N(self):
        return self.pos[0].shape[0]

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def select(self, mask):
        """Model with only the particles selected in each frame by mask(frame) -> index array"""
        m = Model()
        m.steps, m.timestep = list(self.steps), self.timestep
        m.periodic, m.has_cell, m.store_unf = self.periodic, self.has_cell, self.store_unf
        m.side = [x.copy() for x in self.side]
        for i in range(self.n):
            w = mask(i)
            for name in ('pos', 'unf', 'vel', 'mass', 'radius', 'charge'):
                getattr(m, name).append(getattr(self, name)[i][w].copy())
            m.species.append([self.species[i][j] for j in w])
        return m

    def slice(self, sl):
        m = self.copy()
        for name in ('steps', 'side', 'pos', 'unf', 'vel', 'species', 'mass', 'radius', 'charge'):
            setattr(m, name, getattr(self, name)[sl])
        return m

    def where(self, species):
        """Selection function for a species"""
        return lambda i: numpy.array([j for j, s in enumerate(self.species[i]) if s == species], dtype=int)

    def everything(self):
        return lambda i: numpy.arange(self.pos[i].shape[0])

    @property
    def total_time(self):
        return self.steps[-1] * self.timestep

    def fold(self):
        """Recompute folded positions from the unfolded ones"""
        self.pos = [u - numpy.rint(u / s) * s for u, s in zip(self.unf, self.side)]


def steps_of(spec):
    """Sequence of steps"""
    n = spec['nframes']
    kind = spec.get('sampling', 'even')
    mult = spec.get('stepmult', 1)
    if kind == 'even':
        s = [mult * i for i in range(n)]
    elif kind == 'blocks':
        # Logarithmic blocks
        base = spec.get('block', [0, 1, 2, 4, 8])
        period = spec.get('period', 16)
        nb = max(2, int(math.ceil(float(n) / len(base))))
        s = [mult * (b * period + x) for b in range(nb) for x in base]
        if spec.get('closing', True):
            s.append(mult * nb * period)
    elif kind == 'irregular':
        rng = _random.Random(spec.get('seed', 0) + 17)
        # The smallest increment is the first one, and does not show up again, or the trajectory library may
        # recognize blocks that are not there
        s = [0, mult]
        for _ in range(n - 2):
            s.append(s[-1] + mult * rng.randint(2, 9))
    else:
        raise ValueError(kind)
    return [mult * spec.get('first', 0) + x for x in s]


def sides_of(spec, steps):
    ndim = spec.get('ndim', 3)
    shape = spec.get('shape', 'cubic')
    L = spec.get('L', 6.0)
    side = L * numpy.array(SIDES[shape][:ndim]) if ndim <= 3 else L * numpy.ones(ndim)
    out = []
    rng = numpy.random.RandomState(spec.get('seed', 0) + 7001)
    for i in range(len(steps)):
        f = 1.0
        if spec.get('cellvar'):
            f = 1.0 + 0.12 * rng.uniform(-1, 1, size=ndim)
            if spec['cellvar'] == 'once':
                # only a frame in the middle differs
                f = f if i == len(steps) // 2 else 1.0
            elif spec['cellvar'] == 'iso':
                f = float(f[0])
            elif spec['cellvar'] == 'strong':
                # compression or expansion
                f = rng.uniform(0.35, 1.5) if i > 0 else 1.0
        out.append(side * f)
    return out


def build(spec):
    """Model from a spec"""
    rng = numpy.random.RandomState(spec.get('seed', 0))
    m = Model()
    m.timestep = spec.get('timestep', 1.0)
    m.steps = steps_of(spec)
    m.side = sides_of(spec, m.steps)
    m.periodic = spec.get('periodic')
    m.has_cell = spec.get('has_cell', True)
    m.store_unf = spec.get('store_unf', False)
    ndim = spec.get('ndim', 3)
    N = spec.get('N', 20)
    L0 = m.side[0]
    # Species
    comp = spec.get('species', {'A': 1.0})
    names = sorted(comp)
    tot = float(sum(comp.values()))
    # (atooms' System.dump() cannot handle a number of particles equal to the number of dimensions)
    spe = []
    for k in names:
        n = max(1, int(round(N * comp[k] / tot)))
        spe += [k] * (n + 1 if n == ndim else n)
    N = len(spe)
    if N == ndim:
        spe.append(names[0])
        N += 1
    if spec.get('shuffle', True):
        rng.shuffle(spe)
    spe = [str(s) for s in spe]
    if spec.get('intspecies'):
        spe = [int(s) for s in spe]
    # Initial positions
    struct = spec.get('structure', 'random')
    if struct == 'random':
        x = rng.uniform(-0.5, 0.5, size=(N, ndim)) * L0
    elif struct == 'separated':
        # random sequential addition
        x = []
        dmin = spec.get('dmin', 0.7)
        tries = 0
        while len(x) < N:
            r = rng.uniform(-0.5, 0.5, size=ndim) * L0
            ok = True
            for y in x:
                d = r - y
                d -= numpy.rint(d / L0) * L0
                if numpy.dot(d, d) < dmin**2:
                    ok = False
                    break
            tries += 1
            if ok or tries > 4000:
                x.append(r)
        x = numpy.array(x)
    elif struct == 'lattice':
        nc = int(math.ceil(N**(1.0 / ndim)))
        pts = numpy.array(numpy.meshgrid(*[numpy.arange(nc)] * ndim, indexing='ij')).reshape(ndim, -1).T
        x = ((pts[:N] + 0.25) / nc - 0.5) * L0 + spec.get('jitter', 0.0) * rng.uniform(-1, 1, size=(N, ndim))
    elif struct == 'cluster':
        # Dense clusters (large coordination numbers)
        nclu = spec.get('nclusters', 2)
        c = rng.uniform(-0.5, 0.5, size=(nclu, ndim)) * L0
        x = c[rng.randint(nclu, size=N)] + rng.normal(size=(N, ndim)) * spec.get('spread', 0.3)
    elif struct == 'wall':
        # Crowd the cell borders
        x = rng.uniform(-0.5, 0.5, size=(N, ndim)) * L0
        for i in range(N):
            j = rng.randint(ndim)
            x[i, j] = (0.5 - 1e-9 * rng.rand()) * L0[j] * (1 if rng.rand() < 0.5 else -1)
    else:
        raise ValueError(struct)
    # Motion in unfolded space
    motion = spec.get('motion', 'brownian')
    amp = spec.get('amp', 0.15)
    v0 = rng.normal(size=(N, ndim)) * spec.get('vscale', 1.0)
    drift = numpy.array(spec.get('drift', [0.0] * ndim), dtype=float)[:ndim]
    mass = 1.0 + 2.0 * rng.rand(N) if spec.get('masses') else numpy.ones(N)
    radius = spec.get('rscale', 1.0) * (0.3 + 0.4 * rng.rand(N))
    charge = rng.choice([-1.0, 1.0, 0.5], size=N)
    cap = 0.4 * float(numpy.min(m.side))
    unf = x.copy()
    vel = v0.copy()
    vary = spec.get('varN')
    for i, step in enumerate(m.steps):
        if i > 0:
            ds = float(m.steps[i] - m.steps[i-1])
            scale = min(1.0, math.sqrt(ds / max(1, spec.get('stepmult', 1)))) if motion != 'strong' else 1.0
            if motion in ('brownian', 'strong'):
                d = rng.normal(size=(N, ndim)) * amp * scale
            elif motion == 'ballistic':
                d = vel * amp
            elif motion == 'still':
                d = numpy.zeros((N, ndim))
            elif motion == 'hop':
                d = (rng.rand(N, 1) < 0.15) * rng.normal(size=(N, ndim)) * amp * 5
            else:
                raise ValueError(motion)
            d = d + drift
            norm = numpy.abs(d).max()
            if norm > cap:
                d *= cap / norm
            # The motion is in the coordinates of the (possibly changing) cell
            unf = unf + d
            if motion != 'still':
                vel = 0.7 * vel + 0.5 * rng.normal(size=(N, ndim))
        w = numpy.arange(N)
        if vary:
            # grandcanonical: a varying subset is present in each frame
            while True:
                w = numpy.sort(rng.permutation(N)[:max(ndim + 2, int(N * rng.uniform(0.6, 1.0)))])
                have = [spe[j] for j in w]
                if len(w) != ndim and all(have.count(k) not in (0, ndim) for k in set(spe)):
                    break
        u = unf[w].copy()
        m.unf.append(u)
        m.vel.append(vel[w].copy())
        s = list(spe)
        if spec.get('swaps') and i > 0:
            # species can change along the trajectory
            for _ in range(spec['swaps']):
                a, b = rng.randint(N), rng.randint(N)
                spe[a], spe[b] = spe[b], spe[a]
            s = list(spe)
        m.species.append([s[j] for j in w])
        m.mass.append(mass[w].copy())
        rad = radius * (1.0 + 0.2 * rng.rand(N)) if spec.get('radvar') else radius
        m.radius.append(rad[w].copy())
        m.charge.append((charge * (1.0 + 0.3 * rng.rand(N)))[w].copy() if spec.get('chargevar') else charge[w].copy())
    m.fold()
    if spec.get('has_cell', True) is False or (m.periodic is not None and not any(m.periodic)):
        # No periodicity: keep the actual positions
        if spec.get('inside', True):
            m.unf = [p.copy() for p in m.pos]
        else:
            m.pos = [u.copy() for u in m.unf]
    if spec.get('corner'):
        m.pos = [p + s / 2 for p, s in zip(m.pos, m.side)]
        m.unf = [p + s / 2 for p, s in zip(m.unf, m.side)]
    if spec.get('species_by') == 'x':
        pass
    return m


# --- Realizations

def system_of(m, i):
    from atooms.system import System, Particle, Cell
    particles = []
    for j in range(m.pos[i].shape[0]):
        p = Particle(position=m.pos[i][j].copy(), velocity=m.vel[i][j].copy(), species=m.species[i][j],
                     mass=float(m.mass[i][j]), radius=float(m.radius[i][j]))
        p.charge = float(m.charge[i][j])
        if m.store_unf:
            p.position_unfolded = m.unf[i][j].copy()
        particles.append(p)
    cell = None
    if m.has_cell:
        cell = Cell(m.side[i].copy())
        if m.periodic is not None:
            cell.periodic = numpy.array(m.periodic, dtype=bool)
    return System(particle=particles, cell=cell)


def to_ram(m, filename=None, view=False):
    from atooms.trajectory.ram import TrajectoryRam, TrajectoryRamView
    th = (TrajectoryRamView if view else TrajectoryRam)(filename=filename)
    for i, step in enumerate(m.steps):
        th.write(system_of(m, i), step)
    th.timestep = m.timestep
    return th


def to_xyz(m, path, columns=('name', 'pos'), fmt='%.17g'):
    """Write an xyz file with our own writer, at full precision"""
    ndim = m.ndim
    with open(path, 'w') as fh:
        for i, step in enumerate(m.steps):
            n = m.pos[i].shape[0]
            fh.write('%d\n' % n)
            fh.write('step:%d columns:%s dt:%.17g cell:%s\n' % (
                step, ','.join(columns), m.timestep, ','.join('%.17g' % x for x in m.side[i])))
            for j in range(n):
                row = []
                for c in columns:
                    if c == 'name':
                        row.append(str(m.species[i][j]))
                    elif c == 'pos':
                        row += [fmt % x for x in m.pos[i][j]]
                    elif c == 'vel':
                        row += [fmt % x for x in m.vel[i][j]]
                    elif c == 'radius':
                        row.append(fmt % m.radius[i][j])
                    elif c == 'mass':
                        row.append(fmt % m.mass[i][j])
                    elif c == 'charge':
                        row.append(fmt % m.charge[i][j])
                fh.write(' '.join(row) + '\n')
    return path


def container(m, how, tmp, name='traj.xyz'):
    """Trajectory object of the given kind for a model"""
    if how == 'ram':
        return to_ram(m)
    if how == 'ramfile':
        return to_ram(m, filename=os.path.join(tmp, name))
    if how == 'ramview':
        return to_ram(m, view=True)
    if how in ('xyz', 'xyzcached', 'xyzvel'):
        from atooms.trajectory import Trajectory
        cols = ['name', 'pos', 'vel', 'mass', 'radius', 'charge']
        path = to_xyz(m, os.path.join(tmp, name), cols)
        th = Trajectory(path, fmt='xyz')
        if how == 'xyzcached':
            th.cache = True
        return th
    raise ValueError(how)


# --- Spec samplers

def pick(rng, d):
    """Draw each entry of a dict of lists"""
    return {k: rng.choice(v) for k, v in sorted(d.items())}


def rng_for(*args):
    return _random.Random('/'.join(str(a) for a in args))


SPECIES = [{'A': 1}, {'A': 1}, {'A': 3, 'B': 2}, {'A': 3, 'B': 2}, {'A': 2, 'B': 1, 'C': 1}, {'A': 2, 'B': 1, 'C': 1}, {'Si': 2, 'S': 3}, {'A': 1, 'AB': 2, 'B': 2}, {'b': 2, 'B': 1, 'A10': 1, 'A1': 2}]


def dynamics_spec(rng, **over):
    """Spec of a small trajectory for time-dependent correlations"""
    spec = dict(seed=rng.randrange(10**6), ndim=rng.choice([2, 3, 3]), N=rng.choice([7, 12, 18, 25]),
                nframes=rng.choice([6, 9, 12, 15]), sampling=rng.choice(['even', 'even', 'blocks', 'irregular']),
                stepmult=rng.choice([1, 1, 3, 10]), timestep=rng.choice([1.0, 0.002, 0.5]),
                shape=rng.choice(['cubic', 'cubic', 'long', 'slab']), L=rng.choice([4.0, 6.0, 9.5]),
                motion=rng.choice(['brownian', 'strong', 'ballistic', 'hop']), amp=rng.choice([0.05, 0.2, 0.5]),
                species=rng.choice(SPECIES),
                corner=rng.choice([False, False, True]))
    if spec['sampling'] == 'blocks':
        spec['block'], spec['period'] = rng.choice([([0, 1, 2, 4, 8], 16), ([0, 1, 3, 7], 10), ([0, 2, 6], 14), ([0, 1], 5)])
        spec['closing'] = rng.choice([True, False])
    # a run that continues another one
    spec['first'] = rng.choice([0, 0, 0, 7, 32, 1000])
    if spec['sampling'] == 'even' and rng.random() < 0.08:
        spec['nframes'] = rng.choice([1, 2, 2, 3, 3])
    spec.update(over)
    return spec


def statics_spec(rng, **over):
    """Spec of a small trajectory for static correlations"""
    spec = dict(seed=rng.randrange(10**6), ndim=rng.choice([2, 3, 3]), N=rng.choice([9, 16, 30, 45]),
                nframes=rng.choice([1, 2, 4]), shape=rng.choice(['cubic', 'cubic', 'long', 'slab', 'tall']),
                L=rng.choice([3.0, 5.0, 8.0]), motion='strong', amp=0.3,
                structure=rng.choice(['random', 'random', 'separated', 'lattice', 'cluster', 'wall']),
                jitter=rng.choice([0.0, 0.05]),
                species=rng.choice(SPECIES),
                corner=rng.choice([False, False, True]), first=rng.choice([0, 0, 5, 100]))
    spec.update(over)
    return spec


def enlarge(out, tag, seed, n, frames=(26, 50, 100), particles=(100, 200, 420), ok=None, sliced=False):
    """Append copies of some of the cases, with many more frames or particles"""
    rng = rng_for(tag + 'large', seed, 0)
    pool = [c for c in out if 'spec' in c and c['spec'].get('sampling', 'even') in ('even', 'irregular', 'blocks') and c['spec'].get('structure', 'random') in ('random', 'cluster', 'wall') and
            (sliced or not c.get('slice')) and not c['spec'].get('single') and c['spec'].get('ndim', 3) in (2, 3) and (ok is None or ok(c))]
    for i in range(n):
        c = copy.deepcopy(rng.choice(pool))
        if i % 2 == 0:
            c['spec']['nframes'] = rng.choice(frames)
            c['spec']['N'] = min(c['spec']['N'], 12)
        else:
            c['spec']['N'] = rng.choice(particles)
            c['spec']['nframes'] = min(c['spec']['nframes'], 4)
        c['large'] = True
        out.append(c)
