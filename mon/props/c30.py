"""C30: results depend on the frames only, not on how the trajectory is stored and accessed"""
import copy
import os
import random

import numpy

from .. import boot, classes, gen
from ..harness import Skip
from .c18 import same, state

RULE = ('one case = one generated trajectory x one correlation class x one way of storing or accessing it: the path of a file, several file formats, cached and '
        'uncached files, frames in memory (stored or rebuilt at each access), slices, callbacks that select, relabel, move or resize the particles, other dimensions '
        'of arrays and particle attributes, an object used for several correlations in a row, or read by somebody else in the meanwhile: grids, values and wave-vectors '
        'are compared with those from plain frames in memory holding the same data (to rounding; wave-vectors exactly)')
MINIMUM = 150
REQUIRED_COUNTS = {'compared': 500}
ASSUMPTIONS = ['the readers of atooms yield what is in the files']
KINDS = ['path', 'format', 'format', 'slice', 'callback', 'callback', 'access', 'layout', 'reused', 'partial']
FORMATS = ['xyz', 'exyz', 'rumd', 'simplexyz', 'pdb', 'lammps']


def cases(tier, seed):
    out = []
    n = 2400 if tier == 'quick' else 12000
    for i in range(n):
        rng = gen.rng_for('C30', seed, i)
        name = classes.ALL[i % len(classes.ALL)]
        kind = KINDS[(i // len(classes.ALL)) % len(KINDS)]
        spec = classes.spec_for(rng, name)
        if kind == 'slice' and name in classes.STATIC:
            spec['nframes'] = rng.choice([3, 5, 8])
        elif kind == 'slice':
            spec.update(sampling=rng.choice(['even', 'even', 'irregular']), nframes=rng.choice([9, 12, 15]))
        if name in classes.STATIC and name != 'BondAngleDistribution' and rng.random() < 0.3:
            spec.update(cellvar='iso', nframes=max(3, spec['nframes']))
        if kind == 'partial':
            spec['species'] = rng.choice(gen.SPECIES[2:])
            if name in classes.NOPARTIAL:
                kind = 'access'
        fmt = rng.choice(FORMATS)
        if kind == 'format' and fmt in ('pdb', 'lammps', 'rumd', 'exyz'):
            spec.update(ndim=3)
        if kind == 'format':
            spec['corner'] = False
        out.append(dict(kind=kind, cls=name, spec=spec, fmt=fmt, args=classes.args_for(rng, name, spec), sel=rng.randrange(10**6),
                        how=rng.choice(['xyz', 'xyzcached', 'ramview', 'ramfile']), via=rng.choice(['path', 'object', 'cached']),
                        slice=[rng.choice([None, 0, 1, 2]), rng.choice([None, -1, -2]), rng.choice([None, 1, 2, 3])], on=rng.choice(['ram', 'xyz', 'xyzcached', 'ramview']),
                        callback=rng.choice(['select', 'species', 'scale', 'scale', 'radius', 'mass']), layout=rng.choice(['strided', 'fortran', 'rows', 'extra', 'velocity', 'readonly']),
                        others=[rng.choice(classes.ALL) for _ in range(2)], tagged=rng.random() < 0.5))
    return out


def to_lammps(m, path):
    names = sorted(set(m.species[0]))
    with open(path, 'w') as fh:
        for i, step in enumerate(m.steps):
            fh.write('ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\nITEM: BOX BOUNDS pp pp pp\n' % (step, len(m.pos[i])))
            for x in m.side[i]:
                fh.write('%.17g %.17g\n' % (-x / 2, x / 2))
            fh.write('ITEM: ATOMS id type x y z vx vy vz\n')
            for j in range(len(m.pos[i])):
                fh.write('%d %d %s %s\n' % (j + 1, 1 + names.index(m.species[i][j]), ' '.join('%.17g' % x for x in m.pos[i][j]), ' '.join('%.17g' % x for x in m.vel[i][j])))


def frames_of(th):
    """The same frames, in memory"""
    from atooms.trajectory.ram import TrajectoryRam
    out = TrajectoryRam()
    for i, step in enumerate(th.steps):
        out.write(copy.deepcopy(th[i]), step)
    out.timestep = th.timestep
    out.block_size = th.block_size
    return out


def select(system):
    s = copy.copy(system)
    s.particle = [p for p in system.particle if p.radius < 0.5]
    return s


def callbacks(what, m):
    """A callback, and the model it leads to (callbacks do not touch the frames and can be applied twice)"""
    out = m.copy()
    if what == 'select':
        out = m.select(lambda i: numpy.where(m.radius[i] < 0.5)[0])
        return select, out

    def f(system):
        s = copy.deepcopy(system)
        if getattr(s, 'marked', None) == what:
            return s
        s.marked = what
        for i, p in enumerate(s.particle):
            if what == 'species':
                p.species = 'A' if i % 2 == 0 else 'X'
            elif what == 'radius':
                p.radius = 0.25 + 0.5 * (i % 3)
            elif what == 'mass':
                p.mass = 1.0 + (i % 3)
            elif what == 'scale':
                p.position = p.position * 1.25
                p.velocity = p.velocity * 1.25
        if what == 'scale':
            s.cell.side = s.cell.side * 1.25
        return s

    for k in range(len(m.steps)):
        n = len(m.pos[k])
        if what == 'species':
            out.species[k] = ['A' if i % 2 == 0 else 'X' for i in range(n)]
        elif what == 'radius':
            out.radius[k] = numpy.array([0.25 + 0.5 * (i % 3) for i in range(n)])
        elif what == 'mass':
            out.mass[k] = numpy.array([1.0 + (i % 3) for i in range(n)])
        elif what == 'scale':
            out.pos[k] = m.pos[k] * 1.25
            out.vel[k] = m.vel[k] * 1.25
            out.side[k] = m.side[k] * 1.25
    return f, out


def run(case, obs):
    pp = boot.load()
    import atooms.postprocessing.core as core
    from atooms.trajectory import Trajectory
    from atooms.trajectory.decorators import Sliced
    from atooms.postprocessing.partial import Partial
    name, kind, a = case['cls'], case['kind'], case['args']
    m = gen.build(case['spec'])
    if kind == 'slice':
        # The time grid refers to the slice
        sl = slice(*case['slice'])
        if case['spec'].get('sampling', 'even') != 'even':
            sl = slice(None, sl.stop, None)
        ms = m.slice(sl)
        if len(ms.steps) < (4 if name in classes.TIME else 1):
            raise Skip('short')
    msg = '%s, %s' % (name, kind)

    def compute(th, model=None, kw=None):
        mod = m if model is None else model
        sub = os.path.join(obs.tmp, 'sub%d' % len(os.listdir(obs.tmp)))
        os.makedirs(sub)
        cf = classes.create(pp, name, th, mod, a, sub, kw=copy.deepcopy(kw))
        cf.compute()
        return cf

    def plain_frames(model):
        th = gen.to_ram(model)
        return th

    if kind == 'path':
        cols = ['name', 'pos', 'vel', 'radius', 'charge']
        path = gen.to_xyz(m, os.path.join(obs.tmp, 'traj.xyz'), cols)
        th = frames_of(Trajectory(path))
        ref = state(compute(th))
        was = core.pp_trajectory_format
        try:
            for fmt in (None, 'xyz'):
                core.pp_trajectory_format = fmt
                same(obs, kind, ref, state(compute(path)), msg + ' (format %s)' % fmt)
                same(obs, kind, ref, state(compute(os.path.relpath(path))), msg + ' (relative, format %s)' % fmt)
        finally:
            core.pp_trajectory_format = was
        obs.count('paths')
    elif kind == 'format':
        fmt = case['fmt']
        path = os.path.join(obs.tmp, 'traj.%s' % {'pdb': 'pdb', 'lammps': 'atom'}.get(fmt, 'xyz'))
        cls = Trajectory.formats[fmt]
        if fmt == 'lammps':
            to_lammps(m, path)
        else:
            t = cls(path, 'w')
            for i, step in enumerate(m.steps):
                t.write(gen.system_of(m, i), step)
            t.close()
        with cls(path) as t:
            th = frames_of(t)
        model = m
        if th.steps != m.steps or th.timestep != m.timestep:
            model = m.copy()
            model.steps = list(th.steps)
            model.timestep = th.timestep
        if len(set(p.species for p in th[0].particle)) != len(set(m.species[0])):
            raise Skip('species')
        try:
            kw = classes.kwargs(a, name, model)
            ref = state(compute(th, model, kw))
        except Exception as e:
            raise Skip('cannot be computed from these frames: %r' % (e,))
        was = core.pp_trajectory_format
        try:
            core.pp_trajectory_format = fmt
            if case['via'] == 'path':
                other = path
            else:
                other = cls(path)
                other.cache = case['via'] == 'cached'
            same(obs, kind + '/' + fmt, ref, state(compute(other, model, kw)), msg + ' (%s, %s)' % (fmt, case['via']))
        finally:
            core.pp_trajectory_format = was
        obs.count('format:' + fmt)
    elif kind == 'slice':
        th = plain_frames(ms)
        base = gen.container(m, case['on'], obs.tmp)
        sliced = Sliced(base, sl)
        th.block_size = sliced.block_size
        kw = classes.kwargs(a, name, ms)
        ref = state(compute(th, ms, kw))
        same(obs, kind, ref, state(compute(sliced, ms, kw)), msg + ' %s of %s' % (sl, case['on']))
        # Its own frames are not affected
        base2 = gen.container(m, case['on'], obs.tmp, name='again.xyz')
        kw = classes.kwargs(a, name, m)
        same(obs, kind + '/whole', state(compute(base2, m, kw)), state(compute(base, m, kw)), msg + ': the whole trajectory afterwards')
        obs.count('slices')
    elif kind == 'callback':
        f, model = callbacks(case['callback'], m)
        if min(len(p) for p in model.pos) < 2 or any(len(p) == m.ndim for p in model.pos):
            raise Skip('too few particles')
        th = plain_frames(model)
        other = gen.container(m, case['on'], obs.tmp)
        th.block_size = other.block_size
        other.add_callback(f)
        kw = classes.kwargs(a, name, model)
        ref = state(compute(th, model, kw))
        cf = compute(other, model, kw)
        same(obs, kind + '/' + case['callback'], ref, state(cf), msg + ' (%s of %s)' % (case['callback'], case['on']))
        cf.compute()
        same(obs, kind + '/' + case['callback'], ref, state(cf), msg + ' (%s of %s), computed again' % (case['callback'], case['on']))
        obs.count('callback:' + case['callback'])
    elif kind == 'access':
        other = gen.container(m, case['how'], obs.tmp)
        th = frames_of(other)
        ref = state(compute(th))
        # somebody else reads frames in the meanwhile
        rng = random.Random(case['sel'])
        cf = classes.create(pp, name, other, m, a, obs.tmp)
        other[rng.randrange(len(m.steps))]
        it = iter(other)
        next(it)
        cf.compute()
        same(obs, kind, ref, state(cf), msg + ' (%s)' % case['how'])
        if len(m.steps) > 1:
            next(it)
        cf.compute()
        same(obs, kind + '/again', ref, state(cf), msg + ' (%s), computed again' % case['how'])
        obs.count('accesses')
    elif kind == 'layout':
        th = plain_frames(m)
        ref = state(compute(th))
        other = gen.to_ram(m)
        other.block_size = th.block_size
        keep = []
        for i in range(len(m.steps)):
            s = other[i]
            n = len(s.particle)
            big = numpy.zeros((2 * n, 3 * m.ndim), order='F' if case['layout'] == 'fortran' else 'C')
            keep.append(big)
            for j, p in enumerate(s.particle):
                if case['layout'] in ('strided', 'fortran'):
                    big[2 * j, 1:3 * m.ndim:3] = p.position
                    p.position = big[2 * j, 1:3 * m.ndim:3]
                elif case['layout'] == 'rows':
                    big[j, :m.ndim] = p.position
                    p.position = big[j, :m.ndim]
                elif case['layout'] == 'extra':
                    p.label, p.neighbors, p.stress = 'x%d' % j, [j], numpy.zeros((m.ndim, m.ndim))
                elif case['layout'] == 'velocity':
                    big[j, m.ndim:2 * m.ndim] = p.velocity
                    p.velocity = big[j, m.ndim:2 * m.ndim]
                elif case['layout'] == 'readonly':
                    p.position = numpy.array(p.position)
                    p.position.flags.writeable = False
        same(obs, kind, ref, state(compute(other)), msg + ' (%s)' % case['layout'])
        obs.count('layouts')
    elif kind == 'reused':
        other = gen.container(m, case['how'], obs.tmp)
        th = frames_of(other)
        ref = state(compute(th))
        for o in case['others']:
            try:
                sub = os.path.join(obs.tmp, 'other-' + o)
                os.makedirs(sub, exist_ok=True)
                classes.create(pp, o, other, m, a, sub).compute()
                obs.count('others')
            except Exception:
                # whether that one can be computed is monitored elsewhere
                pass
            same(obs, kind, ref, state(compute(other)), msg + ' after %s (%s)' % (o, case['how']))
    elif kind == 'partial':
        other = gen.container(m, case['how'], obs.tmp)
        th = frames_of(other)
        names = sorted(set(m.species[0]))
        kw = classes.kwargs(a, name, m)
        if any(sum(x == s for x in sp) in (0, m.ndim) for sp in m.species for s in names):
            raise Skip('too few particles')
        res = []
        for t in (th, other):
            p = Partial(getattr(pp, name), names, t, **copy.deepcopy(kw))
            p.compute()
            res.append(p)
        for key in res[0].partial:
            same(obs, kind, state(res[0].partial[key]), state(res[1].partial[key]), msg + ' %s (%s)' % (key, case['how']))
        obs.count('partials')
