"""
Monitors shared by the time-dependent correlations: the reported grid and values against direct evaluation of
the definition on the plain data.
"""
import math

import numpy

from . import gen, ref
from .harness import Skip

NORIGINS = [None, -1, '-1', 1, '1', 2, 3, '3', 5, 0.5, '0.5', 0.34, 0.2]


def offset_of(norigins):
    """Whether frames other than the first one of a block can be origins"""
    return norigins != '1' and not (isinstance(norigins, int) and norigins == 1)


def slice_of(case):
    s = case.get('slice')
    return slice(*s) if s else None


def trajectory(case, m, tmp, name='traj.xyz'):
    """(trajectory object, model of the frames in it)"""
    how = case.get('how', 'ram')
    if how == 'path':
        path = gen.to_xyz(m, tmp + '/' + name, ['name', 'pos', 'vel', 'mass', 'radius', 'charge'])
        return path, m
    th = gen.container(m, how, tmp, name)
    sl = slice_of(case)
    if sl is not None:
        from atooms.trajectory import Sliced
        return Sliced(th, sl), m.slice(sl)
    return th, m


def tgrid(case, m):
    """Requested time grid, given as fractions of the total time or as frames"""
    g = case.get('tgrid')
    if g is None:
        return None
    kind, arg = g
    span = (m.steps[-1] - m.steps[0]) * m.timestep
    if kind == 'frac':
        return [f * span for f in arg]
    if kind == 'abs':
        return list(arg)
    if kind == 'frames':
        return [(m.steps[i % m.n] - m.steps[0]) * m.timestep for i in arg]
    raise ValueError(kind)


def random_tgrid(rng, nframes):
    kind = rng.choice(['none', 'linear', 'frames', 'unsorted', 'offgrid', 'dense', 'notzero', 'frames'])
    if kind == 'none':
        return None
    if kind == 'linear':
        n = rng.choice([3, 6, 11])
        return ['frac', [i / float(n - 1) for i in range(n)]]
    if kind == 'frames':
        return ['frames', sorted(set([0] + [rng.randrange(nframes) for _ in range(5)]))]
    if kind == 'unsorted':
        x = [round(rng.random(), 3) for _ in range(5)] + [0.0]
        rng.shuffle(x)
        return ['frac', x]
    if kind == 'offgrid':
        return ['frac', sorted([0.0] + [round(rng.random(), 4) for _ in range(6)])]
    if kind == 'dense':
        return ['frac', [i / 40.0 for i in range(41)]]
    if kind == 'notzero':
        return ['frac', sorted(round(0.1 + 0.9 * rng.random(), 3) for _ in range(4))]


def expected(obs, m, f, norigins, no_offset=False, block=None, skip=None):
    """Function dt -> candidates"""
    memo = {}

    def g(i0, i1):
        if (i0, i1) not in memo:
            memo[(i0, i1)] = f(i0, i1)
        return memo[(i0, i1)]
    offset = norigins != '1' and not no_offset
    return lambda dt: ref.timecorr_candidates(g, m.steps, block, skip, dt, offset)


def check_grid(obs, mech, m, times, block, offset, msg=''):
    """Reported times exist; returns the step differences, or None"""
    times = [float(t) for t in times]
    obs.check(len(times) > 0, mech + '/empty', msg + ': no time is reported')
    obs.check(all(b > a for a, b in zip(times[:-1], times[1:])), mech + '/sorted',
              lambda: '%s: times are not strictly increasing: %s' % (msg, times))
    avail = sorted(ref.separations(m.steps, block, offset is None or offset))
    dts = []
    for t in times:
        dt = t / m.timestep
        n = int(round(dt))
        ok = abs(dt - n) < 1e-6 * max(1.0, abs(dt)) and n in avail
        obs.check(ok, mech + '/available', lambda: '%s: time %r (%r steps) is not an available difference of steps %s'
                  % (msg, t, dt, avail[:40]))
        if not ok:
            return None
        dts.append(n)
    return dts


def check_values(obs, mech, m, cf_grid, cf_value, f, norigins, block, no_offset=False, rtol=1e-8, atol=1e-10, msg='',
                 npart=None, skip=None):
    """Each reported value is the average of f over the documented origins"""
    offset = norigins != '1' and not no_offset
    if skip is None:
        skip = ref.skip_of(norigins, m.n, block, npart if npart is not None else m.N)
    obs.check(len(cf_grid) == len(cf_value), mech + '/length', lambda: '%s: %d times, %d values' % (msg, len(cf_grid), len(cf_value)))
    dts = check_grid(obs, mech, m, cf_grid, block, offset, msg)
    if dts is None or len(cf_grid) != len(cf_value):
        return
    memo = {}

    def g(i0, i1):
        if (i0, i1) not in memo:
            memo[(i0, i1)] = f(i0, i1)
        return memo[(i0, i1)]
    def agrees(skip):
        return all(any(abs(float(v) - float(w)) <= atol + rtol * abs(float(w)) for w, _ in ref.timecorr_candidates(g, m.steps, block, skip, dt, offset))
                   for dt, v in zip(dts, cf_value))
    if norigins is None and skip > block and not agrees(skip):
        # large systems: the spacing of the origins is left to the code, as long as it is one and the same
        obs.count('other_spacing')
        skip = ([s for s in range(1, m.n + 1) if agrees(s)] + [skip])[0]
    for dt, v in zip(dts, cf_value):
        cand = ref.timecorr_candidates(g, m.steps, block, skip, dt, offset)
        obs.count('times')
        if norigins is None and skip > block:
            obs.count('spaced_origins')
        obs.count('origins', max(n for _, n in cand))
        if max(n for _, n in cand) > 1:
            obs.count('multi_origin_times')
        v = float(v)
        ok = any(abs(v - float(w)) <= atol + rtol * abs(float(w)) for w, _ in cand)
        obs.values += 1
        obs.check(ok, mech + '/value', lambda: '%s: at dt=%d steps got %r, expected one of %r (value, origins) with skip=%d block=%d'
                  % (msg, dt, v, [(float(w), n) for w, n in cand][:6], skip, block))


def check_requested(obs, mech, m, times, requested, block, offset, zero=False, msg=''):
    """The reported times are the closest to the requested ones, and nothing else"""
    dts = [int(round(float(t) / m.timestep)) for t in times]
    # (with a single origin given as an integer, frames of the first block other than the first may or may not serve)
    sets = [ref.conservative_separations(m.steps, block, o) for o in ([True, False] if offset is None else [offset])]
    # A separation answers a request if it is (one of) the closest to it, or to its nearest step
    req = [t / m.timestep for t in requested]

    def answers(d, r):
        for cons in sets:
            if abs(r - d) <= min(abs(r - c) for c in cons) + 1e-6:
                return True
            for n in set([int(round(r)), int(math.floor(r + 0.5 - 1e-6)), int(math.floor(r + 0.5 + 1e-6))]):
                if abs(n - d) <= min(abs(n - c) for c in cons):
                    return True
        return False

    for r in req:
        obs.count('requests')
        obs.check(any(answers(d, r) for d in dts), mech + '/closest', lambda: '%s: requested %r steps, reported %s, but %s are available'
                  % (msg, r, dts, sets[0]))
    for d in dts:
        if zero and d == 0:
            continue
        obs.check(any(answers(d, r) for r in req), mech + '/unrequested',
                  lambda: '%s: reported %d steps is not the closest to any of the requested %s (available %s)'
                  % (msg, d, req, sets[0]))


def block_of(m, th=None):
    """Sampling period of the trajectory (number of frames), as given by the trajectory library"""
    if th is not None and not isinstance(th, str):
        return th.block_size
    from atooms.trajectory.ram import TrajectoryRam
    t = TrajectoryRam()
    for i, s in enumerate(m.steps):
        t.write(gen.system_of(m, i), s)
    t.timestep = m.timestep
    return t.block_size
