"""C05: g(r) is the normalized minimum-image pair histogram"""
import math

import numpy

from .. import boot, gen, ref, tc
from ..harness import Skip

RULE = ('one case = one generated trajectory (dimension, shape, structure, periodic / open / no cell, varying particle number, '
        'varying cell) x one g(r) class x groups (all, species pair, filter, overlapping groups) x dr/rmax/grid/norigins; every '
        'bin is compared with the count of pairs found by direct minimum-image search')
MINIMUM = 80
REQUIRED_COUNTS = {'bins': 1000, 'pairs': 5000}
ASSUMPTIONS = ['when the volume changes along the trajectory any common normalization between the smallest and the largest volume '
               'is accepted', 'pairs within 1e-9 of a bin border may fall on either side',
               'open systems without a cell: normalization up to a common factor (the volume is an estimate)']

KINDS = ['fast', 'legacy', 'fast', 'legacy', 'open', 'nocell', 'varcell', 'varN', 'legacyvarN', 'grid', 'linked']
SMALL = ['default_args']


def cases(tier, seed):
    out = []
    n = 1600 if tier == 'quick' else 24000
    for i in range(n):
        rng = gen.rng_for('C05', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.statics_spec(rng)
        groups = rng.choice(['all', 'all', 'pair', 'pair', 'self', 'one', 'overlap'])
        if kind == 'open':
            spec.update(periodic=[False] * spec['ndim'], corner=False, N=rng.choice([30, 60]))
            groups = rng.choice(['all', 'pair'])
        elif kind == 'nocell':
            spec.update(has_cell=False, nframes=rng.choice([1, 2]))
            groups = 'all'
        elif kind == 'varcell':
            spec.update(cellvar=rng.choice(['once', 'iso', 'all', 'strong']), nframes=4)
        elif kind in ('varN', 'legacyvarN'):
            spec.update(varN=True, nframes=4, species=rng.choice([{'A': 1}, {'A': 3, 'B': 2}]))
            groups = rng.choice(['all', 'pair'])
        elif kind == 'linked':
            spec.update(N=rng.choice([40, 90]), L=rng.choice([5.0, 8.0]), structure=rng.choice(['random', 'cluster', 'wall']))
        if kind in ('fast', 'legacy') and rng.random() < 0.06:
            spec.update(ndim=rng.choice([1, 4]), shape='cubic', structure='random', corner=False)
        if kind in ('fast', 'legacy') and rng.random() < 0.06:
            spec.update(N=rng.choice([340, 420]), nframes=1)
        if len(spec['species']) == 1 and groups == 'pair':
            groups = 'all'
        if rng.random() < 0.15 and kind in ('fast', 'legacy', 'linked'):
            spec['images'] = True
        out.append(dict(kind=kind, spec=spec, groups=groups, how='ram' if spec['ndim'] in (1, 4) or kind in ('open', 'nocell', 'grid') else rng.choice(['ram', 'ram', 'xyz', 'xyzcached']),
                        dr=rng.choice([0.04, 0.1, 0.25, 0.3, 1]), rmax=rng.choice([-1.0, -1.0, 0.6, 1.1]),
                        norigins=rng.choice([None, -1, -1, 1, 2]), gsel=rng.randrange(1000)))
    gen.enlarge(out, 'C05', seed, 30 if tier == 'quick' else 360, ok=lambda c: c['kind'] not in SMALL)
    return out


def groups_of(case, m):
    """(selection of group 0, of group 1, same group?, filters to add)"""
    out = _groups_of(case, m)
    for s in out[:2]:
        if any(len(s(i)) == m.ndim for i in range(m.n)):
            # the arrays of the trajectory library cannot have as many rows as columns
            raise Skip('group of as many particles as dimensions')
    return out


def _groups_of(case, m):
    from atooms.postprocessing.helpers import filter_species
    g = case['groups']
    names = sorted(set(m.species[0]))
    if g == 'all':
        return m.everything(), m.everything(), True, []
    if g == 'pair':
        # any two species, in any order
        pairs = [(x, y) for x in names for y in names if x != y] or [(names[0], names[0])]
        a, b = pairs[case['spec']['seed'] % len(pairs)]
        return m.where(a), m.where(b), a == b, [(filter_species, a)] if a == b else [(filter_species, a), (filter_species, b)]
    if g == 'self':
        a = names[case['spec']['seed'] % len(names)]
        return m.where(a), m.where(a), True, [(filter_species, a)]
    cut = float(numpy.median(m.radius[0]))
    sel = lambda i: numpy.array([j for j in range(len(m.radius[i])) if m.radius[i][j] <= cut], dtype=int)
    if g == 'one':
        return sel, m.everything(), False, 'radius <= %.17g' % cut
    if g == 'overlap':
        cut2 = float(numpy.sort(m.radius[0])[len(m.radius[0]) // 4])
        sel2 = lambda i: numpy.array([j for j in range(len(m.radius[i])) if m.radius[i][j] >= cut2], dtype=int)
        return sel, sel2, False, 'radius <= %.17g, radius >= %.17g' % (cut, cut2)


def attach(cf, filters):
    import atooms.postprocessing as pp
    if isinstance(filters, str):
        return pp.Filter(cf, filters)
    for f in filters:
        cf.add_filter(*f)
    return cf


def images(m, seed):
    """Replace positions by random periodic images"""
    rng = numpy.random.RandomState(seed)
    m.pos = [p + rng.randint(-2, 3, size=p.shape) * s for p, s in zip(m.pos, m.side)]
    return m


def pairs_in(m, i, s0, s1, same, open_rmax=None, cell=True):
    """(distances, n0, n1) in a frame, with identical particles excluded"""
    w0, w1 = s0(i), s1(i)
    x0, x1 = m.pos[i], m.pos[i]
    side = m.side[i] if cell else None
    if open_rmax is not None:
        inner = [j for j in w0 if all(abs(x0[j]) <= m.side[i] / 2 - open_rmax)]
        w0, side, same = inner, None, False
    out = []
    for a in w0:
        others = numpy.array([b for b in w1 if (b > a if same else b != a)], dtype=int)
        if len(others) == 0:
            continue
        d = x1[others] - x0[a]
        if side is not None:
            d = ref.minimum_image(d, side)
        out.append(numpy.sqrt((d**2).sum(axis=1)))
    return (numpy.concatenate(out) if out else numpy.zeros(0)), len(w0), len(w1)


def check(obs, mech, cf, m, frames, s0, s1, same, dr, open_rmax=None, cell=True, average_all=False, factor=False, msg=''):
    eps = 1e-9
    r = numpy.asarray(cf.grid, dtype=float)
    v = numpy.asarray(cf.value, dtype=float)
    if not obs.check(r.shape == v.shape and len(r) > 0, mech + '/shape', lambda: '%s: grid %s, value %s' % (msg, r.shape, v.shape)):
        return
    lo, hi = numpy.zeros(len(r)), numpy.zeros(len(r))
    n0s, n1s, used = [], [], 0
    for i in frames:
        d, n0, n1 = pairs_in(m, i, s0, s1, same, open_rmax, cell)
        if not average_all and (n0 == 0 or n1 == 0):
            continue
        used += 1
        n0s.append(n0)
        n1s.append(n1)
        d = numpy.sort(d)
        a, b = r - dr / 2, r + dr / 2
        cnt = lambda x, y: numpy.maximum(0, numpy.searchsorted(d, y) - numpy.searchsorted(d, x)).astype(float)
        lo += cnt(a + eps, b - eps)
        hi += cnt(a - eps, b + eps)
        obs.count('pairs', len(d))
    if used == 0:
        return
    if average_all:
        n0s = [len(s0(i)) for i in range(m.n)]
        n1s = [len(s1(i)) for i in range(m.n)]
    lo, hi = lo / used, hi / used
    shell = ref.shell_volume(r - dr / 2, r + dr / 2, m.ndim)
    n0, n1 = numpy.mean(n0s), numpy.mean(n1s)
    ideal = n0 * n1 * shell * (0.5 if same and open_rmax is None else 1.0)
    # v * ideal / V must be the count, for a common V
    vols = [float(numpy.prod(m.side[i])) for i in range(m.n)]
    free = factor or max(vols) - min(vols) > 1e-12 * max(vols)
    if free:
        # Any common volume for which all the bins agree with the counts
        vlo, vhi = (0.0, numpy.inf) if factor else (min(vols), max(vols))
        s = v * ideal
        with numpy.errstate(divide='ignore', invalid='ignore'):
            above = numpy.where(hi > 0, s / hi, 0.0)
            below = numpy.where(lo > 0, s / lo, numpy.inf)
        vlo, vhi = max(vlo, float(above.max())), min(vhi, float(below.min()))
        obs.check(vlo <= vhi * (1 + 1e-7), mech + '/volume', lambda: '%s: no volume (among %r) makes the bins agree with the counts: %r > %r'
                  % (msg, 'any' if factor else vols, vlo, vhi))
        V = vlo if vlo > 0 else (vhi if numpy.isfinite(vhi) else 1.0)
    else:
        V = vols[0]
    got = v * ideal / V
    tol = (1e-6 if free else 1e-8) * numpy.maximum(1.0, hi)
    bad = (got < lo - tol) | (got > hi + tol) | ~numpy.isfinite(v)
    obs.values += len(r)
    obs.count('bins', len(r))
    k = int(numpy.argmax(bad))
    obs.check(not bad.any(), mech + '/value', lambda: '%s: at r=%r (bin %d of %d, dr=%r) %r pairs per frame, expected %r to %r; %d bins differ; N0=%r N1=%r V=%r'
              % (msg, r[k], k, len(r), dr, got[k], lo[k], hi[k], int(bad.sum()), n0, n1, V))


def check_distances(obs, mech, cf, m, dr, rmax, last, grid=None, first=None):
    """Bin centres, up to half the shortest side or rmax"""
    r = numpy.asarray(cf.grid, dtype=float)
    if grid is None:
        want = (numpy.arange(len(r)) + 0.5) * dr
    else:
        want = numpy.array(grid[:len(r)])
    obs.close(r, want, mech + '/distances', rtol=1e-9, atol=1e-9, msg='reported distances')
    limit = rmax if rmax > 0 else float(min(last)) / 2
    obs.check(r[-1] <= limit + 1e-9, mech + '/limit', lambda: 'last distance %r is beyond %r' % (r[-1], limit))
    nxt = want[-1] + dr if grid is None else (grid[len(r)] if len(r) < len(grid) else None)
    if nxt is not None:
        obs.check(nxt > limit - 1e-9, mech + '/limit', lambda: 'distances stop at %r, before %r' % (r[-1], limit))


def run(case, obs):
    pp = boot.load()
    kind = case['kind']
    m = gen.build(case['spec'])
    if case['spec'].get('images'):
        images(m, case['spec']['seed'])
    th = gen.container(m, case['how'], obs.tmp)
    s0, s1, same, filters = groups_of(case, m)
    dr, rmax, norigins = case['dr'], case['rmax'], case['norigins']
    L = float(min(m.side[0]))
    if rmax > 0 and dr > rmax:
        dr = 0.1
    frames = range(0, m.n, ref.skip_of(norigins, m.n, tc.block_of(m, th), m.N))
    last = m.side[frames[-1]]
    if rmax <= 0 and 0.5 * dr > float(min(last)) / 2:
        dr = 0.04
    if kind == 'fast':
        cls, mech = pp.RadialDistributionFunctionFast, 'fast'
    elif kind in ('legacy', 'legacyvarN'):
        cls, mech = pp.RadialDistributionFunctionLegacy, 'legacy'
    else:
        cls, mech = pp.RadialDistributionFunctionFast, kind
    kw = dict(norigins=norigins, dr=dr)
    grid = None
    if kind == 'open':
        rmax = kw['rmax'] = round(0.2 * L, 2) + 0.00371  # no particle of a regular structure is right at the border
        dr = kw['dr'] = min(dr, rmax / 3)
    elif kind == 'nocell':
        if case['gsel'] % 3:
            rmax = kw['rmax'] = round(0.5 * L, 2)
            dr = kw['dr'] = min(dr, rmax / 3)
        else:
            # up to a default distance
            rmax = -1.0
    elif kind == 'linked':
        # cells are used when there are more than three of them along each side
        rmax = kw['rmax'] = 0.99 * L / 4 * (0.4 + 0.6 * (case['gsel'] % 10) / 10.0)
        dr = kw['dr'] = min(dr, rmax / 4)
    elif kind == 'grid':
        cls = [pp.RadialDistributionFunctionFast, pp.RadialDistributionFunctionLegacy][case['gsel'] % 2]
        start = [dr / 2, dr / 2, 0.3, dr, 0.7 * dr][case['gsel'] % 5]
        n = int(0.45 * L / dr) + 1
        grid = [start + i * dr for i in range(max(2, n))]
        del kw['dr']
        kw['rgrid'] = list(grid)
        rmax = -1.0
        if case['gsel'] // 5 % 3 == 0 and grid[0] < 0.3 * L:
            rmax = kw['rmax'] = round(0.31 * L, 2) + 0.0037
        # distances may start above the limit
        if grid[0] > float(min(last)) / 2:
            grid = None
            return obs.count('skipped-grid')
    elif rmax > 0:
        kw['rmax'] = rmax
    cf = attach(cls(th, **kw), filters)
    cf.compute()
    obs.count('kind:' + kind)
    obs.count('groups:' + case['groups'])
    if kind == 'grid':
        check_distances(obs, mech, cf, m, dr, rmax, last, grid=grid)
    elif kind != 'nocell':
        check_distances(obs, mech, cf, m, dr, rmax, last)
    else:
        r = numpy.asarray(cf.grid, dtype=float)
        obs.close(r, (numpy.arange(len(r)) + 0.5) * dr, mech + '/distances', rtol=1e-9, atol=1e-9, msg='reported distances')
        obs.check(r[-1] + dr > (rmax if rmax > 0 else 10 * dr) and (rmax <= 0 or r[-1] < rmax + dr), mech + '/limit', lambda: 'distances stop at %r' % r[-1])
    check(obs, mech, cf, m, frames, s0, s1, same, dr, open_rmax=rmax if kind == 'open' else None, cell=kind != 'nocell',
          average_all=kind in ('legacyvarN',) or (kind == 'grid'), factor=kind == 'nocell',
          msg='%s, groups %s, rmax=%r' % (cls.__name__, case['groups'], rmax))
