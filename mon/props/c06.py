"""C06: fast pair searches find exactly the pairs a full search finds"""
import itertools

import numpy

from .. import boot, gen, ref
from ..harness import Skip

RULE = ('one case = a cell-based search on generated sets of particles (2d/3d, elongated and changing cells, periodicity per '
        'direction, particles on the borders and outside, one or two sets, with and without the third law, lists and arrays) '
        'against a full search; or one g(r) computed with linked cells on and off, or with the two implementations, compared '
        'bin by bin')
MINIMUM = 80
REQUIRED_COUNTS = {'pairs_within': 2000, 'searches': 100, 'bins_linked': 200, 'bins_impl': 500, 'mixed': 100}
ASSUMPTIONS = ['at least three cells fit along each periodic side, as in all the uses in the code']

KINDS = ['cells', 'mixed', 'distinct', 'linked', 'impl']
SMALL = ['default_args']


def cases(tier, seed):
    out = []
    n = 1000 if tier == 'quick' else 20000
    for i in range(n):
        rng = gen.rng_for('C06', seed, i)
        kind = KINDS[i % len(KINDS)]
        c = dict(kind=kind, seed=rng.randrange(10**6))
        ndim = rng.choice([2, 3, 3])
        if kind in ('cells', 'mixed', 'distinct'):
            c.update(ndim=ndim, N=rng.choice([8, 25, 60]), M=rng.choice([5, 30]), ncell=[rng.choice([3, 3, 4, 5, 7]) for _ in range(ndim)],
                     frac=rng.choice([0.0, 0.3, 0.95]), rcut=rng.choice([0.7, 1.0, 2.5]),
                     periodic=rng.choice(['none', 'all', 'all', 'open', 'partial']), newton=rng.choice([True, True, False]),
                     where=rng.choice(['inside', 'border', 'outside', 'cornered', 'grid']), frames=rng.choice([1, 3, 4]),
                     change=rng.choice(['no', 'all', 'one', 'small']), array=rng.choice([True, False]))
            if kind == 'mixed':
                # the same object used for different searches
                c.update(frames=5, change=rng.choice(['no', 'no', 'one', 'small']))
        else:
            spec = gen.statics_spec(rng, ndim=ndim, N=rng.choice([30, 60, 120]), structure=rng.choice(['random', 'random', 'cluster', 'separated', 'wall']),
                                    L=rng.choice([5.0, 8.0]))
            if rng.random() < 0.4:
                spec.update(cellvar=rng.choice(['once', 'iso', 'all', 'strong', 'strong']), nframes=4)
            if rng.random() < 0.2:
                spec.update(varN=True, nframes=3, species=rng.choice([{'A': 1}, {'A': 3, 'B': 2}]))
            c.update(spec=spec, groups=rng.choice(['all', 'all', 'pair', 'self', 'overlap', 'one']), dr=rng.choice([0.05, 0.1, 0.22]),
                     f=rng.choice([0.3, 0.6, 0.95]), norigins=-1, gsel=rng.randrange(1000))
            if len(spec['species']) == 1 and c['groups'] in ('pair', 'self'):
                c['groups'] = 'all'
        out.append(c)
    gen.enlarge(out, 'C06', seed, 12 if tier == 'quick' else 144, ok=lambda c: c['kind'] not in SMALL)
    return out


def positions(rng, n, box, where, rcut):
    x = rng.uniform(-0.5, 0.5, size=(n, len(box))) * box
    if where == 'border':
        for i in range(n):
            j = rng.randint(len(box))
            x[i, j] = rng.choice([-0.5, 0.5]) * box[j] * (1 - rng.choice([0.0, 1e-15, 1e-9, 1e-3]))
    elif where == 'outside':
        x = x + rng.randint(-1, 2, size=x.shape) * box
    elif where == 'cornered':
        x = x + box / 2
    elif where == 'grid':
        x = numpy.round(x / rcut) * rcut
    return x


def full_search(x, y, box, periodic):
    """Matrix of distances"""
    d = x[:, None, :] - y[None, :, :]
    for k in range(len(box)):
        if periodic[k]:
            d[..., k] -= numpy.rint(d[..., k] / box[k]) * box[k]
    return numpy.sqrt((d**2).sum(axis=-1))


def run_cells(case, obs):
    boot.load()
    try:
        from atooms.postprocessing.linkedcells import LinkedCells
    except ImportError:
        raise Skip('no LinkedCells')
    rng = numpy.random.RandomState(case['seed'])
    ndim, rcut = case['ndim'], case['rcut']
    borders = dict(none=None, all=[True] * ndim, open=[False] * ndim,
                   partial=[bool(i % 2 == case['seed'] % 2) for i in range(ndim)])
    lc = LinkedCells(rcut=rcut)
    box = rcut * (numpy.array(case['ncell']) + case['frac']) * (1 + 1e-12)
    n = case['N']
    full, last = False, None
    for frame in range(case['frames']):
        distinct, newton, periodic = case['kind'] == 'distinct', case['newton'], borders[case['periodic']]
        if case['kind'] == 'mixed':
            distinct, newton = rng.rand() < 0.4, rng.rand() < 0.6
            if rng.rand() < 0.3:
                periodic = borders[['none', 'all', 'open', 'partial'][rng.randint(4)]]
            obs.count('mixed')
        newton = newton and not distinct
        per = [True] * ndim if periodic is None else periodic
        if frame and case['change'] == 'all':
            box = rcut * (rng.randint(3, 7, size=ndim) + case['frac']) * (1 + 1e-12)
        elif frame and case['change'] == 'small':
            # the number of cells may well remain the same
            box = numpy.maximum(3 * rcut * (1 + 1e-12), box * (0.7 + 0.6 * rng.rand(ndim)))
        elif frame and case['change'] == 'one':
            box = box.copy()
            box[frame % ndim] = rcut * (rng.randint(3, 7) + case['frac']) * (1 + 1e-12)
        x = positions(rng, n, box, case['where'], rcut)
        y = positions(rng, case['M'], box, case['where'], rcut) if distinct else x
        kw = dict(as_array=case['array'])
        if periodic is not None:
            kw['periodic'] = numpy.array(periodic)
        if distinct:
            got = lc.compute(box.copy(), x.copy(), y.copy(), **kw)
        else:
            if not newton:
                kw['newton'] = False
            got = lc.compute(box.copy(), x.copy(), **kw)
        obs.count('searches')
        if case['array']:
            nn, num = got
            lists = [[int(j) for j in nn[i][:num[i]]] for i in range(n)]
        else:
            lists = [[int(j) for j in l] for l in got]
        what = 'ndim=%d ncell=%s periodic=%s newton=%s distinct=%s frame=%d where=%s' % (ndim, case['ncell'], periodic, newton, distinct, frame, case['where'])
        if not obs.check(len(lists) == n, 'cells/length', lambda: '%s: %d lists for %d particles' % (what, len(lists), n)):
            return
        d = full_search(x, y, box, per)
        cnt = numpy.zeros(d.shape, dtype=int)
        ok = True
        for i, l in enumerate(lists):
            for j in l:
                if not 0 <= j < len(y):
                    ok = False
                else:
                    cnt[i, j] += 1
        obs.check(ok, 'cells/range', lambda: '%s: neighbors that do not exist' % what)
        if not distinct:
            obs.check(not numpy.diag(cnt).any(), 'cells/self', lambda: '%s: particles are neighbors of themselves' % what)
            d[numpy.arange(n), numpy.arange(n)] = numpy.inf
        within = d < rcut * (1 - 1e-9)
        obs.count('pairs_within', int(within.sum()))
        obs.values += d.size
        full = (full and numpy.array_equal(box, last)) or not (newton or distinct)
        last = box.copy()
        if newton:
            tot = cnt + cnt.T
            # After a full search in the same cell, pairs may be found from both sides (see test_ll.py)
            most = 2 if full else 1
            bad = numpy.argwhere((within & (tot < 1)) | (tot > most))
            obs.check(len(bad) == 0, 'cells/newton', lambda: '%s: pair %s at distance %r (cutoff %r) is found %d times instead of once; %d bad pairs'
                      % (what, bad[0], d[tuple(bad[0])], rcut, tot[tuple(bad[0])], len(bad)))
        else:
            bad = numpy.argwhere((within & (cnt != 1)) | (cnt > 1))
            obs.check(len(bad) == 0, 'cells/full' if not distinct else 'cells/distinct', lambda: '%s: particle %s at distance %r (cutoff %r) is found %d times instead of once; %d bad pairs'
                      % (what, bad[0], d[tuple(bad[0])], rcut, cnt[tuple(bad[0])], len(bad)))


def run_linked(case, obs):
    from . import c05
    pp = boot.load()
    m = gen.build(case['spec'])
    # More than 3 cells along each side, in all frames or only in the first one
    first = case['spec'].get('cellvar') and case['gsel'] % 2 == 0
    L = float(min(m.side[0])) if first else min(float(min(s)) for s in m.side)
    s0, s1, same, filters = c05.groups_of(case, m)
    dr = case['dr']
    rmax = (L / 4.001 - dr / 2) * case['f']
    if rmax < 1.5 * dr:
        dr = rmax / 5.0
    calls = []
    # Observe, without interfering, if cells are actually used
    try:
        from atooms.postprocessing import linkedcells
        orig = linkedcells.LinkedCells.compute
        linkedcells.LinkedCells.compute = lambda self, *a, **k: (calls.append(1), orig(self, *a, **k))[1]
    except (ImportError, AttributeError):
        linkedcells = None
    try:
        a = c05.attach(pp.RadialDistributionFunctionFast(gen.to_ram(m), norigins=-1, dr=dr, rmax=rmax), filters)
        a.compute()
        n = len(calls)
        b = c05.attach(pp.RadialDistributionFunctionFast(gen.to_ram(m), norigins=-1, dr=dr), filters)
        b.compute()
    finally:
        if linkedcells is not None:
            linkedcells.LinkedCells.compute = orig
    if n > 0:
        obs.count('linked_used')
    ra, rb = numpy.array(a.grid), numpy.array(b.grid)
    # (the full range is cropped to half of the last cell)
    obs.check((len(ra) <= len(rb) or first) and len(ra) > 0, 'linked/grid', lambda: 'limited range has %d distances, full range %d' % (len(ra), len(rb)))
    k = min(len(ra), len(rb))
    obs.count('bins_linked', k)
    obs.close(ra[:k], rb[:k], 'linked/grid', msg='distances')
    obs.close(numpy.array(a.value)[:k], numpy.array(b.value)[:k], 'linked/value', rtol=1e-9, atol=1e-9,
              msg='g(r) up to rmax=%r against the whole range, dr=%r, groups %s' % (rmax, dr, case['groups']))


def run_impl(case, obs):
    from . import c05
    pp = boot.load()
    m = gen.build(case['spec'])
    s0, s1, same, filters = c05.groups_of(case, m)
    kw = dict(norigins=-1, dr=case['dr'])
    if case['gsel'] % 3 == 0:
        kw['rmax'] = float(min(m.side[-1])) * (0.2 if case['gsel'] % 2 else 0.45)
    a = c05.attach(pp.RadialDistributionFunctionFast(gen.to_ram(m), **kw), filters)
    b = c05.attach(pp.RadialDistributionFunctionLegacy(gen.to_ram(m), **kw), filters)
    a.compute()
    b.compute()
    n = min(len(a.grid), len(b.grid))
    obs.close(a.grid[:n], b.grid[:n], 'impl/grid', msg='distances of the two implementations')
    # (a distance right at the limit may or may not be there, because of rounding)
    limit = kw['rmax'] if 'rmax' in kw else float(min(m.side[-1])) / 2
    extra = list(a.grid[n:]) + list(b.grid[n:])
    obs.check(n > 0 and all(abs(x - limit) < 1e-9 for x in extra), 'impl/grid', lambda: 'distances of the two implementations: %s and %s' % (a.grid, b.grid))
    if n > 0:
        obs.count('bins_impl', len(a.grid))
        # pairs right at the border of a bin may be counted on either side
        va, vb = numpy.array(a.value)[:n], numpy.array(b.value)[:n]
        r = numpy.array(a.grid)[:n]
        amb = numpy.zeros(len(r), dtype=bool)
        for i in range(m.n):
            d, _, _ = c05.pairs_in(m, i, s0, s1, same)
            e = d[numpy.abs(d / case['dr'] - numpy.rint(d / case['dr'])) < 1e-7]
            for x in e:
                amb |= numpy.abs(r - x) < 0.51 * case['dr']
        obs.count('ambiguous_bins', int(amb.sum()))
        obs.close(va[~amb], vb[~amb], 'impl/value', rtol=1e-9, atol=1e-9, msg='the two implementations, groups %s, %s' % (case['groups'], kw))


def run(case, obs):
    if case['kind'] in ('cells', 'mixed', 'distinct'):
        run_cells(case, obs)
    elif case['kind'] == 'linked':
        run_linked(case, obs)
    else:
        run_impl(case, obs)
