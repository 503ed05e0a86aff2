"""C12: the bond-angle distribution counts every bonded triplet once, in the right bin"""
import os

import numpy

from .. import boot, gen, ref, tc
from ..harness import Skip
from . import c05

RULE = ('one case = one generated trajectory (2d/3d, random / lattice / clustered with large coordination numbers, chains of straight '
        'bonds, images, changing cells and particle numbers) x groups x bin width x cutoffs per species pair (or the default ones) x '
        'norigins; each bin is compared with the count of triplets found by direct search, borders excepted')
MINIMUM = 60
REQUIRED_COUNTS = {'triplets': 20000, 'bins': 1000, 'crowded': 3, 'straight': 3}
ASSUMPTIONS = ['angles within 1e-5 degrees of a bin border may fall on either side',
               'cutoffs found from the g(r) are read back from the object or its analysis']
KINDS = ['random', 'lattice', 'cluster', 'pair', 'varcell', 'chain', 'images', 'default', 'varN', 'coarse']
SMALL = ['default_args']


def cases(tier, seed):
    out = []
    n = 2000 if tier == 'quick' else 9000
    for i in range(n):
        rng = gen.rng_for('C12', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.statics_spec(rng, N=rng.choice([12, 20, 30]), nframes=rng.choice([1, 2, 3]), L=rng.choice([3.0, 5.0]),
                                structure=rng.choice(['random', 'separated', 'wall']))
        groups = rng.choice(['all', 'all', 'self', 'one'])
        if kind == 'lattice':
            spec.update(structure='lattice', N=rng.choice([27, 16, 36]), motion='still', shape='cubic')
        elif kind == 'cluster':
            spec.update(structure='cluster', nclusters=1, N=rng.choice([60, 90, 20]), spread=rng.choice([0.1, 0.4]), nframes=1)
            groups = rng.choice(['all', 'pair'])
        elif kind == 'pair':
            spec['species'] = rng.choice(gen.SPECIES[2:])
            groups = rng.choice(['pair', 'pair', 'self', 'overlap', 'one'])
        elif kind == 'varcell':
            spec.update(cellvar=rng.choice(['once', 'iso', 'all', 'strong']), nframes=3)
        elif kind == 'chain':
            spec.update(structure='random', N=10, shape='cubic', L=9.0, species={'A': 1})
            groups = 'all'
        elif kind == 'images':
            spec['images'] = True
        elif kind == 'default':
            spec.update(structure='lattice', jitter=0.06, N=64, nframes=2, shape='cubic', motion='still', corner=False,
                        species=rng.choice([{'A': 1}, {'A': 1, 'B': 1}]))
            spec['L'] = 4.4 if spec['ndim'] == 3 else 8.8
            groups = rng.choice(['all', 'all', 'pair'])
        elif kind == 'varN':
            spec.update(varN=True, nframes=3, N=20, species=rng.choice([{'A': 1}, {'A': 3, 'B': 2}]))
            groups = rng.choice(['all', 'pair', 'self'])
        if len(spec['species']) == 1 and groups in ('pair', 'self'):
            groups = 'all'
        ns = len(spec['species'])
        L = spec['L'] * min(gen.SIDES[spec['shape']][:spec['ndim']])
        scale = min(0.45 * L, rng.choice([0.8, 1.2, 1.7]))
        if kind == 'cluster':
            scale = 0.47 * L
        if kind == 'varcell':
            scale *= 0.85
        rc = [[scale * (0.6 + 0.4 * rng.random()) for _ in range(ns)] for _ in range(ns)]
        if rng.random() < 0.7:
            rc = [[rc[min(a, b)][max(a, b)] for b in range(ns)] for a in range(ns)]
        out.append(dict(kind=kind, spec=spec, groups=groups, rcut=None if kind == 'default' else rc,
                        dtheta=rng.choice([1, 7, 11.0, 13.3]) if kind == 'coarse' else rng.choice([4.0, 4.0, 4, 2.0, 6.0, 10, 3.0, None]),
                        how=rng.choice(['ram', 'ram', 'xyz', 'xyzcached']) if kind != 'chain' else 'ram',
                        norigins=rng.choice([None, -1, 1, 2, 0.5]), asarray=rng.random() < 0.3))
    gen.enlarge(out, 'C12', seed, 16 if tier == 'quick' else 192, ok=lambda c: c['kind'] not in SMALL)
    return out


def run(case, obs):
    pp = boot.load()
    kind = case['kind']
    m = gen.build(case['spec'])
    if kind == 'chain':
        # rows of equally spaced particles along the axes and the diagonals, across the borders
        rng = numpy.random.RandomState(case['spec']['seed'])
        for i in range(m.n):
            d = m.ndim
            u = [numpy.eye(d)[0], numpy.eye(d)[-1], numpy.ones(d) / d**0.5, rng.normal(size=d)][rng.randint(4)]
            u = u / numpy.sqrt(u.dot(u))
            x0 = rng.uniform(-0.5, 0.5, size=d) * m.side[i]
            x = x0 + 0.7 * numpy.arange(m.N)[:, None] * u
            m.unf[i] = x
            m.pos[i] = x - numpy.rint(x / m.side[i]) * m.side[i]
    if case['spec'].get('images'):
        c05.images(m, case['spec']['seed'])
    how = case['how']
    th = gen.container(m, how, obs.tmp)
    before = set(os.listdir(obs.tmp))
    s0, s1, same, filters = c05.groups_of(case, m)
    kw = {}
    if case['dtheta'] is not None:
        kw['dtheta'] = case['dtheta']
    rcut = case['rcut']
    if rcut is not None:
        kw['rcut'] = numpy.array(rcut) if case['asarray'] else [list(x) for x in rcut]
    cf = pp.BondAngleDistribution(th, norigins=case['norigins'], **kw)
    cf = c05.attach(cf, filters)
    if kind == 'default':
        g = pp.RadialDistributionFunction(th, dr=0.05)
        g.compute()
        if how != 'ram':
            g.write()
        files = {f: (os.stat(os.path.join(obs.tmp, f)).st_mtime_ns, open(os.path.join(obs.tmp, f), 'rb').read()) for f in os.listdir(obs.tmp)}
    cf.compute()
    names = sorted(set(str(s) for s in m.species[0]))
    if rcut is None:
        now = {f: (os.stat(os.path.join(obs.tmp, f)).st_mtime_ns, open(os.path.join(obs.tmp, f), 'rb').read()) for f in os.listdir(obs.tmp)}
        obs.same(sorted(now), sorted(files), 'default/files', 'files in the folder of the trajectory')
        obs.check(all(now[f] == files[f] for f in files if f in now), 'default/files', 'files were modified by the bond angle distribution')
        rcut = numpy.array(cf.rcut, dtype=float)
        if not obs.check(rcut.shape == (len(names), len(names)) and numpy.all(rcut > 0) and numpy.all(rcut < max(m.side[0])), 'default/rcut', lambda: 'cutoffs %s' % rcut):
            return
        obs.count('default_rcut')
    for a in range(len(names)):
        for b in range(len(names)):
            x = cf.analysis.get('cutoff distance %d-%d' % (a, b))
            obs.check(x is not None and abs(float(x) - rcut[a][b]) < 1e-12, 'analysis', lambda: 'cutoff %d-%d in the analysis is %r, expected %r' % (a, b, x, rcut[a][b]))
    # Direct search
    frames = list(range(0, m.n, ref.skip_of(case['norigins'], m.n, tc.block_of(m, th), m.N)))
    ang = []
    for i in frames:
        w0, w1 = s0(i), s1(i)
        for a in w0:
            d = ref.minimum_image(m.pos[i][w1] - m.pos[i][a], m.side[i])
            r = numpy.sqrt((d**2).sum(axis=1))
            rc = numpy.array([rcut[names.index(m.species[i][a])][names.index(m.species[i][b])] for b in w1])
            ok = (r < rc) & (w1 != a)
            if numpy.any((numpy.abs(r - rc) < 1e-9) & (w1 != a)):
                obs.count('ambiguous')
                return
            d, r = d[ok], r[ok]
            if len(d) > 50:
                obs.count('crowded')
            if len(d) < 2:
                continue
            c = numpy.clip(d.dot(d.T) / numpy.outer(r, r), -1, 1)
            ang.append(numpy.degrees(numpy.arccos(c[numpy.triu_indices(len(d), 1)])))
    ang = numpy.sort(numpy.concatenate(ang)) if ang else numpy.zeros(0)
    obs.count('triplets', len(ang))
    obs.count('straight', int((ang > 180 - 1e-4).any()))
    dth = float(case['dtheta'] if case['dtheta'] is not None else 4.0)
    g, v = numpy.array(cf.grid, dtype=float), numpy.array(cf.value, dtype=float)
    nb = int(180.0 / dth + 1e-9)
    obs.close(g, [(i + 0.5) * dth for i in range(nb)], 'grid', msg='angles')
    if len(g) != nb or len(v) != nb:
        obs.check(len(v) == nb, 'length', lambda: '%d values for %d bins' % (len(v), nb))
        return
    if len(ang) == 0:
        obs.count('empty')
        return
    eps = 1e-5
    edges = numpy.arange(nb + 1) * dth
    # near 0 and 180 the angle is sensitive to rounding
    eps_lo = numpy.where(edges < 1, 0.0, eps)
    top = edges[-1] >= 180 - 1e-9
    hi_edges, lo_edges = edges + eps, edges - eps
    if top:
        hi_edges[-1] = lo_edges[-1] = 181.0
    lo_edges[0] = hi_edges[0] = -1.0
    if not top and edges[-1] > 179:
        return
    cnt_hi = numpy.searchsorted(ang, hi_edges[1:]) - numpy.searchsorted(ang, lo_edges[:-1])
    cnt_lo = numpy.maximum(0, numpy.searchsorted(ang, lo_edges[1:]) - numpy.searchsorted(ang, hi_edges[:-1]))
    nlo, nhi = int(numpy.searchsorted(ang, lo_edges[-1])), int(numpy.searchsorted(ang, hi_edges[-1]))
    if nlo == 0:
        return
    obs.count('bins', nb)
    obs.values += nb
    obs.check(abs(v.sum() * dth - 1.0) < 1e-8, 'norm', lambda: 'the area is %r' % (v.sum() * dth))
    ok = False
    for n in sorted(set([nlo, nhi] + list(range(nlo, min(nhi, nlo + 200) + 1)))):
        c = v * n * dth
        ok = ok or bool(numpy.all((c >= cnt_lo - 1e-6) & (c <= cnt_hi + 1e-6)))
    obs.check(ok, 'value/' + kind, lambda: 'bond angles: got counts %s expected %s..%s (%d triplets, groups %s, dtheta %r)' % (
        (v * nlo * dth).round(3).tolist(), cnt_lo.tolist(), cnt_hi.tolist(), len(ang), case['groups'], case['dtheta']))
