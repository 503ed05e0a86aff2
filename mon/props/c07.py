"""C07: S(k) equals the density correlation at the wave-vectors it reports"""
import numpy

from .. import boot, fs, gen, ref, tc
from . import c05

RULE = ('one case = one generated trajectory (2d/3d and, with explicit wave-vectors, 1d/4d; elongated cells, cells that change, '
        'varying particle numbers) x one structure factor class x groups x wave-vector request x norigins; every reported value is '
        'compared with the direct sum over particles at the reported wave-vectors')
MINIMUM = 60
REQUIRED_COUNTS = {'shells_checked': 200, 'sums': 2000}
ASSUMPTIONS = ['when the number of particles changes along the trajectory, normalization with the average over all frames or over '
               'the frames in use is accepted', 'with cells that change, all the wave-vectors in a shell are requested, because only '
               'those of the last frame are reported']

DEFAULTS = dict(kmin=-1.0, kmax=15.0, ksamples=30)
KINDS = ['legacy', 'fast', 'default', 'legacy', 'fast', 'varcell', 'varN', 'explicit', 'default_args']
SMALL = ['default_args']


def cases(tier, seed):
    out = []
    n = 900 if tier == 'quick' else 14000
    for i in range(n):
        rng = gen.rng_for('C07', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = fs.fourier_spec(rng)
        groups = rng.choice(['all', 'all', 'pair', 'self', 'one', 'overlap'])
        if kind == 'varcell':
            spec.update(cellvar=rng.choice(['once', 'iso', 'all', 'strong']), nframes=rng.choice([3, 4]), L=rng.choice([3.0, 5.0]))
        elif kind == 'varN':
            spec.update(varN=True, nframes=4, species=rng.choice([{'A': 1}, {'A': 3, 'B': 2}]))
            groups = rng.choice(['all', 'pair', 'self'])
        elif kind == 'explicit':
            if rng.random() < 0.4:
                spec.update(ndim=rng.choice([1, 4]), shape='cubic', structure='random', N=12)
        elif kind == 'default_args':
            spec.update(L=rng.choice([4.0, 5.0]), nframes=1, ndim=rng.choice([2, 3]), shape=rng.choice(['cubic', 'long']), N=9)
        if len(spec['species']) == 1 and groups in ('pair', 'self'):
            groups = 'all'
        if rng.random() < 0.12:
            spec['images'] = True
        out.append(dict(kind=kind, spec=spec, groups=groups, req=fs.random_request(rng, [spec['L'] * x for x in (gen.SIDES[spec['shape']][:spec['ndim']] if spec['ndim'] < 4 else [1.0])]),
                        how='ram' if spec['ndim'] in (1, 4) else rng.choice(['ram', 'ram', 'xyz', 'xyzcached', 'ramview']),
                        norigins=rng.choice([-1, -1, 1, 2, 0.5, None]), cls=rng.choice(['StructureFactorLegacy', 'StructureFactorFast', 'StructureFactor', 'StructureFactorOptimized']),
                        sel=rng.randrange(1000)))
    gen.enlarge(out, 'C07', seed, 24 if tier == 'quick' else 288, ok=lambda c: c['kind'] not in SMALL)
    return out


def direct(obs, m, frames, klist_of, s0, s1, same, weights=None):
    """<rho_0 rho_1*> for each shell, over frames and vectors"""
    tot, cnt = None, None
    for i in frames:
        kv = klist_of(i)
        if tot is None:
            tot, cnt = [0.0] * len(kv), [0] * len(kv)
        x0, x1 = m.pos[i][s0(i)], m.pos[i][s1(i)]
        for j, klist in enumerate(kv):
            a = fs.modes(klist, x0)
            b = a if same else fs.modes(klist, x1)
            tot[j] += float((a * b.conj()).real.sum())
            cnt[j] += len(klist)
            obs.count('sums', len(klist))
    return [t / c for t, c in zip(tot, cnt)]


def explicit_vectors(rng, side, nshell=3):
    """Lists of integer vectors, by shell"""
    d = len(side)
    out = []
    seen = set()
    # symmetric, or mostly of one sign
    low, high = [(-4, 5), (-4, 5), (-7, 2), (-1, 6)][rng.randint(4)]
    if rng.rand() < 0.2:
        nshell = 1
    for _ in range(nshell):
        l = []
        for _ in range(rng.randint(1, 4)):
            v = tuple(int(x) for x in rng.randint(low, high, size=d))
            if any(v) and v not in seen:
                seen.add(v)
                l.append(v)
        if not l:
            v = tuple([nshell + 6 + len(out)] + [0] * (d - 1))
            l = [v]
        out.append(l)
    return out


def run(case, obs):
    pp = boot.load()
    kind = case['kind']
    m = gen.build(case['spec'])
    if case['spec'].get('images'):
        c05.images(m, case['spec']['seed'])
    th = gen.container(m, case['how'], obs.tmp)
    s0, s1, same, filters = c05.groups_of(case, m)
    name = dict(legacy='StructureFactorLegacy', fast='StructureFactorFast', default='StructureFactor').get(kind, case['cls'])
    cls = getattr(pp, name)
    req = dict(case['req'])
    if kind == 'default_args':
        req = dict(nk=20, dk=0.1)
        cf = c05.attach(cls(th, norigins=case['norigins']), filters)
    elif kind == 'explicit':
        cf = c05.attach(cls(th, norigins=case['norigins']), filters)
        ints = explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0])
        k0 = 2 * numpy.pi / m.side[0]
        cf.kvectors = [[list(numpy.array(v) * k0) for v in l] for l in ints]
    else:
        if kind == 'varcell':
            req['nk'] = 10**6
        late = req.get('kgrid') is not None and case['sel'] % 4 == 0
        kw = dict(req)
        if late:
            # The grid can be set after construction
            g = kw.pop('kgrid')
            cf = cls(th, norigins=case['norigins'], **kw)
            cf.kgrid = list(g)
        else:
            cf = cls(th, norigins=case['norigins'], **kw)
        cf = c05.attach(cf, filters)
    cf.compute()
    obs.count('class:' + name)
    frames = list(range(0, m.n, ref.skip_of(case['norigins'], m.n, tc.block_of(m, th), m.N)))
    msg = '%s, groups %s' % (name, case['groups'])
    mech = kind if kind in ('varcell', 'varN', 'explicit') else name.replace('StructureFactor', '').lower() or 'default'
    variable = any(numpy.any(s != m.side[0]) for s in m.side)
    if variable:
        # All the vectors of each frame
        per = []
        for i in range(m.n):
            sh, _, amb = ref.shells(m.side[i], fs.requested(req, m.side[i], DEFAULTS), req['dk'])
            if amb:
                obs.count('ambiguous')
                return
            per.append([[numpy.array(v) * 2 * numpy.pi / m.side[i] for v in l] for l in sh])
        klist_of = lambda i: per[i]
    else:
        kv = cf.kvectors
        klist_of = lambda i: kv
    want = direct(obs, m, frames, klist_of, s0, s1, same)
    v = numpy.array(cf.value, dtype=float)
    if not obs.check(len(v) == len(want) == len(cf.grid), mech + '/length', lambda: '%s: %d values, %d k, %d shells' % (msg, len(v), len(cf.grid), len(want))):
        return
    if not variable:
        obs.close(cf.grid, [numpy.mean(fs.norms_of(l)) for l in kv], mech + '/grid', rtol=1e-9, msg=msg + ': reported k')
    obs.count('shells_checked', len(want))
    norms = set()
    for fr in (frames, range(m.n)):
        n0, n1 = [numpy.mean([len(s(i)) for i in fr]) for s in (s0, s1)]
        norms.add(float(n0 * n1)**0.5)
    scale = max(norms)
    ok = False
    for n in norms:
        w = numpy.array(want) / n
        ok = ok or bool(numpy.all(numpy.abs(v - w) <= 1e-8 * numpy.abs(w) + 1e-9 * max(1.0, scale)))
    obs.values += len(v)
    obs.check(ok, mech + '/value', lambda: '%s: got %s expected %s (k=%s, %d frames of %d)' % (
        msg, v.tolist()[:6], (numpy.array(want) / scale).tolist()[:6], numpy.array(cf.grid).tolist()[:6], len(frames), m.n))
