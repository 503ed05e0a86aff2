"""C17: fixing the centre of mass removes exactly the global drift"""
import numpy

from .. import boot, fs, gen, ref, tc
from ..harness import Skip

RULE = ('one case = one generated trajectory (masses, drift, time-dependent rigid translation, stored unfolded positions or not, containers, slices) x '
        'MSD/F_s/F(k,t) x whole system, species, pairs, filters: values with the centre of mass fixed against the direct average on the data minus '
        'their mass-weighted centre of mass, and against those of the same trajectory after another rigid translation')
MINIMUM = 150
REQUIRED_COUNTS = {'times': 1500, 'shifted': 150}
ASSUMPTIONS = ['displacements between frames are less than half the cell side, as required for unfolding']
CLASSES = ['MeanSquareDisplacement', 'SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy', 'IntermediateScattering', 'SelfIntermediateScattering']
KINDS = ['total', 'species', 'pair', 'partial', 'filter', 'shift', 'stored', 'uniform']


def cases(tier, seed):
    out = []
    n = 900 if tier == 'quick' else 16000
    for i in range(n):
        rng = gen.rng_for('C17', seed, i)
        name = CLASSES[i % len(CLASSES)]
        kind = KINDS[(i // len(CLASSES)) % len(KINDS)]
        spec = gen.dynamics_spec(rng, N=rng.choice([8, 14, 20]), motion=rng.choice(['brownian', 'strong', 'hop', 'still']), masses=True,
                                 sampling=rng.choice(['even', 'even', 'blocks', 'irregular']))
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached'])
        if kind in ('species', 'pair', 'partial'):
            spec['species'] = rng.choice(gen.SPECIES[2:])
        if kind == 'pair' and name != 'IntermediateScattering':
            kind = 'species'
        if kind == 'stored' or rng.random() < 0.3:
            spec['store_unf'] = True
            how = rng.choice(['ram', 'ramview'])
        if rng.random() < 0.1:
            spec.update(ndim=1 if name == 'MeanSquareDisplacement' else 3, shape='cubic')
            how = 'ram'
        if how.startswith('xyz'):
            # (the format does not store the masses of the particles)
            spec.update(store_unf=False, masses=False)
        side = [spec['L'] * x for x in gen.SIDES[spec['shape']][:spec['ndim']]]
        sl = None
        if rng.random() < 0.2 and spec['sampling'] == 'even':
            sl = [rng.choice([0, 1, 2]), rng.choice([None, spec['nframes'] - 1]), 1]
        if spec['nframes'] < 4:
            sl = None
        out.append(dict(kind=kind, cls=name, spec=spec, how=how, slice=sl, norigins=rng.choice(tc.NORIGINS), tgrid=tc.random_tgrid(rng, spec['nframes']),
                        kgrid=fs.random_kgrid(rng, side), nk=rng.choice([1, 4, 20]), sel=rng.randrange(1000), normalize=rng.random() < 0.3))
    gen.enlarge(out, 'C17', seed, 16 if tier == 'quick' else 192)
    return out


def translate(m, rng, scale=0.2, uniform=False):
    """Add a time dependent rigid translation"""
    m = m.copy()
    side = float(numpy.min(m.side))
    shift = numpy.cumsum(rng.uniform(-1, 1, size=(m.n, m.ndim)), axis=0) * scale * side
    if uniform:
        shift = numpy.arange(m.n)[:, None] * rng.uniform(-1, 1, size=m.ndim) * scale * side
    m.unf = [u + x for u, x in zip(m.unf, shift)]
    m.pos = [(u - numpy.rint(u / s) * s) for u, s in zip(m.unf, m.side)]
    return m


def shrink(m):
    """Keep the displacements well below half the side"""
    cap = 0.2 * float(numpy.min(m.side))
    u = [m.unf[0]]
    for a, b in zip(m.unf[:-1], m.unf[1:]):
        d = b - a
        n = numpy.abs(d).max()
        u.append(u[-1] + (d * (cap / n) if n > cap else d))
    m.unf = u
    m.fold()
    return m


def make(pp, case, th, m):
    name = case['cls']
    kw = dict(norigins=case['norigins'], fix_cm=True)
    g = tc.tgrid(case, m)
    kw['tgrid'] = g if g is not None else [0.0] + [f * (m.steps[-1] - m.steps[0]) * m.timestep for f in (0.25, 0.5, 0.75, 1.0)]
    if name != 'MeanSquareDisplacement':
        kw.update(kgrid=list(case['kgrid']), nk=case['nk'], dk=0.2, normalize=case['normalize'])
    return getattr(pp, name)(th, **kw), kw


def run(case, obs):
    pp = boot.load()
    from atooms.postprocessing.helpers import filter_species
    name, kind = case['cls'], case['kind']
    rng = numpy.random.RandomState(case['sel'])
    base = shrink(gen.build(case['spec']))
    m0 = translate(base, rng, uniform=kind == 'uniform')
    th, m = tc.trajectory(case, m0, obs.tmp)
    block = tc.block_of(m, th)
    names = sorted(set(m.species[0]))
    a, b = names[case['sel'] % len(names)], names[(case['sel'] // 7) % len(names)]
    s0 = s1 = m.everything()
    cond = None

    def attach(cf):
        if kind == 'filter':
            return pp.Filter(cf, cond if name != 'IntermediateScattering' else cond + ',' + cond)
        if kind == 'pair':
            cf.add_filter(filter_species, a)
            cf.add_filter(filter_species, b)
        elif kind == 'species':
            cf.add_filter(filter_species, a)
        return cf

    def compute(t):
        cf, kw = make(pp, case, t, m)
        if kind == 'partial':
            from atooms.postprocessing.partial import Partial
            p = Partial(getattr(pp, name), list(names), t, **kw)
            p.compute()
            if name != 'IntermediateScattering':
                return p.partial[a]
            if a > b:
                # the vectors are those of the symmetric pair
                x, y = [numpy.concatenate([numpy.ravel(v) for v in p.partial[q].value]) for q in ((a, b), (b, a))]
                obs.close(x, y, 'partial/symmetric', 1e-10, 1e-9 * (1 + float(numpy.abs(y).max())), 'F(k,t) of pairs (%s,%s) and (%s,%s)' % (a, b, b, a))
            return p.partial[(min(a, b), max(a, b))]
        cf = attach(cf)
        cf.compute()
        return cf
    if kind in ('species', 'partial', 'pair'):
        s0 = s1 = m.where(a)
        if name == 'IntermediateScattering':
            if kind in ('pair', 'partial'):
                s1 = m.where(b)
    elif kind == 'filter':
        r = float(numpy.median(m.radius[0]))
        cond = 'radius < %r' % r
        w = numpy.array([j for j in range(m.N) if float(m.radius[0][j]) < r], dtype=int)
        s0 = s1 = lambda i, w=w: w
        if len(w) in (0, m.ndim):
            raise Skip('group with as many particles as dimensions')
    if any(n in (0, m.ndim) for i in range(m.n) for n in (len(s0(i)), len(s1(i)))):
        raise Skip('group with as many particles as dimensions')
    cf = compute(th)
    # The data, minus the centre of mass
    unf = []
    for i in range(m.n):
        w = m.mass[i] if case['spec']['masses'] else numpy.ones(m.N)
        cm = numpy.sum(m.unf[i] * w[:, None], axis=0) / w.sum()
        unf.append(m.unf[i] - cm)
    msg = '%s %s, centre of mass fixed' % (name, kind)
    obs.count('class:' + name)
    if case['spec'].get('store_unf'):
        obs.count('stored')
    if name == 'MeanSquareDisplacement':
        f = lambda i, j: ref.msd(unf[i][s0(i)], unf[j][s0(j)])
        tc.check_values(obs, kind + '/msd', m, cf.grid, cf.value, f, case['norigins'], block, atol=1e-9, msg=msg)
    else:
        kv = cf.kvectors
        K = fs.flat(kv)
        if name == 'IntermediateScattering':
            # pairs (B,A) are those of (A,B)
            r0 = [fs.phases(K, unf[i][s0(i)]).sum(axis=1) for i in range(m.n)]
            r1 = [fs.phases(K, unf[i][s1(i)]).sum(axis=1) for i in range(m.n)]
            if kind == 'partial' and a > b:
                r0, r1 = r1, r0
            f = lambda i, j: fs.by_shell((r0[j] * r1[i].conj()).real, kv)
            scale = float(len(s0(0)) * len(s1(0)))**0.5
        else:
            ph = [fs.phases(K, unf[i][s0(i)]) for i in range(m.n)]
            f = lambda i, j: fs.by_shell((ph[j] * ph[i].conj()).real.mean(axis=1), kv)
            scale = 1.0
        fs.check_scattering(obs, kind + '/' + ('fkt' if name == 'IntermediateScattering' else 'fskt'), m, cf, f, case['norigins'], block, case['normalize'], scale=scale, msg=msg)
    # Another rigid translation
    m2 = translate(m, rng, scale=0.05)
    th2 = gen.to_ram(m2, view=case['how'] == 'ramview')
    th2.block_size = block
    c2 = compute(th2)
    obs.count('shifted')
    two = name != 'MeanSquareDisplacement'
    for x, y in (zip(cf.grid, c2.grid) if two else [(cf.grid, c2.grid)]):
        obs.close(y, x, 'shifted/grid', msg=msg + ', after a translation: grid')
    if name == 'IntermediateScattering' and case['normalize']:
        return
    obs.close(c2.value, cf.value, 'shifted/value', 1e-7, 1e-8 * m.N, msg + ', after a translation')
