"""C08: wave-vectors are valid, within their shell, capped, unique and reproducible"""
import random

import numpy

from .. import boot, fs, gen, ref, tc
from . import c05

RULE = ('one case = one Fourier space class x a wave-vector request (explicit grid sorted or not, before or after construction, '
        'negative first entry, automatic grids, narrow / wide / overlapping shells, large cells) on a generated cell; all the '
        'wave-vectors reported after the calculation are checked against the enumeration of the reciprocal lattice, and against '
        'those of the same request repeated after other calculations, with filters, after consuming random numbers, or by an object built beforehand')
MINIMUM = 60
REQUIRED_COUNTS = {'vectors': 1500, 'shells': 200, 'repeats': 100}
ASSUMPTIONS = ['a vector within dk of two requested values belongs to the first one', 'when a vector lies within 1e-9 of the border '
               'of a shell, the number of vectors in the shells is not checked']

CLASSES = ['StructureFactorLegacy', 'StructureFactorFast', 'SelfIntermediateScatteringLegacy', 'SelfIntermediateScatteringFast',
           'IntermediateScattering', 'SpectralDensity', 'S4ktOverlap', 'SelfIntermediateScattering', 'StructureFactor']
DEFAULTS = {
    'StructureFactor': dict(kmin=-1.0, kmax=15.0, ksamples=30, nk=20, dk=0.1),
    'SpectralDensity': dict(kmin=-1.0, kmax=15.0, ksamples=30, nk=20, dk=0.1),
    'SelfIntermediateScattering': dict(kmin=1.0, kmax=10.0, ksamples=10, nk=8, dk=0.1),
    'IntermediateScattering': dict(kmin=1.0, kmax=10.0, ksamples=10, nk=100, dk=0.1),
    'S4ktOverlap': dict(kmin=1.0, kmax=10.0, ksamples=10, nk=20, dk=0.1),
}


def defaults_of(name):
    for k in sorted(DEFAULTS, key=len, reverse=True):
        if name.startswith(k):
            return DEFAULTS[k]
    raise KeyError(name)


KINDS = ['request', 'request', 'request', 'large', 'defaults', 'setter', 'varcell', 'dense']


def cases(tier, seed):
    out = []
    n = 280 if tier == 'quick' else 14000
    for i in range(n):
        rng = gen.rng_for('C08', seed, i)
        kind = KINDS[i % len(KINDS)]
        name = rng.choice(CLASSES)
        spec = gen.statics_spec(rng, nframes=3, N=rng.choice([9, 14]), structure='random', species={'A': 2, 'B': 1})
        if name == 'SpectralDensity':
            spec['ndim'] = 3
        if kind == 'large':
            spec['L'] = rng.choice([70.0, 100.0])
        elif kind == 'defaults':
            spec.update(L=rng.choice([4.5, 6.0]), shape=rng.choice(['cubic', 'long']))
            if name == 'IntermediateScattering':
                spec.update(nframes=2)
        elif kind == 'varcell':
            spec.update(cellvar=rng.choice(['once', 'all', 'strong']))
            name = rng.choice(['StructureFactorLegacy', 'StructureFactorFast', 'SpectralDensity'])
            spec['ndim'] = 3
        side = [spec['L'] * x for x in gen.SIDES[spec['shape']][:spec['ndim']]]
        req = fs.random_request(rng, side)
        if kind == 'large':
            k0 = 2 * numpy.pi / max(side)
            req = dict(nk=rng.choice([2, 20, 1000]), dk=rng.choice([0.1, 0.05]))
            if rng.random() < 0.5:
                req.update(kmin=-1, kmax=round(4 * k0, 3), ksamples=3)
            else:
                req['kgrid'] = rng.choice([[0.0, 3 * k0], [round(k0, 4), round(3.3 * k0, 4)], [0.05], [-1, round(4 * k0, 3)]])
        elif kind == 'defaults':
            req = {}
        elif kind == 'dense':
            # shells much closer than the wave-vectors of a small cell
            L = rng.choice([2.0, 3.0, 4.0, 5.0])
            spec.update(L=L, shape='cubic', ndim=3 if name == 'SpectralDensity' else rng.choice([2, 2, 3]))
            top = 2.5 if spec['ndim'] == 3 else rng.choice([1.5, 2.5, 4.0])
            req = dict(kmin=rng.choice([-1, round(1.1 * 2 * numpy.pi / L, 2)]), kmax=round(top * 2 * numpy.pi / L, 2), ksamples=rng.choice([8, 12, 16] if spec['ndim'] == 3 else [10, 16, 24]), nk=rng.choice([1, 5, 20]),
                       dk=rng.choice([0.05, 0.1, 0.2]))
        out.append(dict(kind=kind, cls=name, spec=spec, req=req, late=rng.random() < 0.25, sel=rng.randrange(1000),
                        between=rng.choice(['nothing', 'random', 'other', 'seed']), how=rng.choice(['ram', 'xyz', 'ramview'])))
    return out


def make(pp, name, case, th, tmp, m, req, late, radii=None):
    cls = getattr(pp, name)
    kw = dict(req)
    g = kw.pop('kgrid', None)
    late = late and g is not None
    args = []
    if name == 'SpectralDensity':
        args = [radii]
    elif name == 'S4ktOverlap':
        kw['tgrid'] = [m.steps[1] * m.timestep]
    elif 'Scattering' in name:
        kw['tgrid'] = [0.0, m.steps[1] * m.timestep]
    if g is not None and not late:
        kw['kgrid'] = g
    cf = cls(th, *args, **kw)
    if late:
        cf.kgrid = g
    return cf


def ints_of(cf, side):
    k0 = 2 * numpy.pi / side
    return [[tuple(int(x) for x in numpy.rint(numpy.asarray(k) / k0)) for k in l] for l in cf.kvectors]


def run(case, obs):
    pp = boot.load()
    m = gen.build(case['spec'])
    name, kind = case['cls'], case['kind']
    radii = gen.to_xyz(m, obs.tmp + '/radii.xyz', ['name', 'pos', 'radius']) if name == 'SpectralDensity' else None
    th = gen.container(m, case['how'], obs.tmp)
    req = dict(case['req'])
    d = defaults_of(name)
    grid = list(req['kgrid']) if 'kgrid' in req else None
    mine = list(grid) if grid is not None else None
    if grid is not None:
        req['kgrid'] = mine if case['sel'] % 3 else numpy.array(mine)
    passed = req.get('kgrid')
    if kind == 'setter':
        # Wave-vectors given by the user are the ones used
        from .c07 import explicit_vectors
        ints = explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0])
        k0 = 2 * numpy.pi / m.side[0]
        vec = [[list(numpy.array(v) * k0) for v in l] for l in ints]
        keep = [[list(v) for v in l] for l in vec]
        cf = make(pp, name, case, th, obs.tmp, m, {}, False, radii)
        cf.kvectors = vec
        cf.compute()
        got = ints_of(cf, m.side[0])
        obs.count('vectors', sum(len(l) for l in got))
        obs.same(got, ints, 'explicit/used', '%s: wave-vectors in use, against those provided' % name)
        for l, w in zip(cf.kvectors, keep):
            obs.close(l, w, 'explicit/values', msg='%s: wave-vectors' % name)
        obs.same(vec, keep, 'explicit/input', '%s: wave-vectors provided by the user' % name)
        obs.close(cf.kgrid, [numpy.mean(fs.norms_of(l)) for l in keep], 'explicit/mean', msg='%s: reported k' % name)
        return
    cf = make(pp, name, case, th, obs.tmp, m, req, case['late'], radii)
    ahead = None
    if case['sel'] % 5 < 2 and kind != 'varcell':
        # Another object with the same request, built before the first one is computed
        ahead = make(pp, name, case, gen.to_ram(m), obs.tmp, m, dict(req, kgrid=list(grid)) if grid is not None else req, not case['late'], radii)
    cf.compute()
    last = -1 if kind == 'varcell' else 0
    side = m.side[last]
    if kind != 'varcell':
        if passed is not None:
            obs.same([float(x) for x in passed], [float(x) for x in mine], 'input', '%s: the grid given by the user' % name)
        obs.count('class:' + name)
    want = fs.requested(dict(req, kgrid=grid) if grid is not None else req, side, d)
    ints = fs.check_vectors(obs, 'vectors', cf, side, want, req.get('nk', d['nk']), req.get('dk', d['dk']),
                            msg='%s, request %s' % (name, case['req']))
    gk = cf.grid if cf.short_name.count(',') == 0 else cf.grid[cf.grid_name.index('k')]
    if kind != 'varcell':
        obs.close(gk, cf.kgrid, 'grid', msg='%s: k in the results' % name)
    # Report
    txt = cf.report()
    rows = [l.split() for l in txt.split('\n') if l.strip() and not l.startswith('#')]
    obs.check(len(rows) == len(cf.kgrid) and all(len(r) == 4 for r in rows), 'report', lambda: '%s: report %r' % (name, txt))
    if len(rows) == len(cf.kgrid) and all(len(r) == 4 for r in rows):
        for r, l, k in zip(rows, cf.kvectors, cf.kgrid):
            n = fs.norms_of(l)
            obs.check(abs(float(r[0]) - k) < 1e-9 and abs(float(r[1]) - numpy.mean(n)) < 1e-5 and abs(float(r[2]) - numpy.std(n)) < 1e-5 and int(r[3]) == len(n),
                      'report', lambda: '%s: report row %s, shell of %d vectors of norms %s' % (name, r, len(n), n[:5]))
    rows = [l.split() for l in cf.report(verbose=True).split('# k-point, k-vector\n')[-1].split('\n') if l.strip()]
    obs.check(len(rows) == sum(len(l) for l in cf.kvectors), 'report', lambda: '%s: %d wave-vectors in the verbose report' % (name, len(rows)))
    if kind == 'varcell' or ints is None:
        return
    if ahead is not None:
        ahead.compute()
        obs.count('ahead')
        obs.same(ints_of(ahead, side), ints, 'ahead', '%s: wave-vectors of the same request (%s), the object being built before the first one was computed' % (name, case['req']))
    # Same request again, in other circumstances
    if case['between'] == 'random':
        random.seed(case['sel'])
        [random.random() for _ in range(case['sel'] % 17)]
    elif case['between'] == 'seed':
        random.seed(None)
        numpy.random.seed(case['sel'])
    elif case['between'] == 'other':
        o = pp.StructureFactorLegacy(gen.to_ram(m), [2.0 + 0.1 * (case['sel'] % 7)], nk=3, dk=0.4)
        o.compute()
    c2 = make(pp, name, case, gen.to_ram(m), obs.tmp, m, dict(req, kgrid=list(grid)) if grid is not None else req, not case['late'], radii)
    from atooms.postprocessing.helpers import filter_species
    if name not in ('SpectralDensity',) and case['sel'] % 2:
        c2.add_filter(filter_species, 'A' if case['sel'] % 4 == 1 else 'B')
    c2.compute()
    obs.count('repeats')
    obs.same(ints_of(c2, side), ints, 'repeat', '%s: wave-vectors of the same request (%s) after %s' % (name, case['req'], case['between']))
    # Different classes agree on the same request
    if grid is not None and 'nk' in req:
        c3 = pp.StructureFactorLegacy(gen.to_ram(m), list(grid), nk=req['nk'], dk=req['dk'])
        c3.compute()
        obs.same([sorted(l) for l in ints_of(c3, side)], [sorted(l) for l in ints], 'classes', '%s and StructureFactorLegacy: wave-vectors of the same request' % name)
