"""C11: the spectral density uses the physical wave-vector and radius of each particle"""
import os

import numpy

from .. import boot, fs, gen, ref, tc
from ..harness import Skip
from . import c07

RULE = ('one case = one generated 3d trajectory (any cell shape and units, radii that differ between particles and change along the '
        'trajectory, slices, cells that change, particle numbers that change) x wave-vector request or explicit wave-vectors x norigins; '
        'every reported value is compared with the direct sum at the reported wave-vectors, and with that of the rescaled system')
MINIMUM = 60
REQUIRED_COUNTS = {'shells_checked': 200, 'sums': 1000, 'rescaled': 20}
ASSUMPTIONS = ['when the volume changes along the trajectory the average over all frames or over the frames in use is accepted']
DEFAULTS = dict(kmin=-1.0, kmax=15.0, ksamples=30)
KINDS = ['auto', 'slice', 'scale', 'explicit', 'auto', 'varcell', 'varN', 'default_args']
SMALL = ['default_args']


def cases(tier, seed):
    out = []
    n = 400 if tier == 'quick' else 9000
    for i in range(n):
        rng = gen.rng_for('C11', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = fs.fourier_spec(rng, ndim=3, radvar=rng.random() < 0.6, rscale=rng.choice([0.2, 1.0, 1.0, 3.0]))
        spec['stepmult'] = rng.choice([1, 5])
        if kind == 'varcell':
            spec.update(cellvar=rng.choice(['once', 'iso', 'all', 'strong']), nframes=rng.choice([3, 4]), L=rng.choice([3.0, 5.0]))
        elif kind == 'varN':
            spec.update(varN=True, nframes=4, radvar=True)
        elif kind == 'slice':
            spec.update(nframes=rng.choice([5, 8]), radvar=True)
        elif kind == 'default_args':
            spec.update(L=rng.choice([4.0, 5.0]), nframes=1, N=9, shape='cubic')
        if rng.random() < 0.12:
            spec['images'] = True
        side = [spec['L'] * x for x in gen.SIDES[spec['shape']]]
        out.append(dict(kind=kind, spec=spec, req=fs.random_request(rng, side), how=rng.choice(['ram', 'xyz', 'xyzcached', 'ramview', 'path']),
                        slice=[rng.choice([1, 2, 0]), rng.choice([None, -1]), rng.choice([1, 2])] if kind == 'slice' else None,
                        norigins=rng.choice([-1, -1, 1, 2, 0.5, None]), sel=rng.randrange(1000), s=rng.choice([0.1, 0.37, 2.5, 10.0]),
                        rcols=rng.choice([['name', 'pos', 'radius'], ['name', 'radius', 'pos'], ['name', 'pos', 'vel', 'mass', 'radius']])))
    gen.enlarge(out, 'C11', seed, 16 if tier == 'quick' else 192, ok=lambda c: c['kind'] not in SMALL)
    return out


def mk(norm, R):
    x = norm * R
    return 4 * numpy.pi * (numpy.sin(x) - x * numpy.cos(x)) / norm**3


def make(pp, case, th, radii, m, req):
    kw = dict(req)
    late = kw.get('kgrid') is not None and case['sel'] % 4 == 0
    g = kw.pop('kgrid') if late else None
    cf = pp.SpectralDensity(th, radii, norigins=case['norigins'], **kw)
    if late:
        cf.kgrid = list(g)
    if case['kind'] == 'explicit':
        ints = c07.explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0])
        k0 = 2 * numpy.pi / m.side[0]
        cf.kvectors = [[list(numpy.array(v) * k0) for v in l] for l in ints]
    return cf


def run(case, obs):
    pp = boot.load()
    kind = case['kind']
    m0 = gen.build(case['spec'])
    if case['spec'].get('images'):
        from . import c05
        c05.images(m0, case['spec']['seed'])
    radii = gen.to_xyz(m0, os.path.join(obs.tmp, 'radii.xyz'), case['rcols'])
    th, m = tc.trajectory(dict(case, how='ram' if case['how'] == 'path' and kind == 'slice' else case['how']), m0, obs.tmp)
    block = tc.block_of(m, th)
    req = dict(case['req'])
    if kind == 'default_args':
        req = dict(nk=20, dk=0.1)
    elif kind == 'explicit':
        req = {}
    elif kind == 'varcell':
        req['nk'] = 10**6
    cf = make(pp, case, th, radii, m, req if kind != 'default_args' else {})
    cf.compute()
    frames = list(range(0, m.n, ref.skip_of(case['norigins'], m.n, block, m.N)))
    variable = any(numpy.any(s != m.side[0]) for s in m.side)
    if variable:
        per = []
        for i in range(m.n):
            sh, _, amb = ref.shells(m.side[i], fs.requested(req, m.side[i], DEFAULTS), req['dk'])
            if amb:
                obs.count('ambiguous')
                return
            per.append([[numpy.array(v) * 2 * numpy.pi / m.side[i] for v in l] for l in sh])
    else:
        kv = cf.kvectors
        per = [kv] * m.n
        obs.close(cf.grid, [numpy.mean(fs.norms_of(l)) for l in kv], 'grid', rtol=1e-9, msg='reported k')
    tot, cnt = None, None
    scale = 0.0
    for i in frames:
        if tot is None:
            tot, cnt = numpy.zeros(len(per[i])), numpy.zeros(len(per[i]))
        for j, klist in enumerate(per[i]):
            for k in klist:
                w = mk(float(numpy.sqrt(numpy.dot(k, k))), m.radius[i])
                tot[j] += abs(ref.rho(k, m.pos[i], w))**2
                cnt[j] += 1
                scale = max(scale, float(numpy.sum(numpy.abs(w))**2))
                obs.count('sums')
    vols = set([float(numpy.mean([numpy.prod(m.side[i]) for i in fr])) for fr in (range(m.n), frames)])
    v = numpy.array(cf.value, dtype=float)
    if not obs.check(len(v) == len(tot) == len(cf.grid), 'length', lambda: '%d values, %d k, %d shells' % (len(v), len(cf.grid), len(tot))):
        return
    obs.count('shells_checked', len(v))
    obs.values += len(v)
    ok = any(bool(numpy.all(numpy.abs(v - tot / cnt / V) <= 1e-8 * numpy.abs(v) + 1e-12 * scale / V)) for V in vols)
    obs.check(ok, 'value/' + kind, lambda: 'spectral density: got %s expected %s (k=%s)' % (
        v.tolist()[:6], (tot / cnt / max(vols)).tolist()[:6], numpy.array(cf.grid).tolist()[:6]))
    if kind == 'scale' and not variable:
        # Change of units
        s = case['s']
        m2 = m0.copy()
        m2.side = [x * s for x in m2.side]
        m2.pos = [x * s for x in m2.pos]
        m2.unf = [x * s for x in m2.unf]
        m2.radius = [x * s for x in m2.radius]
        r2 = gen.to_xyz(m2, os.path.join(obs.tmp, 'radii2.xyz'), case['rcols'])
        th2 = gen.to_ram(m2)
        th2.block_size = block
        c2 = pp.SpectralDensity(th2, r2, norigins=case['norigins'])
        c2.kvectors = [[list(numpy.array(k) / s) for k in l] for l in kv]
        c2.compute()
        obs.count('rescaled')
        obs.close(numpy.array(c2.grid) * s, cf.grid, 'scale/grid', msg='k in other units')
        obs.close(numpy.array(c2.value) / s**3, cf.value, 'scale/value', rtol=1e-7, atol=1e-11 * scale / min(vols), msg='spectral density in other units (factor %r)' % s)
