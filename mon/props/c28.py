"""C28: the four-point structure factor is the fluctuation of the overlap modes"""
import numpy

from .. import boot, fs, gen, ref, tc
from . import c07

RULE = ('one case = a four-point structure factor computed on a generated trajectory (1-4 dimensions, even, logarithmic or irregular '
        'sampling, sliced, filtered, in memory or from files, any wave-vector grid or explicit vectors, overlap distances from tiny to '
        'huge, any origin selection), each value recomputed particle by particle from the plain data for each frame it may start from')
MINIMUM = 80
REQUIRED_COUNTS = {'points': 1500, 'times': 300, 'multi_origin_times': 100, 'moved': 500, 'stayed': 500}
ASSUMPTIONS = ['the cell and the number of particles are constant along the trajectory', 'trajectories in which a particle moves by the '
               'overlap distance within rounding are excluded', 'requested times halfway between available ones may go either way']

KINDS = ['general', 'general', 'explicit', 'species', 'sliced', 'request', 'default_args']
DEFAULTS = dict(kmin=1.0, kmax=10.0, ksamples=10, nk=20, dk=0.1)
SMALL = ['default_args']


def cases(tier, seed):
    out = []
    n = 600 if tier == 'quick' else 9000
    for i in range(n):
        rng = gen.rng_for('C28', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.dynamics_spec(rng, amp=rng.choice([0.05, 0.1, 0.2]))
        spec['store_unf'] = rng.random() < 0.2
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached'])
        if kind == 'explicit' and rng.random() < 0.4:
            spec.update(ndim=rng.choice([1, 4]), shape='cubic')
            how = 'ram'
        if kind == 'species':
            spec['species'] = rng.choice(gen.SPECIES[2:])
        if kind == 'default_args':
            spec.update(nframes=6, L=rng.choice([4.0, 6.3]), N=rng.choice([7, 12]), sampling='even')
        sl = None
        if kind == 'sliced':
            spec.update(sampling='even', nframes=rng.choice([7, 12]))
            sl = [rng.choice([0, 1, 2]), rng.choice([None, spec['nframes'] - 1]), rng.choice([1, 2])]
        if how.startswith('xyz'):
            spec['store_unf'] = False
        side = [spec['L'] * x for x in (gen.SIDES[spec['shape']][:spec['ndim']] if spec['ndim'] < 4 else [1.0])]
        if kind == 'request':
            req = fs.random_request(rng, side, kmax=4.0)
            req['nk'] = min(req['nk'], 10)
        else:
            req = dict(kgrid=fs.random_kgrid(rng, side), nk=rng.choice([1, 3, 8, 20]), dk=rng.choice([0.1, 0.3]))
        g = None
        while g is None:
            g = tc.random_tgrid(rng, spec['nframes'])
        if kind == 'default_args':
            req = {}
        if spec['nframes'] < 4:
            sl = None
        out.append(dict(kind=kind, spec=spec, how=how, slice=sl, norigins=rng.choice([-1, -1, '-1', 2, 3, 0.5, 0.34, 1, '1', None]), req=req, tgrid=g,
                        a=rng.choice([0.05, 0.2, 0.3, 0.5, 1.0, 30.0]), sel=rng.randrange(1000)))
    gen.enlarge(out, 'C28', seed, 16 if tier == 'quick' else 192, ok=lambda c: c['kind'] not in SMALL)
    return out


def run(case, obs):
    pp = boot.load()
    from atooms.postprocessing.helpers import filter_species
    kind = case['kind']
    m0 = gen.build(case['spec'])
    th, m = tc.trajectory(case, m0, obs.tmp)
    block = tc.block_of(m, th)
    kw = dict(norigins=case['norigins'], tgrid=tc.tgrid(case, m))
    if kind != 'default_args' or case['sel'] % 2:
        kw['a'] = case['a']
    a = kw.get('a', 0.3)
    if kind != 'explicit':
        kw.update(case['req'])
    cf = pp.S4ktOverlap(th, **kw)
    if kind == 'explicit':
        ints = c07.explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0])
        k0 = 2 * numpy.pi / m.side[0]
        cf.kvectors = [[list(numpy.array(v) * k0) for v in l] for l in ints]
    s = m.everything()
    if kind == 'species':
        spe = sorted(set(m.species[0]))[case['sel'] % len(set(m.species[0]))]
        s = m.where(spe)
        cf.add_filter(filter_species, spe)
    cf.compute()
    kv = cf.kvectors
    msg = 'S_4(t,k) a=%s' % a
    times = [float(t) for t in cf.grid[0]]
    obs.close(cf.grid[1], [numpy.mean(fs.norms_of(l)) for l in kv], 'k', rtol=1e-9, msg=msg + ': reported k')
    if kind == 'explicit':
        obs.same([len(l) for l in kv], [len(l) for l in ints], 'vectors', 'number of explicit vectors')
        obs.close(fs.flat(kv), [numpy.array(v) * 2 * numpy.pi / m.side[0] for v in fs.flat(ints)], 'vectors', rtol=1e-9, atol=1e-9, msg='explicit vectors')
    elif kind == 'default_args':
        fs.check_vectors(obs, 'vectors', cf, m.side[0], fs.requested({}, m.side[0], DEFAULTS), 20, 0.1, msg=msg)
    elif kind == 'request':
        fs.check_vectors(obs, 'vectors', cf, m.side[0], fs.requested(case['req'], m.side[0], DEFAULTS), case['req']['nk'], case['req']['dk'], msg=msg)
    offset = case['norigins'] != '1'
    dts = tc.check_grid(obs, 'times', m, times, block, offset, msg)
    if dts is None:
        return
    tc.check_requested(obs, 'times', m, times, kw['tgrid'], block, offset, msg=msg)
    if not obs.check(len(cf.value) == len(times) and all(len(v) == len(kv) for v in cf.value), 'shape', lambda: '%s: %d times, %d k, values %s'
                     % (msg, len(times), len(kv), [len(v) for v in cf.value])):
        return
    skip = ref.skip_of(case['norigins'], m.n, block, len(s(0)))
    if case['norigins'] is None:
        skip = [ref.skip_of(None, m.n, block, m.N), skip][0]
    pos = [m.unf[i][s(i)] for i in range(m.n)]
    ph = [fs.phases(fs.flat(kv), x) for x in pos]
    N = len(pos[0])
    seps = ref.separations(m.steps, block, offset)
    for t, dt in enumerate(dts):
        obs.count('times')
        candidates = []
        for off, i in seps[dt]:
            W = []
            for i0 in range(off, m.n - i, skip):
                if m.steps[i0 + i] - m.steps[i0] != dt:
                    continue
                d2 = ((pos[i0 + i] - pos[i0])**2).sum(axis=1)
                if numpy.any(numpy.abs(d2 - a * a) < 1e-10):
                    obs.count('ambiguous')
                    return
                w = d2 < a * a
                obs.count('stayed', int(w.sum()))
                obs.count('moved', int((~w).sum()))
                W.append((ph[i0] * w[None, :]).sum(axis=1))
            W = numpy.array(W)
            var = (abs(W)**2).mean(axis=0) - abs(W.mean(axis=0))**2
            candidates.append((fs.by_shell(var, kv) / N, len(W)))
        if max(n for _, n in candidates) > 1:
            obs.count('multi_origin_times')
        got = numpy.array([float(v) for v in cf.value[t]])
        obs.count('points', len(got))
        obs.values += len(got)
        ok = any(bool(numpy.all(numpy.abs(got - w) <= 1e-8 * (numpy.abs(w) + N))) for w, _ in candidates)
        obs.check(ok, 'value', lambda: '%s: at dt=%d steps got %s, expected one of %s (norigins=%r, skip=%d, block=%d)'
                  % (msg, dt, got.tolist(), [(w.tolist(), n) for w, n in candidates][:3], case['norigins'], skip, block))
        obs.check(bool(numpy.all(got > -1e-8 * N)), 'positive', lambda: '%s: negative fluctuations %s' % (msg, got.tolist()))
