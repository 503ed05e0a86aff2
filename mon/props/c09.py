"""C09: F_s(k,t) equals the self density correlation at its wave-vectors"""
import numpy

from .. import boot, fs, gen, ref, tc
from . import c05, c07

RULE = ('one case = one generated trajectory x plain / compiled implementation x wave-vector request or explicit wave-vectors x time '
        'grid x norigins x species filter x memory granted for tabulation; every (k,t) entry is compared with the average of '
        'cos k.(r(t0+t)-r(t0)) at the reported wave-vectors; implementations and memory settings are compared with one another')
MINIMUM = 60
REQUIRED_COUNTS = {'times': 300, 'multi_origin_times': 100, 'agree': 20}
ASSUMPTIONS = ['the cell does not change along the trajectory', 'any frame of the first sampling block may serve to reach a given separation']
DEFAULTS = dict(kmin=1.0, kmax=10.0, ksamples=10)
KINDS = ['fast', 'legacy', 'raw', 'species', 'lookup', 'explicit', 'fast', 'legacy', 'default_args', 'big']
SMALL = ['default_args']


def cases(tier, seed):
    out = []
    n = 700 if tier == 'quick' else 12000
    for i in range(n):
        rng = gen.rng_for('C09', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.dynamics_spec(rng)
        spec['store_unf'] = rng.random() < 0.2
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached', 'path'])
        norigins = rng.choice(tc.NORIGINS)
        if kind == 'explicit' and rng.random() < 0.3:
            spec.update(ndim=rng.choice([1, 4]), shape='cubic')
            how = 'ram'
        if kind == 'species':
            spec['species'] = rng.choice(gen.SPECIES[2:])
        if kind == 'default_args':
            spec.update(nframes=6, L=rng.choice([4.0, 6.3]), N=rng.choice([7, 12]), sampling='even')
        if kind == 'big':
            # beyond the size of the blocks of particles
            spec.update(N=rng.choice([210, 230, 405]), nframes=3, sampling='even', ndim=2)
        if kind == 'lookup':
            spec['N'] = rng.choice([7, 25, 60])
        if how in ('xyz', 'xyzcached', 'path'):
            spec['store_unf'] = False
        side = [spec['L'] * x for x in (gen.SIDES[spec['shape']][:spec['ndim']] if spec['ndim'] < 4 else [1.0])]
        req = dict(kgrid=fs.random_kgrid(rng, side), nk=rng.choice([1, 3, 8, 8]), dk=rng.choice([0.1, 0.3]))
        if rng.random() < 0.15:
            req = fs.random_request(rng, side, kmax=4.0)
            req['nk'] = min(req['nk'], 10)
        sl = None
        if rng.random() < 0.2 and how != 'path' and spec['sampling'] == 'even' and spec['nframes'] > 4:
            sl = [rng.choice([0, 1, 2]), rng.choice([None, spec['nframes'] - 1]), rng.choice([1, 2])]
        if spec['nframes'] < 4:
            sl = None
        out.append(dict(kind=kind, spec=spec, how=how, slice=sl, norigins=norigins, req=req, tgrid=fs.tgrid_for(rng, spec['nframes']),
                        cls=rng.choice(['Legacy', 'Fast', '']), lookup=rng.choice([1e-5, 1e-3, 0.02, 0.1]), sel=rng.randrange(1000), normalize=rng.random() < 0.85))
    gen.enlarge(out, 'C09', seed, 24 if tier == 'quick' else 288, ok=lambda c: c['kind'] not in SMALL)
    return out


def make(pp, case, th, m, name, **over):
    req = dict(case['req'])
    kw = dict(norigins=case['norigins'], normalize=case['kind'] != 'raw' and case['normalize'])
    g = tc.tgrid(case, m)
    if g is not None:
        kw['tgrid'] = g
    if case['kind'] == 'default_args':
        req = {}
    elif g is None:
        kw['tsamples'] = 7
    if case['kind'] == 'explicit':
        req = {}
    kw.update(req)
    kw.update(over)
    cf = getattr(pp, 'SelfIntermediateScattering' + name)(th, **kw)
    if case['kind'] == 'explicit':
        ints = c07.explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0])
        k0 = 2 * numpy.pi / m.side[0]
        cf.kvectors = [[list(numpy.array(v) * k0) for v in l] for l in ints]
    return cf, kw


def run(case, obs):
    pp = boot.load()
    from atooms.postprocessing.helpers import filter_species
    kind = case['kind']
    m0 = gen.build(case['spec'])
    th, m = tc.trajectory(case, m0, obs.tmp)
    block = tc.block_of(m, th)
    name = {'legacy': 'Legacy', 'fast': 'Fast', 'lookup': 'Fast', 'big': 'Legacy'}.get(kind, case['cls'])
    over = dict(lookup_mb=case['lookup']) if kind == 'lookup' else {}
    cf, kw = make(pp, case, th, m, name, **over)
    s = m.everything()
    if kind == 'species':
        a = sorted(set(m.species[0]))[case['sel'] % len(set(m.species[0]))]
        s = m.where(a)
        cf.add_filter(filter_species, a)
    cf.compute()
    obs.count('class:' + name)
    obs.count('sampling:' + case['spec']['sampling'])
    kv = cf.kvectors
    msg = 'F_s(k,t) %s' % (name or 'default')
    mech = name.lower() or 'default'
    obs.close(cf.grid[0], [numpy.mean(fs.norms_of(l)) for l in kv], mech + '/k', rtol=1e-9, msg=msg + ': reported k')
    ph = [fs.phases(fs.flat(kv), m.unf[i][s(i)]) for i in range(m.n)]
    f = lambda i, j: fs.by_shell((ph[j] * ph[i].conj()).real.mean(axis=1), kv)
    fs.check_scattering(obs, mech, m, cf, f, case['norigins'], block, kw['normalize'], msg=msg)
    v = numpy.array(cf.value)
    obs.check(numpy.all(numpy.abs(v) <= 1 + 1e-9), mech + '/bounds', lambda: '%s: values outside [-1,1]: %s' % (msg, v[numpy.abs(v) > 1]))
    if kind == 'default_args':
        want = fs.requested({}, m.side[0], DEFAULTS)
        fs.check_vectors(obs, mech + '/vectors', cf, m.side[0], want, 8, 0.1, msg=msg)
    # Other implementations and settings
    th2, _ = tc.trajectory(dict(case, how='ram', slice=None), m, obs.tmp)
    th2.block_size = block
    other = {'Legacy': 'Fast', 'Fast': 'Legacy', '': 'Legacy'}[name]
    over = {}
    if kind == 'lookup' or case['sel'] % 3 == 0:
        other, over = 'Fast', dict(lookup_mb=64.0 if kind == 'lookup' else case['lookup'])
    c2, _ = make(pp, case, th2, m, other, **over)
    if kind == 'species':
        c2.add_filter(filter_species, a)
    c2.compute()
    obs.count('agree')
    obs.close(c2.grid[1], cf.grid[1], 'agree/times', msg='%s and %s %s: times' % (name, other, over))
    obs.close(c2.value, cf.value, 'agree/value', rtol=1e-9, atol=1e-9, msg='%s and %s %s' % (name, other, over))
