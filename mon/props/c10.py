"""C10: F(k,t) equals the collective density correlation at its wave-vectors"""
import numpy

from .. import boot, fs, gen, ref, tc
from . import c05, c07

RULE = ('one case = one generated trajectory (even / block / irregular sampling, particle numbers that change) x groups (all, species, '
        'species pair, filters) x wave-vector request or explicit wave-vectors x time grid x norigins x normalization; every (k,t) '
        'entry is compared with Re rho_0(t0+t) rho_1(t0)* averaged over origins and reported wave-vectors')
MINIMUM = 60
REQUIRED_COUNTS = {'times': 300, 'multi_origin_times': 100}
ASSUMPTIONS = ['the cell does not change along the trajectory', 'any frame of the first sampling block may serve to reach a given separation']
DEFAULTS = dict(kmin=1.0, kmax=10.0, ksamples=10)
KINDS = ['total', 'pair', 'raw', 'filters', 'varN', 'explicit', 'total', 'pair', 'default_args', 'swap']
SMALL = ['default_args']


def cases(tier, seed):
    out = []
    n = 900 if tier == 'quick' else 14000
    for i in range(n):
        rng = gen.rng_for('C10', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.dynamics_spec(rng)
        spec['store_unf'] = rng.random() < 0.2
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached', 'path'])
        groups = 'all'
        if kind == 'pair':
            spec['species'] = rng.choice(gen.SPECIES[2:])
            groups = rng.choice(['pair', 'pair', 'self'])
        elif kind == 'filters':
            groups = rng.choice(['one', 'overlap'])
        elif kind == 'varN':
            spec.update(varN=True, species=rng.choice([{'A': 1}, {'A': 3, 'B': 2}]))
            spec['N'] = max(12, spec['N'])
            groups = rng.choice(['all', 'self', 'pair'])
        elif kind == 'swap':
            # species that change along the trajectory
            spec.update(species={'A': 3, 'B': 2}, swaps=2)
            groups = rng.choice(['pair', 'self'])
        elif kind == 'explicit':
            if rng.random() < 0.4:
                spec.update(ndim=rng.choice([1, 4]), shape='cubic')
                how = 'ram'
            groups = rng.choice(['all', 'pair', 'one'])
        elif kind == 'default_args':
            spec.update(nframes=6, L=rng.choice([4.0, 6.3]), N=rng.choice([7, 12]), sampling='even')
        elif kind == 'raw':
            groups = rng.choice(['all', 'pair', 'self'])
        if len(spec['species']) == 1 and groups in ('pair', 'self'):
            groups = 'all'
        if how in ('xyz', 'xyzcached', 'path'):
            spec['store_unf'] = False
        side = [spec['L'] * x for x in (gen.SIDES[spec['shape']][:spec['ndim']] if spec['ndim'] < 4 else [1.0])]
        req = dict(kgrid=fs.random_kgrid(rng, side), nk=rng.choice([1, 3, 8, 30]), dk=rng.choice([0.1, 0.3]))
        if rng.random() < 0.2:
            req = fs.random_request(rng, side, kmax=4.0)
            req['nk'] = min(req['nk'], 30)
        sl = None
        if rng.random() < 0.2 and how != 'path' and spec['sampling'] == 'even':
            sl = [rng.choice([0, 1, 2]), rng.choice([None, spec['nframes'] - 1]), rng.choice([1, 2])]
        if spec['nframes'] < 4:
            sl = None
        out.append(dict(kind=kind, spec=spec, how=how, slice=sl, groups=groups, norigins=rng.choice(tc.NORIGINS), req=req,
                        tgrid=fs.tgrid_for(rng, spec['nframes']), sel=rng.randrange(1000), normalize=rng.random() < 0.6))
    gen.enlarge(out, 'C10', seed, 24 if tier == 'quick' else 288, ok=lambda c: c['kind'] not in SMALL)
    return out


def run(case, obs):
    pp = boot.load()
    kind = case['kind']
    m0 = gen.build(case['spec'])
    th, m = tc.trajectory(case, m0, obs.tmp)
    block = tc.block_of(m, th)
    req = dict(case['req'])
    normalize = kind != 'raw' and case['normalize']
    kw = dict(norigins=case['norigins'], normalize=normalize)
    g = tc.tgrid(case, m)
    if g is not None:
        kw['tgrid'] = g
    elif kind != 'default_args':
        kw['tsamples'] = 7
    if kind in ('default_args', 'explicit'):
        req = {}
    kw.update(req)
    s0, s1, same, filters = c05.groups_of(case, m)
    cf = c05.attach(pp.IntermediateScattering(th, **kw), filters)
    if kind == 'explicit':
        ints = c07.explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0])
        k0 = 2 * numpy.pi / m.side[0]
        cf.kvectors = [[list(numpy.array(v) * k0) for v in l] for l in ints]
    cf.compute()
    obs.count('groups:' + case['groups'])
    obs.count('sampling:' + case['spec']['sampling'])
    kv = cf.kvectors
    msg = 'F(k,t) %s' % case['groups']
    obs.close(cf.grid[0], [numpy.mean(fs.norms_of(l)) for l in kv], kind + '/k', rtol=1e-9, msg=msg + ': reported k')
    K = fs.flat(kv)
    r0 = [fs.phases(K, m.pos[i][s0(i)]).sum(axis=1) for i in range(m.n)]
    r1 = r0 if same else [fs.phases(K, m.pos[i][s1(i)]).sum(axis=1) for i in range(m.n)]
    f = lambda i, j: fs.by_shell((r0[j] * r1[i].conj()).real, kv)
    scale = float(numpy.mean([len(s0(i)) * len(s1(i)) for i in range(m.n)]))**0.5
    fs.check_scattering(obs, kind, m, cf, f, case['norigins'], block, normalize, scale=scale, msg=msg)
    if kind == 'default_args':
        want = fs.requested({}, m.side[0], DEFAULTS)
        fs.check_vectors(obs, 'vectors', cf, m.side[0], want, 100, 0.1, msg=msg)
