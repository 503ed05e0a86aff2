"""C15: weights enter S(k) as per-particle factors, fluctuations relative to the mean"""
import os

import numpy

from .. import boot, fs, gen, ref, tc
from ..harness import Skip
from . import c05, c07

RULE = ('one case = one generated trajectory x structure factor class x weight field (own trajectory or another one, in memory or on file, sliced, that '
        'changes in time) with or without fluctuations x groups x norigins: every value is compared with the direct evaluation; metamorphic: unit '
        'weights, constant weights, mismatched trajectories')
MINIMUM = 60
REQUIRED_COUNTS = {'shells_checked': 200, 'other_trajectory': 40, 'refused': 5}
ASSUMPTIONS = ['when the number of particles changes along the trajectory, normalization with the average over all frames or over '
               'the frames in use is accepted']
KINDS = ['own', 'other', 'own', 'otherfile', 'slices', 'explicit', 'unit', 'const', 'mismatch', 'again', 'partial']


def cases(tier, seed):
    out = []
    n = 1200 if tier == 'quick' else 12000
    for i in range(n):
        rng = gen.rng_for('C15', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = fs.fourier_spec(rng, nframes=rng.choice([1, 2, 4, 6]), radvar=rng.random() < 0.5, chargevar=rng.random() < 0.7)
        spec['N'] = rng.choice([12, 20, 30])
        groups = rng.choice(['all', 'all', 'pair', 'self', 'one', 'overlap'])
        if kind in ('explicit', 'own', 'other') and rng.random() < 0.15:
            spec.update(ndim=rng.choice([1, 4]), shape='cubic', structure='random', N=12)
            kind = 'explicit'
        if kind == 'own' and rng.random() < 0.2:
            spec.update(varN=True, nframes=4, species=rng.choice([{'A': 1}, {'A': 3, 'B': 2}]))
        if kind == 'slices':
            spec['nframes'] = rng.choice([5, 8])
        if kind == 'partial':
            spec['species'] = {'A': 3, 'B': 2}
            groups = 'pair'
        if groups in ('one', 'overlap') and spec['radvar']:
            spec['radvar'] = False
        if len(spec['species']) == 1 and groups in ('pair', 'self'):
            groups = 'all'
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached']) if spec['ndim'] in (2, 3) else 'ram'
        if not how.startswith('xyz'):
            spec['masses'] = True
        side = [spec['L'] * x for x in (gen.SIDES[spec['shape']][:spec['ndim']] if spec['ndim'] < 4 else [1.0])]
        out.append(dict(kind=kind, spec=spec, groups=groups, how=how, req=dict(kgrid=fs.random_kgrid(rng, side), nk=rng.choice([1, 4, 30]), dk=rng.choice([0.1, 0.3])),
                        norigins=rng.choice([-1, -1, 1, 2, 0.5, None]), cls=rng.choice(['StructureFactorLegacy', 'StructureFactorFast', 'StructureFactor']),
                        field=rng.choice(['charge', 'radius', 'charge', 'wgt']), fluctuations=rng.random() < 0.5, sel=rng.randrange(1000),
                        slice=[rng.choice([0, 1, 2]), rng.choice([None, -1]), rng.choice([1, 2])]))
    gen.enlarge(out, 'C15', seed, 16 if tier == 'quick' else 192, sliced=True, ok=lambda c: c['kind'] != 'slices')
    return out


def ram_with(m, field, w, view=False):
    from atooms.trajectory.ram import TrajectoryRam, TrajectoryRamView
    th = (TrajectoryRamView if view else TrajectoryRam)()
    for i, step in enumerate(m.steps):
        s = gen.system_of(m, i)
        for p, x in zip(s.particle, w[i]):
            setattr(p, field, float(x))
        th.write(s, step)
    th.timestep = m.timestep
    return th


def file_with(m, path, field, w):
    with open(path, 'w') as fh:
        for i, step in enumerate(m.steps):
            fh.write('%d\nstep:%d columns:name,pos,%s dt:%.17g cell:%s\n' % (len(w[i]), step, field, m.timestep, ','.join('%.17g' % x for x in m.side[i])))
            for j in range(len(w[i])):
                fh.write('%s %s %.17g\n' % (m.species[i][j], ' '.join('%.17g' % x for x in m.pos[i][j]), w[i][j]))
    return path


def reference(obs, m, kv, frames, s0, s1, same, w, fluct):
    ws = []
    for s in (s0, s1):
        x = [numpy.array(w[i])[s(i)] for i in range(m.n)]
        if fluct:
            mean = numpy.mean([y.mean() for y in x])
            x = [y - mean for y in x]
        ws.append(x)
    out = []
    for klist in kv:
        a, b, ab = [], [], []
        for i in frames:
            for k in klist:
                r0 = ref.rho(k, m.pos[i][s0(i)], ws[0][i])
                r1 = ref.rho(k, m.pos[i][s1(i)], ws[1][i])
                a.append(r0)
                b.append(r1)
                ab.append(r0 * r1.conjugate())
                obs.count('sums')
        out.append((numpy.mean(ab) - numpy.mean(a) * numpy.mean(b).conjugate()).real)
    scale = max(float(numpy.sum(numpy.abs(ws[0][i])) * numpy.sum(numpy.abs(ws[1][i]))) for i in range(m.n))
    return numpy.array(out), scale


def make(pp, case, th, m):
    cls = getattr(pp, case['cls'])
    if case['kind'] == 'explicit':
        cf = cls(th, norigins=case['norigins'])
        ints = c07.explicit_vectors(numpy.random.RandomState(case['sel']), m.side[0])
        k0 = 2 * numpy.pi / m.side[0]
        cf.kvectors = [[list(numpy.array(v) * k0) for v in l] for l in ints]
        return cf
    return cls(th, norigins=case['norigins'], **dict(case['req']))


def run(case, obs):
    pp = boot.load()
    from atooms.trajectory import Sliced, TrajectoryXYZ
    kind, field, fluct = case['kind'], case['field'], case['fluctuations']
    m = gen.build(case['spec'])
    rng = numpy.random.RandomState(case['sel'])
    if kind in ('other', 'otherfile', 'slices', 'mismatch'):
        w = [rng.normal(size=len(x)) + 0.5 for x in m.pos]
    elif kind == 'unit':
        w = [numpy.ones(len(x)) for x in m.pos]
    elif kind == 'const':
        w = [numpy.ones(len(x)) * 2.5 for x in m.pos]
    else:
        if field == 'wgt':
            field = 'charge'
        w = getattr(m, field)
    if kind in ('other', 'otherfile', 'slices', 'mismatch', 'unit', 'const') and field == 'radius' and case['groups'] in ('one', 'overlap'):
        # the filter depends on it
        field = 'wgt'
    th = gen.container(m, case['how'], obs.tmp)
    wt = None
    if kind in ('other', 'unit', 'const'):
        wt = ram_with(m, field, w)
    elif kind == 'otherfile':
        wt = TrajectoryXYZ(file_with(m, os.path.join(obs.tmp, 'w.xyz'), field, w))
    elif kind == 'slices':
        sl = slice(*case['slice'])
        th = Sliced(th, sl)
        m2 = m.slice(sl)
        w2 = w[sl]
        if case['sel'] % 2:
            wt = Sliced(ram_with(m, field, w), sl)
        else:
            # the other trajectory only has those frames
            wt = ram_with(m2, field, w2)
        m, w = m2, w2
    elif kind == 'mismatch':
        m2 = m.copy()
        m2.steps = [s + 1 for s in m.steps] if case['sel'] % 2 else [s * 2 + 1 for s in m.steps]
        wt = ram_with(m2, field, w)
        cf = make(pp, case, th, m)
        obs.count('refused')
        try:
            cf.add_weight(wt, field)
            obs.violation('mismatch', 'a weight trajectory with other steps was accepted')
        except ValueError:
            obs.comparisons += 1
        try:
            cf = make(pp, case, gen.to_ram(m), m)
            cf.add_weight(ram_with(m, field, w))
            obs.violation('nofield', 'a weight without field was accepted')
        except ValueError:
            obs.comparisons += 1
        cf = make(pp, case, gen.to_ram(m), m)
        cf.add_weight()
        cf.compute()
        c2 = make(pp, case, gen.to_ram(m), m)
        c2.compute()
        obs.close(cf.value, c2.value, 'noweight', msg='S(k) with an empty weight')
        return
    s0, s1, same, filters = c05.groups_of(case, m)
    if kind == 'partial':
        from atooms.postprocessing.partial import Partial
        names = sorted(set(m.species[0]))
        p = Partial(getattr(pp, case['cls']), names, th, norigins=case['norigins'], **dict(case['req']))
        p.add_weight(wt, field, fluct)
        p.compute()
        kv = p.partial[('A', 'A')].kvectors
        frames = list(range(0, m.n, ref.skip_of(case['norigins'], m.n, tc.block_of(m, th), m.N)))
        for a in names:
            for b in names:
                want, scale = reference(obs, m, kv, frames, m.where(a), m.where(b), a == b, w, fluct)
                n = (len(m.where(a)(0)) * len(m.where(b)(0)))**0.5
                obs.count('shells_checked', len(kv))
                obs.close(p.partial[(a, b)].value, want / n, 'partial/value', 1e-8, 1e-10 * scale / n, 'weighted S(k) of %s-%s' % (a, b))
        return
    cf = c05.attach(make(pp, case, th, m), filters) if case['sel'] % 2 else make(pp, case, th, m)
    if kind == 'own' or kind in ('explicit', 'again'):
        cf.add_weight(field=field, fluctuations=fluct)
    else:
        obs.count('other_trajectory')
        cf.add_weight(wt, field, fluct)
    if not case['sel'] % 2:
        c05.attach(cf, filters)
    cf.compute()
    if kind == 'again':
        v = numpy.array(cf.value)
        cf.compute()
        obs.close(cf.value, v, 'again', 1e-10, 1e-12 + 1e-10 * float(numpy.abs(v).max()), 'weighted S(k) computed again')
    frames = list(range(0, m.n, ref.skip_of(case['norigins'], m.n, tc.block_of(m, th), m.N)))
    kv = cf.kvectors
    want, scale = reference(obs, m, kv, frames, s0, s1, same, w, fluct)
    norms = set()
    for fr in (frames, range(m.n)):
        n0, n1 = [numpy.mean([len(s(i)) for i in fr]) for s in (s0, s1)]
        norms.add(float(n0 * n1)**0.5)
    v = numpy.array(cf.value, dtype=float)
    if not obs.check(len(v) == len(want) == len(cf.grid), 'length', lambda: '%d values, %d k, %d shells' % (len(v), len(cf.grid), len(want))):
        return
    obs.count('shells_checked', len(v))
    obs.values += len(v)
    obs.check(any(bool(numpy.all(numpy.abs(v - want / n) <= 1e-8 * numpy.abs(want / n) + 1e-10 * scale / n)) for n in norms), 'value/' + kind,
              lambda: 'weighted S(k) (%s, fluctuations %s, groups %s): got %s expected %s' % (field, fluct, case['groups'], v.tolist()[:6], (want / max(norms)).tolist()[:6]))
    if kind in ('unit', 'const') and not fluct:
        # Against the unweighted one, up to the average density
        c2 = c05.attach(make(pp, case, gen.to_ram(m), m), filters)
        c2.skip = cf.skip
        c2.compute()
        c = float(w[0][0])
        obs.count('factor')
        kv2 = c2.kvectors
        obs.same(kv2, kv, 'factor/vectors', 'wave-vectors with and without weights')
        corr = []
        for klist in kv:
            a = numpy.mean([ref.rho(k, m.pos[i][s0(i)]) for i in frames for k in klist])
            b = numpy.mean([ref.rho(k, m.pos[i][s1(i)]) for i in frames for k in klist])
            corr.append((a * b.conjugate()).real / max(norms))
        obs.close(v, c**2 * (numpy.array(c2.value) - numpy.array(corr)), 'factor/value', 1e-7, 1e-9 * scale, 'S(k) with constant weight %r against the unweighted one, its average density removed' % c)
