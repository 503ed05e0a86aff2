"""C34: requests that cannot be honoured are refused, and change neither the object nor the trajectory"""
import copy
import os
import subprocess
import sys

import numpy

from .. import boot, classes, gen, native
from ..harness import Skip
from .c18 import same, state
from .c21 import differences, snapshot

RULE = ('one case = one generated trajectory x one correlation class x one request that cannot be honoured: one filter too many, more conditions than bodies, a condition on a property that '
        'does not exist, a weight without field, missing from the particles or given at other steps, an absent species, wave-vectors in an unsupported dimension, a missing output file, a bad number of origins, '
        'a trajectory file that is missing or cut short; the request must raise an exception, after which object, trajectory, files and other objects must give what they would have given without it')
MINIMUM = 150
REQUIRED_COUNTS = {'refused': 300, 'compared': 500, 'written': 60, 'dimension': 15, 'command line': 4}
ASSUMPTIONS = ['requests are refused by any exception; which one is checked only for ValueError where documented by the code (filters, weights)']
KINDS = ['filters', 'conditions', 'refilter', 'weight', 'nofield', 'unknown', 'missing', 'absent', 'dimension', 'noread', 'origins', 'truncated']
CASE_TIMEOUT = 120
WHAT = ['missing', 'command', 'format', 'option', 'several', 'filter', 'truncated']


def cases(tier, seed):
    out = []
    n = 1200 if tier == 'quick' else 10000
    for i in range(n):
        rng = gen.rng_for('C34', seed, i)
        name = classes.ALL[i % len(classes.ALL)]
        kind = KINDS[(i // len(classes.ALL)) % len(KINDS)]
        if kind in ('weight', 'nofield', 'missing'):
            name = rng.choice(['StructureFactorLegacy', 'StructureFactorFast'])
        if kind == 'dimension':
            name = rng.choice(['StructureFactorLegacy', 'StructureFactorFast', 'SelfIntermediateScatteringLegacy', 'IntermediateScattering'])
        if kind in ('filters', 'conditions', 'refilter', 'unknown', 'absent', 'truncated') and name == 'SpectralDensity':
            kind = 'noread'
        spec = classes.spec_for(rng, name, N=16)
        if kind == 'dimension':
            spec.update(ndim=rng.choice([1, 4]), shape='cubic', N=12)
        if kind in ('refilter', 'absent'):
            spec['species'] = rng.choice(gen.SPECIES[2:])
            spec['N'] = 24
        how = rng.choice(['ram', 'ramview', 'xyz', 'xyzcached', 'ramfile'])
        if kind == 'dimension':
            how = 'ram'
        if kind == 'weight' and rng.random() < 0.7:
            how = rng.choice(['ram', 'xyz'])
        if kind == 'truncated':
            how = 'xyz'
        args = classes.args_for(rng, name, spec)
        args['nk'] = rng.choice([1, 4])
        out.append(dict(kind=kind, cls=name, spec=spec, args=args, sel=rng.randrange(10**6), how=how, later=rng.random() < 0.4))
    for i in range(14 if tier == 'quick' else 84):
        rng = gen.rng_for('C34cli', seed, i)
        out.append(dict(kind='cli', cls='MeanSquareDisplacement', spec=gen.dynamics_spec(rng, ndim=3), what=WHAT[i % len(WHAT)], function=rng.choice(['msd', 'sk', 'gr', 'vacf', 'ik', 'fskt', 'alpha2', 'qst']), sel=rng.randrange(10**6)))
    return out


def cli(case, obs, m):
    root = os.path.join(obs.tmp, 'cli')
    os.makedirs(root)
    path = os.path.join(root, 'traj.xyz')
    gen.to_xyz(m, path)
    f, no = case['function'], os.path.join(root, 'other.xyz')
    args = dict(missing=[f, no], command=['nothing', path], format=['--fmt', 'nothing', f, path], option=[f, '--nothing', path], several=[f, path, no],
                filter=['--filter', 'nothing > 1', f, path], truncated=[f, path])[case['what']]
    if f in ('sk', 'fskt'):
        args += ['--kmax', '4', '--ksamples', '3']
    if case['what'] == 'truncated':
        with open(path) as fh:
            lines = fh.readlines()
        with open(path, 'w') as fh:
            fh.writelines(lines[:-3])
    if case['what'] == 'filter' and f == 'ik':
        raise Skip('no filter')
    before = snapshot(root)
    env = dict(os.environ, PYTHONPATH=native.REPO + os.pathsep + os.environ.get('PYTHONPATH', ''))
    p = subprocess.run([sys.executable, os.path.join(native.REPO, 'bin', 'pp.py')] + args, cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    obs.count('command line')
    obs.check(p.returncode != 0, 'cli/status', lambda: 'pp.py %s succeeds' % ' '.join(args))
    new, gone, changed = differences(before, snapshot(root))
    if case['what'] == 'several':
        # the first file is processed
        new = [x for x in new if not os.path.basename(x).startswith('traj.xyz.pp.')]
    obs.check(not new and not gone and not changed, 'cli/files', lambda: 'pp.py %s: files created %s, removed %s, modified %s' % (' '.join(args), new, gone, changed))


def run(case, obs):
    pp = boot.load()
    from atooms.postprocessing.helpers import filter_species
    from atooms.trajectory import TrajectoryXYZ
    name, kind, sel = case['cls'], case['kind'], case['sel']
    m = gen.build(case['spec'])
    if kind == 'cli':
        return cli(case, obs, m)
    a = case['args']
    kw = classes.kwargs(a, name, m)
    cls = getattr(pp, name)
    two = cls.nbodies == 2
    species = sorted(set(m.species[0]))
    if kind == 'dimension':
        kw.pop('kgrid', None)

    def make(th, **over):
        cf = classes.create(pp, name, th, m, a, obs.tmp, kw=dict(copy.deepcopy(kw), **over))
        if kind == 'refilter':
            # one filter is there already
            cf.add_filter(filter_species, species[sel % len(species)])
        elif kind == 'filters':
            for _ in range(2 if two else 1):
                cf.add_filter(lambda s: s)
            if name.startswith('StructureFactor') and sel % 3:
                cf.add_weight(field='radius', fluctuations=sel % 3 == 1)
        return cf

    def vectors(cf):
        if kind == 'dimension':
            k0 = 2 * numpy.pi / m.side[0]
            cf.kvectors = [[list(k0 * numpy.eye(len(k0))[0])], [list(k0 * 2 * numpy.eye(len(k0))[-1])]]
        return cf

    def container(sub):
        path = os.path.join(obs.tmp, sub)
        os.makedirs(path)
        th = gen.container(m, case['how'], path)
        if th.filename is not None and not os.path.exists(th.filename):
            open(th.filename, 'w').close()
        return th

    def other(shift):
        x = m.copy()
        x.steps = [s + 1 for s in m.steps] if shift else [s * 2 + 1 for s in m.steps]
        return gen.to_ram(x)

    def fails(f, kinds=Exception):
        try:
            f()
        except kinds as e:
            return e
        except Exception as e:
            obs.violation(kind + '/exception', '%s: raises %r' % (msg, e))
            return e
        return None
    msg = '%s, %s' % (name, kind)
    ref = vectors(make(container('ref')))
    labels = ref.tag, ref.tag_description
    try:
        ref.compute()
    except (ValueError, IndexError) as e:
        if kind == 'truncated' or not native.REPO:
            raise
        raise Skip('not computed: %r' % e)
    expected = state(ref)
    th = container('run')
    root = os.path.join(obs.tmp, 'run')
    cf = make(th)
    if case['later'] and kind != 'dimension':
        cf.compute()
    before = snapshot(root)
    callbacks = list(th.callbacks)
    fields = [sorted(p.__dict__) for p in th[0].particle]
    usable = True
    if kind == 'filters':
        e = fails(lambda: cf.add_filter(lambda s: s), ValueError)
    elif kind == 'conditions':
        if two:
            e = fails(lambda: pp.Filter(cf, 'mass > 0,mass > 0,mass > 0'), ValueError)
        else:
            raise Skip('one body')
    elif kind == 'refilter':
        # (one filter applies to both groups)
        e = fails(lambda: pp.Filter(cf, ['mass > 0', 'mass > 0,mass > 0'][sel % 2] if two else 'mass > 0'), ValueError)
    elif kind == 'weight':
        e = fails(lambda: cf.add_weight(other(sel % 2), 'charge', fluctuations=sel % 3 == 0), ValueError)
    elif kind == 'nofield':
        e = fails(lambda: cf.add_weight(gen.to_ram(m)), ValueError)
    elif kind == 'unknown':
        bad = make(th)
        e = fails(lambda: (pp.Filter(bad, 'nothing > 1'), bad.compute()))
    elif kind == 'missing':
        bad = make(th)
        e = fails(lambda: (bad.add_weight(field='nothing'), bad.compute()))
    elif kind == 'absent':
        bad = make(th)
        e = fails(lambda: (bad.add_filter(filter_species, 'nobody'), bad.compute()))
        if e is None:
            # an empty group has no correlation
            v = numpy.ravel(numpy.array(bad.value, dtype=float)) if len(bad.value) and not isinstance(bad.value[0], list) else numpy.concatenate([numpy.ravel(x) for x in bad.value])
            obs.check(not numpy.any(numpy.isfinite(v) & (v != 0)), kind + '/values', lambda: '%s: finite values without particles: %s' % (msg, v))
            e = True
    elif kind == 'dimension':
        e = fails(cf.compute, ValueError)
        obs.count('dimension')
        vectors(cf)
    elif kind == 'noread':
        cf.output_path = os.path.join(root, 'nothing.{symbol}')
        e = fails(cf.read)
        cf.output_path = ref.output_path
    elif kind == 'origins':
        e = fails(lambda: make(th, norigins=['all', 'nothing', '', 'x1'][sel % 4]))
        if name == 'S4ktOverlap':
            e = True
    elif kind == 'truncated':
        # A copy of the file, the last frame of which is incomplete
        path = os.path.join(obs.tmp, 'short')
        os.makedirs(path)
        path = os.path.join(path, 'traj.xyz')
        with open(th.filename) as fh:
            lines = fh.readlines()
        with open(path, 'w') as fh:
            fh.writelines(lines[:-(1 + sel % 5)])
        before_ = snapshot(os.path.dirname(path))

        def go():
            with TrajectoryXYZ(path) as short:
                make(short).do()
        e = fails(go)
        new, gone, changed = differences(before_, snapshot(os.path.dirname(path)))
        obs.check(not new and not gone and not changed, kind + '/files', lambda: '%s: files created %s, removed %s, modified %s' % (msg, new, gone, changed))
    obs.count('refused')
    obs.check(e is not None, kind + '/accepted', lambda: '%s: accepted' % msg)
    # Nothing has changed
    new, gone, changed = differences(before, snapshot(root))
    obs.check(not new and not gone and not changed, kind + '/files', lambda: '%s: files created %s, removed %s, modified %s' % (msg, new, gone, changed))
    obs.check(list(th.callbacks) == callbacks, kind + '/callbacks', lambda: '%s: the callbacks of the trajectory are %s, they were %s' % (msg, th.callbacks, callbacks))
    now = [sorted(p.__dict__) for p in th[0].particle]
    obs.check(now == fields, kind + '/fields', lambda: '%s: the properties of the particles are %s, they were %s' % (msg, now[0], fields[0]))
    obs.same((cf.tag, cf.tag_description), labels, kind + '/tag', msg + ': tag and description')
    cf.compute()
    same(obs, kind, expected, state(cf), msg + ', computed afterwards')
    o = vectors(make(th))
    o.compute()
    same(obs, kind + '/other', expected, state(o), msg + ', another object')
    if kind != 'noread' and cf.output_path is not None:
        cf.write()
        obs.count('written')
        ref.write()
        x, y = [sorted(f for f in os.listdir(os.path.join(obs.tmp, d)) if '.pp.' in f) for d in ('run', 'ref')]
        obs.same(x, y, kind + '/output', msg + ': output files')
