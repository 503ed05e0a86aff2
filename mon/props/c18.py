"""C18: computing again gives the same answer"""
import copy
import json
import os
import random
import subprocess
import sys

import numpy

from .. import boot, classes, fs, gen, native, ref, tc
from ..harness import Skip

RULE = ('one case = one generated trajectory x one correlation class x one history: computing or doing again on the same object (2-3 times), a second '
        'object with the same arguments, other correlations and random numbers consumed in between, argument lists shared between objects, weights, filters, '
        'partial sets, progress bars and logging on or off, another process (with or without tqdm): grids, values, analysis and wave-vectors are compared (to rounding; wave-vectors exactly)')
MINIMUM = 150
REQUIRED_COUNTS = {'compared': 500, 'progress': 15}
ASSUMPTIONS = ['the same installation and machine']
KINDS = ['again', 'again', 'do', 'rebuilt', 'between', 'shared', 'random', 'weight', 'filter', 'partial', 'defaults', 'progress']


def cases(tier, seed):
    out = []
    n = 900 if tier == 'quick' else 14000
    for i in range(n):
        rng = gen.rng_for('C18', seed, i)
        name = classes.ALL[i % len(classes.ALL)]
        kind = KINDS[(i // len(classes.ALL)) % len(KINDS)]
        spec = classes.spec_for(rng, name)
        if kind == 'weight':
            name = rng.choice(['StructureFactorLegacy', 'StructureFactorFast'])
            spec = classes.spec_for(rng, name, chargevar=True)
        if kind == 'filter' and name == 'SpectralDensity':
            # filters are not supported by this one
            kind = 'again'
        if kind == 'partial':
            spec['species'] = rng.choice(gen.SPECIES[2:])
            if name in classes.NOPARTIAL:
                kind = 'again'
        if name in classes.STATIC and name != 'BondAngleDistribution' and rng.random() < 0.2:
            spec.update(cellvar='iso', nframes=3)
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached', 'ramfile'])
        if not how.startswith('xyz') and rng.random() < 0.2:
            spec['store_unf'] = True
        if kind in ('do',):
            how = rng.choice(['xyz', 'xyzcached', 'ramfile', 'ram'])
        out.append(dict(kind=kind, cls=name, spec=spec, how=how, args=classes.args_for(rng, name, spec), sel=rng.randrange(10**6),
                        other=rng.choice(classes.ALL), cond=rng.choice(['radius < 0.5', 'charge > 0', 'radius >= 0.45'])))
    for i in range(6 if tier == 'quick' else 60):
        # the largest distance is the centre of the last bin, to rounding
        rng = gen.rng_for('C18', seed, 'border', i)
        spec = gen.statics_spec(rng, N=12, L=8.0, shape='cubic')
        k, dr = (5, 0.35) if i % 3 == 0 else (rng.randrange(3, 12), rng.choice([0.05, 0.1, 0.15, 0.2, 0.3, 0.35]))
        out.append(dict(kind='border', cls=rng.choice(['RadialDistributionFunction', 'RadialDistributionFunctionLegacy']) if i else 'RadialDistributionFunction',
                        spec=spec, how='ram', args=dict(classes.args_for(rng, 'X', spec), rmax=(k + 0.5) * dr, dr=dr), sel=i, other='MeanSquareDisplacement', cond='charge > 0'))
    rng = gen.rng_for('C18', seed, 'process')
    for i in range(3 if tier == 'quick' else 40):
        todo = []
        for name in classes.ALL:
            spec = classes.spec_for(rng, name, N=12)
            todo.append(dict(cls=name, spec=spec, args=classes.args_for(rng, name, spec), how='ram'))
        out.append(dict(kind='process', todo=todo, hashseed=rng.randrange(1, 10**6), tqdm=i % 2 == 0, sel=rng.randrange(100)))
    return out


def state(cf):
    """What an object reports"""
    out = dict(grid=classes.plain(cf.grid), value=classes.plain(cf.value))
    for x in ('kgrid', 'kvectors'):
        try:
            y = getattr(cf, x, None)
        except Exception:
            continue
        if y is not None:
            out[x] = classes.plain(y)
    return out


def same(obs, mech, a, b, msg):
    for x in ('grid', 'value'):
        obs.count('compared')
        flat = numpy.concatenate([numpy.ravel(y) for y in (a[x] if a[x] and isinstance(a[x][0], list) else [a[x]])])
        flat = numpy.abs(flat[numpy.isfinite(flat)])
        atol = 1e-12 + 1e-10 * (float(flat.max()) if flat.size else 0.0)
        if a[x] and isinstance(a[x][0], list):
            if obs.check(len(a[x]) == len(b[x]), mech + '/' + x, lambda: '%s: %s has %d entries, it had %d' % (msg, x, len(b[x]), len(a[x]))):
                for y, z in zip(a[x], b[x]):
                    obs.close(z, y, mech + '/' + x, 1e-10, atol, '%s: %s' % (msg, x))
        else:
            obs.close(b[x], a[x], mech + '/' + x, 1e-10, atol, '%s: %s' % (msg, x))
    for x in ('kvectors',):
        if x in a and x in b:
            obs.check(repr(a[x]) == repr(b[x]), mech + '/' + x, lambda: '%s: %s is %s, it was %s' % (msg, x, repr(b[x])[:300], repr(a[x])[:300]))


def usable(m, cond):
    x = [(r < 0.5, c > 0, r >= 0.45) for r, c in zip(m.radius[0], m.charge[0])]
    n = {'radius < 0.5': 0, 'charge > 0': 1, 'radius >= 0.45': 2}[cond]
    k = sum(bool(y[n]) for y in x)
    return k > 1 and k != m.ndim


def process(pp, todo, tmp):
    out = []
    for t in todo:
        m = gen.build(t['spec'])
        sub = os.path.join(tmp, t['cls'])
        os.makedirs(sub)
        th = gen.container(m, t['how'], sub)
        cf = classes.create(pp, t['cls'], th, m, t['args'], sub)
        cf.compute()
        out.append(state(cf))
    return out


def run(case, obs):
    pp = boot.load()
    kind = case['kind']
    if kind == 'process':
        mine = process(pp, case['todo'], obs.tmp)
        path = os.path.join(obs.tmp, 'todo.json')
        with open(path, 'w') as fh:
            json.dump(case['todo'], fh)
        sub = os.path.join(obs.tmp, 'sub')
        os.makedirs(sub)
        env = dict(os.environ, PYTHONHASHSEED=str(case['hashseed']))
        p = subprocess.run([sys.executable, '-c', 'import sys; %ssys.path.insert(0, %r); from mon.props import c18; c18.child(sys.argv[1], sys.argv[2])' % (
                            '' if case['tqdm'] else 'sys.modules["tqdm"] = None; ', native.VERIF),
                            path, sub], env=env, cwd=obs.tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            obs.violation('process/died', p.stderr[-1500:])
            return
        theirs = json.load(open(os.path.join(sub, 'out.json')))
        for t, a, b in zip(case['todo'], mine, theirs):
            same(obs, 'process', a, b, '%s in another process' % t['cls'])
        return
    name = case['cls']
    m = gen.build(case['spec'])
    th = gen.container(m, case['how'], obs.tmp)
    block = th.block_size
    if case['how'] == 'ram' or case['how'] == 'ramview':
        th.block_size = block
    a = case['args']
    rng = random.Random(case['sel'])
    kw = classes.kwargs(a, name, m)
    if kind == 'defaults':
        # nothing but what is needed
        kw = {k: v for k, v in kw.items() if k in ('rcut', 'norigins', 'dr')}
        if name == 'S4ktOverlap':
            kw['tgrid'] = [0.0, m.steps[-1] * m.timestep / 2]
        if name in ('SelfIntermediateScatteringLegacy', 'SelfIntermediateScatteringFast', 'IntermediateScattering'):
            kw.update(ksamples=2, nk=3)
        if name == 'SpectralDensity' or name.startswith('Structure'):
            kw.update(ksamples=4, kmax=4.0)
    if kind == 'border':
        kw = dict(dr=a['dr'], rmax=a['rmax'])
    names = sorted(set(m.species[0]))
    msg = '%s, %s' % (name, kind)
    groups = [(0, 'all')]

    def build(t=None, kwargs=None):
        cf = classes.create(pp, name, th if t is None else t, m, a, obs.tmp, kw=copy.deepcopy(kw) if kwargs is None else kwargs)
        if kind == 'filter' and usable(m, case['cond']):
            cf = pp.Filter(cf, case['cond'] if cf.nbodies == 1 else '%s,%s' % (case['cond'], case['cond']))
        if kind == 'weight':
            cf.add_weight(field='charge', fluctuations=bool(case['sel'] % 2))
        return cf
    obs.count('class:' + name)
    if kind in ('again', 'defaults', 'filter', 'weight', 'border'):
        cf = build()
        cf.compute()
        first = state(cf)
        for i in range(1 + case['sel'] % 2):
            cf.compute()
            same(obs, kind, first, state(cf), msg + ', computed again')
        c2 = build()
        c2.compute()
        same(obs, kind + '/rebuilt', first, state(c2), msg + ', another object')
        if kind == 'filter' and usable(m, case['cond']) or kind == 'weight':
            # filters and weights that are added after a first calculation
            c3 = classes.create(pp, name, th, m, a, obs.tmp, kw=copy.deepcopy(kw))
            c3.compute()
            if kind == 'filter':
                c3 = pp.Filter(c3, case['cond'] if c3.nbodies == 1 else '%s,%s' % (case['cond'], case['cond']))
            else:
                c3.add_weight(field='charge', fluctuations=bool(case['sel'] % 2))
            c3.compute()
            same(obs, kind + '/later', first, state(c3), msg + ', added after computing without it')
            obs.count('later')
    elif kind == 'do':
        cf = build()
        files = []
        states = []
        for i in range(2):
            try:
                cf.do()
            except ValueError as e:
                if 'Scattering' in name and cf.grid[1][0] > 0:
                    raise Skip('no entry at t=0 to extract relaxation times from')
                raise
            states.append(state(cf))
            states[-1]['analysis'] = repr(cf.analysis)
            text = {}
            for f in sorted(os.listdir(obs.tmp)):
                if '.pp.' in f:
                    text[f] = open(os.path.join(obs.tmp, f)).read()
            files.append({f: '\n'.join(l for l in x.split('\n') if 'date' not in l) for f, x in text.items()})
        same(obs, kind, states[0], states[1], msg + ', done again')
        path = os.path.join(obs.tmp, 'traj.xyz')
        if os.path.exists(path):
            # Read from the file, then computed
            os.utime(path, (10**9, 10**9))
            c2 = build()
            c2.do(update=True)
            obs.count('read_back')
            for i in range(2):
                c2.compute()
                same(obs, 'readback', states[0], state(c2), msg + ', computed after reading the file')
            c2.read()
            c2.compute()
            same(obs, 'readback', states[0], state(c2), msg + ', computed, read and computed again')
        obs.same(states[1]['analysis'], states[0]['analysis'], kind + '/analysis', msg)
        obs.same(files[1], files[0], kind + '/files', msg + ': output files')
    elif kind == 'rebuilt':
        c1, c2 = build(), build()
        c1.compute()
        s = state(c1)
        c2.compute()
        same(obs, kind, s, state(c2), msg)
        same(obs, kind + '/first', s, state(c1), msg + ': the first object')
        t2 = gen.to_ram(m)
        t2.block_size = block
        if not case['how'].startswith('xyz'):
            c3 = build(t2)
            c3.compute()
            same(obs, kind + '/copy', s, state(c3), msg + ', on a copy of the trajectory')
    elif kind == 'between':
        c1 = build()
        c1.compute()
        s = state(c1)
        c0 = build()
        other = case['other']
        spec = dict(case['spec'])
        if not (other == 'SpectralDensity' and m.ndim != 3):
            b = dict(a)
            try:
                o = classes.create(pp, other, th, m, b, obs.tmp)
                o.compute()
                obs.count('others')
            except Exception:
                # whether that one can be computed is monitored elsewhere
                pass
        c2 = build()
        c2.compute()
        same(obs, kind, s, state(c2), msg + ' (%s)' % other)
        c0.compute()
        same(obs, kind + '/before', s, state(c0), msg + ' (%s), object created before' % other)
        same(obs, kind + '/first', s, state(c1), msg + ' (%s): results of the first object' % other)
        c1.compute()
        same(obs, kind + '/again', s, state(c1), msg + ' (%s), computed again' % other)
    elif kind == 'random':
        c1 = build()
        c1.compute()
        s = state(c1)
        for i in range(case['sel'] % 7):
            random.random()
            numpy.random.random()
        random.seed(case['sel'])
        c2 = build()
        random.seed(case['sel'] + 1)
        numpy.random.seed(case['sel'] + 1)
        c2.compute()
        same(obs, kind, s, state(c2), msg)
        random.random()
        c2.compute()
        same(obs, kind + '/again', s, state(c2), msg + ', computed again')
    elif kind == 'progress':
        c1 = build()
        c1.compute()
        s = state(c1)
        try:
            from atooms.postprocessing import progress
            progress.active
        except (ImportError, AttributeError):
            raise Skip('no progress bars')
        import io
        import logging
        log, stdout = logging.getLogger('atooms.postprocessing'), sys.stdout
        was, level, disabled = progress.active, log.level, logging.root.manager.disable
        handler = logging.StreamHandler(io.StringIO())
        progress.active, sys.stdout = True, io.StringIO()
        logging.disable(logging.NOTSET)
        log.setLevel(logging.DEBUG)
        log.addHandler(handler)
        try:
            c2 = build()
            if rng.random() < 0.5:
                c2.output_path = None
                try:
                    c2()
                except ValueError:
                    # no entry at t=0 to extract relaxation times from
                    if not ('Scattering' in name and c2.grid[1][0] > 0):
                        raise
                obs.count('called')
            else:
                c2.compute()
        finally:
            progress.active, sys.stdout = was, stdout
            log.removeHandler(handler)
            log.setLevel(level)
            logging.disable(disabled)
        same(obs, kind, s, state(c2), msg)
        c3 = build()
        c3.compute()
        same(obs, kind + '/off', s, state(c3), msg)
        obs.count('progress')
    elif kind == 'shared':
        shared = copy.deepcopy(kw)
        before = repr(shared)
        c1 = build(kwargs=shared)
        c2 = build(kwargs=shared)
        fresh = build()
        fresh.compute()
        s = state(fresh)
        c1.compute()
        c2.compute()
        same(obs, kind + '/first', s, state(c1), msg)
        same(obs, kind + '/second', s, state(c2), msg)
        c3 = build(kwargs=shared)
        c3.compute()
        same(obs, kind + '/third', s, state(c3), msg)
        # A grid shared with another trajectory
        m2 = m.copy()
        if name not in ('SpectralDensity',):
            m2.side = [x * 1.25 for x in m2.side]
            m2.pos = [x * 1.25 for x in m2.pos]
            m2.unf = [x * 1.25 for x in m2.unf]
            t2 = gen.to_ram(m2)
            t2.block_size = block
            f2 = build(t2)
            f2.compute()
            c4 = build(t2, kwargs=shared)
            c4.compute()
            same(obs, kind + '/trajectory', state(f2), state(c4), msg + ', on another trajectory')
            c1.compute()
            same(obs, kind + '/back', s, state(c1), msg + ', after another trajectory')
    elif kind == 'partial':
        from atooms.postprocessing.partial import Partial
        p = Partial(getattr(pp, name), list(names), th, **copy.deepcopy(kw))
        p.compute()
        s = {repr(k): state(c) for k, c in p.partial.items()}
        p.compute()
        for k, c in p.partial.items():
            same(obs, kind, s[repr(k)], state(c), msg + ' %s, computed again' % (k,))
        p2 = Partial(getattr(pp, name), list(names), th, **copy.deepcopy(kw))
        p2.compute()
        for k, c in p2.partial.items():
            same(obs, kind + '/rebuilt', s[repr(k)], state(c), msg + ' %s, another object' % (k,))


def child(path, out):
    """In another process"""
    pp = boot.load()
    res = process(pp, json.load(open(path)), out)
    with open(os.path.join(out, 'out.json'), 'w') as fh:
        json.dump(res, fh)
