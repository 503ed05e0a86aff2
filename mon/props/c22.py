"""C22: the high-level functions and the command line compute what the classes compute"""
import os
import shutil
import sys

import numpy

from .. import boot, fs, gen, native
from ..harness import Skip
from . import c20

RULE = ('one case = one api function, called directly or through bin/pp.py (run in a child process with its own arguments), on one or several generated trajectory files with random '
        'options; expected files are produced by driving the classes on an independent in-memory trajectory holding the frames the options select; compared: '
        'the set of files created, columns, titles, every number')
MINIMUM = 180
REQUIRED_COUNTS = {'files_compared': 600, 'cli': 50, 'several': 30, 'sliced': 40, 'partials': 100, 'filtered': 15, 'weighted': 3, 'update': 10, 'previous': 50}
ASSUMPTIONS = ['when only totals are requested from chi4 the partial ones may or may not be written',
               'requested time windows longer than the trajectory are those of the classes on the same request']
FUNCS = ['msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'gr', 'sk', 'ik', 'alpha2', 'qst', 'qt', 'ba']
NOPARTIAL = ['ik']
FILTERS = {'radius < 0.5': None, 'charge > 0': None, 'species == "A"': None, 'radius > 0.35 and charge < 0.8': None}


def cases(tier, seed):
    out = []
    n = 900 if tier == 'quick' else 9000
    for i in range(n):
        rng = gen.rng_for('C22', seed, i)
        func = FUNCS[i % len(FUNCS)]
        kind = rng.choice(['api', 'api', 'cli', 'several', 'update'])
        nfiles = rng.choice([2, 3]) if kind == 'several' or (kind == 'cli' and rng.random() < 0.3) else 1
        specs = []
        sampling = rng.choice(['even', 'even', 'even', 'blocks'])
        for _ in range(nfiles):
            s = gen.dynamics_spec(rng, motion='brownian', N=rng.choice([12, 18, 30]), L=rng.choice([4.0, 5.0]), sampling=sampling,
                                  nframes=rng.choice([10, 15, 16]), species=rng.choice([{'A': 1}, {'A': 3, 'B': 2}, {'A': 3, 'B': 2}, {'A': 2, 'B': 1, 'C': 1}, {'Si': 2, 'A': 3}, {'A': 2, 'AB': 2, 'B': 1}]))
            if s['ndim'] == 2:
                s['L'] = 5.0
            if func in ('ik',):
                s['ndim'] = 3
            if func in ('ba', 'sk', 'gr', 'ik'):
                s['nframes'] = rng.choice([4, 10])
            if func == 'ba':
                # crystals, with a clear first peak
                s.update(structure='lattice', jitter=0.05, amp=0.02, N=64 if s['ndim'] == 3 else 36, shape='cubic', L=4.8 if s['ndim'] == 3 else 6.6, nframes=4,
                         species=rng.choice([{'A': 1}, {'A': 1, 'B': 1}, {'AB': 1, 'A': 1}]))
            specs.append(s)
        g = dict(norigins=rng.choice([None, -1, 1, 2, 3, 0.5]))
        if rng.random() < 0.4:
            if sampling == 'even':
                g.update(first=rng.choice([None, 1, 2, 0.3, -8]), last=rng.choice([None, 9, 0.9, -1]), skip=rng.choice([None, 1, 2]))
                if func in ('ba', 'sk', 'gr', 'ik'):
                    g.update(first=rng.choice([None, 1, 0.3]), last=rng.choice([None, 3, 0.9]))
            else:
                g.update(first=rng.choice([None, 0, 0.4]), last=rng.choice([None, 0.95, 11]))
        if rng.random() < 0.25 and func != 'ik':
            g['filter'] = rng.choice(sorted(FILTERS))
        for k, p in [('no_partial', 0.15), ('legacy', 0.25), ('fast', 0.25), ('no_cache', 0.3), ('center', 0.2)]:
            if rng.random() < p:
                g[k] = True
        if rng.random() < 0.15 and 'species' not in g.get('filter', ''):
            g['species_layout'] = rng.choice(['F', 'C', 'A'])
        if rng.random() < 0.3:
            g['fmt'] = 'xyz'
        if kind == 'cli' and rng.random() < 0.5:
            g[rng.choice(['quiet', 'verbose', 'debug', 'quiet'])] = True
        o = {}
        if func in ('msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt'):
            o['tsamples'] = rng.choice([1, 3, 6, 12, None])
            o['func'] = rng.choice(['linear', 'logx', 'linear_grid', 'logx_grid', None])
            o['tmax_fraction'] = rng.choice([0.5, 1.0, 0.9, None, -1.0, 0.0])
            if rng.random() < 0.3:
                o['tmax'] = ['frac', rng.choice([0.4, 0.7, 1.0, 1.6])]
        if func == 'msd':
            o.update(sigma=rng.choice([None, 0.1, 0.3]), rmsd_max=rng.choice([None, None, 0.5]), fix_cm=rng.choice([None, True]), no_offset=rng.choice([None, True]))
        if func in ('fkt', 'fskt'):
            o['fix_cm'] = rng.choice([None, None, True])
            o['total'] = rng.choice([None, True])
            o['nk'] = rng.choice([None, 2, 5])
            o['dk'] = rng.choice([None, 0.3])
            if rng.random() < 0.5:
                o['kgrid'] = rng.choice(['2.6', '2.6,3.7', '3.9,7.1,8'])
            else:
                o.update(kmin=rng.choice([None, 2.8]), kmax=rng.choice([None, 6.0]), ksamples=rng.choice([None, 2, 3]))
        if func == 'fskt' and rng.random() < 0.3:
            o['lookup_mb'] = 0.0005
        if func == 'chi4qs':
            o.update(a=rng.choice([None, 0.2, 0.5]), total=rng.choice([None, None, True]))
        if func in ('sk', 'ik'):
            o.update(nk=rng.choice([1, 4, 9]), dk=rng.choice([None, 0.25]))
            if rng.random() < 0.5:
                o['kgrid'] = rng.choice(['2.6', '2.6,3.7', '3.9,7.1,8'])
            else:
                o.update(kmin=rng.choice([None, 2.8]), kmax=rng.choice([5.0, 6.0]), ksamples=rng.choice([3, 6]))
        if func == 'sk' and rng.random() < 0.7:
            o.update(weight=rng.choice(['charge', 'radius']), weight_fluctuations=rng.choice([None, True]))
            if rng.random() < 0.4 and nfiles == 1 and 'first' not in g:
                o['weight_trajectory'] = True
        if func == 'ik' and nfiles == 1 and rng.random() < 0.5:
            o['trajectory_radius'] = True
        if func == 'gr':
            o.update(dr=rng.choice([None, 0.1, 0.25]), rmax=rng.choice([None, None, 1.03, 1.47]), grandcanonical=rng.choice([None, None, True]))
        if func == 'ba':
            o.update(dtheta=rng.choice([None, 10.0, 15.0]), grandcanonical=rng.choice([None, None, True]))
        o = {k: v for k, v in o.items() if v is not None}
        out.append(dict(kind=kind, func=func, specs=specs, globals=g, options=o, output=rng.choice([None, None, '{trajectory.filename}.out.{symbol}.{tag}']) if kind == 'cli' else None,
                        sel=rng.randrange(1000)))
    return out


def linear(x1, x2, n):
    return [x1] if n == 1 else [x1 + i * (x2 - x1) / (n - 1.0) for i in range(n)]


def logarithmic(x1, x2, n):
    return [x1] + [x1 * (x2 / x1)**((i + 1.0) / n) for i in range(1, n)]


TDEFAULTS = {'msd': (0.75, 30, 'linear'), 'vacf': (0.10, 30, 'linear'), 'fkt': (0.75, 60, 'logx'), 'fskt': (0.75, 60, 'logx'), 'chi4qs': (0.75, 60, 'logx'),
             'alpha2': (0.75, 60, 'logx'), 'qst': (0.75, 60, 'logx'), 'qt': (0.75, 60, 'logx')}


def times(func, o, th, tmax):
    frac, n, f = TDEFAULTS[func]
    frac, n, f = o.get('tmax_fraction', frac), o.get('tsamples', n), o.get('func', f)
    f = linear if f.startswith('linear') else logarithmic
    if tmax is not None:
        return [0.0] + f(th.timestep, min(tmax, th.total_time) if func in ('msd', 'vacf', 'chi4qs') else tmax, n)
    if frac > 0:
        return [0.0] + f(th.timestep, frac * th.total_time, n)
    return None


def ambiguous(m, ts, grid):
    """Whether a requested time is halfway between available ones"""
    avail = numpy.array(sorted(set(b - a for i, a in enumerate(m.steps) for b in m.steps[i:])))
    for t in grid:
        r = t / ts
        if abs(r - numpy.floor(r) - 0.5) < 1e-6:
            return True
        d = numpy.sort(numpy.abs(avail - int(round(r))))
        if len(d) > 1 and d[0] == d[1]:
            # the first of them is chosen, unless rounding matters
            if abs(r - round(r)) > 0.4:
                return True
    return False


def wavenumbers(o, defaults):
    if 'kgrid' in o:
        return [float(x) for x in o['kgrid'].split(',')]
    kmin, kmax, n = [o.get(k, d) for k, d in zip(('kmin', 'kmax', 'ksamples'), defaults)]
    return linear(kmin, kmax, n)


def selected(m, g, block):
    """Indices of the frames selected by the options"""
    n = m.n
    first, last, skip = g.get('first'), g.get('last'), g.get('skip') or 1

    def index(x):
        return None if x is None else int(x * n) if 0 < x < 1 else int(x)
    first, last = index(first), index(last)
    if block > 1:
        first = None if first is None else first - first % block
        last = None if last is None else last - last % block
    return list(range(n))[slice(first, last, skip)]


def picks(m, frames):
    s = m.copy()
    for name in ('steps', 'side', 'pos', 'unf', 'vel', 'species', 'mass', 'radius', 'charge'):
        setattr(s, name, [getattr(m, name)[i] for i in frames])
    return s


def oracle(pp, case, m, folder, tmp, norigins, tmax):
    """Drive the classes; the files go to a folder"""
    from atooms.postprocessing.partial import Partial
    func, g, o = case['func'], case['globals'], case['options']
    probe = gen.to_ram(m)
    block = 1 if case['specs'][0]['sampling'] == 'even' else probe.block_size
    frames = selected(m, g, block)
    if len(frames) < (2 if func in ('ba', 'sk', 'gr', 'ik') else 4):
        raise Skip('too few frames')
    if block > 1 and len(frames) <= block:
        raise Skip('single block')
    sm = picks(m, frames)
    if g.get('center'):
        # Weighted structure factors depend on the origin of space
        sm.pos = [x - l / 2 for x, l in zip(sm.pos, sm.side)]
        sm.unf = [x - l / 2 for x, l in zip(sm.unf, sm.side)]
    layout = g.get('species_layout')
    if layout in ('F', 'C'):
        names = sorted(set(m.species[0]))
        sm.species = [[names.index(x) + (layout == 'F') for x in fr] for fr in sm.species]
    def trajectory():
        t = gen.to_ram(sm, filename=os.path.join(folder, case['name']))
        t.block_size = block
        return t
    th = trajectory()
    names = sorted(set(sm.species[0]))
    cond = g.get('filter')
    ori = dict(norigins=norigins)
    tg = dict(tgrid=times(func, o, th, tmax)) if func in TDEFAULTS else {}
    if func in TDEFAULTS and tg['tgrid'] is not None and ambiguous(sm, th.timestep, tg['tgrid']):
        raise Skip('requested times halfway between available ones')
    add = None
    kk = {k: o[k] for k in ('nk', 'dk') if k in o}
    if func == 'msd':
        cls, kw = pp.MeanSquareDisplacement, dict(sigma=o.get('sigma', 1.0), rmax=o.get('rmsd_max', -1.0), fix_cm=o.get('fix_cm', False), no_offset=o.get('no_offset', False))
    elif func == 'vacf':
        cls, kw = pp.VelocityAutocorrelation, {}
    elif func == 'alpha2':
        cls, kw = pp.NonGaussianParameter, {}
    elif func == 'qst':
        cls, kw = pp.SelfOverlap, {}
    elif func == 'qt':
        cls, kw = pp.CollectiveOverlap, {}
    elif func == 'chi4qs':
        cls, kw = pp.Chi4SelfOverlapOptimized if g.get('fast') else pp.Chi4SelfOverlap, dict(a=o.get('a', 0.3))
    elif func == 'fkt':
        cls, kw = pp.IntermediateScattering, dict(dict(nk=100, dk=0.1), kgrid=wavenumbers(o, (7.0, 7.0, 1)), fix_cm=o.get('fix_cm', False))
        kw.update(kk)
    elif func == 'fskt':
        cls = pp.SelfIntermediateScatteringLegacy if g.get('legacy') else pp.SelfIntermediateScattering
        kw = dict(dict(nk=8, dk=0.1), kgrid=wavenumbers(o, (7.0, 8.0, 1)), fix_cm=o.get('fix_cm', False), lookup_mb=64.0)
        kw.update(kk)
    elif func == 'gr':
        cls = pp.RadialDistributionFunctionLegacy if g.get('legacy') else pp.RadialDistributionFunction
        kw = dict(dr=o.get('dr', 0.04), rmax=o.get('rmax', -1.0))
    elif func == 'ba':
        cls, kw = pp.BondAngleDistribution, dict(dtheta=o.get('dtheta', 4.0))
    elif func in ('sk', 'ik'):
        cls = pp.SpectralDensity if func == 'ik' else pp.StructureFactorFast if g.get('fast') else pp.StructureFactorLegacy
        kw = dict(nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30)
        kw.update({k: o[k] for k in kw if k in o})
        if 'kgrid' in o:
            kw['kgrid'] = [float(x) for x in o['kgrid'].split(',')]
    kw.update(ori)
    kw.update(tg)
    if func == 'ik':
        # Same frames
        radii = os.path.join(tmp, 'radii_%s' % case['name'])
        src = picks(case['radii_model'], frames) if 'trajectory_radius' in o else sm
        gen.to_xyz(src, radii, ['name', 'pos', 'radius'])
        cf = cls(th, radii, **kw)
        cf.do()
        return th, sm
    if 'weight' in o:
        def add(cf):
            cf.add_weight(field=o['weight'], fluctuations=o.get('weight_fluctuations', False))
        if 'weight_trajectory' in o:
            # The particles carry the field
            sm = sm.copy()
            sm.charge, sm.radius = [x.copy() for x in case['weight_model'].charge], [x.copy() for x in case['weight_model'].radius]
            if g.get('filter') and 'species' not in g['filter']:
                raise Skip('the filter sees the field')
            th = trajectory()
    partial = len(names) > 1 and not g.get('no_partial') and cond is None and func not in NOPARTIAL
    both = func not in ('fkt', 'fskt', 'chi4qs') or o.get('total') or len(names) == 1 or not partial
    if func == 'chi4qs' and o.get('total'):
        partial = partial and None
    if both:
        cf = cls(th, **kw)
        if cond is not None:
            cf = pp.Filter(cf, cond)
        if add:
            add(cf)
        cf.do()
    if partial or partial is None:
        p = Partial(cls, names, th, **kw)
        if add:
            p.add_weight(field=o['weight'], fluctuations=o.get('weight_fluctuations', False))
        p.do()
    return th, sm


def same_file(obs, mech, got, want, msg):
    gc, gr, ok = c20.parse(got)
    wc, wr, _ = c20.parse(want)
    obs.count('files_compared')
    obs.check(ok, mech + '/layout', lambda: '%s: %s' % (msg, got))
    a, b = c20.metadata(gc), c20.metadata(wc)
    if not got.endswith('.tau'):
        obs.check(a.get('title') == b.get('title') and a.get('columns') == b.get('columns'), mech + '/title', lambda: '%s: %s, expected %s' % (msg, a, b))
    skip = ('title', 'columns', 'date', 'command', 'version', 'parents', 'note')
    for k in b:
        if k in skip:
            continue
        try:
            x, y = float(a.get(k, 'nan')), float(b[k])
        except ValueError:
            continue
        obs.check((x != x and y != y) or abs(x - y) <= 1e-4 * abs(y) + 1e-8, mech + '/analysis', lambda: '%s: %s is %s, expected %s' % (msg, k, a.get(k), b[k]))
    if not obs.check(len(gr) == len(wr), mech + '/rows', lambda: '%s: %d rows, expected %d' % (msg, len(gr), len(wr))):
        return
    ncol = max([len(x) for x in wr] + [1])
    scale = [max([abs(float(r[c])) for r in wr if len(r) > c and numpy.isfinite(float(r[c]))] + [0.0]) for c in range(ncol)]
    bad = None
    for x, y in zip(gr, wr):
        obs.count('rows')
        if len(x) != len(y) or not all(v == w or (v != v and w != w) or abs(v - w) <= 1.1e-5 * abs(w) + 1e-8 * s for v, w, s in zip(map(float, x), map(float, y), scale)):
            bad = (x, y)
            break
    obs.check(bad is None, mech + '/values', lambda: '%s: row %s, expected %s' % (msg, bad[0], bad[1]))


def command_line(case, g, o, func, paths, tmp):
    argv = ['pp.py']
    for k, v in sorted(g.items()):
        if v is None:
            continue
        flag = '--' + k.replace('_', '-')
        argv += [flag] if v is True else ['%s=%s' % (flag, v)]
    if case['output']:
        argv += ['--output', case['output']]
    argv.append(func)
    for k, v in sorted(o.items()):
        flag = '--' + k.replace('_', '-')
        argv += [flag] if v is True else ['%s=%s' % (flag, v)]
    argv += paths
    return argv


def run_cli(argv, tmp):
    """bin/pp.py in a child, with the package already loaded"""
    import runpy
    log = os.path.join(tmp, 'cli.log')
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout, sys.stderr = os.fdopen(1, 'w'), os.fdopen(2, 'w')
            sys.argv = argv
            try:
                runpy.run_path(os.path.join(native.REPO, 'bin', 'pp.py'), run_name='__main__')
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 98
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    text = open(log, errors='replace').read()
    os.remove(log)
    return os.waitstatus_to_exitcode(status), text


def run(case, obs):
    pp = boot.load()
    import atooms.postprocessing.api as api
    case = dict(case)
    func = case['func']
    data, expect = os.path.join(obs.tmp, 'data'), os.path.join(obs.tmp, 'expected')
    os.mkdir(data)
    os.mkdir(expect)
    g, o = dict(case['globals']), dict(case['options'])
    tmax = o.pop('tmax', None)
    models = [gen.build(dict(s)) for s in case['specs']]
    cols = ['name', 'pos', 'vel', 'radius', 'charge']
    cond = g.get('filter')
    from .c21 import selection
    if cond is not None and any(x in (0, 1, m.ndim) for m in models for x in selection(m, cond)):
        raise Skip('too few particles')
    if tmax is not None:
        tmax = tmax[1] * min((m.steps[-1] - m.steps[0]) * m.timestep for m in models)
        if g.get('first') is not None or g.get('last') is not None:
            tmax *= 0.3
    # Extra trajectories
    m0 = models[0]
    real = dict(o)
    if tmax is not None:
        real['tmax'] = tmax
    if 'weight_trajectory' in o or 'trajectory_radius' in o:
        other = gen.build(dict(case['specs'][0]))
        rng = numpy.random.RandomState(case['sel'])
        other.charge = [x * rng.uniform(0.5, 2, size=len(x)) for x in other.charge]
        other.radius = [x * rng.uniform(0.5, 1.2, size=len(x)) for x in other.radius]
        path = gen.to_xyz(other, os.path.join(obs.tmp, 'other.xyz'), cols)
        case['weight_model'] = case['radii_model'] = other
        for k in ('weight_trajectory', 'trajectory_radius'):
            if k in o:
                real[k] = path
    cli = case['kind'] == 'cli'
    norigins = g.get('norigins')
    if cli and norigins is not None:
        norigins = str(norigins)
    paths = []
    import atooms.postprocessing.core as core
    default = core.pp_output_path
    for i, m in enumerate(models):
        name = 'traj%d.xyz' % i
        path = gen.to_xyz(m, os.path.join(data, name), cols)
        paths.append(path)
        os.utime(path, (10**9, 10**9))
        try:
            if case['output']:
                core.pp_output_path = case['output']
            th, sm = oracle(pp, dict(case, name=name, options=o), m, expect, obs.tmp, norigins, tmax)
        finally:
            core.pp_output_path = default
    obs.count('func:' + func)

    def go(update=False):
        opts = dict(g)
        if update:
            opts['update'] = True
        if cli:
            argv = command_line(case, opts, real, func, paths, obs.tmp)
            code, text = run_cli(argv, obs.tmp)
            obs.count('cli')
            obs.check(code == 0, 'cli/status', lambda: '%s: exit status %s\n%s' % (' '.join(argv), code, text[-2500:]))
            return ' '.join(argv[:-len(paths)])
        kw = dict(opts)
        kw.update(real)
        f = getattr(api, func)
        if len(paths) == 1:
            f(paths[0], **kw)
        else:
            # Positional arguments come before the list of files
            import inspect
            args = [kw.pop(p.name, p.default) for p in inspect.signature(f).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD][1:]
            f(paths[0], *(args + paths[1:]), **kw)
        return 'api.%s(%s)' % (func, ', '.join('%s=%r' % x for x in sorted(dict(opts, **real).items())))
    if len(paths) > 1:
        obs.count('several')
    if case['sel'] % 3 == 0 and not (func == 'chi4qs' and o.get('total')):
        # What a previous calculation left
        for f in os.listdir(expect):
            with open(os.path.join(data, f), 'w') as fh:
                fh.write('# title: previous results\n' + '0.123 4.567\n' * 500)
        obs.count('previous')
    msg = go()

    def compare(mech):
        have = sorted(f for f in os.listdir(data) if not f.endswith('.xyz'))
        want = sorted(os.listdir(expect))
        optional = []
        if func == 'chi4qs' and o.get('total'):
            for i, m in enumerate(models):
                optional += ['traj%d.xyz.%s.%s.%s' % (i, x, y, z) for x in ('pp', 'out') for y in ('chi4qs', 'qsu', 'q2su') for z in ['A', 'B', 'C', 'AB', 'Si', '0', '1', '2', '3']]
        missing = [f for f in want if f not in have and f not in optional]
        extra = [f for f in have if f not in want]
        obs.check(not missing, mech + '/missing', lambda: '%s, species %s: files %s are not written, only %s' % (msg, [sorted(set(m.species[0])) for m in models], missing, have))
        obs.check(not extra, mech + '/extra', lambda: '%s: files %s are written, expected %s' % (msg, extra, want))
        for f in want:
            if f in have:
                same_file(obs, mech, os.path.join(data, f), os.path.join(expect, f), '%s, %s' % (msg, f))
                if any(f.endswith('.' + x) for x in ('A', 'B', 'C', 'Si', 'A-B', 'A-Si', '1', '1-2')):
                    obs.count('partials')
    mech = 'cli' if cli else func
    compare(mech)
    for k, name in [('first', 'sliced'), ('filter', 'filtered')]:
        if g.get(k) is not None:
            obs.count(name)
    if 'weight' in o:
        obs.count('weighted')
    if case['kind'] == 'update':
        obs.count('update')
        files = [os.path.join(data, f) for f in os.listdir(data) if not f.endswith('.xyz')]
        if func in ('fkt', 'fskt'):
            # relaxation times and functions of two variables are not read back
            return
        texts = {}
        for f in files:
            t = open(f).read() + '1e5 3.25\n'
            open(f, 'w').write(t)
            texts[f] = t
        go(update=True)
        for f in files:
            obs.check(open(f).read() == texts[f], 'update/rewritten', lambda: '%s, with update: %s is newer than the trajectory and it is written again' % (msg, f))
        now = max(os.stat(f).st_mtime for f in files) + 100
        for p in paths:
            os.utime(p, (now, now))
        go(update=True)
        compare('update')
