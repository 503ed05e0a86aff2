"""C21: each result has its own file; update recomputes exactly when needed"""
import hashlib
import os
import sys

import numpy

from .. import boot, classes, gen
from ..harness import Skip
from . import c20

RULE = ('one case = a history: several correlations (total, partial, filtered, weighted) done on one trajectory file, with snapshots (path, content, mtime) of the whole '
        'scratch folder, of the working directory and of the temporary folder between steps; output patterns and folders; trajectories without a path and '
        'standard output; or a sequence of runs with and without update, interleaved with touches, removals and changes of output and trajectory files, '
        'compared with a model that predicts which files are rewritten')
MINIMUM = 150
REQUIRED_COUNTS = {'files_created': 400, 'steps': 600, 'recomputed': 100, 'left_alone': 100, 'pattern_files': 60, 'no_path': 20}
ASSUMPTIONS = ['members of a partial set that are up to date may be rewritten when another one is not',
               'the extra files of chi4 and F(k,t) follow the main one']
KINDS = ['set', 'set', 'pattern', 'update', 'update', 'update_partial', 'nopath', 'stdout']
FILTERS = ['radius < 0.5', 'radius >= 0.5', 'charge > 0', 'charge < 0', 'species == "A"', 'species != "A"', 'charge > 0 and radius < 0.5', 'charge > 0 or radius < 0.5',
           'radius <= 0.5', 'radius > 0.5', 'charge > 0.1', 'charge > -0.1']
PATTERNS = ['{trajectory.filename}.pp.{symbol}.{tag}', '{trajectory.filename}.{symbol}.{tag}', '{trajectory.filename}_{symbol}_{tag}', 'OUT/{symbol}.{tag}',
            'OUT/new/folders/{tag}.{symbol}', 'OUT/{symbol}/result_{tag}', 'OUT/{long_name}.{tag}', 'OUT/{short_name}.{tag}', 'OUT/{symbol}.{tag_description}', 'rel/{symbol}.{tag}',
            '{symbol}.{tag}', 'OUT/run__T--0.5/{symbol}.{tag}', 'OUT/a..b/_c_/{symbol}_{tag}', '{trajectory.filename}.d/{symbol}.{tag}']
FOLDERS = ['', '', '', 'run__T--0.5', 'a..b/_c_', '.hidden', 'with space', 'x-/y.']
ONED = ['MeanSquareDisplacement', 'VelocityAutocorrelation', 'NonGaussianParameter', 'SelfOverlap', 'CollectiveOverlap', 'Chi4SelfOverlap', 'RadialDistributionFunction',
        'StructureFactorLegacy', 'StructureFactorFast', 'BondAngleDistribution']


def cases(tier, seed):
    out = []
    n = 1000 if tier == 'quick' else 8000
    for i in range(n):
        rng = gen.rng_for('C21', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.dynamics_spec(rng, motion='brownian', ndim=rng.choice([2, 3]), N=rng.choice([12, 20]), L=5.0, shape='cubic', nframes=rng.choice([4, 6]), sampling='even')
        spec['species'] = rng.choice(gen.SPECIES[2:])
        if kind == 'set' and rng.random() < 0.25:
            # ions, and other names with punctuation
            spec['species'] = rng.choice([{'A': 1, 'A-': 1}, {'Cl': 1, 'Cl-': 1, 'Na+': 1}, {'H_': 1, 'H': 1}, {'A.': 1, 'A': 1}, {'A--': 1, 'A': 1, 'B': 1}])
        names = ONED if kind.startswith('update') else [c for c in classes.ALL if c not in ('RadialDistributionFunctionLegacy', 'StructureFactorFast', 'SpectralDensity',
                                                                                           'SelfIntermediateScatteringLegacy', 'Chi4SelfOverlapOptimized')]
        ops = []
        for _ in range(rng.choice([4, 6, 8])):
            ops.append([rng.choice(['run', 'update', 'update', 'update', 'touch', 'stale', 'recent', 'equal', 'remove', 'corrupt', 'change']), rng.randrange(1000)])
        if kind.startswith('update'):
            ops = [['update', 0]] + ops + [['update', 0]]
            if kind == 'update_partial':
                names = [c for c in names if c not in classes.NOPARTIAL]
        out.append(dict(kind=kind, spec=spec, how=rng.choice(['xyz', 'xyzcached']), classes=[rng.choice(names + (['StructureFactorLegacy'] * 3 if kind == 'set' else [])) for _ in range(6 if kind == 'set' else 1)],
                        sub=[rng.choice(['total', 'partial', 'filter', 'filter', 'weight', 'filterweight', 'partialweight']) for _ in range(6)],
                        folder=rng.choice(FOLDERS), relative=rng.random() < 0.2, filters=[rng.randrange(len(FILTERS)) for _ in range(12)], fields=[rng.choice(['charge', 'radius', 'charge_in', 'charge_out', 'in_charge']) for _ in range(6)],
                        fluct=[rng.random() < 0.5 for _ in range(6)], pattern=rng.choice(PATTERNS), where=rng.choice(['core', 'attribute']),
                        args=dict(classes.args_for(rng, 'X', spec), tgrid=['frames', list(range(spec['nframes']))], auto=False, fix_cm=False, rmax=-1.0, kgrid=[2.6, 4.0], nk=4,
                                  norigins=-1, normalize=True), ops=ops))
    return out


def snapshot(*roots):
    db = {}
    for root in roots:
        for base, _, files in os.walk(root):
            for f in files:
                path = os.path.join(base, f)
                st = os.stat(path)
                db[path] = (hashlib.md5(open(path, 'rb').read()).hexdigest(), st.st_mtime_ns)
    return db


def differences(a, b):
    new = sorted(set(b) - set(a))
    gone = sorted(set(a) - set(b))
    changed = sorted(k for k in a if k in b and a[k] != b[k])
    return new, gone, changed


def extras(symbol):
    """Number of files on top of the main one"""
    return {'fskt': 1, 'fkt': 1, 'chi4qs': 2}.get(symbol, 0)


def make(pp, case, name, th, m, tmp):
    kw = classes.kwargs(case['args'], name, m)
    if name in ('SelfOverlap', 'CollectiveOverlap', 'Chi4SelfOverlap'):
        kw['a'] = 0.4
    return classes.create(pp, name, th, m, case['args'], tmp, kw=kw)


def selection(m, cond):
    """Number of particles selected at each frame"""
    res = []
    for i in range(m.n):
        res.append(sum(bool(eval(cond, dict(radius=r, charge=c, species=s))) for r, c, s in zip(m.radius[i], m.charge[i], m.species[i])))
    return res


def build_set(pp, case, n, th, m, tmp):
    """The n-th object of a set"""
    from atooms.postprocessing.partial import Partial
    name, sub = case['classes'][n], case['sub'][n]
    if name in classes.NOPARTIAL:
        sub = 'total'
    if name == 'S4ktOverlap' and sub.startswith('partial'):
        sub = 'total'
    if sub == 'partialweight' and name != 'StructureFactorLegacy':
        sub = 'partial'
    if sub.startswith('partial'):
        kw = classes.kwargs(case['args'], name, m)
        p = Partial(getattr(pp, name), sorted(set(m.species[0])), th, **kw)
        if sub == 'partialweight':
            p.add_weight(field=case['fields'][n], fluctuations=case['fluct'][n])
            return ('partial', name, case['fields'][n], case['fluct'][n]), p, list(p.partial.values())
        return ('partial', name), p, list(p.partial.values())
    cf = make(pp, case, name, th, m, tmp)
    key = [name]
    if 'weight' in sub:
        if name not in ('StructureFactorLegacy',):
            sub = sub.replace('weight', '') or 'total'
        else:
            cf.add_weight(field=case['fields'][n], fluctuations=case['fluct'][n])
            key += ['weight', case['fields'][n], case['fluct'][n]]
    if 'filter' in sub:
        conds = [FILTERS[case['filters'][2 * n]]]
        if cf.nbodies == 2 and case['filters'][2 * n + 1] % 3:
            conds.append(FILTERS[case['filters'][2 * n + 1]])
        if any(x in (0, 1, m.ndim) for c in conds for x in selection(m, c)):
            raise Skip('too few particles')
        cf = pp.Filter(cf, ','.join(conds))
        key += ['filter'] + conds
    return tuple(key), cf, [cf]


def more_fields(system):
    """Particle properties with similar names"""
    for i, p in enumerate(system.particle):
        p.charge_in, p.charge_out, p.in_charge = 0.5 + i % 3, 1.5 - i % 2, 0.1 * i
    return system


def run_set(pp, case, obs, th, m):
    seen = {}
    th.add_callback(more_fields)
    cwd = os.getcwd()
    before = snapshot(obs.tmp, cwd)
    for n in range(len(case['classes'])):
        try:
            key, cf, parts = build_set(pp, case, n, th, m, obs.tmp)
        except Skip:
            continue
        msg = '%s %s' % (key, case['classes'][n])
        cf.do()
        after = snapshot(obs.tmp, cwd)
        new, gone, changed = differences(before, after)
        obs.count('steps')
        obs.check(not gone, 'set/removed', lambda: '%s: removed %s' % (msg, gone))
        again = key in seen
        if again:
            obs.check(not new and set(changed) <= set(seen[key]), 'set/again', lambda: '%s: done again, created %s and modified %s' % (msg, new, changed))
        else:
            obs.check(not changed, 'set/overwritten', lambda: '%s: modified %s, already written by %s' % (msg, changed, [k for k in seen if set(seen[k]) & set(changed)]))
            want = sum(1 + extras(p.symbol) for p in parts)
            obs.check(len(new) == want, 'set/number', lambda: '%s: created %s, expected %d files' % (msg, new, want))
            obs.count('files_created', len(new))
            seen[key] = new
            # The name of each one
            if key[0] == 'partial' and len(key) == 2 or len(key) == 1:
                names = sorted(set(m.species[0]))
                if not all(s.isalnum() for s in names):
                    names = []
                tags = [''] if len(key) == 1 else ['.' + s for s in names] if parts[0].nbodies == 1 else ['.%s-%s' % (a, b) for a in names for b in names]
                paths = ['%s.pp.%s%s' % (os.path.abspath(th.filename), parts[0].symbol, t) for t in tags]
                obs.check(all(p in new for p in paths), 'set/path', lambda: '%s: created %s, expected %s' % (msg, new, paths))
            else:
                obs.check(all(p.startswith(os.path.abspath(th.filename) + '.pp.') for p in new), 'set/path', lambda: '%s: created %s' % (msg, new))
            for p in parts:
                c20.check_rows(obs, 'set', p._output_file, c20.columns_of(p), msg) if hasattr(p, '_output_file') else None
        before = after


def expected_path(pattern, cf, th, tag, description):
    return pattern.format(symbol=cf.symbol, short_name=cf.short_name, long_name=cf.long_name.replace(' ', '_'), tag=tag, tag_description=description.replace(' ', '_'), trajectory=th)


def run_pattern(pp, case, obs, th, m):
    import atooms.postprocessing.core as core
    from atooms.postprocessing.partial import Partial
    name = case['classes'][0]
    pattern = case['pattern'].replace('OUT', os.path.join(obs.tmp, case.get('folder', ''), 'out'))
    cwd = os.getcwd()
    default = core.pp_output_path
    names = sorted(set(m.species[0]))
    partial = name not in classes.NOPARTIAL and case['sub'][0] != 'total'
    before = snapshot(obs.tmp, cwd)
    kw = classes.kwargs(case['args'], name, m)
    try:
        if case['where'] == 'core':
            core.pp_output_path = pattern
        cf = Partial(getattr(pp, name), names, th, **kw) if partial else make(pp, case, name, th, m, obs.tmp)
        if case['where'] == 'attribute':
            cf.output_path = pattern
        cf.do()
    finally:
        core.pp_output_path = default
    after = snapshot(obs.tmp, cwd)
    new, gone, changed = differences(before, after)
    msg = '%s%s with pattern %s (%s)' % ('partial ' if partial else '', name, case['pattern'], case['where'])
    obs.check(not gone and not changed, 'pattern/modified', lambda: '%s: modified %s, removed %s' % (msg, changed, gone))
    if partial and 'tag' not in pattern:
        return
    if partial and pattern.endswith('{tag}') is False and '{tag}' not in pattern:
        pairs = [('', p.tag_description, p) for p in cf.partial.values()]
    elif partial:
        pairs = [(t if isinstance(t, str) else '-'.join(t), 'species %s' % t if isinstance(t, str) else 'species pair %s-%s' % t, p) for t, p in cf.partial.items()]
    else:
        pairs = [('', 'the whole system', cf)]
    paths = []
    for tag, descr, p in pairs:
        path = expected_path(pattern, p, th, tag, descr)
        folder, base = os.path.split(os.path.abspath(path))
        # unpleasant punctuation in the name of the file
        path = os.path.join(folder, base.strip('._-'))
        if any(x * 2 in base for x in '._-'):
            raise Skip('name with double punctuation')
        paths.append(path)
        obs.check(path in new, 'pattern/path', lambda: '%s: expected %s, created %s' % (msg, path, new))
        if path in new:
            obs.count('pattern_files')
            c20.check_rows(obs, 'pattern', path, c20.columns_of(p), msg)
    want = sum(1 + extras(p.symbol) for _, _, p in pairs)
    if case['pattern'] in ('OUT/{long_name}.{tag}', 'OUT/{short_name}.{tag}', 'OUT/{symbol}.{tag_description}') or True:
        obs.check(len(new) == want, 'pattern/number', lambda: '%s: created %s, expected %d files' % (msg, new, want))


def run_nopath(pp, case, obs, m):
    from atooms.postprocessing.partial import Partial
    name = case['classes'][0]
    cwd = os.getcwd()
    th = gen.to_ram(m)
    partial = name not in classes.NOPARTIAL and case['sub'][0] in ('partial', 'filter')
    explicit = case['sub'][1] == 'total' and not partial
    if explicit:
        th = gen.to_ram(m, filename=os.path.join(obs.tmp, 'nowhere'))
    before = snapshot(obs.tmp, cwd)
    folders = sorted(os.listdir(cwd)) + sorted(os.listdir(obs.tmp))
    cf = Partial(getattr(pp, name), sorted(set(m.species[0])), th, **classes.kwargs(case['args'], name, m)) if partial else make(pp, case, name, th, m, obs.tmp)
    if explicit:
        cf.output_path = None
        if name == 'Chi4SelfOverlap':
            raise Skip('moments')
    cf.do(update=bool(case['sub'][2] == 'total'))
    cf.write()
    new, gone, changed = differences(before, snapshot(obs.tmp, cwd))
    obs.count('no_path')
    obs.check(not new and not gone and not changed and folders == sorted(os.listdir(cwd)) + sorted(os.listdir(obs.tmp)), 'nopath/files',
              lambda: '%s of a trajectory without path: created %s, modified %s, removed %s, in %s' % (name, new, changed, gone, cwd))
    for p in (cf.partial.values() if partial else [cf]):
        obs.check(len(p.value) > 0, 'nopath/value', lambda: '%s without a path was not computed' % name)


def run_stdout(pp, case, obs, th, m):
    """Standard output goes to a pipe in the meanwhile"""
    name = case['classes'][0]
    if name in ('Chi4SelfOverlap',):
        raise Skip('moments')
    cwd = os.getcwd()
    cf = make(pp, case, name, th, m, obs.tmp)
    cf.output_path = '/dev/stdout'
    before = snapshot(obs.tmp, cwd)
    sys.stdout.flush()
    r, w = os.pipe()
    saved = os.dup(1)
    dev = set(os.listdir('/dev'))
    try:
        os.dup2(w, 1)
        os.close(w)
        cf.do(update=bool(case['sub'][1] == 'total'))
    finally:
        os.dup2(saved, 1)
        os.close(saved)
    text = b''
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        text += chunk
    os.close(r)
    stray = set(os.listdir('/dev')) - dev
    for f in stray:
        if f.startswith('stdout'):
            os.remove(os.path.join('/dev', f))
    obs.check(not [f for f in stray if f.startswith('stdout')], 'stdout/files', lambda: '%s: created %s' % (name, stray))
    new, gone, changed = differences(before, snapshot(obs.tmp, cwd))
    obs.check(not new and not gone and not changed, 'stdout/files', lambda: '%s to standard output: created %s, modified %s' % (name, new, changed))
    path = os.path.join(obs.tmp, 'captured')
    with open(path, 'wb') as fh:
        fh.write(text)
    obs.count('stdout')
    c20.check_rows(obs, 'stdout', path, c20.columns_of(cf), name)


def where(case, obs):
    """Folder of the trajectory, as it is passed to the package"""
    folder = os.path.join(obs.tmp, case.get('folder', ''))
    os.makedirs(folder, exist_ok=True)
    if case.get('relative'):
        return os.path.relpath(folder)
    return folder


OLD = 1_000_000_000


def run_update(pp, case, obs, m, partial):
    """A history of runs, touches, removals..."""
    from atooms.postprocessing.partial import Partial
    name = case['classes'][0]
    names = sorted(set(m.species[0]))
    path = os.path.join(where(case, obs), 'traj.xyz')
    model = m
    gen.to_xyz(model, path)
    clock = OLD + 0.5
    os.utime(path, (clock, clock))
    cwd = os.getcwd()

    def fresh(th):
        if partial:
            return Partial(getattr(pp, name), names, th, **classes.kwargs(case['args'], name, model))
        return make(pp, case, name, th, model, obs.tmp)

    def open_():
        from atooms.trajectory import TrajectoryXYZ
        th = TrajectoryXYZ(path)
        th.cache = case['how'] == 'xyzcached'
        return th

    th = open_()
    cf = fresh(th)
    members = dict((str(k) if isinstance(k, str) else '-'.join(k), p.symbol) for k, p in cf.partial.items()) if partial else {'': cf.symbol}
    out = dict((k, '%s.pp.%s%s' % (os.path.abspath(path), s, '.' + k if k else '')) for k, s in members.items())
    th.close()
    # For chi4, the moments
    for op, sel in case['ops']:
        clock += 10
        key = sorted(out)[sel % len(out)]
        if op == 'touch':
            os.utime(path, (clock, clock))
        elif op == 'stale' and os.path.exists(out[key]):
            # maybe by a fraction of a second
            t = os.stat(path).st_mtime - [5, 0.25][sel % 2]
            os.utime(out[key], (t, t))
        elif op == 'recent' and os.path.exists(out[key]):
            t = os.stat(path).st_mtime + 0.25
            os.utime(out[key], (t, t))
        elif op == 'equal' and os.path.exists(out[key]):
            t = os.stat(path).st_mtime
            os.utime(out[key], (t, t))
        elif op == 'remove' and os.path.exists(out[key]):
            os.remove(out[key])
        elif op == 'corrupt' and os.path.exists(out[key]):
            # another result, with its time stamp
            t = os.stat(out[key]).st_mtime
            with open(out[key], 'w') as fh:
                fh.write('# something else\n1 10.5\n2 %g\n' % sel)
            os.utime(out[key], (t, t))
        elif op == 'change':
            # a different trajectory
            spec = dict(case['spec'], seed=case['spec']['seed'] + sel + 1)
            model = gen.build(spec)
            gen.to_xyz(model, path)
            os.utime(path, (clock, clock))
        elif op in ('run', 'update'):
            obs.count('steps')
            traj_mtime = os.stat(path).st_mtime
            state = {}
            for k, p in out.items():
                state[k] = os.path.exists(p) and traj_mtime < os.stat(p).st_mtime
            before = snapshot(obs.tmp, cwd)
            texts = dict((k, open(p).read()) for k, p in out.items() if os.path.exists(p))
            th = open_()
            cf = fresh(th)
            cf.do(update=op == 'update')
            after = snapshot(obs.tmp, cwd)
            new, gone, changed = differences(before, after)
            need = op == 'run' or not all(state.values())
            msg = '%s%s, %s in history %s' % ('partial ' if partial else '', name, op, case['ops'])
            obs.check(not gone, 'update/removed', lambda: '%s: removed %s' % (msg, gone))
            touched = set(new) | set(changed)
            if not need:
                obs.count('left_alone')
                obs.check(not touched, 'update/rewritten', lambda: '%s: the files are newer than the trajectory, still %s is written' % (msg, sorted(touched)))
            else:
                obs.count('recomputed')
                for k, p in out.items():
                    if op == 'run' or not state[k]:
                        obs.check(p in touched, 'update/not_rewritten', lambda: '%s: %s is missing or not newer than the trajectory, and it is not written' % (msg, p))
            # The results, in memory and on file
            ref_ = fresh(th)
            ref_.compute()
            for k, p in out.items():
                c = cf if not partial else [v for kk, v in cf.partial.items() if (kk if isinstance(kk, str) else '-'.join(kk)) == k][0]
                if p in touched:
                    rc = ref_ if not partial else [v for kk, v in ref_.partial.items() if (kk if isinstance(kk, str) else '-'.join(kk)) == k][0]
                    obs.close(c.value, rc.value, 'update/value', rtol=1e-9, atol=1e-11, msg=msg + ', recomputed')
                    c20.check_rows(obs, 'update', p, c20.columns_of(rc), msg)
                elif not need:
                    comments, rows, order = c20.parse(p)
                    obs.close([[float(x) for x in c.grid], [float(x) for x in c.value]], [[float(r[0]) for r in rows], [float(r[1]) for r in rows]], 'update/read',
                              msg=msg + ', read back')
            th.close()
            # New files belong to the present
            for p in touched:
                os.utime(p, (clock, clock))


def run(case, obs):
    pp = boot.load()
    kind = case['kind']
    m = gen.build(case['spec'])
    cwd = os.path.join(obs.tmp, 'cwd')
    os.mkdir(cwd)
    saved = os.getcwd()
    os.chdir(cwd)
    try:
        if kind == 'nopath':
            run_nopath(pp, case, obs, m)
        elif kind.startswith('update'):
            run_update(pp, case, obs, m, kind == 'update_partial')
        else:
            th = gen.container(m, case['how'], where(case, obs))
            dict(set=run_set, pattern=run_pattern, stdout=run_stdout)[kind](pp, case, obs, th, m)
    finally:
        os.chdir(saved)
