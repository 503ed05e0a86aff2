"""C20: output files faithfully record the result"""
import math
import os

import numpy

from .. import boot, classes, fs, gen, ref, tc
from ..harness import Skip

RULE = ('one case = one correlation done on a generated trajectory (total, filtered, weighted, partial sets, user comments, custom paths) or one object filled with '
        'adversarial grids and values (tiny, huge, negative, nan, infinite, single entries, integers, arrays): the file is parsed by an independent reader '
        'and compared with the result, then read back, rewritten; relaxation times against the crossings of the reported data')
MINIMUM = 150
REQUIRED_COUNTS = {'files': 300, 'rows': 3000, 'tau_rows': 60, 'read_back': 100, 'analysis': 40}
ASSUMPTIONS = ['functions of two variables are not read back (documented limitation of read())']
KINDS = ['total', 'total', 'partial', 'filter', 'weight', 'comments', 'path', 'twice', 'slow']


def cases(tier, seed):
    out = []
    n = 1000 if tier == 'quick' else 9000
    for i in range(n):
        rng = gen.rng_for('C20', seed, i)
        name = classes.ALL[i % len(classes.ALL)]
        kind = KINDS[(i // len(classes.ALL)) % len(KINDS)]
        if kind == 'weight':
            name = rng.choice(['StructureFactorLegacy', 'StructureFactorFast'])
        if kind == 'slow':
            # correlations that decay
            name = rng.choice(['SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy', 'IntermediateScattering', 'SelfOverlap', 'MeanSquareDisplacement',
                               'Chi4SelfOverlap', 'NonGaussianParameter'])
        spec = classes.spec_for(rng, name)
        if kind == 'slow':
            spec.update(nframes=15, sampling='even', motion='brownian', amp=rng.choice([0.05, 0.1, 0.3]), N=20)
        if kind == 'partial':
            spec['species'] = rng.choice(gen.SPECIES[2:])
            if name in classes.NOPARTIAL:
                kind = 'total'
        if kind == 'filter' and name == 'SpectralDensity':
            kind = 'total'
        a = classes.args_for(rng, name, spec)
        if kind == 'slow':
            a.update(tgrid=['frames', list(range(15))], normalize=True)
        out.append(dict(kind=kind, cls=name, spec=spec, how=rng.choice(['xyz', 'xyzcached', 'ramfile']), args=a, sel=rng.randrange(10**6),
                        cond=rng.choice(['radius < 0.5', 'charge > 0', 'radius >= 0.45'])))
    for i in range(200 if tier == 'quick' else 6000):
        rng = gen.rng_for('C20', seed, 'synthetic', i)
        out.append(dict(kind='synthetic', seed=rng.randrange(10**6), two=rng.random() < 0.4, cls=rng.choice(['MeanSquareDisplacement', 'StructureFactorLegacy']),
                        values=rng.choice(['normal', 'tiny', 'huge', 'mixed', 'nan', 'inf', 'int', 'zero', 'digits']), n=rng.choice([1, 2, 3, 7, 30]), nk=rng.choice([1, 2, 5]),
                        container=rng.choice(['list', 'array', 'tuple']), sel=rng.randrange(1000)))
    return out


def parse(path):
    """Independent reader: comments and rows"""
    comments, rows = [], []
    with open(path) as fh:
        text = fh.read()
    lines = text.split('\n')
    ends = lines[-1] == ''
    if ends:
        lines = lines[:-1]
    order = True
    for line in lines:
        if line.startswith('#'):
            comments.append(line)
            order = order and not rows
        else:
            rows.append(line.split())
    return comments, rows, order and ends


def near(tok, want):
    """Whether a token stands for a number to six significant digits"""
    x, want = float(tok), float(want)
    if math.isnan(want):
        return math.isnan(x)
    if math.isinf(want) or math.isinf(x):
        return x == want
    return abs(x - want) <= 5.001e-6 * abs(want) + 1e-320


def check_rows(obs, mech, path, columns, msg):
    """Rows of a file against the columns expected"""
    comments, rows, order = parse(path)
    obs.count('files')
    obs.check(order, mech + '/layout', lambda: '%s: comments and data are mixed, or the last line is not complete, in %s' % (msg, path))
    n = len(columns[0])
    if not obs.check(len(rows) == n, mech + '/rows', lambda: '%s: %d rows, expected %d' % (msg, len(rows), n)):
        return comments
    bad = None
    for i, row in enumerate(rows):
        obs.count('rows')
        if len(row) != len(columns) or not all(near(t, c[i]) for t, c in zip(row, columns)):
            bad = i
            break
    obs.check(bad is None, mech + '/values', lambda: '%s: row %d is %s, expected %s' % (msg, bad, rows[bad], [float(c[bad]) for c in columns]))
    return comments


def columns_of(cf):
    g = cf.grid
    if len(g) == 2 and hasattr(g[0], '__len__'):
        x, y, z = [], [], []
        for i, a in enumerate(g[0]):
            for j, b in enumerate(g[1]):
                x.append(float(a))
                y.append(float(b))
                z.append(float(cf.value[i][j]))
        return [x, y, z]
    return [[float(a) for a in g], [float(a) for a in cf.value]]


NAMES = {'msd': ['t'], 'vacf': ['t'], 'alpha2': ['t'], 'qst': ['t'], 'qt': ['t'], 'chi4qs': ['t'], 'qsu': ['t'], 'q2su': ['t'], 'fskt': ['k', 't'], 'fkt': ['k', 't'], 's4kt': ['t', 'k'],
         'gr': ['r'], 'sk': ['k'], 'ba': ['theta'], 'ik': ['k']}

# The names that the command line, the output files and their columns go by
SYMBOLS = {'MeanSquareDisplacement': 'msd', 'VelocityAutocorrelation': 'vacf', 'NonGaussianParameter': 'alpha2', 'SelfOverlap': 'qst', 'CollectiveOverlap': 'qt',
           'Chi4SelfOverlap': 'chi4qs', 'Chi4SelfOverlapOptimized': 'chi4qs', 'SelfIntermediateScatteringFast': 'fskt', 'SelfIntermediateScatteringLegacy': 'fskt',
           'IntermediateScattering': 'fkt', 'S4ktOverlap': 's4kt', 'RadialDistributionFunction': 'gr', 'RadialDistributionFunctionLegacy': 'gr', 'StructureFactorLegacy': 'sk',
           'StructureFactorFast': 'sk', 'BondAngleDistribution': 'ba', 'SpectralDensity': 'ik'}


def metadata(comments):
    db = {}
    for c in comments:
        if ':' in c:
            k, v = c[1:].split(':', 1)
            db.setdefault(k.strip(), v.strip())
    return db


def check_file(obs, mech, cf, path, msg, th):
    if not obs.check(os.path.exists(path), mech + '/missing', lambda: '%s: no file %s' % (msg, path)):
        return
    comments = check_rows(obs, mech, path, columns_of(cf), msg)
    db = metadata(comments)
    want = NAMES.get(cf.symbol, cf.grid_name) + [cf.short_name]
    got = [x.strip() for x in db.get('columns', '').split(', ')]
    obs.check(got == want, mech + '/columns', lambda: '%s: columns are %s, expected %s' % (msg, got, want))
    obs.check(cf.long_name in db.get('title', '') and cf.short_name in db['title'], mech + '/title', lambda: '%s: title is %r' % (msg, db.get('title')))
    if cf.tag_description:
        obs.check(db.get('title', '').strip().endswith(cf.tag_description), mech + '/title', lambda: '%s: title is %r, for %s' % (msg, db.get('title'), cf.tag_description))
    obs.check(db.get('parents') == th.filename, mech + '/parents', lambda: '%s: parent is %r, not %r' % (msg, db.get('parents'), th.filename))
    for k, v in cf.analysis.items():
        if v is None:
            obs.check(k not in db, mech + '/analysis', lambda: '%s: %s is None, the file has %s' % (msg, k, db.get(k)))
            continue
        obs.count('analysis')
        if isinstance(v, dict):
            obs.check(k in db, mech + '/analysis', lambda: '%s: %s is not in the file' % (msg, k))
            continue
        try:
            x = float(db.get(k, 'missing').strip('[]() '))
        except ValueError:
            x = None
        obs.check(x is not None and (near(x, v) or (x != x and v != v)), mech + '/analysis', lambda: '%s: %s is %r, the file has %r' % (msg, k, v, db.get(k)))


def check_tau(obs, cf, path, msg):
    if not obs.check(os.path.exists(path), 'tau/missing', lambda: '%s: no relaxation times in %s' % (msg, path)):
        return
    comments, rows, order = parse(path)
    obs.check(order, 'tau/layout', lambda: '%s: %s' % (msg, path))
    ks = [float(k) for k in cf.grid[0]]
    db = metadata(comments)
    obs.check('k' in db.get('columns', ''), 'tau/columns', lambda: '%s: columns %s' % (msg, db.get('columns')))
    if len(set(ks)) != len(ks):
        raise Skip('shells with the same norm')
    if not obs.check(len(rows) == len(ks), 'tau/rows', lambda: '%s: %d relaxation times for %d k' % (msg, len(rows), len(ks))):
        return
    t = [float(x) for x in cf.grid[1]]
    for k, row, f in zip(ks, rows, cf.value):
        f = [float(x) for x in f]
        obs.count('tau_rows')
        obs.check(near(row[0], k), 'tau/k', lambda: '%s: row %s, expected k=%r' % (msg, row, k))
        fstar = f[0] / math.e
        if any(abs(x - fstar) <= 1e-12 * abs(fstar) for x in f) or not all(math.isfinite(x) for x in f):
            continue
        want = ref.crossing(t, f, fstar)
        if want is None:
            obs.check(len(row) == 1, 'tau/none', lambda: '%s: k=%r has tau=%s, the function does not cross 1/e: %s' % (msg, k, row[1:], f))
        else:
            obs.count('tau_crossing')
            obs.check(len(row) == 2 and abs(float(row[1]) - want) <= 1e-5 * abs(want), 'tau/value', lambda: '%s: k=%r has tau=%s, expected %r' % (msg, k, row[1:], want))


def read_back(obs, pp, cf, make, mech, msg):
    """Another object reads the file"""
    c2 = make()
    c2.read()
    obs.count('read_back')
    g, v = list(c2.grid), list(c2.value)
    a, b = columns_of(cf)
    ok = len(g) == len(a) and len(v) == len(b) and all(near(x, y) for x, y in zip(g, a)) and all(near(x, y) for x, y in zip(v, b))
    obs.check(ok, mech + '/read', lambda: '%s: read back %s %s, expected %s %s' % (msg, g[:6], v[:6], a[:6], b[:6]))


def leftover(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fh:
        fh.write('# title: an old result\n# columns: x, y\n# old analysis: 1.0\n')
        for i in range(20000):
            fh.write('%d 99.5 98.5\n' % i)


def synthetic(pp, case, obs):
    rng = numpy.random.RandomState(case['seed'])
    m = gen.build(dict(seed=3, nframes=2, N=6))
    th = gen.to_ram(m, filename=os.path.join(obs.tmp, 'synthetic'))

    def numbers(n, kind):
        x = rng.normal(size=n)
        if kind == 'tiny':
            x *= 10.0**rng.randint(-300, -5, size=n)
        elif kind == 'huge':
            x *= 10.0**rng.randint(5, 300, size=n)
        elif kind == 'mixed':
            x *= 10.0**rng.randint(-12, 12, size=n)
        elif kind == 'nan':
            x[rng.randint(n)] = numpy.nan
        elif kind == 'inf':
            x[rng.randint(n)] = numpy.inf if rng.rand() < 0.5 else -numpy.inf
        elif kind == 'int':
            x = rng.randint(-10**5, 10**5, size=n)
        elif kind == 'zero':
            x *= 0
        elif kind == 'digits':
            x = numpy.round(rng.normal(size=n) * 10, 6) + 1e5 * rng.randint(10, size=n)
        return x

    def pack(x):
        return x.tolist() if case['container'] == 'list' else tuple(x.tolist()) if case['container'] == 'tuple' else x
    two = case['two']

    def make():
        if two:
            return pp.SelfIntermediateScattering(th, kgrid=[3.0], tgrid=[0.0, 1.0])
        return getattr(pp, case['cls'])(th)
    cf = make()
    msg = 'synthetic %s %s' % (case['values'], case['container'])
    if two:
        k = sorted(rng.uniform(0.5, 20, size=case['nk']).tolist())
        t = sorted((rng.rand(case['n']) * 10.0**rng.randint(-3, 8)).tolist())
        cf.grid = [k, t]
        v = numbers(case['n'] * case['nk'], case['values']).reshape(case['nk'], case['n'])
        cf.value = v if case['container'] == 'array' else v.tolist()
    else:
        cf.grid = pack(numpy.sort(rng.rand(case['n']) * 10.0**rng.randint(-4, 9)))
        cf.value = pack(numbers(case['n'], case['values']))
    cf.tag = ['', 'A', 'A-B', 'some_tag'][case['sel'] % 4]
    if case['sel'] % 5 == 0:
        # A longer result has been written before
        leftover(os.path.join(obs.tmp, 'synthetic.pp.%s%s' % (cf.symbol, '.' + cf.tag if cf.tag else '')))
    if case['sel'] % 3 == 0 and not two:
        cf.analysis = {'some result': 1.5, 'nothing': None, 'another one': 0.0}
    cf.write()
    path = os.path.join(obs.tmp, 'synthetic.pp.%s%s' % (cf.symbol, '.' + cf.tag if cf.tag else ''))
    if not os.path.exists(path):
        raise Skip('another naming scheme: %s' % os.listdir(obs.tmp))
    if two:
        analysis, cf.analysis = cf.analysis, {}
    check_file(obs, 'synthetic', cf, path, msg, th)
    if case['sel'] % 3 == 0 and not two:
        text = open(path).read()
        obs.check('some result: 1.5' in text and 'nothing' not in text and 'another one: 0.0' in text, 'synthetic/analysis', lambda: '%s: results of the analysis in %s' % (msg, text[:500]))
    if not two:
        def again():
            c = make()
            c.tag = cf.tag
            return c
        read_back(obs, pp, cf, again, 'synthetic', msg)


def run(case, obs):
    pp = boot.load()
    kind = case['kind']
    if kind == 'synthetic':
        return synthetic(pp, case, obs)
    from atooms.postprocessing.partial import Partial
    name = case['cls']
    m = gen.build(case['spec'])
    th = gen.container(m, case['how'], obs.tmp)
    a = case['args']
    kw = classes.kwargs(a, name, m)
    names = sorted(set(m.species[0]))
    msg = '%s, %s' % (name, kind)
    obs.count('class:' + name)

    def usable(cf):
        if 'Scattering' in name and min(cf.grid[1]) > 0:
            raise Skip('no entry at t=0 to extract relaxation times from')

    def make():
        cf = classes.create(pp, name, th, m, a, obs.tmp, kw=dict(kw))
        if kind == 'filter':
            cf = pp.Filter(cf, case['cond'] if cf.nbodies == 1 else '%s,%s' % (case['cond'], case['cond']))
        elif kind == 'weight':
            cf.add_weight(field='charge', fluctuations=bool(case['sel'] % 2))
        elif kind == 'path':
            cf.output_path = os.path.join(obs.tmp, 'some/folder/{symbol}_out{tag}')
        return cf
    if 'Scattering' in name and not a['normalize'] and kw.get('tgrid') is not None and min(kw['tgrid']) > 0:
        raise Skip('no entry at t=0 to extract relaxation times from')
    before = set(os.listdir(obs.tmp))
    if kind == 'partial':
        p = Partial(getattr(pp, name), list(names), th, **kw)
        p.do()
        for k, c in p.partial.items():
            tag = '-'.join(k) if isinstance(k, tuple) else k
            path = '%s.pp.%s.%s' % (th.filename, c.symbol, tag)
            check_file(obs, 'partial', c, path, '%s %s' % (msg, tag), th)
            if c.symbol in ('fskt', 'fkt'):
                check_tau(obs, c, path + '.tau', '%s %s' % (msg, tag))
        return
    if kind == 'filter':
        sel = {'radius < 0.5': lambda r, c: r < 0.5, 'charge > 0': lambda r, c: c > 0, 'radius >= 0.45': lambda r, c: r >= 0.45}[case['cond']]
        if any(sum(bool(sel(r, c)) for r, c in zip(m.radius[i], m.charge[i])) in (0, 1, m.ndim) for i in range(m.n)):
            raise Skip('too few particles')
    cf = make()
    obs.same(cf.symbol, SYMBOLS[name], 'symbol', '%s: symbol in the names of the files' % name)
    obs.check(cf.short_name and cf.long_name, 'names', lambda: '%s has no name to go in the metadata: %r, %r' % (name, cf.short_name, cf.long_name))
    if kind == 'comments':
        cf.comments = '# a comment\n# another one\n'
    if kind in ('twice', 'comments', 'path') and hasattr(cf, '_output_file') and case['sel'] % 2:
        leftover(cf._output_file)
        if cf.symbol in ('fskt', 'fkt'):
            leftover(cf._output_file + '.tau')
    cf.do()
    if kind == 'twice':
        cf.do()
        cf.write()
    if kind == 'path':
        path = os.path.join(obs.tmp, 'some/folder/%s_out' % cf.symbol)
    elif kind in ('filter', 'weight'):
        path = [os.path.join(obs.tmp, x) for x in sorted(set(os.listdir(obs.tmp)) - before) if '.pp.%s.' % cf.symbol in x and not x.endswith('.tau')]
        obs.check(len(path) == 1, 'files', lambda: '%s: files are %s' % (msg, os.listdir(obs.tmp)))
        path = path[0]
    else:
        path = '%s.pp.%s' % (th.filename, cf.symbol)
    check_file(obs, kind, cf, path, msg, th)
    if kind == 'comments':
        text = open(path).read()
        obs.check('# a comment\n# another one\n' in text, 'comments/kept', lambda: '%s: the comments are not in %s' % (msg, text[:600]))
    if cf.symbol in ('fskt', 'fkt'):
        check_tau(obs, cf, path + '.tau', msg)
    elif cf.symbol != 's4kt':
        read_back(obs, pp, cf, make, kind, msg)
    if cf.symbol == 'chi4qs' and kind in ('total', 'twice', 'comments', 'path'):
        # The moments
        for c in (getattr(cf, 'average', None), getattr(cf, 'variance', None)):
            if c is None:
                continue
            obs.count('moments')
            check_file(obs, 'moments', c, os.path.join(obs.tmp, 'some/folder/%s_out' % c.symbol) if kind == 'path' else '%s.pp.%s' % (th.filename, c.symbol), msg + ', ' + c.symbol, th)
