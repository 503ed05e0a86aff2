"""C26: generic correlators and grids obey their contracts on any data"""
import math
import os
import subprocess

import numpy

from .. import boot, gen, native
from ..harness import Skip

RULE = ('one case = acf, gcf or gcf_offset on a generated series (scalars, arrays, tuples, constant or oscillating data, lists and '
        'arrays) with even, logarithmic, irregular, repeated, very short or very long times, any spacing of the origins and any grid of lags (unsorted, '
        'repeated, beyond the data) or of pairs of offsets and lags, against an average over the pairs of entries; linear and '
        'logarithmic grids against their contract; or bin/acf.py fed with a series')
MINIMUM = 150
REQUIRED_COUNTS = {'pairs': 20000, 'grids': 150, 'scripts': 5}
ASSUMPTIONS = ['times along a series do not decrease', 'lags are not negative', 'offsets of the pairs and lags are given once']

KINDS = ['acf', 'acf', 'gcf', 'gcf', 'gcf_offset', 'gcf_offset', 'linear', 'linear', 'logx', 'logx']


def cases(tier, seed):
    out = []
    n = 4000 if tier == 'quick' else 40000
    for i in range(n):
        rng = gen.rng_for('C26', seed, i)
        kind = KINDS[i % len(KINDS)]
        c = dict(kind=kind, seed=rng.randrange(10**6))
        if kind in ('acf', 'gcf', 'gcf_offset'):
            c.update(n=rng.choice([1, 2, 3, 7, 20, 45]), times=rng.choice(['even', 'even', 'float', 'blocks', 'irregular', 'shifted', 'tiny', 'huge']), skip=rng.choice([1, 1, 2, 3, 7, 50]),
                     data=rng.choice(['noise', 'offset', 'constant', 'walk', 'oscillation', 'ints']), lags=rng.choice(['all', 'few', 'unsorted', 'repeated', 'beyond', 'range']),
                     container=rng.choice(['list', 'array']), f=rng.choice(['product', 'msd', 'asym', 'first', 'pair']))
        elif kind == 'linear':
            c.update(lo=rng.choice([0.0, -3.0, 1.5, 0.02, 1e4]), span=rng.choice([1.0, 10.0, 0.3, 180.0, 1e-3, 0.0]), by=rng.choice(['n', 'n', 'divides', 'decimal', 'decimal', 'odd', 'larger']),
                     n=rng.choice([1, 2, 3, 7, 10, 45, 100, 1000]), ints=rng.random() < 0.3)
        else:
            c.update(x1=rng.choice([0.0, 0.0, 0, 1e-3, 0.5, 1.0, 1, 20.0, 1e4]), ratio=rng.choice([1.0001, 1.5, 3.0, 10.0, 100.0, 1e6]), x2=rng.choice([1e-6, 0.01, 0.5, 1.0, 1.5, 2.0, 3.0, 50.0, 1e3, 1e7, 5]),
                     n=rng.choice([1, 2, 3, 5, 10, 60, 200]))
        out.append(c)
    m = 12 if tier == 'quick' else 300
    for i in range(m):
        rng = gen.rng_for('C26s', seed, i)
        out.append(dict(kind='script', n=rng.choice([2, 5, 10, 11, 25, 100]), seed=rng.randrange(10**6), data=rng.choice(['noise', 'offset', 'walk', 'constant', 'ints'])))
    return out


# --- series

def times(case, rng):
    n = case['n']
    k = case['times']
    if k == 'even':
        return list(range(n))
    if k == 'float':
        return [0.5 * i for i in range(n)]
    if k in ('tiny', 'huge'):
        # differences that are exact in floating point
        unit, start = (2.0**-26, 0.0) if k == 'tiny' else (2.0**18, 2.0**40)
        return [start + unit * int(x) for x in numpy.cumsum(rng.randint(1, 4, size=n))]
    if k == 'shifted':
        return [7 + 3 * i for i in range(n)]
    if k == 'blocks':
        base = [0, 1, 2, 4]
        return [16 * (i // 4) + base[i % 4] for i in range(n)]
    return [int(x) for x in numpy.cumsum(rng.randint(1, 6, size=n))]


def data(case, rng):
    n = case['n']
    k = case['data']
    if k == 'noise':
        return rng.normal(size=n)
    if k == 'offset':
        return rng.normal(size=n) + 5.0
    if k == 'constant':
        return numpy.ones(n) * 2.5
    if k == 'walk':
        return numpy.cumsum(rng.normal(size=n))
    if k == 'ints':
        return rng.randint(-5, 9, size=n)
    return numpy.cos(0.7 * numpy.arange(n))


def lags(case, rng):
    n = case['n']
    k = case['lags']
    if k == 'all':
        return list(range(n))
    if k == 'range':
        return range(0, n, 2)
    g = sorted(set(int(x) for x in rng.randint(0, n, size=5)))
    if k == 'unsorted':
        rng.shuffle(g)
    elif k == 'repeated':
        g = g + g[:2]
    elif k == 'beyond':
        g = g + [n, n + 3]
    return [int(x) for x in g]


def average(f, pairs, t, obs):
    """dt -> (average, number of pairs), the way the definition goes"""
    acc = {}
    for i0, i1 in pairs:
        obs.count('pairs')
        acc.setdefault(t[i1] - t[i0], []).append(f(i1, i0))
    return {dt: (math.fsum(v) / len(v), len(v)) for dt, v in acc.items()}


def compare(obs, mech, dt, val, cnt, want, scale, msg):
    obs.same([float(x) for x in dt], [float(x) for x in sorted(want)], mech + '/times', msg + ': time differences')
    if len(dt) != len(want):
        return
    obs.close(numpy.array([float(v) for v in val]), [want[d][0] for d in sorted(want)], mech + '/value', rtol=1e-9, atol=1e-10 * scale, msg=msg + ': averages')
    if cnt is not None:
        obs.same([int(c) for c in cnt], [want[d][1] for d in sorted(want)], mech + '/count', msg + ': number of terms')


def run_correlator(case, obs):
    boot.load()
    from atooms.postprocessing import correlation
    kind = case['kind']
    if not hasattr(correlation, kind):
        raise Skip('no ' + kind)
    rng = numpy.random.RandomState(case['seed'])
    t, x, skip = times(case, rng), data(case, rng), case['skip']
    n = case['n']
    msg = '%s of %d entries (%s), times %s, spacing %d' % (kind, n, case['data'], case['times'], skip)
    fun = getattr(correlation, kind)
    if kind == 'acf':
        grid = lags(case, rng)
        # (repeated lags count twice, in the average and in the number of terms)
        xm = math.fsum(float(v) for v in x) / n
        want = average(lambda i, j: (float(x[i]) - xm) * (float(x[j]) - xm), [(i0, i0 + i) for i in grid for i0 in range(0, n - i, skip)], t, obs)
        xx = list(x) if case['container'] == 'list' else x
        dt, val, cnt = fun(grid, skip, t, xx)
        scale = float(numpy.max(numpy.abs(x))**2) + 1
        compare(obs, 'acf', dt, val, [cnt[d] for d in dt] if hasattr(cnt, 'keys') else cnt, want, scale, msg + ', lags %s' % list(grid))
        if 0 in grid and case['lags'] != 'repeated' and skip == 1 and n > 0:
            obs.close(float(val[0]), float(numpy.var(numpy.array(x, dtype=float))), 'acf/variance', atol=1e-10 * scale, msg=msg + ': lag 0 is the variance')
        return
    # Vector data
    fkind = case['f']
    y = numpy.array([data(dict(case, n=n), rng) for _ in range(3)], dtype=float).T + numpy.outer(x, [1.0, 0.5, 0.0])
    F = dict(product=lambda a, b: float(numpy.dot(a, b)), msd=lambda a, b: float(((a - b)**2).sum()), asym=lambda a, b: float(a[0] * b[1] - 2 * b[2]),
             first=lambda a, b: float(a[0]), pair=lambda a, b: float(a[0] + 10 * b[0]))[fkind]
    seq = list(y) if case['container'] == 'list' else y
    scale = float(numpy.abs(y).max()**2) + 11 * float(numpy.abs(y).max()) + 1
    if kind == 'gcf':
        grid = lags(case, rng)
        pairs = [(i0, i0 + i) for i in grid for i0 in range(0, n - i, skip)]
        want = average(lambda i, j: F(y[i], y[j]), pairs, t, obs)
        got = fun(F, grid, skip, t, seq)
        compare(obs, 'gcf', got[0], got[1], got[2] if len(got) > 2 else None, want, scale, msg + ', lags %s' % list(grid))
    else:
        grid = []
        for i in lags(case, rng):
            grid.append((int(rng.randint(0, 4)), i))
        if case['lags'] != 'repeated':
            grid = sorted(set(grid)) if case['lags'] != 'unsorted' else list(dict.fromkeys(grid))
        pairs = [(i0, i0 + i) for off, i in grid for i0 in range(off, n - i, skip)]
        want = average(lambda i, j: F(y[i], y[j]), pairs, t, obs)
        got = fun(F, grid, skip, t, seq)
        compare(obs, 'gcf_offset', got[0], got[1], got[2] if len(got) > 2 else None, want, scale, msg + ', offsets and lags %s' % grid)


def run_linear(case, obs):
    boot.load()
    from atooms.postprocessing.helpers import linear_grid
    lo, hi, n, by = case['lo'], case['lo'] + case['span'], case['n'], case['by']
    obs.count('grids')
    if case['ints']:
        lo, hi = int(round(lo)), int(round(lo)) + max(1, int(case['span']))
    span = hi - lo
    tol = 1e-9 * (abs(lo) + abs(hi) + 1e-3)
    if by == 'n':
        g = linear_grid(lo, hi, n)
        msg = 'linear_grid(%r, %r, %d)' % (lo, hi, n)
        obs.check(len(g) == n, 'linear/number', lambda: '%s: %d points' % (msg, len(g)))
        obs.check(abs(g[0] - lo) <= tol, 'linear/first', lambda: '%s starts at %r' % (msg, g[0]))
        if n > 1:
            obs.close(g[-1], hi, 'linear/last', rtol=0, atol=tol, msg=msg)
            obs.close(numpy.diff(g), [span / float(n - 1)] * (n - 1), 'linear/spacing', rtol=0, atol=tol, msg=msg)
        return
    if span == 0:
        raise Skip('no range')
    if by == 'divides':
        delta = span / float(n)
        count = n + 1
    elif by == 'decimal':
        # decimal numbers that divide each other on paper
        delta = [0.1, 0.2, 0.05, 0.7, 0.01, 0.3, 0.001][n % 7]
        lo = [0.0, 0.1, -0.3, 1.2, delta / 2][case['seed'] % 5]
        n = 1 + case['seed'] % 60
        hi = round(lo + n * delta, 10)
        span = hi - lo
        count = n + 1
    elif by == 'larger':
        delta = span * 1.5
        count = 1
    else:
        delta = span / (n + 0.37)
        count = n + 1
    g = linear_grid(lo, hi, delta)
    msg = 'linear_grid(%r, %r, %r)' % (lo, hi, delta)
    obs.check(len(g) == count, 'linear/number', lambda: '%s: %d points instead of %d (%s)' % (msg, len(g), count, by))
    obs.check(abs(g[0] - lo) <= tol, 'linear/first', lambda: '%s starts at %r' % (msg, g[0]))
    obs.close(numpy.diff(g), [delta] * (len(g) - 1), 'linear/spacing', rtol=0, atol=tol, msg=msg)
    if by in ('divides', 'decimal') and len(g) == count:
        obs.close(g[-1], hi, 'linear/last', rtol=0, atol=tol, msg=msg)
    obs.check(g[-1] <= hi + tol, 'linear/range', lambda: '%s ends at %r' % (msg, g[-1]))


def run_logx(case, obs):
    boot.load()
    from atooms.postprocessing.helpers import logx_grid
    x1, n = case['x1'], case['n']
    x2 = x1 * case['ratio'] if x1 > 0 else case['x2']
    obs.count('grids')
    msg = 'logx_grid(%r, %r, %d)' % (x1, x2, n)
    g = [float(v) for v in logx_grid(x1, x2, n)]
    obs.check(len(g) == n, 'logx/number', lambda: '%s: %d points' % (msg, len(g)))
    obs.check(all(math.isfinite(v) for v in g), 'logx/finite', lambda: '%s: %s' % (msg, g[:10]))
    obs.close(g[0], x1, 'logx/first', rtol=1e-12, atol=0, msg=msg)
    if n > 1:
        obs.close(g[-1], x2, 'logx/last', rtol=1e-9, atol=0, msg=msg)
        obs.check(all(b > a for a, b in zip(g[:-1], g[1:])), 'logx/increasing', lambda: '%s: %s' % (msg, g[:10]))
    if n > 3:
        d = numpy.diff(g)
        # the increments grow geometrically after the first one
        r = d[2:] / d[1:-1]
        obs.close(r, [r[0]] * len(r), 'logx/logarithmic', rtol=1e-4, atol=1e-4, msg=msg + ': ratio of the increments')
        obs.check(r[0] > 1 - 1e-9, 'logx/logarithmic', lambda: '%s: increments decrease: %s' % (msg, d[:10]))


def run_script(case, obs):
    import sys
    rng = numpy.random.RandomState(case['seed'])
    x = data(dict(case, times='even'), rng)
    n = case['n']
    boot.load()
    path = os.path.join(native.REPO, 'bin', 'acf.py')
    if not os.path.exists(path):
        raise Skip('no script')
    # In a forked process with our packages in place
    code = ("import sys, runpy; sys.path.insert(0, %r); sys.dont_write_bytecode = True; from mon import boot; boot.load(); sys.argv=['acf.py']; "
            "runpy.run_path(%r, run_name='__main__')" % (os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), path))
    p = subprocess.run([sys.executable, '-c', code], input='\n'.join(repr(float(v)) for v in x) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=obs.tmp)
    obs.count('scripts')
    if not obs.check(p.returncode == 0, 'script/status', lambda: 'acf.py failed: %s' % p.stderr[-600:]):
        return
    rows = [[float(v) for v in line.split()] for line in p.stdout.split('\n') if line.strip()]
    x = numpy.array(x, dtype=float)
    want = average(lambda i, j: (x[i] - x.mean()) * (x[j] - x.mean()), [(i0, i0 + i) for i in range(0, n, 10) for i0 in range(n - i)], list(range(n)), obs)
    compare(obs, 'script', [r[0] for r in rows], [r[1] for r in rows], None, want, float(abs(x).max()**2) + 1, 'acf.py on %d numbers' % n)


def run(case, obs):
    k = case['kind']
    if k in ('acf', 'gcf', 'gcf_offset'):
        run_correlator(case, obs)
    elif k == 'linear':
        run_linear(case, obs)
    elif k == 'logx':
        run_logx(case, obs)
    else:
        run_script(case, obs)
