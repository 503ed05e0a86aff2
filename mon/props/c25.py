"""C25: derived quantities follow from the data they summarize"""
import math

import numpy

from .. import boot, gen, tc
from ..harness import Skip

RULE = ('one case = the analysis of a correlation computed from a generated trajectory, or of a correlation object that holds given '
        'data (decays, growths, oscillations, noise, data that never cross the threshold, cross at a grid point, in the first or '
        'last interval, extrema inside and at the borders, straight lines), or the numerical helpers on the same data, against an '
        'independent evaluation of crossings, least-squares slopes and parabolic vertices')
MINIMUM = 200
REQUIRED_COUNTS = {'crossings': 300, 'no_crossing': 50, 'slopes': 60, 'vertices': 80, 'borders': 40}
ASSUMPTIONS = ['data that touch the threshold without crossing it, or start on it, are excluded']

E = math.exp(1.0)
KINDS = ['msd', 'qst', 'alpha2', 'chi4qs', 'fskt', 'fkt', 'inject_msd', 'inject_qst', 'inject_alpha2', 'inject_chi4qs', 'inject_fskt', 'inject_fkt',
         'feqc', 'ifabsmm', 'linear_fit']
CLS = dict(msd=['MeanSquareDisplacement'], qst=['SelfOverlap'], alpha2=['NonGaussianParameter'], chi4qs=['Chi4SelfOverlap', 'Chi4SelfOverlapOptimized'],
           fskt=['SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy'], fkt=['IntermediateScattering'])
SHAPES = ['decay', 'growth', 'line', 'oscillation', 'noise', 'flat', 'peak', 'dip', 'gridpoint', 'step', 'early', 'late', 'hump', 'plateau', 'sqrt']


def cases(tier, seed):
    out = []
    n = 4000 if tier == 'quick' else 40000
    for i in range(n):
        rng = gen.rng_for('C25', seed, i)
        kind = KINDS[i % len(KINDS)]
        c = dict(kind=kind, seed=rng.randrange(10**6), kreverse=rng.random() < 0.4)
        if kind in CLS:
            spec = gen.dynamics_spec(rng, nframes=rng.choice([6, 12, 25]), sampling=rng.choice(['even', 'even', 'blocks']),
                                     motion=rng.choice(['brownian', 'strong', 'ballistic', 'hop']), N=rng.choice([12, 25]), amp=rng.choice([0.1, 0.3, 0.8]))
            c.update(spec=spec, cls=rng.choice(CLS[kind]), tgrid=rng.choice([None, ['dense'], ['few']]), norigins=rng.choice([-1, 1, 0.5]),
                     sigma=rng.choice([0.1, 0.5, 1.0, 2.0]), a=rng.choice([0.2, 0.5]), normalize=rng.random() < 0.7, line=rng.random() < 0.15)
        else:
            c.update(shape=rng.choice(SHAPES), n=rng.choice([2, 3, 5, 12, 40]), sigma=rng.choice([0.5, 1.0, 2.0]), grid=rng.choice(['linear', 'log', 'random']),
                     scale=rng.choice([1.0, 1e-3, 1e3]), ndim=rng.choice([2, 3]), order=rng.choice(['list', 'array']),
                     cls=rng.choice(CLS[kind[7:]]) if kind.startswith('inject') else None, nk=rng.choice([1, 3]))
        out.append(c)
    return out


# --- oracle

def crossing(x, f, c):
    """(position of the first crossing or None, ambiguous)"""
    n = min(len(x), len(f))
    if f[0] == c:
        return None, True
    up = f[0] < c
    for i in range(1, n):
        if f[i] == c:
            # does it go through?
            j = i
            while j < n and f[j] == c:
                j += 1
            if j == n or (f[j] < c) == up or j > i + 1:
                return None, True
            return x[i], False
        if (f[i] < c) != up:
            w = (c - f[i-1]) / (f[i] - f[i-1])
            return x[i-1] + w * (x[i] - x[i-1]), False
    return None, False


def slope(x, y):
    x, y = numpy.array(x, dtype=float), numpy.array(y, dtype=float)
    dx = x - x.mean()
    return float((dx * (y - y.mean())).sum() / (dx**2).sum())


def extremum(x, f, largest=True):
    """(x, f, at the border, tolerance)"""
    f = [float(v) for v in f]
    i = f.index(max(f) if largest else min(f))
    if i in (0, len(f) - 1):
        return float(x[i]), f[i], True, (0.0, 0.0)
    # Newton form of the parabola, centered on the middle point
    h1, h2 = float(x[i-1] - x[i]), float(x[i+1] - x[i])
    d1, d2 = (f[i-1] - f[i]) / h1, (f[i+1] - f[i]) / h2
    a = (d1 - d2) / (h1 - h2)
    b = d1 - a * h1
    dx = -b / (2 * a)
    # the definition is evaluated far from the origin in the code
    tol = 1e-11 * (abs(a) * float(x[i])**2 + abs(f[i]))
    return float(x[i]) + dx, f[i] - b * b / (4 * a), False, (tol / max(abs(a), 1e-300)**1.0 / max(abs(h1), abs(h2)) + 1e-9 * abs(x[i]), 10 * tol)


def check_crossing(obs, got, x, f, c, what):
    want, ambiguous = crossing(x, f, c)
    if ambiguous or not numpy.all(numpy.isfinite(f)):
        obs.count('ambiguous')
        return
    if want is None:
        obs.count('no_crossing')
        obs.check(got is None, 'crossing/none', lambda: '%s: got %r, but the data never cross %r: %s' % (what, got, c, list(f)[:12]))
    else:
        obs.count('crossings')
        if obs.check(got is not None, 'crossing/missed', lambda: '%s: no crossing, expected %r for threshold %r: %s %s' % (what, want, c, list(x)[:12], list(f)[:12])):
            obs.close(got, want, 'crossing/value', rtol=1e-8, atol=1e-12, msg=what)


def check_extremum(obs, got, x, f, what, largest=True):
    if not numpy.all(numpy.isfinite(f)):
        obs.count('ambiguous')
        return
    wx, wf, border, (tx, tf) = extremum(x, f, largest)
    obs.count('borders' if border else 'vertices')
    obs.close(got[0], wx, 'extremum/position', rtol=1e-7, atol=tx, msg='%s (%s): position' % (what, 'border' if border else 'inside'))
    obs.close(got[1], wf, 'extremum/height', rtol=1e-7, atol=tf, msg='%s (%s): height' % (what, 'border' if border else 'inside'))


def check_msd(obs, cf, x, f, sigma, ndim, what):
    check_crossing(obs, cf.analysis.get('diffusive time tau_D'), x, f, sigma**2, what + ': diffusive time')
    key = 'diffusion coefficient D'
    above = [(u, v) for u, v in zip(x, f) if v > sigma**2]
    if any(abs(v - sigma**2) < 1e-9 * sigma**2 for v in f):
        obs.count('ambiguous')
        return
    if len(above) < 2:
        obs.check(cf.analysis.get(key) is None, 'slope/none', lambda: '%s: got D=%r with %d points beyond sigma^2' % (what, cf.analysis.get(key), len(above)))
    else:
        obs.count('slopes')
        D = slope(*zip(*above)) / (2 * ndim)
        obs.close(cf.analysis.get(key, float('nan')), D, 'slope/value', rtol=1e-5, atol=1e-9 * max(abs(v) for _, v in above) / max(u for u, _ in above), msg=what + ': diffusion coefficient')


def check_analysis(obs, cf, kind, x, f, case, ndim, what):
    if kind == 'msd':
        check_msd(obs, cf, x, f, case['sigma'], ndim, what)
    elif kind == 'qst':
        check_crossing(obs, cf.analysis.get('tau'), x, f, 1 / E, what + ': relaxation time')
    elif kind == 'alpha2':
        check_extremum(obs, (cf.analysis.get('t_star', float('nan')), cf.analysis.get('a2_star', float('nan'))), x, f, what)
    elif kind == 'chi4qs':
        check_extremum(obs, (cf.analysis.get('peak time tau_star', float('nan')), cf.analysis.get('peak height chi4_star', float('nan'))), x, f, what)
    else:
        tau = cf.analysis.get('relaxation times tau')
        kgrid, tgrid = x
        if not obs.check(tau is not None and len(tau) == len(set(float(k) for k in kgrid)), 'tau/keys',
                         lambda: '%s: relaxation times %r for wave-vectors %r' % (what, tau, list(kgrid))):
            return
        for k, fk in zip(kgrid, f):
            hit = [v for q, v in tau.items() if float(q) == float(k)]
            if obs.check(len(hit) == 1, 'tau/keys', lambda: '%s: no relaxation time for k=%r' % (what, k)):
                if len([q for q in kgrid if float(q) == float(k)]) > 1:
                    continue
                check_crossing(obs, hit[0], list(tgrid), list(fk), float(fk[0]) / E, '%s: relaxation time at k=%r' % (what, k))


# --- workload

def series(case, rng):
    """Synthetic data"""
    n = case['n']
    if case['grid'] == 'linear':
        x = numpy.arange(n) * 0.3
    elif case['grid'] == 'log':
        x = numpy.array([0.0] + [0.1 * 1.7**i for i in range(n - 1)])
    else:
        x = numpy.concatenate([[0.0], numpy.cumsum(rng.uniform(0.05, 1.0, size=n - 1))])
    s, T = case['shape'], float(x[-1])
    u = x / T
    if s == 'decay':
        f = numpy.exp(-u * rng.choice([0.3, 2.0, 9.0]))
    elif s == 'growth':
        f = 8 * u**rng.choice([0.5, 1.0, 2.0])
    elif s == 'line':
        f = rng.choice([0.37, 2.0, 11.0]) * u
    elif s == 'sqrt':
        f = 5 * numpy.sqrt(u)
    elif s == 'oscillation':
        f = numpy.cos(u * rng.choice([3.0, 12.0]))
    elif s == 'noise':
        f = rng.uniform(-1, 4, size=n)
    elif s == 'flat':
        f = numpy.ones(n) * rng.choice([0.2, 0.9, 3.0])
    elif s == 'peak':
        f = 3 * u * numpy.exp(-3 * u)
    elif s == 'dip':
        f = 1 - 3 * u * numpy.exp(-3 * u)
    elif s == 'hump':
        f = numpy.exp(-(u - rng.uniform(0, 1))**2 * 20)
    elif s == 'gridpoint':
        # exactly on the threshold of the analysis at a grid point
        c = {'msd': case['sigma']**2, 'qst': 1 / E}.get(case['kind'].split('_')[-1], 1 / E)
        f = c * (2 - numpy.arange(n) * 2.0 / max(1, n - 1)) if case['kind'] != 'inject_msd' else c * numpy.arange(n) * 2.0 / max(1, n - 1)
        if n % 2:
            f[n // 2] = c
    elif s == 'step':
        f = numpy.where(u < 0.5, 1.0, 0.1)
    elif s == 'early':
        f = numpy.concatenate([[1.0], 0.1 * numpy.ones(n - 1)])
    elif s == 'late':
        f = numpy.concatenate([numpy.ones(n - 1), [0.05]])
    elif s == 'plateau':
        f = 0.5 * numpy.exp(-20 * u) + 0.5 * numpy.exp(-2 * u**4)
    if case['kind'] in ('inject_msd',) and s in ('decay', 'step', 'early', 'late', 'plateau'):
        f = 3 * (f[0] - f)
    return x, f


def run_inject(case, obs):
    pp = boot.load()
    kind = case['kind'][7:]
    rng = numpy.random.RandomState(case['seed'])
    m = gen.build(dict(seed=1, N=8, nframes=4, ndim=case['ndim'], L=5.0, species={'A': 1}))
    th = gen.to_ram(m)
    x, f = series(case, rng)
    x = x * case['scale']
    cast = list if case['order'] == 'list' else numpy.array
    kw = dict(sigma=case['sigma']) if kind == 'msd' else {}
    if kind in ('fskt', 'fkt'):
        kw = dict(kgrid=[2.0], nk=2, tgrid=[0.0, 1.0])
    cf = getattr(pp, case['cls'])(th, **kw)
    if kind in ('fskt', 'fkt'):
        ks = [0.5 + i for i in range(case['nk'])]
        if case['kreverse']:
            ks = ks[::-1]
        fs = [f * (1.0 if i == 0 else rng.uniform(0.2, 2.0)) if i < 2 else series(dict(case, shape='decay'), rng)[1] for i in range(len(ks))]
        cf.grid, cf.value = [cast(ks), cast([float(v) for v in x])], [cast([float(w) for w in v]) for v in fs]
        if case['shape'] == 'gridpoint':
            # the threshold is relative to the first entry
            f0 = float(fs[0][0])
            if f0 <= 0:
                raise Skip('no decay')
        cf.analyze()
        check_analysis(obs, cf, kind, cf.grid, [[float(w) for w in v] for v in fs], case, case['ndim'], case['cls'])
        return
    cf.grid, cf.value = cast([float(v) for v in x]), cast([float(v) for v in f])
    cf.analyze()
    check_analysis(obs, cf, kind, [float(v) for v in x], [float(v) for v in f], case, case['ndim'], '%s on %s data' % (case['cls'], case['shape']))


def run_class(case, obs):
    pp = boot.load()
    kind = case['kind']
    m = gen.build(case['spec'])
    if case['line']:
        # All the particles move away as sqrt(t): the MSD is a straight line
        u0 = m.unf[0].copy()
        for i in range(m.n):
            m.unf[i] = u0 + math.sqrt(i * 0.3) * numpy.eye(m.ndim)[0]
        m.fold()
    span = (m.steps[-1] - m.steps[0]) * m.timestep
    kw = dict(norigins=case['norigins'])
    if case['tgrid'] is not None:
        kw['tgrid'] = [i * span / 20 for i in range(20)] if case['tgrid'][0] == 'dense' else [0.0, span * 0.3, span * 0.6, span]
    if kind == 'msd':
        kw['sigma'] = case['sigma']
    elif kind in ('qst', 'chi4qs'):
        kw['a'] = case['a']
    elif kind in ('fskt', 'fkt'):
        kw.update(kgrid=[2.0, 4.0, 6.0], nk=4, dk=0.3, normalize=case['normalize'])
    numpy.seterr(all='ignore')
    cf = getattr(pp, case['cls'])(gen.to_ram(m), **kw)
    if kind in ('fskt', 'fkt') and case['kreverse']:
        # wave-vectors given in any order
        k0 = 2 * math.pi / numpy.asarray(m.side[0])
        cf.kvectors = [[list(k0 * v)] for v in numpy.array([5, 1, 3])[:, None] * numpy.eye(m.ndim)[0]]
    cf.compute()
    cf.analyze()
    check_analysis(obs, cf, kind, cf.grid, cf.value, case, m.ndim, case['cls'])


def run_helper(case, obs):
    boot.load()
    from atooms.postprocessing import helpers
    rng = numpy.random.RandomState(case['seed'])
    x, f = series(case, rng)
    x = x * case['scale']
    cast = list if case['order'] == 'list' else numpy.array
    kind = case['kind']
    if not hasattr(helpers, kind):
        raise Skip('no ' + kind)
    fun = getattr(helpers, kind)
    if kind == 'feqc':
        for c in (1 / E, 1.0, 0.5, float(f[0]) * 0.9 + 1e-3):
            got = fun(cast(list(x)), cast(list(f)), c)
            check_crossing(obs, got[0], list(x), list(f), c, 'first root')
            want, amb = crossing(list(x), list(f), c)
            if not amb:
                obs.check((got[1] is None) == (want is None), 'crossing/index', 'index of the first root')
                if want is not None and got[1] is not None:
                    i = int(got[1])
                    obs.check(0 < i < len(x) and x[i-1] - 1e-12 <= want <= x[i] + 1e-12, 'crossing/index', lambda: 'root %r is not in interval %d of %s' % (want, i, list(x)))
    elif kind == 'ifabsmm':
        lo, hi = fun(cast(list(x)), cast(list(f)))
        check_extremum(obs, hi, x, f, 'maximum')
        check_extremum(obs, lo, x, f, 'minimum', largest=False)
    else:
        a, b, sa, sb = fun(numpy.array(x), numpy.array(f))
        obs.count('slopes')
        w = slope(x, f)
        size = float(abs(f).max() + 1e-12)
        obs.close(a, w, 'fit/slope', rtol=1e-6, atol=1e-9 * size / float(x[-1]), msg='slope')
        obs.close(b, float(numpy.mean(f) - w * numpy.mean(x)), 'fit/intercept', rtol=1e-6, atol=1e-8 * size, msg='intercept')
        n = len(x)
        res = float(numpy.sum((f - w * x - (numpy.mean(f) - w * numpy.mean(x)))**2))
        dx2 = float(((x - x.mean())**2).sum())
        if n > 2:
            s = math.sqrt(res / (n - 2) / dx2)
            obs.close(sa, s, 'fit/error', rtol=1e-4, atol=1e-6 * size / math.sqrt(dx2), msg='error on the slope')
            obs.close(sb, s * math.sqrt(float((x**2).sum()) / n), 'fit/error', rtol=1e-4, atol=1e-6 * size * math.sqrt(float((x**2).sum()) / n / dx2), msg='error on the intercept')


def run(case, obs):
    if case['kind'].startswith('inject'):
        run_inject(case, obs)
    elif case['kind'] in CLS:
        run_class(case, obs)
    else:
        run_helper(case, obs)
