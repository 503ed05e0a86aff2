"""C23: compiled kernels never touch memory outside the arrays they are given

The extension modules are rebuilt from the current sources with AddressSanitizer, UndefinedBehaviorSanitizer and the run-time
checks of gfortran; python runs with the allocator of the sanitizer, so that every array has red zones around it.  The workload
is executed twice, in two processes whose fresh memory is filled with different patterns: results that differ depend on
memory nobody initialized.
"""
import json
import math
import os
import subprocess
import sys
import time

import numpy

from .. import boot, classes, gen, harness, native, tc
from ..harness import Skip

FLAVOUR = 'san'
RULE = ('one case = a correlation computed through the package on a hostile configuration (dense clusters, coincident particles, '
        'particles at the walls and outside, short, tiny and huge grids, large cutoffs, extreme wave-vectors, changing cells and '
        'number of particles), or a set of direct calls of a kernel with consistent shapes, executed under bounds checks, '
        'AddressSanitizer and UBSan, with canaries around the output arrays, in two processes with different fresh memory; '
        'distances, histograms and results must not depend on the latter')
MINIMUM = 120
REQUIRED_COUNTS = {'native_calls': 2000, 'canaries': 300, 'payload_compared': 300}
ASSUMPTIONS = ['a read inside an array allocated with a larger extent than the part in use is only seen through its effects on the '
               'results (two different memory patterns)', 'coordinates are finite numbers']
CASE_TIMEOUT = 300

PATTERNS = ('255', '127')
HOSTILE = ['none', 'coincident', 'point', 'pairs', 'wall', 'dense', 'outside', 'lattice', 'far']


# --- workload

KERNELS = ['self_overlap', 'pbc', 'bin_in_cell', 'on_surface', 'bond_angle', 'neighbors_list', 'neighbors_list_distinct', 'neighbors', 'neighbors_full',
           'neighbors_subset', 'gr_neighbors_self', 'gr_neighbors_distinct', 'gr_self', 'gr_distinct', 'distances', 'sk_bare', 'fskt']


def cases(tier, seed):
    out = []
    n = 900 if tier == 'quick' else 12000
    for i in range(n):
        rng = gen.rng_for('C23', seed, i)
        if i % 3 == 2:
            out.append(dict(kind='kernel', kernel=KERNELS[(i // 3) % len(KERNELS)], seed=rng.randrange(10**6), ndim=rng.choice([1, 2, 3, 3, 4]),
                            N=rng.choice([0, 1, 2, 3, 10, 40]), M=rng.choice([0, 1, 5, 33]), bins=rng.choice([1, 2, 7, 50]), what=rng.choice(HOSTILE)))
            continue
        name = rng.choice(classes.ALL + ['RadialDistributionFunction'] * 6 + ['BondAngleDistribution'] * 5 + ['StructureFactorFast'] * 2
                          + ['SelfIntermediateScatteringFast'] * 3 + ['Chi4SelfOverlapOptimized'] * 2)
        spec = classes.spec_for(rng, name)
        if name in classes.STATIC:
            spec.update(N=rng.choice([2, 5, 16, 40, 90]), nframes=rng.choice([1, 2, 3]))
            if rng.random() < 0.5:
                spec.update(cellvar=rng.choice(['once', 'all', 'strong', 'strong', 'strong']), nframes=3)
            if rng.random() < 0.25:
                spec.update(varN=True, nframes=3, N=30)
            if rng.random() < 0.15 and name != 'SpectralDensity':
                spec.update(ndim=rng.choice([2, 4]) if name.startswith('Radial') else 2)
            if spec['N'] < 8:
                spec['species'] = {'A': 1}
        if rng.random() < 0.15 and name.startswith('Radial') and spec['ndim'] < 4:
            spec['periodic'] = [False] * spec['ndim']
        a = classes.args_for(rng, name, spec)
        c = dict(kind='class', cls=name, spec=spec, args=a, what=rng.choice(HOSTILE), h=rng.random(), g=rng.random(), pair=rng.random() < 0.3)
        out.append(c)
    return out + big_cases(tier, seed)


def big_cases(tier, seed):
    """Many particles: no buffer may have a fixed size"""
    out = []
    for i in range(26 if tier == 'quick' else 200):
        rng = gen.rng_for('C23', seed, 'big', i)
        size = [1300, 2600, 4200][i % 3] if tier == 'quick' else rng.choice([700, 1300, 2600, 5200, 9000])
        if i < 18 or (tier != 'quick' and i % 2):
            k = KERNELS[i % len(KERNELS)]
            N, M = rng.choice([2, 5]), size
            if k in ('gr_self', 'gr_neighbors_self', 'neighbors_list', 'neighbors_full', 'neighbors_subset'):
                N, M = 600 if tier == 'quick' else rng.choice([700, 1300, 2100]), 5
            elif k in ('distances',):
                N, M = 300, 50
            elif k not in ('neighbors', 'neighbors_list_distinct', 'gr_neighbors_distinct', 'gr_distinct', 'bond_angle'):
                N, M = size, 5
            out.append(dict(kind='kernel', kernel=k, seed=rng.randrange(10**6), ndim=rng.choice([2, 3]), N=N, M=M, bins=rng.choice([7, 50]),
                            what=rng.choice(['none', 'dense', 'point', 'coincident'])))
            continue
        name = ['RadialDistributionFunction', 'BondAngleDistribution', 'SelfIntermediateScatteringFast', 'StructureFactorFast',
                'RadialDistributionFunction', 'Chi4SelfOverlapOptimized'][i % 6]
        spec = classes.spec_for(rng, name, N=size if 'Scattering' not in name else 1300, nframes=1 if name in classes.STATIC else 4, ndim=3, shape='cubic', L=8.0,
                                structure='random', sampling='even')
        spec['species'] = {'A': 1, 'B': size // 5}
        a = classes.args_for(rng, name, spec)
        h = [0.1, 0.25, 0.95][i % 3] if name.startswith('Radial') else 0.5 if name.startswith('Bond') else 0.62
        out.append(dict(kind='class', cls=name, spec=spec, args=a, what=rng.choice(['none', 'dense', 'point']), h=h, g=0.6, pair=name in classes.TWO and i % 4 != 0 or name.startswith('Bond')))
    return out


def hostile(m, what, seed):
    """Make the configuration nasty"""
    rng = numpy.random.RandomState(seed)
    for i in range(m.n):
        x, u, L = m.pos[i], m.unf[i], m.side[i]
        n = len(x)
        if what == 'coincident':
            k = max(1, n // 2)
            x[:k] = x[0]
        elif what == 'point':
            x[:] = x[0]
        elif what == 'pairs':
            x[1::2] = x[:n - n % 2:2][:len(x[1::2])]
        elif what == 'wall':
            x[:] = numpy.where(rng.rand(*x.shape) < 0.5, numpy.where(rng.rand(*x.shape) < 0.5, 0.5, -0.5) * L, x)
        elif what == 'dense':
            x[:] = rng.normal(size=x.shape) * 0.05
        elif what == 'outside':
            x += rng.randint(-1, 2, size=x.shape) * L
        elif what == 'far':
            x += rng.randint(-5, 6, size=x.shape) * L
        elif what == 'lattice':
            x[:] = numpy.rint(x / L * 4) / 4 * L
        else:
            continue
        m.unf[i] = x.copy()
        m.vel[i] = rng.normal(size=x.shape)
    return m


def kwargs(case, m):
    name, a, h, g = case['cls'], case['args'], case['h'], case['g']
    kw = classes.kwargs(a, name, m)
    L = float(min(m.side[0]))
    if name.startswith('Radial'):
        # short and long ranges, fine and coarse bins
        kw['dr'] = [0.01, 0.05, 0.2, 0.9 * L / 4][int(g * 4)]
        opt = int(h * 10) - 2
        if opt < 2:
            kw['rmax'] = 0.235 * L - kw['dr'] / 2
            if kw['rmax'] < 2 * kw['dr']:
                kw['dr'] = kw['rmax'] / 3
        elif opt == 2:
            kw['rmax'] = 0.1 * L
        elif opt == 3:
            kw['rmax'] = 1.5 * L
        elif opt == 4:
            kw['rgrid'] = [kw['dr'] * (j + 0.5) for j in range(2 + int(g * 40) % 7)]
        elif opt == 5:
            kw['rgrid'] = [kw['dr'] * (j + 0.3) for j in range(2 + int(g * 40) % 7)]
        else:
            kw.pop('rmax', None)
        if m.periodic is not None and 'rmax' not in kw:
            kw['rmax'] = 0.3 * L
    elif name == 'BondAngleDistribution':
        ns = len(set(x for sp in m.species for x in sp))
        rcut = [0.3, 1.0, L / 2, 1.5 * L, 100.0 * L][int(h * 5)]
        kw['rcut'] = [[rcut] * ns for _ in range(ns)]
        kw['dtheta'] = [0.5, 4.0, 7.0, 50.0, 90.0][int(g * 5)]
    elif name in classes.FOURIER:
        if h < 0.3:
            k0 = 2 * math.pi / L
            kw['kgrid'] = [k0 * 0.9, k0 * 3.3]
            kw['nk'] = 200
        elif h < 0.6 and 'kgrid' in kw:
            kw.pop('kgrid')
            kw.update(kmin=-1, kmax=2.5 * 2 * math.pi / L, ksamples=3)
    return kw


def count_calls(obs):
    """Count the calls that reach the native code (proxy object in place of the extension module)"""
    class Proxy(object):
        def __init__(self, mod):
            self.__dict__['_mod'] = mod

        def __getattr__(self, name):
            f = getattr(self._mod, name)
            if not callable(f):
                return f

            def call(*a, **k):
                obs.counts['native_calls'] += 1
                return f(*a, **k)
            return call
    restore = []
    for mod, attr in (('realspace_wrap', 'compute'), ('fourierspace_wrap', 'fourierspace_module')):
        try:
            w = __import__('atooms.postprocessing.' + mod, fromlist=[attr])
            orig = getattr(w, attr)
        except (ImportError, AttributeError):
            continue
        setattr(w, attr, Proxy(orig))
        restore.append((w, attr, orig))
    return restore


def run_class(case, obs):
    pp = boot.load(FLAVOUR)
    m = gen.build(case['spec'])
    if case['cls'] in classes.STATIC or case['what'] in ('coincident', 'point', 'pairs', 'wall', 'lattice'):
        hostile(m, case['what'], case['spec']['seed'])
    kw = kwargs(case, m)
    th = gen.to_ram(m)
    restore = count_calls(obs)
    numpy.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    try:
        cf = classes.create(pp, case['cls'], th, m, case['args'], obs.tmp, kw=kw)
        if case['cls'] in classes.FOURIER and case['h'] > 0.65:
            # Explicit vectors, up to the largest index there is
            rng = numpy.random.RandomState(case['spec']['seed'])
            top = 1 + int(case['g'] * 6)
            ints = [[[int(x) for x in rng.randint(-top, top + 1, size=m.ndim)] for _ in range(3)] for _ in range(2)]
            ints[0][0][0], ints[0][1][-1] = top, -top
            ints[1][0] = [top] * m.ndim
            cf.kvectors = [[list(numpy.array(v) * 2 * math.pi / m.side[0]) for v in l] for l in ints]
        if case['pair'] and case['cls'] in classes.TWO:
            sp = sorted(set(x for s in m.species for x in s))
            cf.add_filter(lambda s, _=sp[0]: _only(s, _), sp[0])
            cf.add_filter(lambda s, _=sp[-1]: _only(s, _), sp[-1])
        try:
            cf.compute()
        except (ValueError, IndexError, ZeroDivisionError, KeyError, AssertionError, TypeError, UnboundLocalError) as e:
            # No result at all for extreme requests: other properties tell when there must be one
            obs.count('refused/%s' % type(e).__name__)
            obs.check(True, 'survived')
            return
    finally:
        for w, attr, orig in restore:
            setattr(w, attr, orig)
    obs.check(True, 'survived')
    obs.count('class/' + case['cls'])
    obs.payload = [flat(cf.grid), flat(cf.value)]


def _only(system, species):
    import copy
    s = copy.copy(system)
    s.particle = [p for p in system.particle if p.species == species]
    return s


def flat(x):
    if x is None:
        return []
    if isinstance(x, numpy.ndarray) and x.size > 2000:
        y = numpy.abs(numpy.array(x, dtype=complex)).flatten()
        return [float(len(y)), float(numpy.sum(y)), float(numpy.dot(y, numpy.arange(len(y)) % 7))]
    if hasattr(x, 'tolist'):
        x = x.tolist()
    if hasattr(x, '__iter__'):
        out = []
        for y in x:
            out += flat(y)
        return out
    x = complex(x)
    return [x.real] if x.imag == 0 else [x.real, x.imag]


class Guarded(object):
    """An array in the middle of a larger one, to see writes next to it that stay in the same block of memory"""

    def __init__(self, shape, dtype, order='C', pad=16):
        n = int(numpy.prod(shape))
        self.pad = pad
        self.raw = numpy.zeros(n + 2 * pad, dtype=dtype)
        self.canary = 12345
        self.raw[:pad] = self.canary
        self.raw[pad + n:] = self.canary
        self.x = self.raw[pad:pad + n].reshape(shape, order=order)

    def intact(self):
        return bool(numpy.all(self.raw[:self.pad] == self.canary) and numpy.all(self.raw[len(self.raw) - self.pad:] == self.canary))


def run_kernel(case, obs):
    pp = boot.load(FLAVOUR)
    from atooms.postprocessing.realspace_wrap import compute
    from atooms.postprocessing.fourierspace_wrap import fourierspace_module
    rng = numpy.random.RandomState(case['seed'])
    d, N, M = case['ndim'], case['N'], case['M']
    box = rng.uniform(2.0, 6.0, size=d)
    what = case['what']

    def cloud(n):
        m = gen.Model()
        m.pos, m.unf, m.vel, m.side, m.steps = [rng.uniform(-0.5, 0.5, size=(n, d)) * box], [None], [None], [box], [0]
        if n > 0:
            # the kernels handle the images next to the central cell
            hostile(m, 'outside' if what == 'far' else what, case['seed'])
        return m.pos[0]
    x, y = cloud(N), cloud(M)
    k = case['kernel']
    payload, guards = [], []

    def guarded(shape, dtype, order='F'):
        g = Guarded(shape, dtype, order)
        guards.append(g)
        return g.x

    def has(mod, name):
        if not hasattr(mod, name):
            raise Skip('no kernel ' + name)
        obs.counts['native_calls'] += 1
        return getattr(mod, name)
    # Arrays are handed over the way the package does (C-ordered or their transposes)
    xt, yt = x.T, y.T
    ns = 3
    ids, ids_y = rng.randint(1, ns + 1, size=N).astype(numpy.int32), rng.randint(1, ns + 1, size=M).astype(numpy.int32)
    rc = [0.2, 0.7, 2.0, 50.0][rng.randint(4)]
    rcut = rng.uniform(0.5, 1.0, size=(ns, ns)) * rc
    dr = [1e-3, 0.1, 1.0, 20.0][rng.randint(4)]
    nb = case['bins']
    if k == 'self_overlap':
        z = x + rng.normal(size=x.shape)
        payload.append(has(compute, k)(x, z, numpy.array(rc)))
    elif k == 'pbc':
        for v in x[:4]:
            g = guarded((d,), float)
            g[:] = v * 1.5
            has(compute, 'pbc')(g, box)
            payload.append(g)
            h = guarded((d,), float)
            h[:] = v * 1.5
            has(compute, 'pbch')(h, box, box / 2)
            payload.append(h)
    elif k == 'bin_in_cell':
        g = guarded((d, N), numpy.int64)
        has(compute, k)(xt, box / 2, box / 3, g)
        payload.append(g)
    elif k == 'on_surface':
        payload.append(has(compute, 'on_surface')(xt, box, 0.3))
        payload.append(has(compute, 'on_surface_c')(x, box, 0.3))
    elif k == 'bond_angle':
        if N == 0:
            raise Skip('no center')
        for nn in (0, 1, M):
            dtheta = [0.1, 1.0, 7.0, 180.0, 200.0][rng.randint(5)]
            g = guarded((nb,), numpy.int32)
            # one neighbour may be the center itself
            if M:
                y[0] = x[0]
            has(compute, k)(x[0], yt, numpy.arange(min(nn, M), dtype=numpy.int32), box, dtheta, g)
            payload.append(g)
    elif k in ('neighbors_list', 'neighbors_full'):
        if N == 0:
            raise Skip('no particles')
        for off in 'CF':
            nn, ne = guarded((N,), numpy.int32), guarded((N, max(1, N - 1)), numpy.int32)
            has(compute, k)(off, box, xt, ids, rcut, nn, ne)
            payload.append(nn)
            payload += [ne[i, :nn[i]] for i in range(N)]
    elif k == 'neighbors_list_distinct':
        if N == 0 or M == 0:
            raise Skip('no particles')
        # species of both sets are looked up in the same array
        both = rng.randint(1, ns + 1, size=max(N, M)).astype(numpy.int32)
        for off in 'CF':
            nn, ne = guarded((N,), numpy.int32), guarded((N, M), numpy.int32)
            has(compute, k)(off, box, xt, yt, both, rcut, nn, ne)
            payload.append(nn)
            payload += [ne[i, :nn[i]] for i in range(N)]
    elif k == 'neighbors':
        if M == 0 or N == 0:
            raise Skip('no particles')
        for off in 'CF':
            nn, ne = numpy.array(0, dtype=numpy.int32), guarded((M,), numpy.int32)
            has(compute, k)(off, box, x[0], yt, ids_y - (1 if off == 'C' else 0), rcut[0], nn, ne)
            payload += [[int(nn)], ne[:int(nn)]]
    elif k == 'neighbors_subset':
        if N == 0:
            raise Skip('no particles')
        for off in 'CF':
            # pairs once, as linked cells with the third law yield
            sub = [[j + (0 if off == 'C' else 1) for j in range(i + 1, N)] for i in range(N)]
            num = numpy.array([len(s) for s in sub], dtype=numpy.int32)
            arr = numpy.zeros((N, max(1, num.max())), dtype=numpy.int32, order='F')
            for i, s in enumerate(sub):
                arr[i, :len(s)] = s
            nn, ne = guarded((N,), numpy.int32), guarded((N, max(1, N - 1)), numpy.int32)
            has(compute, k)(off, box, xt, arr, num, ids, rcut, nn, ne)
            payload.append(nn)
    elif k in ('gr_neighbors_self', 'gr_neighbors_distinct'):
        dist = k.endswith('distinct')
        n_other = M if dist else N
        if N == 0 or n_other == 0:
            raise Skip('no particles')
        for off in 'CF':
            sub = [[j + (0 if off == 'C' else 1) for j in (range(i + 1, N) if not dist else range(M))] for i in range(N)]
            num = numpy.array([len(s) for s in sub])
            arr = numpy.zeros((N, max(1, num.max())), dtype=int)
            for i, s in enumerate(sub):
                arr[i, :len(s)] = s
            for suffix in ('', '_c'):
                h, b = guarded((nb,), numpy.int64), guarded((nb,), float)
                args = [off, xt if not suffix else x] + ([yt if not suffix else y] if dist else [])
                has(compute, k + suffix)(*(args + [arr, num, box, dr, h, b]))
                payload += [h, b]
    elif k in ('gr_self', 'gr_distinct'):
        for suffix in ('', '_c'):
            h, b = guarded((nb,), numpy.int64), guarded((nb,), float)
            args = [xt if not suffix else x] + ([yt if not suffix else y] if k.endswith('distinct') else [])
            has(compute, k + suffix)(*(args + [box, dr, h, b]))
            payload += [h, b]
    elif k == 'distances':
        g = guarded((max(1, N * (N - 1) // 2),), float)
        n = has(compute, 'distances_self')(1, N, xt, box, box / 2, g)
        payload += [[n], g[:n]]
        g = guarded((max(1, N * M),), float)
        n = has(compute, 'distances_distinct')(1, N, xt, yt, box, box / 2, g)
        payload += [[n], g[:n]]
        if N > 0:
            g = guarded((max(1, M),), float)
            n = has(compute, 'distances_single')(x[0], yt, box, box / 2, g)
            payload += [[n], g[:n]]
    elif k == 'sk_bare':
        nk = case['bins']
        e = numpy.exp(1j * rng.uniform(-3, 3, size=(N, 3, nk)))
        nv = rng.randint(1, 30)
        ik = numpy.asfortranarray(rng.randint(1, nk + 1, size=(3, nv)).astype(numpy.int32))
        ik[:, 0] = nk
        g = guarded((nv,), complex)
        has(fourierspace_module, k)(e, ik, g)
        payload.append(g)
    elif k == 'fskt':
        nk, ns = case['bins'], rng.randint(1, 6)
        for dim, name in ((3, 'fskt_kernel_3d'), (2, 'fskt_kernel_2d'), (d, 'fskt_kernel_nd')):
            e = numpy.asfortranarray(numpy.exp(1j * rng.uniform(-3, 3, size=(ns, N, dim, nk))))
            for t1, t2 in ((1, ns), (ns, 1), (ns, ns)):
                ik = rng.randint(1, nk + 1, size=dim).astype(numpy.int32)
                payload.append(has(fourierspace_module, name)(e, t1, t2, ik))
    obs.count('kernel/' + k)
    for g in guards:
        obs.count('canaries')
        obs.check(g.intact(), 'canary/' + k, 'the kernel wrote next to an output array (%d particles, %d in the other set)' % (N, M))
    obs.payload = [flat(p) for p in payload]


def run(case, obs):
    (run_kernel if case['kind'] == 'kernel' else run_class)(case, obs)


# --- execution: two sanitized processes

def environment(pattern, out):
    env = dict(os.environ)
    env.update(LD_PRELOAD=native.asan_preload(), PYTHONMALLOC='malloc', VERIF_SAN_OUT=out, VERIF_NATIVE_CACHE=native.CACHE,
               ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=268435456:malloc_fill_byte=%s:allocator_may_return_null=1:'
               'strict_init_order=0:exitcode=99:max_free_fill_size=65536:free_fill_byte=165' % pattern,
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
    return env


def compare(case, a, b):
    """None if the two results agree"""
    if a is None or b is None:
        return None if a is b else 'a result in one process only'
    if [len(x) for x in a] != [len(x) for x in b]:
        return 'different number of results'
    for x, y in zip(a, b):
        x, y = numpy.array(x, dtype=float), numpy.array(y, dtype=float)
        ok = (numpy.abs(x - y) <= 1e-9 + 1e-7 * numpy.abs(x)) | (numpy.isnan(x) & numpy.isnan(y)) | (x == y)
        if not ok.all():
            i = int(numpy.argmax(~ok))
            return 'entry %d is %r or %r; %s %s' % (i, x[i], y[i], harness._short(x), harness._short(y))
    return None


def main(pid, tier, seed, replay, tmproot):
    mod = sys.modules[__name__]
    t0 = time.time()
    out = os.environ.get('VERIF_SAN_OUT')
    if out:
        # A sanitized process
        boot.load(FLAVOUR)
        jobs = cases(tier, seed) if not replay else [json.load(open(replay))['case']]
        # (warm up what is imported on demand)
        results, timed_out, stuck = harness.run_cases(mod, jobs, int(os.environ.get('VERIF_SAN_JOBS', 4)), tmproot,
                                                      t0 + (780 if tier == 'quick' else 5000))
        with open(out, 'w') as fh:
            json.dump(dict(results={str(k): v for k, v in results.items()}, timed_out=timed_out, stuck=stuck), fh)
        return 0
    native.build(FLAVOUR)
    procs = []
    for i, pattern in enumerate(PATTERNS):
        path = os.path.join(tmproot, 'san%d.json' % i)
        cmd = [native.PYTHON, os.path.join(harness.VERIF, 'check.py'), pid, '--tier', tier] + (['--replay', replay] if replay else [])
        err = open(path + '.err', 'w')
        procs.append((path, subprocess.Popen(cmd, env=environment(pattern, path), stdout=err, stderr=err)))
    runs = []
    for path, p in procs:
        p.wait()
        if not os.path.exists(path):
            print(open(path + '.err').read()[-3000:])
            print('INCONCLUSIVE: the sanitized process did not start (status %s)' % p.returncode)
            return 2
        runs.append(json.load(open(path)))
    jobs = cases(tier, seed) if not replay else [json.load(open(replay))['case']]
    results = {}
    r0, r1 = [r['results'] for r in runs]
    for key in r0:
        a = r0[key]
        b = r1.get(key)
        if b is not None:
            a['violations'] = a['violations'] + [v for v in b['violations'] if v[0] not in [w[0] for w in a['violations']]]
            died = any(v[0].startswith('process-died') for v in a['violations'])
            if not died and a['payload'] is not None:
                a['counts']['payload_compared'] = a['counts'].get('payload_compared', 0) + 1
                a['comparisons'] += 1
                a['values'] += sum(len(x) for x in a['payload'])
                diff = compare(jobs[int(key)], a['payload'], b['payload'])
                if diff:
                    case = jobs[int(key)]
                    a['violations'].append(('uninitialized/%s' % case.get('cls', case.get('kernel')),
                                            'the result depends on the previous content of fresh memory: ' + diff))
        results[int(key)] = a
    if replay:
        print(json.dumps(results[0], indent=1))
        for mech, msg in results[0]['violations']:
            print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1 if results[0]['violations'] else 0
    return harness.report(pid, mod, tier, seed, jobs, results, any(r['timed_out'] for r in runs), runs[0]['stuck'], t0,
                          extra=dict(flavour=native.FLAVOURS[FLAVOUR][0], memory_patterns=PATTERNS))
