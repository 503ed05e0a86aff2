# The planted changes, read by mkseeded.py

seed('C01-offset-origins', 'C01',
     [('correlation.py', "        for i0 in range(off, len(x)-i, skip):\n            # Get the actual time difference\n            dt = t[i0+i] - t[i0]\n            cf[dt] += f(x[i0+i], x[i0])\n            cnt[dt] += 1\n\n    # Return the ACF with the time differences sorted\n    dt = sorted(cf.keys())\n    return dt, [cf[ti] / cnt[ti] for ti in dt]\n\n\ndef _sub",
       "        for i0 in range(off, len(x)-i-off, skip):\n            # Get the actual time difference\n            dt = t[i0+i] - t[i0]\n            cf[dt] += f(x[i0+i], x[i0])\n            cnt[dt] += 1\n\n    # Return the ACF with the time differences sorted\n    dt = sorted(cf.keys())\n    return dt, [cf[ti] / cnt[ti] for ti in dt]\n\n\ndef _sub")],
     'sampling in periodic blocks and a time separation that starts inside a block',
     'the last block does not contribute as a time origin, so the average is over fewer pairs of frames', '''
rng = numpy.random.RandomState(0)
block = [0, 1, 2, 4, 8, 16]
steps = [b * 32 + s for b in range(4) for s in block] + [128]
x = numpy.cumsum(rng.normal(scale=0.2, size=(len(steps), 6, 3)), axis=0)
th = trajectory(fold(x, 10.0), steps=steps, block=6)
cf = pp.MeanSquareDisplacement(th, tgrid=[0.0] + [float(t) for t in range(1, 33)], norigins=-1)
cf.compute()
where = {s: i for i, s in enumerate(steps)}
for t, value in zip(cf.grid, cf.value):
    # each offset in the block is one choice of origins: one of them must give the result, with all blocks
    ok = False
    for off in range(6):
        pairs = [(i, where[steps[i] + int(t)]) for i in range(off, len(steps), 6) if steps[i] + int(t) in where]
        if len(pairs) and pairs[0][0] == off:
            ref = numpy.mean([numpy.sum((x[j] - x[i])**2) / 6 for i, j in pairs])
            ok = ok or abs(ref - value) < 1e-8
    check(ok, ('msd', t, value))
''')

seed('C05-histogram-batches', 'C05',
     [('gr.py', 'for ib in range(0, len(y)-1, bl):', 'for ib in range(0, max(1, len(y)-bl), bl):')],
     'more particles than fit in one batch of the plain-Python implementation (about 320)',
     'the last batch of particles is not used as centres: pairs are missing from the histogram', '''
rng = numpy.random.RandomState(1)
N, L = 360, 10.0
pos = rng.uniform(-L/2, L/2, size=(N, 3))
cf = pp.RadialDistributionFunctionLegacy(trajectory([pos], side=L), dr=0.5, norigins=-1)
cf.compute()
d = []
for i in range(N):
    r = fold(pos[i+1:] - pos[i], L)
    d += list(numpy.sqrt(numpy.sum(r**2, axis=1)))
edges = numpy.arange(0, len(cf.grid) + 1) * 0.5
hist = numpy.histogram(d, edges)[0]
ideal = 4 * numpy.pi / 3 * (edges[1:]**3 - edges[:-1]**3) * N / L**3 * N / 2
check(numpy.allclose(cf.value, hist / ideal, atol=1e-8), 'g(r)')
''')

seed('C06-cell-size', 'C06',
     [('linkedcells.py', 'self.n_cell = (box / self.rcut).astype(int)', 'self.n_cell = numpy.rint(box / self.rcut).astype(int)')],
     'a cell side that is a bit less than a multiple of the cutoff, so that rounding up makes subcells smaller than it',
     'pairs within the cutoff, in subcells that are not adjacent, are not found', '''
from atooms.postprocessing.linkedcells import LinkedCells
rng = numpy.random.RandomState(2)
for L in [7.2, 7.6, 7.9]:
    for ndim in [2, 3]:
        rcut = 2.0
        pos = rng.uniform(-L/2, L/2, size=(150, ndim))
        neighbors = LinkedCells(rcut=rcut).compute(numpy.ones(ndim) * L, pos, newton=False)
        for i in range(len(pos)):
            d = numpy.sqrt(numpy.sum(fold(pos - pos[i], L)**2, axis=1))
            want = set(numpy.where(d < rcut)[0]) - set([i])
            check(want <= set(neighbors[i]), ('missing neighbors', L, ndim))
''')

seed('C06-newton-map', 'C06',
     [('linkedcells.py', '(ix, iy+1, iz-1), (ix-1, iy+1, iz-1), (ix+1, iy, iz+1)', '(ix, iy+1, iz-1), (ix-1, iy-1, iz-1), (ix+1, iy, iz+1)')],
     'a pair of particles in subcells that touch each other by one specific corner',
     'pairs along one diagonal of the grid of subcells are not found, those along the opposite one are found twice', '''
from atooms.postprocessing.linkedcells import LinkedCells
rng = numpy.random.RandomState(2)
L, rcut = 8.0, 1.9
pos = rng.uniform(-L/2, L/2, size=(400, 3))
neighbors = LinkedCells(rcut=rcut).compute(numpy.ones(3) * L, pos)
found = {}
for i, js in enumerate(neighbors):
    for j in js:
        key = (min(i, j), max(i, j))
        found[key] = found.get(key, 0) + 1
for i in range(len(pos)):
    d = numpy.sqrt(numpy.sum(fold(pos - pos[i], L)**2, axis=1))
    for j in numpy.where(d < rcut)[0]:
        if j > i:
            check(found.get((i, j), 0) == 1, ('pair', i, j))
''')

seed('C07-average-density', 'C07',
     [('sk.py', 'npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))\n        npart_1 = sum([p.shape[0] for p in self._pos_1]) / float(len(self._pos_1))\n        self.grid = kgrid\n        self.value, self.value_nonorm = [], []\n        for k in range(len(self.grid)):\n            norm = float(npart_0 * npart_1)**0.5\n            value = (rho2_av[k] / cnt[k] - rho_0_av',
       'npart_0 = self._pos_0[0].shape[0]\n        npart_1 = self._pos_1[0].shape[0]\n        self.grid = kgrid\n        self.value, self.value_nonorm = [], []\n        for k in range(len(self.grid)):\n            norm = float(npart_0 * npart_1)**0.5\n            value = (rho2_av[k] / cnt[k] - rho_0_av')],
     'a number of particles that changes along the trajectory (grand-canonical), in the plain implementation',
     'S(k) is normalized by the number of particles of the first frame instead of the average one', '''
rng = numpy.random.RandomState(3)
L = 6.0
frames = [rng.uniform(-L/2, L/2, size=(n, 3)) for n in [20, 26, 31, 24]]
cf = pp.StructureFactorLegacy(trajectory(frames, side=L), kgrid=[2.0, 4.0], norigins=-1, nk=1000)
cf.compute()
N = numpy.mean([len(r) for r in frames])
for klist, value in zip(cf.kvectors, cf.value):
    ref = numpy.mean([abs(numpy.sum(numpy.exp(1j * numpy.dot(r, k))))**2 for r in frames for k in klist]) / N
    check(abs(ref - value) < 1e-8, ('S(k)', ref, value))
''')

seed('C08-outer-shell', 'C08',
     [('fourierspace.py', 'kbin_max = 1 + int(kmax / min(k0))', 'kbin_max = 1 + int(kmax / numpy.mean(k0))')],
     'an elongated cell, where the integers needed along the long side exceed those of the average reciprocal vector',
     'wave-vectors along the long side of the cell are not considered', '''
side = numpy.array([3.0, 3.0, 12.0])
pos = numpy.random.RandomState(4).uniform(-1.5, 1.5, size=(10, 3))
cf = pp.StructureFactorLegacy(trajectory([pos], side=side), kgrid=[6.0], nk=10**6, dk=0.1, norigins=-1)
cf.compute()
k0 = 2 * numpy.pi / side
n = numpy.array([(i, j, k) for i in range(-20, 21) for j in range(-20, 21) for k in range(-20, 21)])
norm = numpy.sqrt(numpy.sum((n * k0)**2, axis=1))
check(len(cf.kvectors[0]) == numpy.sum(abs(norm - 6.0) < 0.1), ('vectors in shell', len(cf.kvectors[0])))
''')

seed('C09-last-block', 'C09',
     [('fkt.py', '                            res = fskt_kernel(xf, i0+1, i0+1+i, kvec+1)\n                            acf[ik][dt] += res.real\n                            cnt[ik][dt] += x.shape[1]',
       '                            res = fskt_kernel(xf, i0+1, i0+1+i, kvec+1)\n                            acf[ik][dt] += res.real\n                            cnt[ik][dt] += block')],
     'little memory granted for tabulation, so that particles are split in blocks and the last one is incomplete, and no normalization',
     'particles of the last block are counted as if the block was full: F_s(k,0) < 1', '''
rng = numpy.random.RandomState(5)
L = 6.0
x = numpy.cumsum(rng.normal(scale=0.2, size=(6, 47, 3)), axis=0)
for mb in [64.0, 0.03, 0.01]:
    cf = pp.SelfIntermediateScattering(trajectory(fold(x, L), side=L), kgrid=[2.0, 4.0], tgrid=[0.0, 1.0, 3.0],
                                       nk=6, lookup_mb=mb, normalize=False)
    cf.compute()
    for i, klist in enumerate(cf.kvectors):
        for j, t in enumerate(cf.grid[1]):
            t = int(t)
            ref = numpy.mean([numpy.mean(numpy.cos(numpy.dot(x[s+t] - x[s], k))) for s in range(6-t) for k in klist])
            check(abs(ref - cf.value[i][j]) < 1e-8, ('F_s(k,t)', mb, ref, cf.value[i][j]))
''')

seed('C10-cross-origin', 'C10',
     [('fkt.py', 'acf[ik][dt] += (rho_0[i0+i][kvec] * rho_1[i0][kvec].conjugate()).real', 'acf[ik][dt] += (rho_0[i0][kvec] * rho_1[i0+i][kvec].conjugate()).real')],
     'a cross-species calculation and dynamics that is not symmetric under time reversal',
     'the times of the two groups are swapped: F_AB(k,t) is computed at -t', '''
rng = numpy.random.RandomState(6)
L = 6.0
x = numpy.cumsum(rng.normal(scale=0.3, size=(6, 20, 3)), axis=0)
# A particles follow B ones with a delay
x[1:, :10] = x[:-1, 10:]
species = ['A'] * 10 + ['B'] * 10
cf = pp.Partial(pp.IntermediateScattering, ['A', 'B'], trajectory(fold(x, L), side=L, species=species),
                kgrid=[2.0, 4.0], tgrid=[0.0, 1.0, 3.0], nk=6, normalize=False)
cf.compute()
cf = cf.partial[('A', 'B')]
a, b = x[:, :10], x[:, 10:]
rho = lambda r, k: numpy.sum(numpy.exp(1j * numpy.dot(r, k)))
for i, klist in enumerate(cf.kvectors):
    for j, t in enumerate(cf.grid[1]):
        t = int(t)
        ref = numpy.mean([(rho(a[s+t], k) * rho(b[s], k).conjugate()).real for s in range(6-t) for k in klist])
        check(abs(ref - cf.value[i][j]) < 1e-8, ('F(k,t)', t, ref, cf.value[i][j]))
''')

seed('C12-cutoff-pair', 'C12',
     [('ba.py', 'self.rcut[isp, :],', 'self.rcut[self._ids_0[i][0], :],')],
     'a calculation on a group of several species with different cutoffs',
     'the cutoff of the species of the first particle of the group is used for all the central particles', '''
from itertools import permutations
rng = numpy.random.RandomState(7)
L, N = 6.0, 40
pos = rng.uniform(-L/2, L/2, size=(N, 3))
species = ['A', 'B'] * (N//2)
rcut = [[1.9, 1.4], [1.4, 1.1]]
cf = pp.BondAngleDistribution(trajectory([pos], side=L, species=species), dtheta=20.0, rcut=rcut, norigins=-1)
cf.compute()
angles = []
for i in range(N):
    r = fold(pos - pos[i], L)
    d = numpy.sqrt(numpy.sum(r**2, axis=1))
    near = [j for j in range(N) if j != i and d[j] < rcut['AB'.index(species[i])]['AB'.index(species[j])]]
    for j, k in permutations(near, 2):
        angles.append(numpy.degrees(numpy.arccos(numpy.dot(r[j], r[k]) / d[j] / d[k])))
hist = numpy.histogram(angles, numpy.arange(0, 181, 20.0))[0]
check(numpy.allclose(cf.value, hist / hist.sum() / 20.0, atol=1e-10), 'bond angles')
''')

seed('C13-angles-symmetric', 'C13',
     [('ba.py', '    _symmetric = False\n', '    _symmetric = True\n')],
     'the partial bond-angle distributions of a mixture, for the pair of species in reverse order',
     'the distribution around B particles is a copy of the one around A particles', '''
rng = numpy.random.RandomState(8)
L, N = 6.0, 60
pos = rng.uniform(-L/2, L/2, size=(N, 3))
species = ['A'] * 40 + ['B'] * 20
rcut = [[1.9, 1.6], [1.6, 1.5]]
cf = pp.Partial(pp.BondAngleDistribution, ['A', 'B'], trajectory([pos], side=L, species=species), dtheta=30.0,
                rcut=rcut, norigins=-1)
cf.compute()
angles = []
for i in range(40, 60):
    r = fold(pos[:40] - pos[i], L)
    d = numpy.sqrt(numpy.sum(r**2, axis=1))
    near = [j for j in range(40) if d[j] < 1.6]
    for j in near:
        for k in near:
            if j != k:
                angles.append(numpy.degrees(numpy.arccos(numpy.dot(r[j], r[k]) / d[j] / d[k])))
hist = numpy.histogram(angles, numpy.arange(0, 181, 30.0))[0]
check(numpy.allclose(cf.partial[('B', 'A')].value, hist / hist.sum() / 30.0, atol=1e-10), 'bond angles B-A')
''')

seed('C19-cell-side', 'C19',
     [('gr.py', 'side = system.cell.side.copy()', 'side = system.cell.side')],
     'a trajectory whose frames are cached or kept in memory, with a cell that does not repeat periodically',
     'the side of the cell in the trajectory becomes infinite once g(r) has been computed', '''
from atooms.trajectory.ram import TrajectoryRamView
rng = numpy.random.RandomState(9)
th = TrajectoryRamView()
for i in range(3):
    cell = Cell(numpy.ones(3) * 10.0)
    cell.periodic = numpy.array([False] * 3)
    th.write(System(particle=[Particle(position=r) for r in rng.uniform(-5, 5, size=(60, 3))], cell=cell), i)
cf = pp.RadialDistributionFunction(th, dr=0.2, rmax=2.0, norigins=-1)
cf.compute()
for s in th:
    check(numpy.all(s.cell.side == 10.0), ('side of the cell', s.cell.side))
''')

seed('C15-weights-second-group', 'C15',
     [('correlation.py', '            _subtract_mean(self._weight_0)\n            _subtract_mean(self._weight_1)\n', '            _subtract_mean(self._weight_0)\n')],
     'fluctuations of a weight field between two different groups of particles',
     'the mean is subtracted from the weights of the first group only', '''
rng = numpy.random.RandomState(10)
L, N = 6.0, 24
frames = [rng.uniform(-L/2, L/2, size=(N, 3)) for _ in range(3)]
mass = rng.uniform(0.5, 3.0, size=N)
species = ['A'] * 14 + ['B'] * 10
cf = pp.StructureFactorLegacy(trajectory(frames, side=L, species=species, mass=mass), kgrid=[3.0], nk=10, norigins=-1)
cf = pp.Filter(cf, 'species == "A",species == "B"')
cf.add_weight(field='mass', fluctuations=True)
cf.compute()
wa, wb = mass[:14] - mass[:14].mean(), mass[14:] - mass[14:].mean()
W0 = numpy.array([numpy.sum(wa * numpy.exp(1j * numpy.dot(r[:14], k))) for r in frames for k in cf.kvectors[0]])
W1 = numpy.array([numpy.sum(wb * numpy.exp(1j * numpy.dot(r[14:], k))) for r in frames for k in cf.kvectors[0]])
ref = (numpy.mean(W0 * W1.conjugate()) - W0.mean() * W1.mean().conjugate()).real / (14 * 10)**0.5
check(abs(ref - cf.value[0]) < 1e-8, ('weighted S(k)', ref, cf.value[0]))
''')

seed('C17-masses', 'C17',
     [('correlation.py', '                            cm += p.position_unfolded * p.mass\n                            mtot += p.mass\n',
       '                            cm += p.position_unfolded\n                            mtot += 1\n')],
     'particles of different masses and unfolded positions stored in the trajectory',
     'the geometrical centre is fixed instead of the centre of mass', '''
rng = numpy.random.RandomState(11)
L, N = 6.0, 12
x = numpy.cumsum(rng.normal(scale=0.2, size=(6, N, 3)), axis=0)
mass = rng.uniform(0.5, 8.0, size=N)
th = trajectory(fold(x, L), side=L, mass=mass, unfolded=x)
cf = pp.MeanSquareDisplacement(th, tgrid=[0.0, 1.0, 2.0, 4.0], norigins=-1, fix_cm=True)
cf.compute()
y = x - (numpy.sum(x * mass[:, None], axis=1) / mass.sum())[:, None, :]
for t, value in zip(cf.grid, cf.value):
    t = int(t)
    ref = numpy.mean([numpy.sum((y[i+t] - y[i])**2) / N for i in range(6-t)])
    check(abs(ref - value) < 1e-8, ('msd', t, ref, value))
''')

seed('C20-zero-results', 'C20',
     [('correlation.py', '            if f is not None:\n                analysis +=', '            if f:\n                analysis +=')],
     'an analysis whose result is exactly zero, e.g. a peak at t=0 or a time at which nothing has moved',
     'results of the analysis that vanish are left out of the output file', '''
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'a.xyz')
    # Nothing moves: the susceptibility vanishes at all times and its peak height is 0
    pos = numpy.random.RandomState(12).uniform(-3, 3, size=(8, 3))
    write_xyz(path, [pos] * 6, 6.0)
    cf = pp.Chi4SelfOverlap(path, tgrid=[0.0, 1.0, 2.0, 3.0], norigins=-1)
    cf.do()
    out = [f for f in os.listdir(tmp) if 'chi4qs' in f]
    check(len(out) == 1, 'output file')
    txt = open(os.path.join(tmp, out[0])).read()
    for key, value in cf.analysis.items():
        check(value is None or '# %s: ' % key in txt, ('missing', key, value))
finally:
    shutil.rmtree(tmp)
''')

seed('C21-partial-update', 'C21',
     [('partial.py', '        need = False\n        for partial in self.partial.values():\n            if partial.need_update():\n                need = True\n                break\n        return need\n',
       '        need = False\n        for partial in self.partial.values():\n            need = partial.need_update()\n            if not need:\n                break\n        return need\n')],
     'update requested when only some of the files of a partial correlation are missing or older than the trajectory',
     'the stale or missing files are not written again', '''
import glob
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'a.xyz')
    rng = numpy.random.RandomState(13)
    x = numpy.cumsum(rng.normal(scale=0.2, size=(6, 12, 3)), axis=0)
    write_xyz(path, fold(x, 6.0), 6.0, species=['A', 'B', 'C'] * 4)
    os.utime(path, (1e9, 1e9))
    def go():
        pp.Partial(pp.MeanSquareDisplacement, ['A', 'B', 'C'], path, tgrid=[0.0, 1.0, 2.0], norigins=-1).do(update=True)
    go()
    files = sorted(glob.glob(os.path.join(tmp, '*.pp.*')))
    check(len(files) == 3, files)
    for f in files:
        text = open(f).read()
        os.remove(f)
        go()
        check(os.path.exists(f), ('not written again', f))
finally:
    shutil.rmtree(tmp)
''')

seed('C22-time-window', 'C22',
     [('api.py', '''        if tmax > 0:
            t_grid = [0.0] + func(th.timestep, min(th.total_time, tmax), tsamples)
        elif tmax_fraction > 0:
            t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
        else:
            t_grid = None
        cf = pp.VelocityAutocorrelation''', '''        if tmax > 0:
            t_grid = [0.0] + func(th.timestep, max(th.total_time, tmax), tsamples)
        elif tmax_fraction > 0:
            t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
        else:
            t_grid = None
        cf = pp.VelocityAutocorrelation''')],
     'a maximum time given explicitly, shorter than the trajectory, for the velocity autocorrelation',
     'the time window extends to the whole trajectory instead of the requested time', '''
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'a.xyz')
    rng = numpy.random.RandomState(14)
    with open(path, 'w') as fh:
        for i in range(30):
            fh.write('5\\nstep:%d columns:name,pos,vel dt:0.5 cell:6.0,6.0,6.0\\n' % i)
            for j in range(5):
                fh.write('A ' + ' '.join('%.10g' % v for v in rng.uniform(-3, 3, size=6)) + '\\n')
    from atooms.postprocessing.api import vacf
    vacf(path, tmax=4.0, tsamples=5)
    out = [f for f in os.listdir(tmp) if '.pp.' in f]
    check(len(out) == 1, out)
    t = numpy.loadtxt(os.path.join(tmp, out[0]))[:, 0]
    check(t.max() < 4.0 + 0.25, ('largest time', t.max()))
finally:
    shutil.rmtree(tmp)
''')

seed('C24-nd-product', 'C24',
     [('fourierspace.f90', 'do j = 2,SIZE(expo,3)', 'do j = 2,min(3,SIZE(expo,3))')],
     'the compiled self-scattering kernel for trajectories in more than three dimensions',
     'the coordinates beyond the third do not contribute to the scattering function', '''
rng = numpy.random.RandomState(15)
L, N = 6.0, 10
x = numpy.cumsum(rng.normal(scale=0.3, size=(5, N, 4)), axis=0)
k0 = 2 * numpy.pi / L
cf = pp.SelfIntermediateScattering(trajectory(fold(x, L), side=L), tgrid=[0.0, 1.0, 2.0])
cf.kvectors = [[k0 * numpy.array(v) for v in [(1, 0, 0, 2), (1, 1, 1, -1)]]]
cf.compute()
for j, t in enumerate(cf.grid[1]):
    t = int(t)
    ref = numpy.mean([numpy.mean(numpy.cos(numpy.dot(x[s+t] - x[s], k))) for s in range(5-t) for k in cf.kvectors[0]])
    check(abs(ref - cf.value[0][j]) < 1e-8, ('F_s(k,t)', ref, cf.value[0][j]))
''')

seed('C23-neighbors-buffer', 'C23',
     [('realspace.f90', '''    integer(8), intent(inout) :: hist(:)
    real(8), intent(inout) :: bins(:)
    real(8)                   :: distances(size(other,1))  ! stack
''', '''    integer(8), intent(inout) :: hist(:)
    real(8), intent(inout) :: bins(:)
    real(8)                   :: distances(1200)  ! stack
''')],
     'a cross calculation with linked cells (short rmax), where a particle has more than 1200 candidate neighbors',
     'the buffer of distances is overrun: the memory of the stack next to it is corrupted', '''
# Run the kernel, through g(r), in a separate process: it may crash or return garbage
import subprocess
code = r"""
import sys, numpy
sys.path.insert(0, sys.argv[1])
exec(open(sys.argv[2]).read().split('# Run the kernel')[0])
rng = numpy.random.RandomState(16)
L = 10.0
pos = rng.uniform(-L/2, L/2, size=(20004, 3))
species = ["A"] * 4 + ["B"] * 20000
value = []
for cls in [pp.RadialDistributionFunctionFast, pp.RadialDistributionFunctionLegacy]:
    cf = pp.Filter(cls(trajectory([pos], side=L, species=species), dr=0.2, rmax=2.0, norigins=-1), 'species=="A",species=="B"')
    cf.compute()
    value.append(cf.value)
check(numpy.allclose(value[0], value[1]), 'g(r)')
"""
rc = subprocess.call([sys.executable, '-c', code, os.getcwd(), os.path.abspath(__file__)])
check(rc == 0, ('exit code', rc))
''')

seed('C25-last-but-one', 'C25',
     [('helpers.py', 'if i == len(f)-1 or i == 0:', 'if i >= len(f)-2 or i == 0:')],
     'a maximum located at the last but one entry of the data',
     'the peak is not interpolated although it is inside the interval', '''
from atooms.postprocessing.helpers import ifabsmm
x = numpy.array([0.0, 1.0, 2.0, 3.0, 4.0])
f = 5.0 - (x - 3.2)**2
(xmin, fmin), (xmax, fmax) = ifabsmm(list(x), list(f))
check(abs(xmax - 3.2) < 1e-8 and abs(fmax - 5.0) < 1e-8, ('maximum', xmax, fmax))
check(xmin == 0.0, 'minimum at the border')
''')

seed('C26-acf-mean', 'C26',
     [('correlation.py', '    xave = numpy.average(x)\n', '    xave = numpy.average(x[::skip])\n')],
     'origins that are not all the entries of the time series (skip larger than 1)',
     'the deviations are not from the mean of the data', '''
from atooms.postprocessing.correlation import acf
rng = numpy.random.RandomState(17)
x = rng.normal(size=23) + 3
t = list(range(23))
dt, c, cnt = acf([0, 1, 5], 4, t, x)
m = x.mean()
for i, ci in zip(dt, c):
    ref = numpy.mean([(x[s+i] - m) * (x[s] - m) for s in range(0, 23-i, 4)])
    check(abs(ref - ci) < 1e-10, ('acf', i, ref, ci))
''')

seed('C03-rounded-times', 'C03',
     [('helpers.py', 'i_grid = set([int(round(t/trajectory.timestep)) for t in t_grid])', 'i_grid = set([int(t/trajectory.timestep) for t in t_grid])')],
     'a requested time whose ratio to the timestep is a bit less than an integer in floating point (0.3/0.1)',
     'the time before the requested one is used', '''
x = numpy.random.RandomState(18).normal(size=(12, 5, 3))
th = trajectory(fold(x, 20.0), side=20.0, timestep=0.1)
for want in [0.3, 0.6, 0.7]:
    cf = pp.SelfOverlap(th, tgrid=[0.0, want], norigins=-1)
    cf.compute()
    check(len(cf.grid) == 2 and abs(cf.grid[1] - want) < 1e-9, ('times', want, cf.grid))
''')

seed('C04-fraction-one', 'C04',
     [('helpers.py', "    if n_origins is not None:\n        if float(n_origins) < 0 or n_origins == '1.0':", "    if n_origins is not None:\n        if float(n_origins) < 0:")],
     "the fraction 1.0 of the frames requested from the command line, i.e. the string '1.0'",
     'a single time origin is used instead of all of them', '''
x = numpy.cumsum(numpy.random.RandomState(19).normal(scale=0.3, size=(8, 5, 3)), axis=0)
th = trajectory(fold(x, 20.0), side=20.0)
cf = pp.MeanSquareDisplacement(th, tgrid=[0.0, 1.0, 2.0], norigins='1.0')
cf.compute()
for t, value in zip(cf.grid, cf.value):
    t = int(t)
    ref = numpy.mean([numpy.sum((x[i+t] - x[i])**2) / 5 for i in range(8-t)])
    check(abs(ref - value) < 1e-8, ('msd', t, ref, value))
''')

seed('C02-chi4-average', 'C02',
     [('chi4t.py', '''                A2 += w**2
                A += w
                cnt += 1
            dt = self.trajectory.steps[off+i] - self.trajectory.steps[off]
            if cnt > 0:''', '''                A2 += w**2
                A += w
            cnt = max(1, (len(self._pos_unf)-i-off) // self.skip)
            dt = self.trajectory.steps[off+i] - self.trajectory.steps[off]
            if cnt > 0:''')],
     'a number of frames from which the separation can be reached that is not a multiple of the spacing between origins',
     'the moments are divided by the wrong number of origins', '''
x = numpy.cumsum(numpy.random.RandomState(20).normal(scale=0.1, size=(12, 15, 3)), axis=0)
th = trajectory(fold(x, 20.0), side=20.0)
cf = pp.Chi4SelfOverlap(th, tgrid=[0.0, 1.0, 2.0, 3.0], norigins=4, a=0.25)
cf.compute()
for t, value in zip(cf.grid, cf.value):
    t = int(t)
    Q = numpy.array([numpy.sum(numpy.sum((x[i+t] - x[i])**2, axis=1) < 0.25**2) for i in range(0, 12-t, 3)])
    check(abs(Q.var() / 15 - value) < 1e-8, ('chi_4', t, Q.var() / 15, value))
''')

seed('C11-mean-volume', 'C11',
     [('ik.py', 'mk = 4 * numpy.pi / knorm**3 * \\', 'mk = 4 * numpy.pi / self.kgrid[k]**3 * \\')],
     'a shell that holds wave-vectors of different norms',
     'the prefactor of the form factor uses the mean norm of the shell instead of that of the vector', '''
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'a.xyz')
    rng = numpy.random.RandomState(21)
    L = 6.0
    pos, radius = rng.uniform(-3, 3, size=(9, 3)), rng.uniform(0.3, 0.8, size=9)
    with open(path, 'w') as fh:
        fh.write('9\\nstep:0 columns:name,pos,radius dt:1.0 cell:6.0,6.0,6.0\\n')
        for r, R in zip(pos, radius):
            fh.write('A ' + ' '.join('%.17g' % v for v in list(r) + [R]) + '\\n')
    cf = pp.SpectralDensity(path, path, kgrid=[2.5], dk=0.9, nk=100)
    cf.compute()
    value = []
    for k in cf.kvectors[0]:
        q = numpy.sqrt(numpy.dot(k, k))
        m = 4 * numpy.pi * (numpy.sin(q*radius) - q*radius*numpy.cos(q*radius)) / q**3
        value.append(abs(numpy.sum(m * numpy.exp(1j * numpy.dot(pos, k))))**2 / L**3)
    check(abs(numpy.mean(value) - cf.value[0]) < 1e-8, ('I(k)', numpy.mean(value), cf.value[0]))
finally:
    shutil.rmtree(tmp)
''')

seed('C18-mean-once', 'C18',
     [('correlation.py', '        if self._weight_fluctuations:\n            _subtract_mean(self._weight)\n', '        if self._weight_fluctuations:\n            _subtract_mean(self._weight)\n            self._weight_fluctuations = False\n')],
     'computing again a structure factor weighted by the fluctuations of a field',
     'the mean is subtracted only the first time', '''
rng = numpy.random.RandomState(22)
L, N = 6.0, 24
frames = [rng.uniform(-L/2, L/2, size=(N, 3)) for _ in range(3)]
cf = pp.StructureFactorLegacy(trajectory(frames, side=L, mass=rng.uniform(0.5, 3.0, size=N)), kgrid=[3.0], norigins=-1)
cf.add_weight(field='mass', fluctuations=True)
first = list(cf.compute()[1])
second = list(cf.compute()[1])
check(numpy.allclose(first, second, atol=1e-10), ('computed again', first, second))
''')

seed('C14-separator', 'C14',
     [('filter.py', "            correlation.add_filter(_filter_generic, conditions[1])\n", "            correlation.add_filter(_filter_generic, conditions[-1] if conditions[1] != conditions[0].strip() else conditions[0])\n")],
     'x', 'x', 'pass')
del SEEDS['C14-separator']

seed('C08-shell-border', 'C08',
     [('fourierspace.py', '                if abs(knorm - kgrid[i]) < dk[i]:\n                    kvec[i].append(tuple(ik + kbin_max))\n                    break',
       '                if abs(knorm - kgrid[i]) < max(dk[:i+1]):\n                    kvec[i].append(tuple(ik + kbin_max))\n                    break')],
     'several shells, of which the first one is empty at the requested width and is widened until it is not',
     'the width of the first shell is used for all of them: vectors farther than dk from the requested value are used', '''
L = 6.0
pos = numpy.random.RandomState(4).uniform(-L/2, L/2, size=(10, 3))
k0 = 2 * numpy.pi / L
cf = pp.StructureFactorLegacy(trajectory([pos], side=L), kgrid=[0.6 * k0, 4.3], nk=10**6, dk=0.15, norigins=-1)
cf.compute()
norms = numpy.sqrt(numpy.sum(numpy.array(cf.kvectors[1])**2, axis=1))
check(numpy.all(abs(norms - 4.3) < 0.15), ('norms', min(norms), max(norms)))
''')

seed('C28-block-times', 'C28',
     [('s4kt.py', 'self.trajectory.steps[off+i] - self.trajectory.steps[off]', 'self.trajectory.steps[i] - self.trajectory.steps[0]')],
     'sampling that is not uniform, and a time separation that starts inside the sampling block',
     'the time reported is not the one between the frames in use', '''
rng = numpy.random.RandomState(0)
block = [0, 1, 2, 4, 8, 16]
steps = [b * 32 + s for b in range(4) for s in block] + [128]
x = numpy.cumsum(rng.normal(scale=0.05, size=(len(steps), 6, 3)), axis=0)
th = trajectory(fold(x, 6.0), steps=steps, side=6.0, block=6)
want = [0.0, 3.0, 12.0, 14.0]
cf = pp.S4ktOverlap(th, list(want), kgrid=[1.5], norigins=-1, nk=3)
cf.compute()
check(sorted(cf.grid[0]) == want, ('times', cf.grid[0]))
''')

seed('C27-origins-slices', 'C27',
     [('susceptibility.py', 'slice(i, len(self.trajectory.steps), 1)', 'slice(i, len(self.trajectory.steps), self.skip)')],
     'fewer starting frames than frames, so that they are not consecutive',
     'the frames between the starting ones are not used: the susceptibility refers to other times', '''
rng = numpy.random.RandomState(1)
x = numpy.cumsum(rng.normal(scale=0.1, size=(12, 30, 3)), axis=0)
t = [0.0, 1.0, 3.0]
cf = pp.Susceptibility(pp.SelfOverlap, trajectory(fold(x, 8.0), side=8.0), norigins=4, tgrid=list(t), a=0.3)
cf.compute()
check(list(cf.grid) == t, ('times', cf.grid))
for k, dt in enumerate([0, 1, 3]):
    q = [numpy.sum(numpy.sum((x[i+dt] - x[i])**2, axis=1) < 0.3**2) for i in range(0, 12, 3) if i + 3 < 12]
    check(abs(numpy.var(q) / 30 - cf.value[k]) < 1e-9, ('susceptibility', dt, numpy.var(q) / 30, cf.value[k]))
''')

seed('C21-folder-name', 'C21',
     [('correlation.py', """                subpaths = filename.split('/')
                subpaths[-1] = subpaths[-1].replace(punct * 2, punct)
                subpaths[-1] = subpaths[-1].strip(punct)
                filename = '/'.join(subpaths)""", """                subpaths = filename.replace(punct * 2, punct).split('/')
                subpaths[-1] = subpaths[-1].strip(punct)
                filename = '/'.join(subpaths)""")],
     'a folder whose name holds consecutive punctuation',
     'files are written in another folder, whose name has been cleaned as well', '''
tmp = tempfile.mkdtemp()
try:
    d = os.path.join(tmp, 'run__T--0.5')
    os.makedirs(d)
    path = os.path.join(d, 'traj.xyz')
    x = numpy.cumsum(numpy.random.RandomState(2).normal(scale=0.1, size=(5, 8, 3)), axis=0)
    write_xyz(path, fold(x, 6.0), 6.0)
    pp.MeanSquareDisplacement(path, tgrid=[0.0, 1.0, 2.0], norigins=-1).do()
    check(os.path.exists(path + '.pp.msd'), os.listdir(d))
    check(os.listdir(tmp) == ['run__T--0.5'], os.listdir(tmp))
finally:
    shutil.rmtree(tmp)
''')

seed('C21-sorted-pair', 'C21',
     [('partial.py', "                    self.partial[(isp, jsp)].tag = '%s-%s' % (isp, jsp)",
       "                    self.partial[(isp, jsp)].tag = '%s-%s' % tuple(sorted((isp, jsp), key=str))")],
     'species given in an order that is not the alphabetic one, or pairs that are not in order',
     'the pairs (A,B) and (B,A) are written in the same file', '''
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'traj.xyz')
    rng = numpy.random.RandomState(4)
    x = rng.uniform(-4, 4, size=(3, 24, 3))
    write_xyz(path, x, 8.0, species=['A'] * 10 + ['B'] * 14)
    pp.Partial(pp.BondAngleDistribution, ['A', 'B'], path, rcut=[[3.0, 2.0], [3.5, 4.0]], dtheta=10.0, norigins=-1).do()
    files = sorted(os.listdir(tmp))
    want = ['traj.xyz'] + ['traj.xyz.pp.ba.' + x for x in ('A-A', 'A-B', 'B-A', 'B-B')]
    check(files == want, files)
finally:
    shutil.rmtree(tmp)
''')

seed('C15-first-frame', 'C15',
     [('correlation.py', "    for current_field in weight:\n        mean += current_field.mean()\n    mean /= len(weight)",
       "    for current_field in weight:\n        mean = current_field.mean() if current_field is weight[0] else mean\n        mean += 0.0")],
     'fluctuations of a weight whose average changes from one frame to the next',
     'the average over the first frame is subtracted, not the one over all the frames', '''
rng = numpy.random.RandomState(5)
L, N = 6.0, 12
frames = rng.uniform(-L/2, L/2, size=(4, N, 3))
th = trajectory(frames, side=L)
w = rng.normal(size=(4, N)) + numpy.array([0.0, 1.0, 2.0, 5.0])[:, None]

def weigh(system):
    for j, p in enumerate(system.particle):
        p.charge = w[system.frame][j]
    return system


th.add_callback(weigh)
cf = pp.StructureFactorLegacy(th, kgrid=[2.5], nk=4, norigins=-1)
cf.add_weight(field='charge', fluctuations=True)
cf.compute()
d = w - numpy.mean(w)
W = numpy.array([[numpy.sum(d[i] * numpy.exp(1j * numpy.dot(frames[i], k))) for k in cf.kvectors[0]] for i in range(4)])
ref = (numpy.mean(abs(W)**2) - abs(numpy.mean(W))**2) / N
check(abs(ref - cf.value[0]) < 1e-8, ('S(k)', ref, cf.value[0]))
''')

seed('C12-swapped-species', 'C12',
     [('ba.py', 'self._ids_1[i],\n', 'self._ids_1[0],\n')],
     'particles that change species along the trajectory (swap dynamics), and cutoffs that depend on the species',
     'the cutoffs are those of the species in the first frame', '''
from itertools import permutations
rng = numpy.random.RandomState(6)
L, N = 8.0, 30
rcut = numpy.array([[2.0, 3.0], [3.0, 4.0]])
frames = rng.uniform(-L/2, L/2, size=(2, N, 3))
species = [['A'] * 15 + ['B'] * 15, ['B'] * 15 + ['A'] * 15]
th = TrajectoryRam()
for i in range(2):
    th.write(System(particle=[Particle(position=frames[i][j], species=species[i][j]) for j in range(N)], cell=Cell(numpy.ones(3) * L)), i)
cf = pp.BondAngleDistribution(th, rcut=rcut, dtheta=20.0, norigins=-1)
cf.compute()
hist = numpy.zeros(9)
for x, sp in zip(frames, species):
    s = [0 if z == 'A' else 1 for z in sp]
    for i in range(N):
        d = fold(x - x[i], L)
        r = numpy.sqrt(numpy.sum(d**2, axis=1))
        nb = [j for j in range(N) if j != i and r[j] < rcut[s[i], s[j]]]
        for j, k in permutations(nb, 2):
            c = numpy.dot(d[j], d[k]) / (r[j] * r[k])
            hist[min(8, int(numpy.degrees(numpy.arccos(max(-1, min(1, c)))) / 20.0))] += 1
check(numpy.allclose(cf.value, hist / numpy.sum(hist) / 20.0, atol=1e-6), ('angles', cf.value, hist / numpy.sum(hist) / 20.0))
''')

seed('C16-far-images', 'C16',
     [('gr.py', "    r = r - numpy.rint(r/L) * L\n    return numpy.sqrt(numpy.sum(r**2, axis=1))",
       "    r = numpy.where(abs(r) > L/2, r - numpy.sign(r) * L, r)\n    return numpy.sqrt(numpy.sum(r**2, axis=1))")],
     'positions that are not folded in the central cell (more than one cell side apart)',
     'only the first images are considered: pairs of particles farther than that are missing', '''
rng = numpy.random.RandomState(11)
L, N = 6.0, 40
pos = rng.uniform(-L/2, L/2, size=(N, 3))
far = pos + rng.randint(-3, 4, size=(N, 3)) * L
result = []
for x in (pos, far):
    cf = pp.RadialDistributionFunctionLegacy(trajectory([x], side=L), dr=0.25, norigins=-1)
    cf.compute()
    result.append(numpy.array(cf.value))
check(numpy.allclose(result[0], result[1], atol=1e-8), 'g(r) depends on the images')
''')

seed('C14-second-condition', 'C14',
     [('filter.py', "        conditions = condition.split(',')\n", "        conditions = list(dict.fromkeys(condition.split(',')))\n")],
     'the same condition for both groups',
     'two equal conditions are taken as a single one, which leaves the second group unfiltered', '''
rng = numpy.random.RandomState(7)
L, N = 8.0, 40
pos = rng.uniform(-L/2, L/2, size=(N, 3))
species = ['A'] * 20 + ['B'] * 20
args = dict(kgrid=[2.0, 3.0], nk=5, norigins=-1)
cf = pp.Filter(pp.StructureFactorLegacy(trajectory([pos], side=L, species=species), **args), "species == 'A',species == 'A'")
cf.compute()
ref = pp.StructureFactorLegacy(trajectory([pos[:20]], side=L), **args)
ref.compute()
check(numpy.allclose(cf.value, ref.value, atol=1e-8), ('S(k)', cf.value, ref.value))
''')

seed('C25-diffusion-dimension', 'C25',
     [('msd.py', "ndim = self.trajectory.read(0).number_of_dimensions", "ndim = max(3, self.trajectory.read(0).number_of_dimensions)")],
     'a two-dimensional system', 'the diffusion coefficient is divided by 2d with d=3', '''
rng = numpy.random.RandomState(8)
x = numpy.cumsum(rng.normal(scale=0.6, size=(20, 50, 2)), axis=0)
cf = pp.MeanSquareDisplacement(trajectory(fold(x, 12.0), side=12.0), tgrid=[float(t) for t in range(12)], norigins=-1)
cf.compute()
cf.analyze()
t, f = numpy.array(cf.grid), numpy.array(cf.value)
w = f > 1.0
D = numpy.polyfit(t[w], f[w], 1)[0] / 4
check(abs(cf.analysis['diffusion coefficient D'] - D) < 1e-8 * D, ('D', cf.analysis, D))
''')

seed('C29-masses', 'C29',
     [('sacf.py', "numpy.sum(mass[:] * self._vel[i][:, j] * self._vel[i][:, k])", "mass.mean() * numpy.sum(self._vel[i][:, j] * self._vel[i][:, k])")],
     'particles of different masses', 'the kinetic part of the stress uses the average mass', '''
from atooms.postprocessing.sacf import StressAutocorrelation
from atooms.system.interaction import Interaction
rng = numpy.random.RandomState(9)
n, N, L = 8, 12, 5.0
x, v, m = rng.uniform(-L/2, L/2, size=(n, N, 3)), rng.normal(size=(n, N, 3)), rng.uniform(0.5, 3.0, size=N)
s = rng.normal(size=(n, 3, 3))
th = TrajectoryRam()
for i in range(n):
    system = System(particle=[Particle(position=x[i][j], velocity=v[i][j], mass=m[j]) for j in range(N)], cell=Cell(numpy.ones(3) * L))
    system.interaction = Interaction()
    system.interaction.stress = s[i].copy()
    th.write(system, i)
cf = StressAutocorrelation(th, [0.0, 1.0, 2.0], norigins=-1)
cf.compute()
y = [[s[i][a, b] + numpy.sum(m * v[i][:, a] * v[i][:, b]) for a, b in ((0, 1), (0, 2), (1, 2))] for i in range(n)]
y = numpy.array(y)
for t, value in zip(cf.grid, cf.value):
    t = int(t)
    check(abs(numpy.mean(y[:n-t] * y[t:]) / L**3 - value) < 1e-8, ('S(t)', t, value))
''')

seed('C22-block-slices', 'C22',
     [('api.py', "sl_stop = (sl.stop // th.block_size) * th.block_size if sl.stop is not None else sl.stop", "sl_stop = (sl.stop // th.block_size + 1) * th.block_size if sl.stop is not None else sl.stop")],
     'the option that selects the last frame, on a trajectory sampled in periodic blocks',
     'one block more than requested is used', '''
from atooms.postprocessing import api
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'traj.xyz')
    rng = numpy.random.RandomState(10)
    block = [0, 1, 2, 4]
    steps = [b * 8 + s for b in range(6) for s in block] + [48]
    x = numpy.cumsum(rng.normal(scale=0.1, size=(len(steps), 6, 3)), axis=0)
    write_xyz(path, fold(x, 6.0), 6.0, steps=steps)
    from atooms.trajectory import Trajectory
    with Trajectory(path) as th:
        period = th.block_size
    api.msd(path, last=12, norigins='-1', tmax=4.0, tsamples=5)
    t, f = numpy.loadtxt(path + '.pp.msd', unpack=True)
    n = 12 // period * period
    where = {s: i for i, s in enumerate(steps[:n])}
    i = list(t).index(4.0)
    values = []
    for off in range(period):
        pairs = [(i, where[steps[i] + 4]) for i in range(off, n, period) if steps[i] + 4 in where]
        if pairs and pairs[0][0] == off:
            values.append(numpy.mean([numpy.sum((x[j] - x[i])**2) / 6 for i, j in pairs]))
    check(any(abs(f[i] - v) < 1e-5 * v for v in values), ('msd', f[i], values))
finally:
    shutil.rmtree(tmp)
''')

seed('C20-stale-rows', 'C20',
     [('correlation.py', "            with open(self._output_file, 'w') as fh:\n                fh.write(comments)", "            with open(self._output_file, 'r+' if os.path.exists(self._output_file) else 'w') as fh:\n                fh.write(comments)")],
     'writing a shorter result where a longer one had been written before',
     'the last lines of the previous file are left after the new ones', '''
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'traj.xyz')
    x = numpy.cumsum(numpy.random.RandomState(2).normal(scale=0.1, size=(8, 20, 3)), axis=0)
    write_xyz(path, fold(x, 6.0), 6.0)
    pp.MeanSquareDisplacement(path, tgrid=[0.0, 1.0, 2.0, 3.0, 4.0, 5.0], norigins=-1).do()
    cf = pp.MeanSquareDisplacement(path, tgrid=[0.0, 1.0], norigins=-1)
    cf.do()
    data = numpy.loadtxt(path + '.pp.msd')
    check(len(data) == len(cf.grid), ('rows', len(data), len(cf.grid)))
finally:
    shutil.rmtree(tmp)
''')

seed('C24-cutoff-order', 'C24',
     [('realspace.f90', "         jsp = ids(j)\n          rij = pos(:,i) - other(:,j)\n          where (abs(rij) > hbox)\n             rij = rij - sign(box,rij)\n          end where\n          rijsq = dot_product(rij,rij)\n          if (rijsq < rcutsq(isp,jsp)) then",
       "         jsp = ids(j)\n          rij = pos(:,i) - other(:,j)\n          where (abs(rij) > hbox)\n             rij = rij - sign(box,rij)\n          end where\n          rijsq = dot_product(rij,rij)\n          if (rijsq < rcutsq(max(isp,jsp),min(isp,jsp))) then")],
     'two lists of particles and cutoffs that are not symmetric in the species',
     'the cutoff is the one in the lower triangle of the matrix', '''
from atooms.postprocessing import realspace_wrap
rng = numpy.random.RandomState(12)
L, N = 6.0, 30
pos, other = rng.uniform(-L/2, L/2, size=(N, 3)), rng.uniform(-L/2, L/2, size=(N, 3))
ids = rng.randint(1, 3, size=N).astype('int32')
rcut = numpy.array([[1.5, 2.5], [1.8, 2.0]])
nn, ne = numpy.zeros(N, dtype='int32'), numpy.zeros((N, N), dtype='int32', order='F')
realspace_wrap.compute.neighbors_list_distinct('C', numpy.ones(3) * L, numpy.asfortranarray(pos.T), numpy.asfortranarray(other.T), ids, numpy.asfortranarray(rcut), nn, ne)
for i in range(N):
    r = numpy.sqrt(numpy.sum(fold(other - pos[i], L)**2, axis=1))
    want = [j for j in range(N) if r[j] < rcut[ids[i]-1, ids[j]-1]]
    check(sorted(ne[i, :nn[i]]) == want, ('neighbours', i))
''')

seed('C10-cross-2d', 'C10',
     [('fkt.py', "                                                        expo_1[..., 1, kvec[1]])", "                                                        expo_0[..., 1, kvec[1]])")],
     'two groups of particles of the same size in two dimensions',
     'the second density uses the y coordinates of the first group of particles', '''
rng = numpy.random.RandomState(21)
N, L, nframes = 10, 6.0, 5
x = numpy.cumsum(rng.normal(scale=0.2, size=(nframes, N, 2)), axis=0) + rng.uniform(-L/2, L/2, size=(1, N, 2))
species = ['A', 'B'] * (N // 2)
th = trajectory(fold(x, L), side=L, species=species)
cf = pp.Partial(pp.IntermediateScattering, ['A', 'B'], th, kgrid=[2.2, 3.5], tgrid=[0.0, 1.0, 2.0], nk=6, norigins=-1, normalize=False)
cf.compute()
p = cf.partial[('A', 'B')]
for k, klist in enumerate(p.kvectors):
    for it, t in enumerate(p.grid[1]):
        i = int(round(t))
        values = []
        for q in klist:
            rho = {s: [numpy.sum(numpy.exp(1j * x[n][[j for j in range(N) if species[j] == s]].dot(q))) for n in range(nframes)] for s in 'AB'}
            for i0 in range(nframes - i):
                values.append((rho['A'][i0+i] * rho['B'][i0].conjugate()).real)
        check(abs(p.value[k][it] - numpy.mean(values)) < 1e-6, ('F(k,t)', k, t, p.value[k][it], numpy.mean(values)))
''')

seed('C19-time-grid', 'C19',
     [('fkt.py', "                    self.grid[1] = [0.0] + list(self.grid[1])",
       "                    if not isinstance(self.grid[1], list):\n                        self.grid[1] = list(self.grid[1])\n                    self.grid[1].insert(0, 0.0)")],
     'a list of times that does not start from zero, used again after the normalized F(k,t) has been set up',
     'the time zero is added to the list of the user', '''
rng = numpy.random.RandomState(22)
x = numpy.cumsum(rng.normal(scale=0.2, size=(6, 8, 3)), axis=0)
th = trajectory(fold(x, 6.0), side=6.0)
tgrid = [1.0, 2.0, 3.0]
cf = pp.SelfIntermediateScattering(th, kgrid=[2.0], tgrid=tgrid, nk=2, norigins=-1)
cf.compute()
check(tgrid == [1.0, 2.0, 3.0], ('tgrid', tgrid))
''')

seed('C20-fixed-digits', 'C20',
     [('correlation.py', 'numpy.savetxt(fh, dump, fmt="%g")', 'numpy.savetxt(fh, dump, fmt="%.6f")')],
     'results that are much smaller than one',
     'the values in the file lose their significant digits', '''
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'traj.xyz')
    x = numpy.cumsum(numpy.random.RandomState(2).normal(scale=1e-5, size=(8, 20, 3)), axis=0)
    write_xyz(path, x, 6.0, dt=0.001)
    cf = pp.MeanSquareDisplacement(path, tgrid=[0.0, 0.001, 0.002, 0.003], norigins=-1)
    cf.do()
    data = numpy.loadtxt(path + '.pp.msd')
    check(numpy.allclose(data[:, 1], cf.value, rtol=1e-4, atol=0), ('values', data[:, 1], cf.value))
finally:
    shutil.rmtree(tmp)
''')

seed('C21-same-second', 'C21',
     [('correlation.py', "            if os.path.getmtime(self.trajectory.filename) < \\\n               os.path.getmtime(self._output_file):",
       "            if int(os.path.getmtime(self.trajectory.filename)) <= \\\n               int(os.path.getmtime(self._output_file)):")],
     'a trajectory that is modified within the same second in which the result was written',
     'the old result is kept', '''
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'traj.xyz')
    rng = numpy.random.RandomState(2)
    write_xyz(path, numpy.cumsum(rng.normal(scale=0.1, size=(8, 20, 3)), axis=0), 6.0)
    os.utime(path, (1000000000.1, 1000000000.1))
    pp.MeanSquareDisplacement(path, tgrid=[0.0, 1.0, 2.0], norigins=-1).do()
    old = numpy.loadtxt(path + '.pp.msd')
    os.utime(path + '.pp.msd', (1000000000.2, 1000000000.2))
    write_xyz(path, numpy.cumsum(rng.normal(scale=0.2, size=(8, 20, 3)), axis=0), 6.0)
    os.utime(path, (1000000000.7, 1000000000.7))
    pp.MeanSquareDisplacement(path, tgrid=[0.0, 1.0, 2.0], norigins=-1).do(update=True)
    new = numpy.loadtxt(path + '.pp.msd')
    check(new[-1, 1] > 1.5 * old[-1, 1], ('not updated', old, new))
finally:
    shutil.rmtree(tmp)
''')

seed('C17-filtered', 'C17',
     [('correlation.py', "                    if self._fix_cm:\n                        # Do not modify", "                    if self._fix_cm and len(self._cbk) == 0:\n                        # Do not modify")],
     'unfolded positions stored in the trajectory, a filter and a fixed center of mass, all together',
     'the drift of the system is not removed from the selected particles', '''
rng = numpy.random.RandomState(23)
N, L = 10, 8.0
x = numpy.cumsum(rng.normal(scale=0.1, size=(6, N, 3)), axis=0)
drift = numpy.arange(6)[:, None, None] * 0.5
species = ['A', 'B'] * 5
ref = pp.Partial(pp.MeanSquareDisplacement, ['A'], trajectory(fold(x, L), side=L, species=species, unfolded=x), tgrid=[0.0, 1.0, 2.0], norigins=-1, fix_cm=True)
new = pp.Partial(pp.MeanSquareDisplacement, ['A'], trajectory(fold(x + drift, L), side=L, species=species, unfolded=x + drift), tgrid=[0.0, 1.0, 2.0], norigins=-1, fix_cm=True)
ref.compute()
new.compute()
check(numpy.allclose(ref.partial['A'].value, new.partial['A'].value), ('msd', ref.partial['A'].value, new.partial['A'].value))
''')

seed('C15-frame-average', 'C15',
     [('correlation.py', "    mean = 0\n    for current_field in weight:\n        mean += current_field.mean()\n    mean /= len(weight)\n",
       "    mean = numpy.concatenate(weight).mean()\n")],
     'fluctuations of a weight with a number of particles that changes from one frame to the next',
     'the mean that is subtracted is the one over all the particles of all the frames, not the average over the frames', '''
rng = numpy.random.RandomState(25)
L = 6.0
frames = [rng.uniform(-L/2, L/2, size=(n, 3)) for n in (6, 20, 10)]
th = TrajectoryRam()
weight = []
for step, pos in enumerate(frames):
    particle = [Particle(position=r, species='A') for r in pos]
    for p in particle:
        p.charge = rng.rand() + step
    weight.append(numpy.array([p.charge for p in particle]))
    th.write(System(particle=particle, cell=Cell(numpy.ones(3) * L)), step)
th.timestep = 1.0
cf = pp.StructureFactor(th, kgrid=[2.1], nk=4, norigins=-1)
cf.add_weight(field='charge', fluctuations=True)
cf.compute()
mean = numpy.mean([w.mean() for w in weight])
rho = numpy.array([[numpy.sum((w - mean) * numpy.exp(1j * x.dot(k))) for k in cf.kvectors[0]] for x, w in zip(frames, weight)])
ref = (numpy.mean(abs(rho)**2) - abs(numpy.mean(rho))**2) / numpy.mean([len(x) for x in frames])
check(abs(cf.value[0] - ref) < 1e-6 * abs(ref), ('S(k)', cf.value, ref))
''')

seed('C22-centre-of-mass', 'C22',
     [('api.py', "                    nk=nk, dk=dk, fix_cm=fix_cm).do(update", "                    nk=nk, dk=dk).do(update")],
     'partial correlations with a fixed center of mass requested from the high-level function',
     'the option is ignored by the partial correlations, not by the total one', '''
import atooms.postprocessing.api as api
tmp = tempfile.mkdtemp()
try:
    rng = numpy.random.RandomState(26)
    x = numpy.cumsum(rng.normal(scale=0.1, size=(8, 20, 3)), axis=0)
    drift = numpy.arange(8)[:, None, None] * 0.4
    tau = []
    for name, y in [('a', x), ('b', x + drift)]:
        path = os.path.join(tmp, name + '.xyz')
        write_xyz(path, fold(y, 6.0), 6.0, species=['A', 'B'] * 10)
        api.fkt(path, kmin=2.0, kmax=3.0, ksamples=2, nk=4, tmax=4.0, tsamples=4, fix_cm=True)
        tau.append(numpy.loadtxt(path + '.pp.fkt.A-A'))
    check(tau[0].shape == tau[1].shape and numpy.allclose(tau[0], tau[1], atol=1e-4), 'F(k,t)')
finally:
    shutil.rmtree(tmp)
''')

seed('C05-last-count', 'C05',
     [('gr.py', "        N_1 = numpy.average(N_1)\n        if system.cell", "        N_1 = N_1[-1]\n        if system.cell")],
     'a number of particles that changes along the trajectory',
     'the density is the one of the last frame instead of the average one', '''
rng = numpy.random.RandomState(27)
L = 6.0
frames = [rng.uniform(-L/2, L/2, size=(n, 3)) for n in (60, 30)]
th = trajectory(frames, side=L)
cf = pp.RadialDistributionFunction(th, dr=0.25, norigins=-1)
cf.compute()
hist = numpy.zeros(len(cf.grid))
edges = numpy.arange(len(cf.grid) + 1) * 0.25
for x in frames:
    for i in range(len(x)):
        r = numpy.sqrt(numpy.sum(fold(x[i+1:] - x[i], L)**2, axis=1))
        hist += numpy.histogram(r, edges)[0] / 2.0
n = numpy.mean([len(x) for x in frames])
ref = hist / (n / L**3 * 4 * numpy.pi / 3 * (edges[1:]**3 - edges[:-1]**3) * n / 2)
check(numpy.allclose(cf.value, ref), ('g(r)', cf.value[-3:], ref[-3:]))
''')

seed('C04-single-origin', 'C04',
     [('helpers.py', "            skip = len(trajectory.steps)\n", "            skip = len(trajectory.steps) - 1\n")],
     'a static correlation from a single time origin',
     'the last frame is used along with the first one', '''
rng = numpy.random.RandomState(28)
frames = [rng.uniform(-3.0, 3.0, size=(20, 3)) for i in range(5)]
one = pp.StructureFactor(trajectory(frames, side=6.0), kgrid=[2.1, 3.0], nk=4, norigins=1)
one.compute()
ref = pp.StructureFactor(trajectory(frames[:1], side=6.0), kgrid=[2.1, 3.0], nk=4, norigins=-1)
ref.compute()
check(numpy.allclose(one.value, ref.value), ('S(k)', one.value, ref.value))
''')

seed('C27-single-origin', 'C27',
     [('susceptibility.py', "self._kwargs['norigins'] = '1'", "self._kwargs['norigins'] = 1")],
     'the susceptibility of a trajectory that is sampled in periodic blocks',
     'the overlaps do not start from the same frame at all times', '''
from atooms.postprocessing.susceptibility import Susceptibility
rng = numpy.random.RandomState(29)
block = [0, 1, 3, 7]
steps = [b * 8 + s for b in range(5) for s in block] + [40]
x = numpy.cumsum(rng.normal(scale=0.1, size=(len(steps), 12, 3)), axis=0)
th = trajectory(fold(x, 6.0), steps=steps, side=6.0, block=4)
cf = Susceptibility(pp.SelfOverlap, th, norigins=-1, tgrid=[0.0, 1.0, 2.0, 4.0, 8.0], a=0.3)
cf.compute()
where = {s: i for i, s in enumerate(steps)}
for t, value in zip(cf.grid, cf.value):
    q = [numpy.sum(numpy.sum((x[where[steps[i] + int(round(t))]] - x[i])**2, axis=1) < 0.09) for i in range(0, len(steps), 4)
         if steps[i] + int(round(t)) in where and steps[-1] - steps[i] >= 8]
    if len(q):
        check(abs(numpy.var(q) / 12 - value) < 1e-8, ('chi', t, value, numpy.var(q) / 12))
''')

seed('C07-cell-returns', 'C07',
     [('sk.py', "            if variable_cell:\n                self._setup(i)\n\n            # Tabulate exponentials\n            # Note: tabulating and computing takes about the same time\n            if self._pos_0[i] is self._pos_1[i]:\n                # Identical species\n                expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])\n                expo_1 = expo_0\n            else:\n                # Cross correlation\n                expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])\n                expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])\n\n            # Define weights",
       "            if variable_cell and numpy.any(self.trajectory[i].cell.side != self.trajectory[0].cell.side):\n                self._setup(i)\n\n            # Tabulate exponentials\n            # Note: tabulating and computing takes about the same time\n            if self._pos_0[i] is self._pos_1[i]:\n                # Identical species\n                expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])\n                expo_1 = expo_0\n            else:\n                # Cross correlation\n                expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])\n                expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])\n\n            # Define weights")],
     'a cell that changes and then comes back to the initial one',
     'the wave-vectors of the previous frame are used once the cell is again the initial one', '''
rng = numpy.random.RandomState(30)
sides = [6.0, 7.0, 6.0]
th = TrajectoryRam()
frames = []
for step, L in enumerate(sides):
    x = rng.uniform(-L/2, L/2, size=(20, 3))
    frames.append(x)
    th.write(System(particle=[Particle(position=r, species='A') for r in x], cell=Cell(numpy.ones(3) * L)), step)
th.timestep = 1.0
cf = pp.StructureFactor(th, kgrid=[-1.0], nk=100, dk=0.01, norigins=-1)
cf.compute()
n, vectors = 0, [v for v in numpy.ndindex(3, 3, 3) if abs(numpy.array(v) - 1).sum() == 1]
values = []
for x, L in zip(frames, sides):
    for v in vectors:
        k = (numpy.array(v) - 1) * 2 * numpy.pi / L
        values.append(abs(numpy.sum(numpy.exp(1j * x.dot(k))))**2 / len(x))
check(abs(numpy.mean(values) - cf.value[0]) < 1e-6, ('S(k)', cf.value, numpy.mean(values)))
''')

seed('C30-callbacks', 'C30',
     [('gr.py', "            # Store side\n            system = self.trajectory.read(i)\n",
       "            # Store side\n            system = self.trajectory.read_system(i)\n")],
     'a callback that changes the cell, added to the trajectory',
     'the cell of the frames is the one before the callbacks', '''
rng = numpy.random.RandomState(31)
frames = [rng.uniform(-3.0, 3.0, size=(60, 3)) for i in range(3)]

def stretch(system):
    import copy
    s = copy.deepcopy(system)
    for p in s.particle:
        p.position = p.position * 2
    s.cell.side = s.cell.side * 2
    return s

tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'trj.xyz')
    write_xyz(path, frames, 6.0)
    from atooms.trajectory import Trajectory
    th = Trajectory(path)
    th.add_callback(stretch)
    cf = pp.RadialDistributionFunction(th, dr=0.3, norigins=-1)
    cf.compute()
    ref = pp.RadialDistributionFunction(trajectory([x * 2 for x in frames], side=12.0), dr=0.3, norigins=-1)
    ref.compute()
    check(len(cf.value) == len(ref.value) and numpy.allclose(cf.value, ref.value), ('g(r)', cf.value[-3:], ref.value[-3:]))
finally:
    shutil.rmtree(tmp)
''')

seed('C30-format', 'C30',
     [('correlation.py', "Trajectory(trj, mode='r', fmt=core.pp_trajectory_format)", "Trajectory(trj, mode='r')")],
     'a trajectory given as a path, in a format set globally that differs from the one of its suffix',
     'the file is parsed in the format of its suffix', '''
rng = numpy.random.RandomState(32)
frames = [rng.uniform(-3.0, 3.0, size=(30, 3)) for i in range(3)]
tmp = tempfile.mkdtemp()
try:
    from atooms.postprocessing import core
    path = os.path.join(tmp, 'trj.csv')
    write_xyz(path, frames, 6.0)
    core.pp_trajectory_format = 'xyz'
    try:
        cf = pp.RadialDistributionFunction(path, dr=0.3, norigins=-1)
        cf.compute()
        value = cf.value
    except Exception as e:
        value = e
    ref = pp.RadialDistributionFunction(trajectory(frames, side=6.0), dr=0.3, norigins=-1)
    ref.compute()
    check(not isinstance(value, Exception) and numpy.allclose(value, ref.value), ('g(r)', value))
finally:
    shutil.rmtree(tmp)
''')

seed('C26-close-times', 'C26',
     [('correlation.py', "        for i0 in range(off, len(x)-i, skip):\n            # Get the actual time difference\n            dt = t[i0+i] - t[i0]\n            cf[dt] += f(x[i0+i], x[i0])\n",
       "        for i0 in range(off, len(x)-i, skip):\n            # Get the actual time difference\n            dt = round(t[i0+i] - t[i0], 6)\n            cf[dt] += f(x[i0+i], x[i0])\n")],
     'times that are real numbers and differ by less than 1e-6',
     'close times are merged into one', '''
from atooms.postprocessing.correlation import gcf_offset
t = [0.0, 1e-7, 2.5e-7, 4e-7]
x = [1.0, 2.0, -1.0, 3.0]
dt, value = gcf_offset(lambda a, b: a * b, [(0, 0), (0, 1), (0, 2), (0, 3)], 4, t, x)
check(len(dt) == 4 and numpy.allclose(dt, t, rtol=1e-9, atol=0) and numpy.allclose(value, [1.0, 2.0, -1.0, 3.0]), ('gcf', dt, value))
''')

seed('C14-mask-reused', 'C14',
     [('filter.py', "    def _filter_generic(system, condition):\n        import copy\n        s = copy.copy(system)\n        s.particle = []\n",
       "    mask = {}\n\n    def _filter_generic(system, condition):\n        import copy\n        s = copy.copy(system)\n        if mask.get(condition, (0, None))[0] == len(system.particle):\n            s.particle = [p for p, m in zip(system.particle, mask[condition][1]) if m]\n            return s\n        s.particle = []\n"),
      ('filter.py', "                s.particle.append(particle)\n        return s\n",
       "                s.particle.append(particle)\n        kept = set(id(p) for p in s.particle)\n        mask[condition] = (len(system.particle), [id(p) in kept for p in system.particle])\n        return s\n")],
     'a condition that is met by different particles in different frames',
     'the particles are those that satisfy the condition in the first frame', '''
rng = numpy.random.RandomState(34)
frames = [rng.uniform(-3.0, 3.0, size=(40, 3)) for i in range(4)]
cf = pp.Filter(pp.StructureFactor(trajectory(frames, side=6.0), kgrid=[2.1, 3.0], nk=6, norigins=-1), 'position[0] > 0,position[0] > 0')
cf.compute()
value = numpy.zeros(2)
n0 = []
for x in frames:
    y = x[x[:, 0] > 0]
    n0.append(len(y))
    value += [numpy.mean([abs(numpy.sum(numpy.exp(1j * y.dot(numpy.array(k)))))**2 for k in ks]) for ks in cf.kvectors]
value /= sum(n0)
check(numpy.allclose(cf.value, value), ('S(k)', cf.value, value))
''')

seed('C03-log-distance', 'C03',
     [('helpers.py', "            return abs(x - t)\n", "            return abs(x - t) / max(1, x)\n")],
     'a requested time in between two available ones',
     'a farther, longer time is reported', '''
rng = numpy.random.RandomState(35)
steps = [0, 1, 10, 40]
x = numpy.cumsum(rng.normal(scale=0.1, size=(4, 10, 3)), axis=0)
th = trajectory(x, steps=steps, side=50.0, block=1)
cf = pp.MeanSquareDisplacement(th, tgrid=[0.0, 5.4], norigins=1)
cf.compute()
check(list(cf.grid) == [0.0, 1.0], ('times', cf.grid))
''')

seed('C11-radius-table', 'C11',
     [('ik.py', "                    Ri = self._radius[i]\n", "                    Ri = numpy.round(self._radius[i], 3)\n")],
     'small radii, i.e. lengths in large units',
     'radii are rounded', '''
from atooms.postprocessing import SpectralDensity
rng = numpy.random.RandomState(36)
tmp = tempfile.mkdtemp()
try:
    value = []
    for scale in [1.0, 1e-3]:
        path = os.path.join(tmp, 'trj%g.xyz' % scale)
        radius = numpy.random.RandomState(1).uniform(0.3, 0.6, size=30)
        x = numpy.random.RandomState(2).uniform(-3.0, 3.0, size=(30, 3))
        with open(path, 'w') as fh:
            fh.write('30\\nstep:0 columns:name,pos,radius dt:1 cell:%.17g,%.17g,%.17g\\n' % tuple([6.0 * scale] * 3))
            for r, a in zip(x, radius):
                fh.write('A %.17g %.17g %.17g %.17g\\n' % (tuple(r * scale) + (a * scale, )))
        from atooms.trajectory import Trajectory
        cf = SpectralDensity(Trajectory(path), path, kgrid=[2.1 / scale, 3.0 / scale], nk=5, dk=0.1 / scale, norigins=-1)
        cf.compute()
        value.append(numpy.array(cf.value) / scale**3)
    check(numpy.allclose(value[0], value[1], rtol=1e-6), ('I(k)', value))
finally:
    shutil.rmtree(tmp)
''')

seed('C20-analysis-kept', 'C20',
     [('correlation.py', "            if f is not None:\n                analysis += ", "            if f:\n                analysis += ")],
     'a result of the analysis that is zero',
     'it is missing from the metadata of the file', '''
rng = numpy.random.RandomState(37)
tmp = tempfile.mkdtemp()
try:
    path = os.path.join(tmp, 'trj.xyz')
    write_xyz(path, [rng.uniform(-3.0, 3.0, size=(10, 3))] * 4, 6.0)
    from atooms.trajectory import Trajectory
    cf = pp.Chi4SelfOverlap(Trajectory(path), tgrid=[0.0, 1.0, 2.0], norigins=-1)
    cf.do()
    with open(path + '.pp.chi4qs') as fh:
        text = fh.read()
    for key, value in cf.analysis.items():
        check(value is None or '# %s: %s\\n' % (key, value) in text, ('missing', key, value))
finally:
    shutil.rmtree(tmp)
''')

C31_DEMO = '''
class Pairs(pp.Correlation):
    symbol, short_name, long_name = 'pairs', 'C(t)', 'data of pairs'
    nbodies = %d
    phasespace = %s

    def _compute(self):
        self.grid, self.value = [0.0], [1.0]


rng = numpy.random.RandomState(40)
frames = [rng.uniform(-4.0, 4.0, size=(20, 3))]
velocity = [rng.normal(size=(20, 3)) for i in range(4)]
for i in range(3):
    frames.append(fold(frames[-1] + rng.normal(size=(20, 3)) * 0.3, 10.0))
species = ['A'] * 12 + ['B'] * 8
th = trajectory(frames, species=species, velocity=velocity)
cf = Pairs(th, [0.0])
'''

seed('C31-second-velocities', 'C31',
     [('correlation.py', "self._vel_1.append(s1.dump('vel'))", "self._vel_1.append(s0.dump('vel'))")],
     'a correlation of two bodies that needs velocities, with two filters',
     'the second group gets the velocities of the first one', C31_DEMO % (2, "['vel']") + '''
cf.add_filter(pp.helpers.filter_species, 'A')
cf.add_filter(pp.helpers.filter_species, 'B')
cf.compute()
for i in range(4):
    check(numpy.array_equal(cf._vel_0[i], velocity[i][:12]), 'first group')
    check(numpy.array_equal(cf._vel_1[i], velocity[i][12:]), 'second group')
''')

seed('C31-species-index', 'C31',
     [('correlation.py', "            for s in progress(th):\n                # Apply filter if there is one\n                if len(self._cbk) > 0:\n                    s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])\n                if 'pos' in self.phasespace:\n",
       "            for s in progress(th):\n                # Apply filter if there is one\n                if len(self._cbk) > 0:\n                    s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])\n                    ids = distinct_species(s.particle)\n                if 'pos' in self.phasespace:\n")],
     'a correlation of one body that needs the species, with a filter that leaves out the first ones',
     'species are numbered within the filtered particles', C31_DEMO % (1, "['pos', 'ids']") + '''
cf.add_filter(pp.helpers.filter_species, 'B')
cf.compute()
for i in range(4):
    check(numpy.array_equal(cf._pos[i], frames[i][12:]), 'positions')
    check(list(cf._ids[i]) == [1] * 8, ('species', cf._ids[i]))
''')

seed('C31-unfolded-filter', 'C31',
     [('correlation.py', "                for s in progress(th):\n                    # Apply filter if there is one\n                    if len(self._cbk) > 0:\n                        s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])\n                    self._pos_unf.append(s.dump('pos'))",
       "                for s in progress(th):\n                    # Apply filter if there is one\n                    if len(self._cbk) > 0 and len(self._pos) == 0:\n                        s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])\n                    self._pos_unf.append(s.dump('pos'))")],
     'a correlation that needs both folded and unfolded positions, with a filter',
     'the unfolded positions are not filtered', C31_DEMO % (1, "['pos', 'pos-unf']") + '''
cf.add_filter(pp.helpers.filter_species, 'B')
cf.compute()
for i in range(4):
    check(numpy.array_equal(cf._pos[i], frames[i][12:]), 'positions')
    check(cf._pos_unf[i].shape == (8, 3), ('unfolded positions', cf._pos_unf[i].shape))
''')

seed('C32-show-now', 'C32',
     [('correlation.py', "        if now:\n            plt.show()", "        if now or plt.isinteractive():\n            plt.show()")],
     'show(now=False) with the plotting library in interactive mode',
     'the figure is shown although this has not been asked for', '''
import types
shown = []
mpl, plt = types.ModuleType('matplotlib'), types.ModuleType('matplotlib.pyplot')
mpl.pyplot = plt
plt.plot = plt.xlabel = plt.ylabel = lambda *args, **kwargs: None
plt.isinteractive = lambda: True
plt.show = lambda *args, **kwargs: shown.append(1)
sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = mpl, plt
rng = numpy.random.RandomState(41)
cf = pp.MeanSquareDisplacement(trajectory([rng.uniform(-4.0, 4.0, size=(10, 3)) for i in range(4)]), tgrid=[0.0, 1.0, 2.0])
cf.compute()
cf.show(now=False)
check(len(shown) == 0, 'shown')
cf.show()
check(len(shown) == 1, 'not shown once')
''')

seed('C32-cached-grid', 'C32',
     [('gr.py', "                self.grid = linear_grid(self.dr/2, max(system.cell.side)*ndims**0.5, self.dr)",
       "                extent = max(system.cell.side)*ndims**0.5\n                if extent not in _extents:\n                    _extents[extent] = linear_grid(self.dr/2, extent, self.dr)\n                self.grid = list(_extents[extent])"),
      ('gr.py', "class RadialDistributionFunctionLegacy(", "_extents = {}\n\n\nclass RadialDistributionFunctionLegacy(")],
     'one of the partial g(r) set to another bin width, in the same cell',
     'the grid of another bin width is used', '''
rng = numpy.random.RandomState(42)
th = trajectory([rng.uniform(-4.0, 4.0, size=(30, 3))], side=8.0, species=['A'] * 20 + ['B'] * 10)
gr = pp.Partial(pp.RadialDistributionFunction, ['A', 'B'], th, dr=0.2, norigins=-1)
gr.partial[('B', 'B')].dr = 0.4
gr.compute()
step = lambda x: x.grid[1] - x.grid[0]
check(abs(step(gr.partial[('A', 'A')]) - 0.2) < 1e-9, 'AA')
check(abs(step(gr.partial[('B', 'B')]) - 0.4) < 1e-9, ('BB', step(gr.partial[('B', 'B')])))
''')

seed('C32-nk-late', 'C32',
     [('fourierspace.py', "        self.nk = nk\n", "        self.nk = nk\n        self._nk = nk\n"), ('fourierspace.py', "nk = min(self.nk, len(klist))", "nk = min(self._nk, len(klist))")],
     'the number of wave-vectors per shell set after construction',
     'the number of wave-vectors given at construction is used', '''
rng = numpy.random.RandomState(43)
th = trajectory([rng.uniform(-4.0, 4.0, size=(30, 3))], side=8.0)
cf = pp.StructureFactorLegacy(th, kgrid=[2.0], norigins=-1, dk=0.3)
cf.nk = 2
cf.compute()
check([len(x) for x in cf.kvectors] == [2], [len(x) for x in cf.kvectors])
''')

seed('C33-empty-file', 'C33',
     [('correlation.py', "        self.compute()\n\n        try:\n            self.analyze()",
       "        # Make sure that we can write the results, before the actual calculation\n        if self._output_file is not None:\n            from atooms.core.utils import mkdir\n            mkdir(os.path.dirname(os.path.abspath(self._output_file)))\n            open(self._output_file, 'a').close()\n        self.compute()\n\n        try:\n            self.analyze()")],
     'a calculation that is interrupted before the results are written, then an update',
     'an empty file is left behind, which looks up to date', '''
import os, time, shutil, tempfile
from atooms.system import System, Particle, Cell
from atooms.trajectory import TrajectoryXYZ
root = tempfile.mkdtemp()
try:
    path = os.path.join(root, 'traj.xyz')
    rng = numpy.random.RandomState(44)
    with TrajectoryXYZ(path, 'w') as th:
        for i in range(4):
            th.write(System(particle=[Particle(position=x) for x in rng.uniform(-2.0, 2.0, size=(10, 3))], cell=Cell([4.0] * 3)), i)
    os.utime(path, (10**9, 10**9))
    class Stopped(pp.MeanSquareDisplacement):
        def _compute(self):
            raise KeyboardInterrupt()
    with TrajectoryXYZ(path) as th:
        try:
            Stopped(th, tgrid=[0.0, 1.0, 2.0]).do()
        except KeyboardInterrupt:
            pass
        check(os.listdir(root) == ['traj.xyz'], os.listdir(root))
        cf = pp.MeanSquareDisplacement(th, tgrid=[0.0, 1.0, 2.0])
        cf.do(update=True)
        check(len(cf.value) == 3, cf.value)
finally:
    shutil.rmtree(root)
''')

seed('C33-short-file', 'C33',
     [('correlation.py', "                if 'ids' in self.phasespace:\n                    _ids = s.dump('species')\n                    _ids = numpy.array([ids.index(_) for _ in _ids], dtype=numpy.int32)\n                    self._ids.append(_ids)\n\n        # Read unfolded",
       "                if 'ids' in self.phasespace:\n                    _ids = s.dump('species')\n                    _ids = numpy.array([ids.index(_) for _ in _ids], dtype=numpy.int32)\n                    self._ids.append(_ids)\n\n        # Read unfolded"),
      ('correlation.py', "            ids = distinct_species(th[0].particle)\n            for s in progress(th):\n", "            ids = distinct_species(th[0].particle)\n            for s in progress(_available(th)):\n"),
      ('correlation.py', "class Correlation(object):\n", "def _available(th):\n    # The last frame may be incomplete, if the simulation is running\n    for i in range(len(th)):\n        try:\n            yield th[i]\n        except (IOError, IndexError):\n            _log.warning('could not read frame %d', i)\n            return\n\n\nclass Correlation(object):\n")],
     'an error while reading one of the frames',
     'the error is lost, and the results are those of the frames up to there', '''
from atooms.trajectory import TrajectoryRam
rng = numpy.random.RandomState(45)
th = trajectory([rng.uniform(-4.0, 4.0, size=(30, 3)) for i in range(4)], side=8.0)
class Broken(th.__class__):
    def read_system(self, frame):
        if frame == 3:
            raise IOError('cannot read')
        return super(Broken, self).read_system(frame)
th.__class__ = Broken
cf = pp.VelocityAutocorrelation(th, tgrid=[0.0, 1.0], norigins=1)
try:
    cf.compute()
except IOError:
    pass
else:
    check(False, 'the error is lost')
''')

seed('C33-callback-left', 'C33',
     [('ba.py', "            self.rcut = numpy.array(self.rcut)\n", "            self.rcut = numpy.array(self.rcut)\n        # species are in fortran style\n        self.trajectory.add_callback(change_species, 'F')\n"),
      ('ba.py', "        # Normalization\n        hist = ", "        self.trajectory.callbacks.pop()\n        # Normalization\n        hist = ")],
     'the calculation of the bond angles stopped in the loop over frames',
     'a callback is left in the trajectory', '''
rng = numpy.random.RandomState(46)
th = trajectory([rng.uniform(-4.0, 4.0, size=(60, 3)) for i in range(4)], side=8.0, species=['A'] * 40 + ['B'] * 20)
cls, state = th.__class__, [0, 0]
class Broken(th.__class__):
    def read_system(self, frame):
        state[0] += 1
        if state[0] == state[1]:
            raise KeyboardInterrupt()
        return super(Broken, self).read_system(frame)
th.__class__ = Broken
cf = pp.BondAngleDistribution(th, rcut=[[2.0] * 2] * 2, norigins=-1)
cf.compute()
n = state[0]
for i in range(1, n + 1):
    state[:] = [0, i]
    cf = pp.BondAngleDistribution(th, rcut=[[2.0] * 2] * 2, norigins=-1)
    try:
        cf.compute()
        check(False, 'not stopped')
    except KeyboardInterrupt:
        pass
    check(sorted(set(th[0].dump('species'))) == ['A', 'B'], th[0].dump('species'))
''')

seed('C33-work-arrays', 'C33',
     [('sk.py', "        rho_1_av = [complex(0., 0.) for k in kgrid]\n        rho2_av = [complex(0., 0.) for k in kgrid]\n        variable_cell", "        rho_1_av = [complex(0., 0.) for k in kgrid]\n        if len(_work.setdefault('rho2', [])) != len(kgrid):\n            _work['rho2'] = [complex(0., 0.) for k in kgrid]\n        rho2_av = _work['rho2']\n        variable_cell"),
      ('sk.py', "class StructureFactorLegacy(", "_work = {}\n\n\nclass StructureFactorLegacy("),
      ('sk.py', "        # Normalization\n        npart_0 = ", "        _work.clear()\n        # Normalization\n        npart_0 = ")],
     'a calculation stopped in the loop over frames, then another one on as many wave-numbers',
     'the sums of the calculation that has been stopped are added to those of the other one', '''
from atooms.postprocessing import sk
rng = numpy.random.RandomState(47)
th = trajectory([rng.uniform(-4.0, 4.0, size=(30, 3)) for i in range(4)], side=8.0)
make = lambda: pp.StructureFactorLegacy(th, kgrid=[2.0], norigins=-1, dk=0.3)
ref = make()
ref.compute()
original, count = sk.expo_sphere, [0]
def stopped(*args, **kwargs):
    count[0] += 1
    if count[0] == 3:
        raise KeyboardInterrupt()
    return original(*args, **kwargs)
sk.expo_sphere = stopped
cf = make()
try:
    cf.compute()
except KeyboardInterrupt:
    pass
sk.expo_sphere = original
cf = make()
cf.compute()
check(numpy.allclose(cf.value, ref.value), (cf.value, ref.value))
''')

seed('C34-filter-added', 'C34',
     [('correlation.py', "        if len(self._cbk) >= self.nbodies:\n            raise ValueError('number of filters cannot exceed n. of bodies')\n        self._cbk.append(cbk)\n        self._cbk_args.append(args)\n        self._cbk_kwargs.append(kwargs)\n",
       "        self._cbk.append(cbk)\n        self._cbk_args.append(args)\n        self._cbk_kwargs.append(kwargs)\n        if len(self._cbk) > self.nbodies:\n            raise ValueError('number of filters cannot exceed n. of bodies')\n")],
     'a third filter, which is refused, for a weighted two-body correlation with two filters',
     'the filter that has been refused stays there: weights and groups do not match', '''
rng = numpy.random.RandomState(48)
th = trajectory([rng.uniform(-4.0, 4.0, size=(30, 3)) for i in range(2)], side=8.0, species=['A'] * 20 + ['B'] * 10)
def make():
    cf = pp.StructureFactorLegacy(th, kgrid=[2.0], norigins=-1, dk=0.3)
    cf.add_filter(pp.helpers.filter_species, 'A')
    cf.add_filter(pp.helpers.filter_species, 'B')
    cf.add_weight(field='radius')
    return cf
ref = make()
ref.compute()
cf = make()
try:
    cf.add_filter(pp.helpers.filter_species, 'A')
    check(False, 'accepted')
except ValueError:
    pass
try:
    cf.compute()
except Exception as e:
    check(False, e)
check(numpy.allclose(cf.value, ref.value), (cf.value, ref.value))
''')

seed('C34-read-resets', 'C34',
     [('correlation.py', "        with open(self._output_file, 'r') as inp:\n            x = numpy.loadtxt", "        self.grid, self.value = None, []\n        with open(self._output_file, 'r') as inp:\n            x = numpy.loadtxt")],
     'reading an output file that is not there, then computing',
     'the grid of the object is lost', '''
rng = numpy.random.RandomState(49)
th = trajectory([rng.uniform(-4.0, 4.0, size=(30, 3)) for i in range(4)], side=8.0)
cf = pp.MeanSquareDisplacement(th, tgrid=[0.0, 2.0])
cf.output_path = '/tmp/does/not/exist.{symbol}'
try:
    cf.read()
    check(False, 'read')
except (IOError, OSError):
    pass
cf.compute()
check(len(cf.grid) == 2 and abs(cf.grid[1] - 2.0) < 1e-9, cf.grid)
''')

seed('C34-missing-file', 'C34',
     [('api.py', "    for input_file in input_files:\n        with Trajectory(input_file, fmt=args['fmt']) as th:\n", "    for input_file in input_files:\n        if not os.path.exists(input_file):\n            # It may have been removed in the meantime\n            continue\n        with Trajectory(input_file, fmt=args['fmt']) as th:\n"),
      ('api.py', "def _get_trajectories(", "import os\n\n\ndef _get_trajectories(")],
     'an input file that does not exist',
     'the function, or the command, does nothing and succeeds', '''
import atooms.postprocessing.api as api
try:
    api.msd('/nonexistent/trajectory.xyz')
except Exception:
    pass
else:
    check(False, 'a file that does not exist was accepted')
''')
