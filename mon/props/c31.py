"""C31: correlations written by the user get the data they ask for, and behave as those of the package"""
import os

import numpy

from .. import boot, gen, ref, tc
from ..harness import Skip
from . import c20

RULE = ('one case = one correlation class defined by the harness on top of the base classes, as the documentation explains (any combination of '
        'positions, unfolded positions, velocities and species, one or two groups, static, dynamic, of two variables or in Fourier space) x a '
        'generated trajectory (containers, slices, stored unfolded positions) x filters, species, pairs, partials, centre of mass: the arrays handed to '
        'the class and the results it computes from them, computed again, written and read, against the plain data')
MINIMUM = 150
REQUIRED_COUNTS = {'arrays': 3000, 'weights': 300, 'both': 60, 'results': 100, 'files': 60, 'times': 500}
ASSUMPTIONS = ['positions are handed over up to periodic images', 'displacements between frames are less than half the cell side',
               'groups with as many particles as dimensions are left out (trajectory library)']

KINDS = ['data', 'data', 'data', 'group', 'pair', 'pair', 'partial', 'static', 'dynamic', 'dynamic', 'surface', 'fourier', 'weight', 'weight']
ASKS = [['pos'], 'pos', ['pos-unf'], 'pos-unf', ['vel'], 'vel', ['pos', 'vel'], ['pos', 'pos-unf'], ['pos-unf', 'pos'], ['pos-unf', 'vel'], ('pos', 'ids'),
        ['pos', 'pos-unf', 'vel'], None, ['vel', 'ids'], ['pos', 'pos-unf', 'vel', 'ids']]


def cases(tier, seed):
    out = []
    n = 1300 if tier == 'quick' else 14000
    for i in range(n):
        rng = gen.rng_for('C31', seed, i)
        kind = KINDS[i % len(KINDS)]
        spec = gen.dynamics_spec(rng, N=rng.choice([10, 17, 26]), masses=True, motion=rng.choice(['brownian', 'strong', 'ballistic', 'hop', 'still']))
        how = rng.choice(['ram', 'ram', 'ramview', 'xyz', 'xyzcached'])
        if kind in ('group', 'pair', 'partial') or rng.random() < 0.4:
            spec['species'] = rng.choice(gen.SPECIES[2:])
        if rng.random() < 0.4:
            spec['store_unf'] = True
            how = rng.choice(['ram', 'ramview'])
        elif how.startswith('xyz'):
            spec['masses'] = False
        ask = rng.choice(ASKS)
        if kind in ('static', 'surface', 'partial', 'fourier'):
            ask = rng.choice([['pos'], 'pos', ['pos', 'vel'], ('pos', 'pos-unf')])
            if kind == 'fourier':
                spec['ndim'] = rng.choice([2, 3])
        elif kind == 'dynamic':
            ask = rng.choice([['pos-unf'], 'pos-unf', ['pos', 'pos-unf'], ['pos-unf', 'vel'], None])
        elif kind == 'weight':
            ask = rng.choice([['pos'], ['pos', 'vel'], ['vel']])
        sl = None
        if rng.random() < 0.2 and spec['sampling'] == 'even' and spec['nframes'] > 4:
            sl = [rng.choice([0, 1, 2]), rng.choice([None, spec['nframes'] - 1]), 1]
        side = [spec['L'] * x for x in gen.SIDES[spec['shape']][:spec['ndim']]]
        out.append(dict(kind=kind, spec=spec, how=how, slice=sl, ask=ask, fix_cm=rng.random() < 0.35, norigins=rng.choice(tc.NORIGINS), tgrid=tc.random_tgrid(rng, spec['nframes']),
                        kmin=round(2 * numpy.pi / min(side), 3), sel=rng.randrange(1000), filters=rng.choice([0, 1, 2, 2]), again=rng.random() < 0.3, jump=rng.random() < 0.3))
    return out


def classes(pp):
    class Recorder(pp.Correlation):
        """What the base class hands over"""
        symbol = 'rec'
        short_name = 'R(x)'
        long_name = 'recorded data'

        def __init__(self, trajectory, ask=None, grid=None, **kwargs):
            pp.Correlation.__init__(self, trajectory, [0.0, 1.0] if grid is None else grid, **kwargs)
            if ask is not None:
                self.phasespace = ask

        def _compute(self):
            self.value = [1.0, 2.0]

    class PairRecorder(Recorder):
        nbodies = 2
        symbol = 'rec2'

    class Static(Recorder):
        """Profile of the particles along the first axis, averaged over the frames"""
        symbol = 'profile'
        short_name = 'rho(x)'
        long_name = 'density profile'

        def _compute(self):
            raw = []
            self.grid = [0.125, 0.375, 0.625, 0.875]
            for i in range(0, len(self._pos), self.skip):
                x = self._pos[i][:, 0] / self.trajectory[i].cell.side[0]
                raw.append(numpy.histogram(x - numpy.floor(x), [0.0, 0.25, 0.5, 0.75, 1.0])[0])
            self.value = numpy.array(raw).mean(axis=0)

        def analyze(self):
            self.analysis['largest density'] = max(self.value)

    class Dynamic(Recorder):
        """Dynamic correlation the way the documentation suggests"""
        symbol = 'mqd'
        short_name = 'dr(t)'
        long_name = 'mean absolute displacement'

        def _compute(self):
            from collections import defaultdict
            from atooms.postprocessing.helpers import setup_t_grid
            raw = defaultdict(list)
            steps = self.trajectory.steps
            for offset, t in setup_t_grid(self.trajectory, self.grid):
                for t_0 in range(offset, len(self._pos_unf) - t, self.skip):
                    raw[steps[t_0 + t] - steps[t_0]].append(numpy.mean(numpy.sum(abs(self._pos_unf[t_0 + t] - self._pos_unf[t_0])**3, axis=1)))
            self.grid = [dt * self.trajectory.timestep for dt in sorted(raw)]
            self.value = [numpy.mean(raw[dt]) for dt in sorted(raw)]

    class Surface(Recorder):
        """Function of two variables"""
        symbol = 'surf'
        short_name = 'A(x,y)'
        long_name = 'surface'

        def _compute(self):
            self.grid = [[0.0, 1.5, 4.0], [1.0, 2.0]]
            self.value = [[x + 10 * y + self._pos[-1][0][0] for y in self.grid[1]] for x in self.grid[0]]

    class Fourier(pp.fourierspace.FourierSpaceCorrelation):
        """Average over the wave-vectors of a shell"""
        symbol = 'phi'
        short_name = 'P(k)'
        long_name = 'phases'
        phasespace = ['pos']

        def __init__(self, trajectory, ask=None, grid=None, **kwargs):
            pp.fourierspace.FourierSpaceCorrelation.__init__(self, trajectory, grid, **kwargs)
            if ask is not None:
                self.phasespace = ask

        def _compute(self):
            self.grid = self.kgrid
            self.value = [numpy.mean([numpy.mean([numpy.cos(x.dot(numpy.array(k))).sum() for k in ks]) for x in self._pos[::self.skip]]) for ks in self.kvectors]

    return Recorder, PairRecorder, Static, Dynamic, Surface, Fourier


def expected(m, stored, fix):
    """Positions, unfolded positions (up to the reference of the images) of all the particles"""
    U = [m.pos[0] + (u - m.unf[0]) for u in m.unf]
    S = [u for u in m.unf] if stored else U
    cm = lambda X, i: numpy.sum(X[i] * m.mass[i][:, None], axis=0) / numpy.sum(m.mass[i])
    pos = [U[i] - cm(U, i) for i in range(m.n)] if fix else m.pos
    unf = [S[i] - cm(S, i) for i in range(m.n)] if fix else S
    return pos, unf


def check_arrays(obs, mech, cf, m, case, w, suffix, msg, state):
    ask = case['ask']
    ask = ['pos', 'pos-unf', 'vel'] if ask is None else [ask] if isinstance(ask, str) else list(ask)
    pos, unf = expected(m, m.store_unf, case['fix_cm'])
    names = sorted(set(m.species[0]))
    if 'pos' in ask and 'pos-unf' in ask:
        obs.count('both')
    for what, attr, want in [('pos', '_pos', pos), ('pos-unf', '_pos_unf', unf), ('vel', '_vel', m.vel), ('ids', '_ids', [numpy.array([names.index(s) for s in l]) for l in m.species])]:
        if what not in ask:
            continue
        got = getattr(cf, attr + suffix)
        mm = '%s: %s' % (msg, attr + suffix)
        if not obs.check(len(got) == m.n, mech + '/frames', lambda: '%s: %d frames, expected %d' % (mm, len(got), m.n)):
            continue
        for i in range(m.n):
            x, y = numpy.asarray(got[i]), want[i][w]
            obs.count('arrays')
            if not obs.check(x.shape == y.shape, mech + '/shape', lambda: '%s, frame %d: shape %s, expected %s' % (mm, i, x.shape, y.shape)):
                break
            d = x - y
            if what == 'pos':
                if case['fix_cm']:
                    # Positions relative to the centre of mass may be translated, but all by the same fraction of the cell
                    if 'shift' not in state:
                        state['shift'] = d[0] / m.side[i]
                    d = d - state['shift'] * m.side[i]
                d = d - numpy.rint(d / m.side[i]) * m.side[i]
            obs.values += 1
            if not obs.check(numpy.all(abs(d) <= 1e-9 * (1 + abs(y).max())), mech + '/' + what, lambda: '%s, frame %d: largest deviation %g' % (mm, i, abs(d).max())):
                break


def jump(m, sel):
    """Stored unfolded positions with displacements that cannot be guessed from the folded ones"""
    rng = numpy.random.RandomState(sel)
    m.unf = [u + rng.randint(-2, 3, size=u.shape) * s * (0 if i == 0 else 1) for i, (u, s) in enumerate(zip(m.unf, m.side))]


def run(case, obs):
    pp = boot.load()
    from atooms.postprocessing.helpers import filter_species
    from atooms.postprocessing.partial import Partial
    for name in ('Correlation', 'fourierspace'):
        if not hasattr(pp, name):
            raise Skip('no ' + name)
    Recorder, PairRecorder, Static, Dynamic, Surface, Fourier = classes(pp)
    kind, sel = case['kind'], case['sel']
    m0 = gen.build(case['spec'])
    if m0.store_unf and case['jump'] and not case['fix_cm']:
        jump(m0, sel)
    th, m = tc.trajectory(case, m0, obs.tmp)
    block = th.block_size
    names = sorted(set(m.species[0]))
    a, b = names[sel % len(names)], names[(sel // 7) % len(names)]
    wa, wb = m.where(a)(0), m.where(b)(0)
    full = m.everything()(0)
    kw = dict(norigins=case['norigins'])
    skip = ref.skip_of(case['norigins'], m.n, block, m.N)
    ask = case['ask']
    msg = '%s of %s, %s%s' % (kind, ask if ask is not None else 'default data', case['how'], ', centre of mass fixed' if case['fix_cm'] else '')
    if kind in ('data', 'group', 'weight', 'pair'):
        two = kind == 'pair' or (kind == 'weight' and sel % 2 == 1)
        cls = PairRecorder if two else Recorder
        cf = cls(th, ask, fix_cm=case['fix_cm'], **kw)
        w, groups = full, case['filters'] if two else 1 if kind == 'group' else min(1, case['filters']) if kind == 'weight' else 0
        if groups > 0:
            if sel % 3 == 0:
                pp.Filter(cf, ','.join(['species == %r' % x for x in (a, b)[:groups]]))
            else:
                for x in (a, b)[:groups]:
                    cf.add_filter(filter_species, x)
        if kind == 'weight':
            field, fluct = [('radius', False), ('charge', True), ('radius', True)][sel % 5 % 3]
            cf.add_weight(field=field, fluctuations=fluct)
        for again in range(2 if case['again'] else 1):
            state = {}
            cf.compute()
            obs.same([list(map(float, cf.grid)), list(map(float, cf.value))], [[0.0, 1.0], [1.0, 2.0]], kind + '/result', msg + ': grid and value')
            mech = kind + ('/again' if again else '')
            if two:
                # (a single condition restricts the first group only)
                both = groups == 1 and sel % 3 == 0
                for suffix, g in [('_0', wa if groups > 0 else full), ('_1', full if groups == 0 or both else wa if groups == 1 else wb)]:
                    check_arrays(obs, mech, cf, m, case, g, suffix, '%s, %d filters' % (msg, groups), state)
            else:
                check_arrays(obs, mech, cf, m, case, wa if groups else full, '', msg, state)
        if kind == 'weight':
            both = groups == 1 and sel % 3 == 0
            given = [('_weight', wa if groups else full)] if not two else \
                [('_weight_0', wa if groups > 0 else full), ('_weight_1', full if groups == 0 or both else wa if groups == 1 else wb)]
            for attr, g in given:
                data = [numpy.array(x, dtype=float)[g] for x in getattr(m, field)]
                mean = numpy.mean([x.mean() for x in data]) if fluct else 0.0
                got = getattr(cf, attr)
                if obs.check(len(got) == m.n, 'weight/frames', lambda: '%s: %d frames of weights, expected %d' % (msg, len(got), m.n)):
                    for i in range(m.n):
                        obs.count('weights')
                        obs.close(got[i], data[i] - mean, 'weight/field', 1e-9, 1e-9, '%s: %s, %s%s, %d filters' % (msg, attr, field, ' fluctuations' if fluct else '', groups))
        obs.count('computed')
        return

    def profile(w):
        x = [m.pos[i][w][:, 0] / m.side[i][0] for i in range(0, m.n, skip)]
        if any(numpy.any(abs(4 * y - numpy.rint(4 * y)) < 1e-9) for y in x):
            raise Skip('particles on the border of a bin')
        return numpy.mean([numpy.histogram(y - numpy.floor(y), [0.0, 0.25, 0.5, 0.75, 1.0])[0] for y in x], axis=0)

    def files(cf, m_, what):
        path = os.path.join(obs.tmp, 'out', what)
        cf.output_path = path + '.{symbol}.{tag}'
        cf.comments = '# note: set by the user\n' if sel % 2 else None
        cf.do()
        tag = '.' + cf.tag if cf.tag else ''
        out = path + '.' + cf.symbol + tag
        if not obs.check(os.path.exists(out), what + '/file', lambda: '%s: no file %s' % (m_, out)):
            return
        c = c20.check_rows(obs, what, out, c20.columns_of(cf), m_)
        db = c20.metadata(c)
        obs.check(cf.long_name in db.get('title', '') and cf.short_name in db['title'], what + '/title', lambda: '%s: title is %r' % (m_, db.get('title')))
        obs.check([x.strip() for x in db.get('columns', '').split(', ')] == cf.grid_name + [cf.short_name], what + '/columns', lambda: '%s: columns %s' % (m_, db.get('columns')))
        if cf.comments is not None:
            obs.check(db.get('note') == 'set by the user', what + '/comments', lambda: '%s: comments of the user are not in %s' % (m_, c))
        for k, v in cf.analysis.items():
            obs.check(k in db and c20.near(db[k], v), what + '/analysis', lambda: '%s: %s is %s, not %s' % (m_, k, db.get(k), v))
        if len(cf.grid_name) == 1:
            c2 = type(cf)(th, ask)
            c2.output_path, c2.tag = cf.output_path, cf.tag
            c2.read()
            obs.check(all(c20.near(x, y) for x, y in zip(c2.grid, cf.grid)) and all(c20.near(x, y) for x, y in zip(c2.value, cf.value)) and len(c2.value) == len(cf.value),
                      what + '/read', lambda: '%s: read back %s' % (m_, c2.value))
    # (no file is written for a trajectory without a path)
    onfile = th.filename is not None
    if kind == 'static':
        cf = Static(th, ask, **kw)
        w = full
        if case['filters']:
            cf = pp.Filter(cf, 'species == %r' % a)
            w = wa
        want = profile(w)
        cf.compute()
        obs.count('results')
        obs.close(cf.value, want, 'static/value', 1e-9, 1e-9, msg)
        if onfile:
            files(cf, msg, 'static')
            obs.close(cf.value, want, 'static/again', 1e-9, 1e-9, msg + ', done again')
    elif kind == 'partial':
        p = Partial(Static, names, th, ask, **kw)
        p.compute()
        total = 0
        for x in names:
            want = profile(m.where(x)(0))
            obs.count('results')
            obs.close(p.partial[x].value, want, 'partial/value', 1e-9, 1e-9, '%s: species %s' % (msg, x))
            if onfile:
                files(p.partial[x], '%s: species %s' % (msg, x), 'partial')
            total = total + numpy.array(p.partial[x].value)
        obs.close(total, profile(full), 'partial/sum', 1e-9, 1e-9, msg)
    elif kind == 'surface':
        cf = Surface(th, ask)
        cf.compute()
        obs.count('results')
        obs.same(cf.grid_name, ['x', 'y'], 'surface/names', msg)
        x0 = float(cf._pos[-1][0][0])
        obs.close([float(v) for r in cf.value for v in r], [x + 10 * y + x0 for x in (0.0, 1.5, 4.0) for y in (1.0, 2.0)], 'surface/value', 1e-12, 1e-12, msg)
        if onfile:
            files(cf, msg, 'surface')
    elif kind == 'fourier':
        k = [case['kmin'], 2.1 * case['kmin']]
        cf = Fourier(th, ask, grid=list(k), nk=6, **kw)
        w = full
        if case['filters']:
            cf.add_filter(filter_species, a)
            w = wa
        cf.compute()
        obs.count('results')
        vec = [[numpy.array(v) for v in l] for l in cf.kvectors]
        obs.check(len(vec) == 2 and all(0 < len(l) <= 6 for l in vec), 'fourier/vectors', lambda: '%s: %s wave-vectors' % (msg, [len(l) for l in vec]))
        obs.close(cf.grid, [numpy.mean([numpy.linalg.norm(v) for v in l]) for l in vec], 'fourier/grid', 1e-9, 1e-9, msg)
        want = [numpy.mean([numpy.mean([numpy.cos(m.pos[i][w].dot(v)).sum() for v in l]) for i in range(0, m.n, skip)]) for l in vec]
        obs.close(cf.value, want, 'fourier/value', 1e-7, 1e-7, msg)
        if onfile:
            files(cf, msg, 'fourier')
    elif kind == 'dynamic':
        g = tc.tgrid(case, m)
        if g is None:
            g = [f * (m.steps[-1] - m.steps[0]) * m.timestep for f in (0.0, 0.25, 0.5, 0.75, 1.0)]
        cf = Dynamic(th, ask, grid=list(g), fix_cm=case['fix_cm'], **kw)
        w = full
        if case['filters']:
            cf.add_filter(filter_species, a)
            w = wa
        pos, unf = expected(m, m.store_unf, case['fix_cm'])
        cf.compute()
        obs.count('results')
        scale = max(float(abs(numpy.asarray(u)).max()) for u in unf)
        f = lambda i0, i1: numpy.mean(numpy.sum(abs(unf[i1][w] - unf[i0][w])**3, axis=1))
        # the class above uses offsets whatever the origins are
        tc.check_values(obs, 'dynamic', m, cf.grid, cf.value, f, -1, block, rtol=1e-7, atol=1e-9 * (1 + scale**3), msg=msg, skip=skip)
        tc.check_requested(obs, 'dynamic', m, cf.grid, g, block, True, msg=msg)
        if onfile:
            files(cf, msg, 'dynamic')
