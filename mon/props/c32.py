"""C32: results do not depend on how settings and grids are given; progress bars, messages and plots are faithful"""
import copy
import logging
import os
import sys
import types

import numpy

from .. import boot, classes, gen, tc
from ..harness import Skip
from .c18 import same, state

RULE = ('one case = one generated trajectory x one correlation class (or its partials) x one way of giving the same settings: grids and wave-vectors as lists, tuples, arrays, '
        'keyword or positional arguments, attributes set after construction (of a single partial, too), the global output path; or of following the calculation: '
        'progress bars, messages logged at all levels, show() on a stand-in of the plotting library; everything is compared with the results of plain keyword arguments')
MINIMUM = 150
REQUIRED_COUNTS = {'compared': 500, 'shown': 30, 'messages': 100, 'partial': 30, 'attributes': 100, 'paths': 30}
ASSUMPTIONS = ['the plotting library is replaced by a stand-in that records the calls']
KINDS = ['containers', 'containers', 'positional', 'attributes', 'attributes', 'partial', 'show', 'path', 'progress', 'messages']
OVERLAP = ['tgrid', 'norigins', 'a', 'tsamples']
ORDER = {'MeanSquareDisplacement': ['tgrid', 'rmax', 'norigins', 'tsamples', 'sigma'], 'VelocityAutocorrelation': ['tgrid', 'tsamples', 'norigins'],
         'NonGaussianParameter': ['tgrid', 'norigins'], 'SelfOverlap': OVERLAP, 'Chi4SelfOverlap': OVERLAP, 'CollectiveOverlap': ['tgrid', 'tsamples', 'a', 'norigins'],
         'RadialDistributionFunction': ['rgrid', 'norigins', 'dr'], 'RadialDistributionFunctionLegacy': ['rgrid', 'norigins', 'dr'],
         'StructureFactorLegacy': ['kgrid', 'norigins', 'nk', 'dk'], 'StructureFactorFast': ['kgrid', 'norigins', 'nk', 'dk'],
         'SelfIntermediateScatteringFast': ['kgrid', 'tgrid', 'nk', 'tsamples', 'dk'], 'SelfIntermediateScatteringLegacy': ['kgrid', 'tgrid', 'nk', 'tsamples', 'dk'],
         'IntermediateScattering': ['kgrid', 'tgrid', 'nk', 'dk'], 'S4ktOverlap': ['tgrid', 'kgrid', 'norigins', 'nk', 'dk', 'a'],
         'BondAngleDistribution': ['norigins', 'dtheta', 'rcut']}


def cases(tier, seed):
    out = []
    n = 1700 if tier == 'quick' else 10000
    for i in range(n):
        rng = gen.rng_for('C32', seed, i)
        name = classes.ALL[i % len(classes.ALL)]
        kind = KINDS[(i // len(classes.ALL)) % len(KINDS)]
        if kind == 'positional' and name not in ORDER:
            name = rng.choice(sorted(ORDER))
        if kind == 'partial':
            name = rng.choice(['RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'StructureFactorFast', 'StructureFactorLegacy', 'MeanSquareDisplacement',
                               'SelfIntermediateScatteringFast', 'SelfIntermediateScatteringLegacy', 'IntermediateScattering'])
        if kind == 'attributes' and name not in classes.FOURIER + ['RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'MeanSquareDisplacement']:
            name = rng.choice(classes.FOURIER + ['RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'MeanSquareDisplacement'] * 3)
        spec = classes.spec_for(rng, name)
        if kind == 'partial':
            spec['species'] = rng.choice(gen.SPECIES[2:])
        args = classes.args_for(rng, name, spec)
        if kind != 'attributes' or name != 'MeanSquareDisplacement':
            args['auto'] = args['auto'] and kind in ('messages', 'progress', 'show')
        out.append(dict(kind=kind, cls=name, spec=spec, args=args, sel=rng.randrange(10**6), how=rng.choice(['ram', 'xyz', 'xyzcached', 'ramfile']),
                        container=rng.choice(['tuple', 'array', 'array', 'strided', 'readonly', 'mixed']), dr=rng.choice([0.1, 0.3, 0.25])))
    return out


def into(x, what):
    """Grid in another container"""
    if what == 'tuple':
        return tuple(x)
    if what == 'mixed':
        return [numpy.float64(y) if i % 2 else float(y) for i, y in enumerate(x)]
    a = numpy.array(x, dtype=float)
    if what == 'strided':
        b = numpy.zeros(2 * len(a))
        b[::2] = a
        return b[::2]
    if what == 'readonly':
        a.setflags(write=False)
    return a


class Axes(object):
    """Stand-in for the plotting library"""

    def __init__(self, interactive=False):
        self.plots, self.labels, self.shown, self.interactive = [], {}, 0, interactive

    def module(self):
        m, p = types.ModuleType('matplotlib'), types.ModuleType('matplotlib.pyplot')
        m.pyplot = p
        line = types.SimpleNamespace(set=lambda *a, **k: None)
        axis = types.SimpleNamespace(plot=self.plot, set_xlabel=lambda x, *a, **k: self.label('x', x), set_ylabel=lambda x, *a, **k: self.label('y', x),
                                     set=lambda **k: [self.label(a[0], k[a]) for a in ('xlabel', 'ylabel') if a in k])
        figure = types.SimpleNamespace(show=self.show, gca=lambda *a, **k: axis, add_subplot=lambda *a, **k: axis)
        p.plot = self.plot
        p.xlabel = lambda x, *a, **k: self.label('x', x)
        p.ylabel = lambda x, *a, **k: self.label('y', x)
        p.show = self.show
        p.isinteractive = lambda: self.interactive
        p.gca = lambda *a, **k: axis
        p.gcf = lambda *a, **k: figure
        p.figure = lambda *a, **k: figure
        p.subplots = lambda *a, **k: (figure, axis)
        p.__getattr__ = lambda name: (lambda *a, **k: None)
        return {'matplotlib': m, 'matplotlib.pyplot': p}

    def plot(self, *args, **kw):
        self.plots.append([classes.plain(x) for x in args if not isinstance(x, str)])
        return [None]

    def label(self, axis, text):
        self.labels[axis] = text

    def show(self, *args, **kw):
        self.shown += 1


class Messages(logging.Handler):
    """Formats all the messages: errors raise"""

    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.text = []

    def handle(self, record):
        self.text.append(record.getMessage())


def run(case, obs):
    pp = boot.load()
    from atooms.postprocessing.partial import Partial
    name, kind, a, sel = case['cls'], case['kind'], case['args'], case['sel']
    m = gen.build(case['spec'])
    th = gen.container(m, case['how'], obs.tmp)
    kw = classes.kwargs(a, name, m)
    msg = '%s, %s' % (name, kind)

    def make(kw):
        return classes.create(pp, name, th, m, a, obs.tmp, kw=copy.deepcopy(kw))

    def result(cf):
        cf.compute()
        return state(cf)

    if kind == 'containers':
        if name.startswith('Radial') and sel % 2:
            # the grid of the distances
            n = 3 + sel % 5
            kw.pop('rmax', None)
            kw['rgrid'] = [0.1 + 0.2 * i for i in range(n)]
        reference = result(make(kw))
        cf = make(kw)
        changed = []
        for x in ('tgrid', 'kgrid', 'rgrid'):
            if x in kw:
                kw[x] = into(kw[x], case['container'])
                changed.append(x)
        if not changed:
            raise Skip('no grid')
        keep = {x: copy.deepcopy(kw[x]) for x in changed}
        cf = classes.create(pp, name, th, m, a, obs.tmp, kw=kw)
        same(obs, kind + '/' + case['container'], reference, result(cf), '%s: %s given as %s' % (msg, changed, case['container']))
        for x in changed:
            obs.check(classes.identical(list(keep[x]), list(kw[x])), kind + '/input', lambda: '%s: %s has been modified' % (msg, x))
        if name in classes.FOURIER and 'kvectors' in reference and sel % 2:
            # the wave-vectors, in other containers
            one, two = make(kw), make(kw)
            one.kvectors = [[list(v) for v in l] for l in reference['kvectors']]
            two.kvectors = [tuple(numpy.array(v) for v in l) if case['container'] == 'tuple' else numpy.array(l) for l in reference['kvectors']]
            same(obs, kind + '/kvectors', result(one), result(two), '%s: wave-vectors given as %s' % (msg, case['container']))
    elif kind == 'positional':
        if name.startswith('Radial') and sel % 2:
            kw.pop('rmax', None)
            kw['rgrid'] = [0.1 + 0.2 * i for i in range(3 + sel % 5)]
        given = {'rgrid': None, 'rmax': -1.0, 'tsamples': 30, 'sigma': 1.0, 'dtheta': 4.0, 'norigins': -1}
        args = [kw.get(x, given.get(x)) for x in ORDER[name]]
        rest = {x: kw[x] for x in kw if x not in ORDER[name]}
        cf = getattr(pp, name)(th, *copy.deepcopy(args), **copy.deepcopy(rest))
        same(obs, kind, result(make(kw)), result(cf), msg + ' %s' % ORDER[name])
    elif kind == 'attributes':
        later = {}
        if name.startswith('Radial'):
            kw['dr'] = case['dr']
            later = {x: kw[x] for x in ('dr', 'rmax') if x in kw}
        elif name == 'MeanSquareDisplacement':
            kw.update(sigma=0.3, tsamples=7)
            kw.pop('tgrid', None)
            if sel % 2:
                kw['rmax'] = 0.4
            later = {x: kw[x] for x in ('sigma', 'tsamples', 'rmax') if x in kw}
        else:
            if sel % 2:
                k = sorted(kw.pop('kgrid'))
                if k[-1] <= k[0]:
                    raise Skip('single wave-vector')
                kw.update(kmin=max(k[0], 1e-3), kmax=k[-1], ksamples=3)
            later = {x: kw[x] for x in ('kgrid', 'nk', 'dk', 'kmin', 'kmax', 'ksamples') if x in kw}
        names = sorted(later)
        names = names if sel % 3 == 0 else [names[sel % len(names)]]
        cf = make({x: kw[x] for x in kw if x not in names})
        for x in names:
            if not hasattr(cf, x):
                raise Skip('no attribute %s' % x)
            setattr(cf, x, copy.deepcopy(later[x]))
        one = make(kw)
        obs.count('attributes', len(names))
        if name.startswith('Radial'):
            g = result(make(kw))['grid']
            obs.check(len(g) < 2 or abs(g[1] - g[0] - kw['dr']) < 1e-6, kind + '/given-dr', lambda: '%s: bins of width %r, expected %r' % (msg, g[1] - g[0], kw['dr']))
        same(obs, kind + '/' + names[0], result(one), result(cf), '%s: %s set after construction' % (msg, names))
        if name == 'MeanSquareDisplacement':
            one.analyze()
            cf.analyze()
            obs.check(repr(one.analysis) == repr(cf.analysis), kind + '/analysis', lambda: '%s: analysis is %s, expected %s' % (msg, cf.analysis, one.analysis))
    elif kind == 'partial':
        species = sorted(set(m.species[0]))
        if len(species) < 2:
            raise Skip('one species')
        ref0 = Partial(getattr(pp, name), species, th, **copy.deepcopy(kw))
        ref0.compute()
        kw1 = dict(kw)
        if name.startswith('Radial'):
            what, kw1['dr'] = 'dr', case['dr']
        elif name == 'MeanSquareDisplacement':
            what = 'skip'
        else:
            what, kw1['nk'] = 'nk', kw['nk'] + 1
        if what == 'skip':
            what, kw1['sigma'] = 'sigma', 0.2
        ref1 = Partial(getattr(pp, name), species, th, **copy.deepcopy(kw1))
        ref1.compute()
        p = Partial(getattr(pp, name), species, th, **copy.deepcopy(kw))
        # (of a symmetric pair, the one that comes first is computed)
        key = [k for k in p.partial if not isinstance(k, tuple) or species.index(k[0]) <= species.index(k[1])]
        key = key[sel % len(key)]
        setattr(p.partial[key], what, kw1[what])
        p.compute()
        for k in p.partial:
            changed = k == key or (isinstance(k, tuple) and k == key[::-1])
            obs.count('partial')
            if changed and name == 'IntermediateScattering' and k != key:
                continue
            want = (ref1 if changed else ref0).partial[k]
            if name.startswith('Radial') and len(want.grid) > 1:
                # (the reference itself)
                dr = (kw1 if changed else kw)['dr']
                obs.check(abs(p.partial[k].grid[1] - p.partial[k].grid[0] - dr) < 1e-6, kind + '/dr', lambda: '%s: %s has bins of width %r, expected %r'
                          % (msg, k, p.partial[k].grid[1] - p.partial[k].grid[0], dr))
            same(obs, kind, state(want), state(p.partial[k]), '%s: %s of %s set to %s, result of %s' % (msg, what, key, kw1[what], k))
            if name == 'MeanSquareDisplacement':
                want.analyze()
                p.partial[k].analyze()
                obs.check(repr(want.analysis) == repr(p.partial[k].analysis), kind + '/analysis', lambda: '%s: %s %s' % (msg, p.partial[k].analysis, want.analysis))
    elif kind == 'show':
        if not hasattr(pp.Correlation, 'show'):
            raise Skip('no show()')
        cf = make(kw)
        cf.compute()
        before = state(cf)
        axes = Axes(sel % 2 == 0)
        modules = axes.module()
        saved = {x: sys.modules.get(x) for x in modules}
        try:
            sys.modules.update(modules)
            cf.show(now=False)
            first = axes.shown
            cf.show()
        finally:
            for x in saved:
                if saved[x] is None:
                    sys.modules.pop(x, None)
                else:
                    sys.modules[x] = saved[x]
        obs.check(first == 0, 'show/now', lambda: '%s: shown %d times with now=False' % (msg, first))
        obs.check(axes.shown == 1, 'show/shown', lambda: '%s: shown %d times' % (msg, axes.shown))
        obs.check(repr(before) == repr(state(cf)), 'show/state', lambda: '%s: show() changes the results' % msg)
        if len(cf.grid_name) == 1:
            obs.count('shown')
            if obs.check(len(axes.plots) == 2 and all(len(x) == 2 for x in axes.plots), 'show/plots', lambda: '%s: %d plots' % (msg, len(axes.plots))):
                for x in axes.plots:
                    obs.check(repr(x) == repr([before['grid'], before['value']]), 'show/data', lambda: '%s: plots %s' % (msg, repr(x)[:300]))
            obs.check(axes.labels.get('x') == cf.grid_name[0] and axes.labels.get('y') == cf.short_name, 'show/labels', lambda: '%s: labels %s' % (msg, axes.labels))
    elif kind == 'path':
        if th.filename is None:
            raise Skip('no path')
        core = pp.core
        was = core.pp_output_path
        sub = os.path.join(obs.tmp, 'res')
        try:
            core.pp_output_path = sub + '/{symbol}/x-{tag}.dat'
            species = sorted(set(m.species[0]))
            partial = name not in classes.NOPARTIAL and name != 'S4ktOverlap' and len(species) > 1 and min(len(m.where(s)(0)) for s in species) > 3
            cf = Partial(getattr(pp, name), species, th, **copy.deepcopy(kw)) if partial else make(kw)
        finally:
            core.pp_output_path = was
        later = Partial(getattr(pp, name), species, th, **copy.deepcopy(kw)) if partial else make(kw)
        for c, pattern in [(cf, sub + '/{symbol}/x-{tag}.dat'), (later, was)]:
            for key, x in (c.partial.items() if partial else [('', c)]):
                obs.count('paths')
                tag = '-'.join(str(k) for k in key) if isinstance(key, tuple) else str(key)
                want = pattern.format(symbol=x.symbol, tag=tag, trajectory=th)
                # (unneeded punctuation is removed)
                want = os.path.join(os.path.dirname(want), os.path.basename(want).replace('--', '-').replace('-.', '.').rstrip('.'))
                got = os.path.join(os.path.dirname(x._output_file), os.path.basename(x._output_file).replace('-.', '.'))
                obs.check(got == want, 'path', lambda: '%s: %s is written to %s, expected %s' % (msg, key, got, want))
    elif kind == 'progress':
        mod = pp.progress
        reference = result(make(kw))
        was = mod.active
        err, out = sys.stderr, sys.stdout
        try:
            mod.active = True
            with open(os.devnull, 'w') as sink:
                sys.stderr = sys.stdout = sink
                got = result(make(kw))
        finally:
            sys.stderr, sys.stdout = err, out
            mod.active = was
        same(obs, kind, reference, got, msg + ' bar')
    elif kind == 'messages':
        reference = result(make(kw))
        handler = Messages()
        log = logging.getLogger('atooms')
        level, propagate = log.level, log.propagate
        try:
            log.addHandler(handler)
            log.setLevel(1)
            log.propagate = False
            cf = make(kw)
            got = result(cf)
            # (a relaxation time needs correlations that start from zero time)
            if 'IntermediateScattering' not in name or min(float(x) for x in cf.grid[1]) == 0:
                cf.analyze()
            if th.filename is not None:
                cf.write()
        finally:
            log.removeHandler(handler)
            log.setLevel(level)
            log.propagate = propagate
        obs.count('messages', len(handler.text))
        same(obs, kind, reference, got, msg + ' logged')
