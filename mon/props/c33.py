"""C33: an interrupted calculation leaves nothing behind: files, trajectory and object are as if it had not been started"""
import builtins
import copy
import os
import re
import sys

import numpy

from .. import boot, classes, gen, native
from ..harness import Skip
from .c18 import same, state
from .c21 import differences, snapshot

RULE = ('one case = one generated trajectory x one correlation class (or its partials, or a weighted or filtered one) x one fault: an exception raised at a random line executed by the '
        'package (as by a user who stops the calculation), or an error while reading a frame, during the first or a later calculation; files, frames, and the result '
        'of the calculation done afterwards, by the same object and by others, are compared with those of a calculation without faults')
MINIMUM = 150
REQUIRED_COUNTS = {'faults': 300, 'compared': 500, 'lines': 150, 'reads': 100, 'files': 60}
ASSUMPTIONS = ['faults are raised between two lines of Python code of the package, outside write()']
KINDS = ['line', 'line', 'line', 'read', 'read', 'weight', 'filter', 'do', 'do', 'partial']
CASE_TIMEOUT = 120


class Stop(BaseException):
    """The user stops the calculation"""


class Broken(OSError):
    """The file cannot be read"""


def alike(x, y):
    """Whether two files are the same, but for rounding"""
    if x is None or y is None:
        return x is y
    a, b = x.splitlines(), y.splitlines()
    if len(a) != len(b):
        return False
    for s, t in zip(a, b):
        if s == t:
            continue
        # (analysis in the comments may hold rounded figures too)
        s, t = re.split(r'[\s{}\[\](),:]+', s), re.split(r'[\s{}\[\](),:]+', t)
        if len(s) != len(t):
            return False
        for u, v in zip(s, t):
            if u == v:
                continue
            try:
                u, v = float(u), float(v)
            except ValueError:
                return False
            if not abs(u - v) <= 1e-10 + 2e-5 * abs(v):
                return False
    return True


class Lines(object):
    """Counts the lines of the package that are executed, raises at one of them"""

    def __init__(self, at=None):
        self.n, self.at, self.where, self.fired = 0, at, None, False
        self.opened = []

    def _file(self, frame):
        return frame.f_code.co_filename.startswith(native.PKG)

    def glob(self, frame, event, arg):
        if self._file(frame) and frame.f_code.co_name not in ('write', '_dump', 'dump', '__del__'):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == 'line' and not self.fired:
            # (not while writing)
            if self.n == self.at:
                if any(not x.closed for x in self.opened):
                    return self.local
                f = frame
                while f is not None:
                    if f.f_code.co_name == 'write' and self._file(f):
                        return self.local
                    f = f.f_back
                self.fired = True
                self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise Stop(self.where)
            self.n += 1
        return self.local

    def run(self, f):
        old, original = sys.gettrace(), builtins.open

        def opener(*args, **kwargs):
            fh = original(*args, **kwargs)
            if set('wax+') & set(str(getattr(fh, 'mode', ''))):
                self.opened.append(fh)
            return fh
        builtins.open = opener
        sys.settrace(self.glob)
        try:
            f()
        except Stop:
            pass
        finally:
            sys.settrace(old)
            builtins.open = original


def watch(th, reads, target):
    """Follow the access to the frames, one of which fails"""
    cls = th.__class__

    class Watched(cls):
        def read_system(self, frame):
            reads.append(frame)
            if target is not None and len(reads) - 1 == target:
                raise Broken('frame %d' % frame)
            return cls.read_system(self, frame)
    Watched.__name__ = cls.__name__
    th.__class__ = Watched


def cases(tier, seed):
    out = []
    n = 1000 if tier == 'quick' else 8000
    for i in range(n):
        rng = gen.rng_for('C33', seed, i)
        name = classes.ALL[i % len(classes.ALL)]
        kind = KINDS[(i // len(classes.ALL)) % len(KINDS)]
        if kind == 'weight':
            name = rng.choice(['StructureFactorLegacy', 'StructureFactorFast'])
        if kind == 'filter' and name == 'SpectralDensity':
            kind = 'read'
        if kind == 'partial' and name in classes.NOPARTIAL:
            kind = 'do'
        spec = classes.spec_for(rng, name, N=rng.choice([10, 16]))
        if kind in ('partial', 'filter'):
            spec['species'] = rng.choice(gen.SPECIES[2:])
            spec['N'] = 24
        if name in classes.STATIC:
            spec['nframes'] = rng.choice([2, 4])
            if name != 'BondAngleDistribution' and rng.random() < 0.3:
                spec.update(cellvar='iso', nframes=4)
        else:
            spec['nframes'] = min(spec['nframes'], 8) if spec.get('sampling', 'even') == 'even' else spec['nframes']
        how = rng.choice(['ram', 'ramview', 'xyz', 'xyzcached', 'ramfile'])
        if kind in ('do', 'partial'):
            how = rng.choice(['xyz', 'ramfile'])
        args = classes.args_for(rng, name, spec)
        args['nk'] = rng.choice([1, 4])
        if kind in ('do', 'partial') and 'IntermediateScattering' in name:
            # (they must start from zero)
            args['tgrid'] = ['frames', sorted(set([0] + [rng.randrange(spec['nframes']) for _ in range(5)]))]
        out.append(dict(kind=kind, cls=name, spec=spec, args=args, sel=rng.randrange(10**6), how=how, at=[round(rng.random(), 6) for _ in range(3)], later=rng.random() < 0.4,
                        setup=rng.random() < 0.3, update=rng.random() < 0.5))
    return out


def run(case, obs):
    pp = boot.load()
    from atooms.postprocessing.helpers import filter_species
    from atooms.postprocessing.partial import Partial
    name, kind, a, sel = case['cls'], case['kind'], case['args'], case['sel']
    m = gen.build(case['spec'])
    kw = classes.kwargs(a, name, m)
    species = sorted(set(m.species[0]))

    def make(th):
        if kind == 'partial':
            return Partial(getattr(pp, name), species, th, **copy.deepcopy(kw))
        cf = classes.create(pp, name, th, m, a, obs.tmp, kw=copy.deepcopy(kw))
        if kind == 'weight':
            cf.add_weight(field='radius', fluctuations=sel % 2 == 0)
        if kind == 'filter':
            cf.add_filter(filter_species, species[sel % len(species)])
        return cf

    def parts(cf):
        return cf.partial if kind == 'partial' else {'': cf}

    def states(cf):
        return {k: state(x) for k, x in parts(cf).items()}

    def container(sub):
        path = os.path.join(obs.tmp, sub)
        os.makedirs(path)
        th = gen.container(m, case['how'], path)
        if doing and not os.path.exists(th.filename):
            open(th.filename, 'w').close()
            os.utime(th.filename, (10**9, 10**9))
        return th

    def contents(root):
        return {os.path.relpath(os.path.join(b, f), root): ''.join(x for x in open(os.path.join(b, f)).read().replace(root, '').splitlines(True) if not x.startswith('# date:'))
                for b, _, l in os.walk(root) for f in l if '.pp.' in f}

    def compare(mech, cf, msg):
        got = states(cf)
        for k in reference:
            same(obs, mech, reference[k], got[k], '%s %s' % (msg, k))
    doing = kind in ('do', 'partial')
    th = container('ref')
    cf = make(th)
    lines = Lines()
    (cf.do if doing else cf.compute)()
    reference = states(cf)
    files = contents(os.path.join(obs.tmp, 'ref'))
    # Lines and frames of a calculation
    probe = make(container('probe'))
    if case['later']:
        probe.compute()
    lines.run(probe.do if doing else probe.compute)
    if lines.n < 2:
        raise Skip('nothing to stop')
    for i, x in enumerate(case['at']):
        sub = 'run%d' % i
        th = container(sub)
        root = os.path.join(obs.tmp, sub)
        cf = make(th)
        if case['later']:
            (cf.do if doing else cf.compute)()
        before = snapshot(root)
        frozen = contents(root)
        callbacks = list(th.callbacks)
        data = [[numpy.array(p.position) for p in th[j].particle] for j in range(len(th))] if case['how'].startswith('ram') else None
        msg = '%s, %s' % (name, kind)
        if kind == 'read':
            # Reading fails, once
            reads = []
            probe2 = container('count%d' % i)
            cf2 = make(probe2)
            if case['later']:
                cf2.compute()
            watch(probe2, reads, None)
            cf2.compute()
            if not reads:
                # (frames are cached)
                continue
            target = int(x * len(reads))
            done = []
            original = th.__class__
            watch(th, done, target)
            try:
                cf.compute()
                raised = False
            except Broken:
                raised = True
            except Exception as e:
                raised = repr(e)
            th.__class__ = original
            if len(done) <= target:
                continue
            msg += ' (access %d out of %d to the frames fails)' % (target + 1, len(reads))
            obs.count('reads')
            obs.check(raised is True, kind + '/raised', lambda: '%s: the error while reading is lost: %s' % (msg, raised))
        else:
            at = int((x * min(200, lines.n)) if case['setup'] else x * lines.n)
            tracer = Lines(at)
            swallowed = []

            def go():
                (cf.do if doing else cf.compute)()
                swallowed.append(1)
            tracer.run(go)
            if not tracer.fired:
                continue
            obs.count('lines')
            msg += ' (stopped at %s, line %d of %d%s)' % (tracer.where, at, lines.n, ', second calculation' if case['later'] else '')
            obs.check(not swallowed, kind + '/raised', lambda: '%s: the calculation goes on' % msg)
        obs.count('faults')
        # Nothing is left behind
        new, gone, changed = differences(before, snapshot(root))
        if not doing:
            obs.check(not new and not gone and not changed, kind + '/files', lambda: '%s: files created %s, removed %s, modified %s' % (msg, new, gone, changed))
        else:
            # files are those of before, or complete
            for f, text in contents(root).items():
                obs.count('files')
                ok = alike(text, frozen.get(f)) or alike(text, files.get(f))
                obs.check(ok, kind + '/files', lambda: '%s: %s is neither as before nor complete: %s' % (msg, f, text[:200]))
        obs.check(list(th.callbacks) == callbacks, kind + '/callbacks', lambda: '%s: the callbacks of the trajectory have changed' % msg)
        if data is not None:
            for j in range(len(th)):
                obs.check(all(numpy.array_equal(p.position, r) for p, r in zip(th[j].particle, data[j])), kind + '/trajectory', lambda: '%s: frame %d has been modified' % (msg, j))
        # Once more
        if doing and case['update']:
            cf.do(update=True)
            obs.same(sorted(contents(root)), sorted(files), kind + '/updated', msg + ': files after an update')
        if doing:
            cf.do()
            done = contents(root)
            obs.same(sorted(done), sorted(files), kind + '/written', msg + ': files')
            for f in files:
                if f in done:
                    obs.count('files')
                    obs.check(alike(done[f], files[f]), kind + '/content', lambda: '%s: %s differs: %r instead of %r' % (msg, f, done[f][:300], files[f][:300]))
        else:
            cf.compute()
        compare(kind, cf, msg + ', computed again')
        other = make(th)
        other.compute()
        compare(kind + '/other', other, msg + ', another object')
