"""
Check runner: executes the cases of a property against the real code under observation, collects
verdicts, and writes the evidence.

Verdicts are three-valued.  A case may observe a violation, observe that the property held (counted in
comparisons), or observe nothing (skips).  Too few deciding observations make the run inconclusive
(exit 2), never "held".
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
CASE_TIMEOUT = 180   # seconds, the slowest ones take a few


class Skip(Exception):
    """Raised by a case that cannot observe anything (for instance a helper is not there any more)."""


class Obs(object):
    """What a case observed."""

    def __init__(self, case, tmp):
        self.case = case
        self.tmp = tmp
        self.violations = []
        self.comparisons = 0
        self.values = 0
        self.counts = collections.Counter()
        self.nontrivial = False
        self.skipped = None
        self.notes = []
        self.payload = None   # results to compare across executions

    # --- recording
    def count(self, what, n=1):
        self.counts[what] += n

    def note(self, s):
        if len(self.notes) < 5:
            self.notes.append(str(s))

    def violation(self, mech, msg):
        if len(self.violations) < 20:
            self.violations.append((mech, str(msg)[:2000]))

    # --- oracles
    def check(self, cond, mech, msg=''):
        self.comparisons += 1
        self.counts['check:' + mech.split('/')[0]] += 1
        if not cond:
            self.violation(mech, msg() if callable(msg) else msg)
        return bool(cond)

    def close(self, got, want, mech, rtol=1e-8, atol=1e-10, msg=''):
        import numpy
        self.comparisons += 1
        self.counts['check:' + mech.split('/')[0]] += 1
        try:
            g = numpy.asarray(got, dtype=float)
        except Exception as e:
            self.violation(mech, '%s: result is not numeric (%s): %r' % (msg, e, got))
            return False
        w = numpy.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.violation(mech, '%s: shape %s, expected %s; got %s expected %s'
                           % (msg, g.shape, w.shape, _short(g), _short(w)))
            return False
        self.values += int(g.size)
        scale = numpy.abs(w)
        bad = ~(numpy.abs(g - w) <= atol + rtol * scale)
        both_nan = numpy.isnan(g) & numpy.isnan(w)
        same_inf = numpy.isinf(g) & (g == w)
        bad &= ~both_nan & ~same_inf
        if bad.any():
            i = numpy.unravel_index(int(numpy.argmax(bad)), bad.shape) if bad.shape else ()
            self.violation(mech, '%s: at %s got %r expected %r (%d of %d entries differ); got %s expected %s'
                           % (msg, tuple(int(x) for x in i), float(g[i]), float(w[i]), int(bad.sum()), g.size,
                              _short(g), _short(w)))
            return False
        return True

    def same(self, got, want, mech, msg=''):
        self.comparisons += 1
        self.counts['check:' + mech.split('/')[0]] += 1
        if got != want:
            self.violation(mech, '%s: got %s expected %s' % (msg, _short(got), _short(want)))
            return False
        return True

    def export(self):
        return dict(violations=self.violations, comparisons=self.comparisons, values=self.values,
                    counts=dict(self.counts), nontrivial=self.nontrivial, skipped=self.skipped,
                    notes=self.notes, payload=self.payload)


def _short(x):
    s = repr(x) if not hasattr(x, 'tolist') else repr(x.tolist())
    return s if len(s) < 240 else s[:240] + '...'


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# Exit status of a worker, one of whose cases did not end
HANG = 77


class Hang(Exception):
    """The case did not end in time"""


def _alarm(signum, frame):
    raise Hang('no result within the time limit of a case')


def execute(mod, case, tmproot):
    """Run one case; returns the exported observation."""
    tmp = tempfile.mkdtemp(prefix='case-', dir=tmproot)
    obs = Obs(case, tmp)
    cwd = os.getcwd()
    limit = getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT)
    hang = False
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        os.chdir(tmp)
        mod.run(case, obs)
        if obs.comparisons:
            obs.nontrivial = obs.nontrivial or True
    except Skip as e:
        obs.skipped = str(e)
    except Exception as e:
        hang = isinstance(e, Hang)
        tb = traceback.format_exc()
        frames = traceback.extract_tb(e.__traceback__)
        inner = [f for f in frames if '/atooms/postprocessing/' in f.filename or '/bin/' in f.filename]
        where = '%s:%s' % (os.path.basename(inner[-1].filename), inner[-1].name) if inner else 'oracle'
        obs.comparisons += 1
        obs.violation('raises/%s/%s' % (type(e).__name__, case.get('kind', '')),
                      'no result, raised %s in %s: %s\n%s' % (type(e).__name__, where, e, tb[-1500:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    res = obs.export()
    res['hang'] = hang
    return res


def _worker(mod, cases, indices, out_path, tmproot, case_timeout):
    # The workload prints (progress bars, reports); keep the verdict channel clean
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    err = os.open(out_path + '.err', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(err, 2)
    try:
        # Workers go away with the parent
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass
    if getattr(mod, 'FLAVOUR', 'plain') == 'plain':
        # A case that runs away must not take the others down (address sanitizer reserves more than this)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 * 2**30, 6 * 2**30))
    with open(out_path, 'a') as fh:
        for i in indices:
            fh.write(json.dumps({'start': i}) + '\n')
            fh.flush()
            t0 = time.time()
            res = execute(mod, cases[i], tmproot)
            res['t'] = time.time() - t0
            fh.write(json.dumps({'end': i, 'res': res}) + '\n')
            fh.flush()
            if res.get('hang'):
                # The verdict is there, do not wait for the others
                os._exit(HANG)
    os._exit(0)


def run_cases(mod, cases, nproc, tmproot, deadline):
    """Run all the cases in forked workers. A worker that dies is a result of the case it ran."""
    pending = collections.deque(range(len(cases)))
    results = {}
    chunks = [[] for _ in range(nproc)]
    # shuffle, so that expensive kinds spread
    order = list(pending)
    random.Random(0).shuffle(order)
    for n, i in enumerate(order):
        chunks[n % nproc].append(i)
    ctx = multiprocessing.get_context('fork')
    live = {}
    serial = [0]

    def launch(indices):
        if not indices:
            return
        serial[0] += 1
        out = os.path.join(tmproot, 'w%d.jsonl' % serial[0])
        p = ctx.Process(target=_worker, args=(mod, cases, indices, out, tmproot, None))
        p.start()
        live[p] = (out, indices)

    for c in chunks:
        launch(c)
    timed_out = False
    stuck = []
    frozen = set()
    while live:
        time.sleep(0.02)
        if time.time() > deadline:
            timed_out = True
        for p in list(live):
            if p.is_alive() and not timed_out:
                # Stuck in native code, where signals are not handled
                if os.path.exists(live[p][0]) and time.time() - os.stat(live[p][0]).st_mtime > getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT) + 30:
                    os.kill(p.pid, signal.SIGKILL)
                    p.join()
                    frozen.add(p)
                else:
                    continue
            out, indices = live.pop(p)
            if p.is_alive():
                p.terminate()
                p.join(2)
                if p.is_alive():
                    os.kill(p.pid, signal.SIGKILL)
            p.join()
            started = None
            if os.path.exists(out):
                with open(out) as fh:
                    for line in fh:
                        try:
                            rec = json.loads(line)
                        except ValueError:
                            continue
                        if 'start' in rec:
                            started = rec['start']
                        else:
                            results[rec['end']] = rec['res']
                            if started == rec['end']:
                                started = None
            if timed_out:
                if started is not None:
                    stuck.append(started)
                continue
            if started is not None:
                try:
                    err = open(out + '.err', errors='replace').read()[-3000:]
                except OSError:
                    err = ''
                results[started] = dict(
                    violations=[('process-died/%s' % cases[started].get('kind', ''),
                                 'the process died (status %s) while running the case\n%s' % (p.exitcode, err))],
                    comparisons=1, values=0, counts={}, nontrivial=True, skipped=None, notes=[], t=0)
                rest = [i for i in indices if i not in results]
                if p not in frozen:
                    launch(rest)
            elif p.exitcode != HANG:
                rest = [i for i in indices if i not in results]
                if rest:
                    # the worker vanished between cases
                    launch(rest)
    return results, timed_out, stuck


def load_known():
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) mech=(\S+) (.*)', line)
            if m:
                known.append((m.group(1), m.group(2), m.group(3).strip()))
    return known


def main(pid, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    nproc = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 4)
    only = None
    it = iter(argv)
    for a in it:
        if a == '--replay':
            replay = next(it)
        elif a == '--tier':
            tier = next(it)
        elif a == '--kind':
            only = next(it)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('mon.props.' + pid.lower())
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    budget = 780 if tier == 'quick' else 5400
    tmproot = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    # whatever the workload leaves in the temporary folder goes away with ours
    tempfile.tempdir = os.environ['TMPDIR'] = tmproot
    try:
        if hasattr(mod, 'main'):
            return mod.main(pid, tier, seed, replay, tmproot)
        from . import boot
        boot.load(getattr(mod, 'FLAVOUR', 'plain'))
        if hasattr(mod, 'setup'):
            mod.setup(tmproot)
        if replay:
            case = json.load(open(replay))['case']
            res = execute(mod, case, tmproot)
            print(json.dumps(res, indent=1))
            for mech, msg in res['violations']:
                print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1 if res['violations'] else 0
        cases = mod.cases(tier, seed)
        if only:
            cases = [c for c in cases if c.get('kind') == only]
        rng = random.Random(seed)
        results, timed_out, stuck = run_cases(mod, cases, nproc, tmproot, t0 + budget)
        return report(pid, mod, tier, seed, cases, results, timed_out, stuck, t0)
    finally:
        shutil.rmtree(tmproot, ignore_errors=True)


def report(pid, mod, tier, seed, cases, results, timed_out, stuck, t0, extra=None):
    known = [(m, d) for p, m, d in load_known() if p == pid]
    seen_known = set()
    violations = []
    counts = collections.Counter()
    kinds = collections.Counter()
    keys = set()
    comparisons = values = 0
    skipped = collections.Counter()
    slow = 0.0
    for i, res in sorted(results.items()):
        case = cases[i]
        comparisons += res['comparisons']
        values += res['values']
        counts.update(res['counts'])
        slow = max(slow, res.get('t', 0))
        if res['skipped']:
            skipped['%s: %s' % (case.get('kind'), res['skipped'])] += 1
        else:
            kinds[case.get('kind', '?')] += 1
            if res['nontrivial']:
                keys.add(case_key(case))
        for mech, msg in res['violations']:
            hit = [m for m, d in known if m == mech]
            if hit:
                seen_known.add(hit[0])
            else:
                violations.append((i, mech, msg))
    out = []
    for m, d in known:
        out.append('KNOWN-FINDING: property=%s [%s] %s%s' % (pid, m, d, '' if m in seen_known else ' (not observed in this run)'))
    # Runs on a scratch copy of the repository leave the evidence and the replays of /repo alone
    home = VERIF if REPO == '/repo' else os.path.join(REPO, '.verif')
    os.makedirs(os.path.join(home, 'replays'), exist_ok=True)
    done = set()
    for i, mech, msg in violations:
        if mech in done or len(done) >= 10:
            continue
        done.add(mech)
        path = os.path.join(home, 'replays', '%s-%s.json' % (pid, hashlib.sha256((case_key(cases[i]) + mech).encode()).hexdigest()[:12]))
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, mechanism=mech, message=msg, case=cases[i], seed=seed, tier=tier,
                           rerun='/opt/venv/bin/python /verif/check.py %s --replay %s' % (pid, path)), fh, indent=1)
        out.append('VIOLATION property=%s replay=%s' % (pid, path))
        out.append('  mechanism: %s' % mech)
        out.append('  ' + msg.replace('\n', '\n  '))
    samples = [cases[i] for i in sorted(results)[:3]]
    minimum = getattr(mod, 'MINIMUM', 10)
    inconclusive = []
    if timed_out:
        inconclusive.append('wall-clock budget exhausted with %d of %d cases done (running: %s)' % (len(results), len(cases), stuck[:5]))
    if len(keys) < minimum:
        inconclusive.append('only %d deciding cases (minimum %d)' % (len(keys), minimum))
    required = getattr(mod, 'REQUIRED_COUNTS', {})
    for k, n in required.items():
        if counts.get(k, 0) < n:
            inconclusive.append('monitor %r observed %d events (minimum %d)' % (k, counts.get(k, 0), n))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=samples, oracle_comparisons=comparisons, values_compared=values,
                            cases_by_kind=dict(kinds), events={k: v for k, v in sorted(counts.items())},
                            skipped=dict(skipped), known_findings_observed=sorted(seen_known),
                            slowest_case_s=round(slow, 2)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if inconclusive:
        ev['coverage']['inconclusive'] = inconclusive
    if extra:
        ev['coverage'].update(extra)
    os.makedirs(os.path.join(home, 'evidence'), exist_ok=True)
    with open(os.path.join(home, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for line in out:
        print(line)
    print('%s %s seed=%d: %d cases (%d deciding), %d oracle comparisons on %d values, %d violations, %.1f s'
          % (pid, tier, seed, len(results), len(keys), comparisons, values, len(violations), time.time() - t0))
    if violations:
        return 1
    if inconclusive:
        print('INCONCLUSIVE: ' + '; '.join(inconclusive))
        return 2
    return 0
