"""Writes /verif/DESIGN.md: text below, rules and assumptions of the monitors, findings, catches of the planted changes."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

HEAD = '''# Runtime monitoring of atooms-mirror/postprocessing

The package computes static and dynamic correlation functions of particle trajectories (python + two
Fortran extensions, realspace.f90 and fourierspace.f90), writes them to files, and offers an api, a
command line (bin/pp.py) and a generic correlator (bin/acf.py). What its users rely on are numbers: the
guarantees are that each number is the defined average over exactly the documented frames, particles,
pairs and wave-vectors of *any* trajectory, that the variants (plain / compiled / linked cells, api /
class / command line, partial / filtered) agree, that nothing else is touched, and that the native
code stays within its arrays. The tests compare a handful of stored trajectories against stored numbers
with loose tolerances; most of the defects fixed here (see known_findings.txt) were invisible to them.

## Technique

Everything is decided by running the real code in /repo's working tree under generated workloads, with
an oracle watching what it does. There is no model of the implementation: the oracles are

* **direct evaluations of the definition** on the plain arrays from which the trajectory was generated
  (`mon/ref.py`, `mon/tc.py`, `mon/fs.py` and inside the monitors), deliberately naive, sharing no code
  with the package, and fed with what the object itself reports (times, wave-vectors), which is in turn
  checked against the request and the reciprocal lattice;
* **relations between executions** (differential and metamorphic): variants, subsets of the trajectory,
  transformed trajectories, histories, two memory patterns, api against classes;
* **state monitors**: exact snapshots of frames, arguments, files, folders, mtimes before and after;
* **sanitizers**: the extensions rebuilt with `-fcheck=all` and with AddressSanitizer + UBSan, canaries
  around each array handed to a kernel.

Workloads (`mon/gen.py`) are seeded (VERIF_SEED) and diverse on purpose: 1-4 dimensions, cubic / slab /
long / tall cells, random / lattice / clustered / separated / wall-hugging configurations, ballistic /
brownian / jumping / still motion, even / block / irregular sampling, varying cells and particle numbers,
masses / radii / charges / velocities, one to three species with names or numbers, in-memory, live-view,
file, cached and sliced containers, folded and unfolded input, few to hundreds of particles.

The hooks are all outside the package (no instrumentation commit in /repo): monitors only use public
or semi-public names (classes, functions, `grid`, `value`, `kvectors`, `analysis`, the kernels of the two
extensions, files). Where a semi-public helper is missing (renamed, inlined) the case is skipped, and other
observations of the same property go through the public interface, so that refactorings stay quiet.

### Runner

`check.py ID --tier quick|thorough` -> `mon/harness.py` -> `mon/props/cXX.py`. Python sources are imported
from /repo; the two extensions are compiled from /repo's current .f90 files into a cache outside the
repository keyed on the content of the sources and on the flags (`mon/native.py`), so a change in the
Fortran code is always seen. Cases run in 8 forked workers, each in its own scratch folder; a worker that
dies, a case that does not end within 180 s (or is stuck in native code), and any exception raised by the
package on a valid input are violations. A verdict is three-valued: violation (1), held (0), or not
enough observed (2): each check demands a minimum of deciding cases and of events seen by its monitors
(`REQUIRED_COUNTS`), so that a check whose workload stopped reaching the code cannot pass. Evidence files list
the number of cases by kind, of oracle comparisons, of values compared, of events, of skips and their reasons.
Replays hold the JSON description of the failing case (`check.py ID --replay FILE`).

Comparisons are to floating-point rounding (1e-8 or so), never to the tolerances of the tests.
Where rounding makes the result ambiguous (a pair on the border of a bin, a requested time halfway between
two), the monitor leaves that entry out, or accepts either; these are listed as assumptions.

Not applicable: none. All the properties concern observable executions of deterministic, single-threaded
code, so an oracle on executions applies to each of them; what it cannot give is a proof for all the inputs.
Concurrency sanitizers have no subject here (no threads).
MemorySanitizer has no gfortran support: uninitialised reads are decided by executing the same calls in two
processes with differently poisoned fresh memory and comparing the results (C23).
Bounds: particle numbers up to a few hundreds (1500 in C23), up to 4 dimensions, tens of frames.

'''

REACH = {
 'C01': 'the tests hold one evenly sampled and one block-sampled file; origins near the end, slices, blocks cut short and dimensions other than three are not exercised',
 'C02': 'tests compare one value of chi4 at 1e-3; the dropped origins and the missing images found here passed them',
 'C03': 'no test looks at the grid reported for a request on irregular sampling',
 'C04': 'tests use norigins=1, or leave the default',
 'C05': 'tests check the position of the first peak or a stored g(r); normalization in 2d/odd d, last bins, partial overlap of groups are not seen by them',
 'C06': 'equality of searches must hold for each configuration; the tests use one',
 'C07': 'tests check S(k) of one file at few digits, and never with explicit wave-vectors, elongated or changing cells',
 'C08': 'tests do not look at the wave-vectors at all',
 'C09': 'as C07; tabulation paths depend on the memory granted and are never compared',
 'C10': 'as C07; cross-species and changing numbers untested',
 'C11': 'a single smoke test on one cubic cell of side 2 pi, where indices and norms coincide',
 'C12': 'tests run the class on one file; crowded particles and straight angles do not occur there',
 'C13': 'compositions are tested for one mixture and one function',
 'C14': 'two conditions are tested',
 'C15': 'weights are tested for constant fields',
 'C16': 'no test transforms a trajectory',
 'C17': 'one test with a total; species, pairs, stored unfolded positions are not tested',
 'C18': 'tests never compute twice',
 'C19': 'tests never look at the trajectory afterwards',
 'C20': 'tests only check that files exist',
 'C21': 'one test of update; histories of files are unbounded',
 'C22': 'api tests run functions without looking at the numbers, no test of the command line',
 'C23': 'out-of-bounds writes are silent in release builds (three were found and fixed)',
 'C24': 'kernels are tested on random positions in a cubic 3d box only',
 'C25': 'analysis is not tested',
 'C26': 'one stored series',
 'C27': 'relations among different results',
 'C28': 'no test calls it (it could not run at all)',
 'C29': 'no test calls it (it could not run at all)',
 'C30': 'each test opens one file in one way',
 'C31': 'tests never subclass the base classes',
 'C32': 'tests give each setting in a single way',
 'C33': 'tests never interrupt a calculation',
 'C34': 'tests check at most that an exception is raised',
}

LIMITS = '''
## Limits, and behaviour taken as documented

* The spectral density takes no filters: it refuses them loudly.
* Weighted S(k) subtracts averages of W over the frames *and* over the wave-vectors of a shell, hence it is not
  translation invariant (C16 leaves it out) and a shell of one wave-vector is not a special case (C15 follows the code).
* Files with three columns cannot be read back (the code warns).
* chi4 with standard output: the files of the moments would be named after /dev/stdout (C21 leaves it out).
* A relaxation time is not defined for data that start exactly on the threshold.
* `norigins=1` (number) and `'1'` (text, used by Susceptibility) differ on purpose for block sampling in the class code; each is checked
  for what it documents.
* Relaxation times are stored by k, so two explicit shells with exactly the same norm collapse (C20/C25 leave these out).
* Partially periodic cells are not supported by the fast g(r).
* Cells that vary along the trajectory with time-dependent Fourier space functions: the class fixes the wave-vectors in the
  first frame, so C09, C10, C28 use constant cells.
* Systems with as many particles as dimensions are left out: `System.dump` of the trajectory library asserts on them.

## False alarms met while building, and what was corrected

All of these were wrong oracles or properties too strong, found by running the checks on the unchanged tree with several seeds:

* wave-vectors at the border of a shell (within 1e-9) and vectors belonging to two overlapping shells: either assignment is accepted;
* distances, angles and overlaps within rounding of a bin border or of the threshold: left out;
* times requested halfway between two available ones: either is accepted;
* g(r) in cells whose volume changes: any common normalization between the smallest and the largest volume is accepted;
* results of two objects compared bit by bit: numpy sums depend on the alignment of arrays, so comparisons are to rounding;
* a single-frame slice of block-sampled data, empty groups, one-dimensional text files, cells too small for the default grids: invalid input, not generated;
* repeated runs inside the same second looked like files "not rewritten": monitors now set mtimes explicitly;
* translation invariance of weighted S(k), see above: the statement of C16 now says so;
* bond angles with cutoffs from the g(r) when it has no first minimum: excluded.

## Findings

'''


def main():
    out = [HEAD, '## Properties\n']
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    times = {}
    p = os.path.join(HERE, 'tools', 'times.json')
    if os.path.exists(p):
        times = json.load(open(p))
    for d in props:
        mod = importlib.import_module('mon.props.' + d['id'].lower())
        out.append('### %s %s\n' % (d['id'], d['title']))
        out.append('Monitored: %s.\n' % mod.RULE)
        if getattr(mod, 'ASSUMPTIONS', None):
            out.append('Assumed: %s.\n' % '; '.join(mod.ASSUMPTIONS))
        out.append('Demanded of each run: at least %d deciding cases%s.' % (getattr(mod, 'MINIMUM', 10), ''.join(
            ', %d %s' % (n, k.replace('_', ' ')) for k, n in sorted(getattr(mod, 'REQUIRED_COUNTS', {}).items()))))
        t = times.get(d['id'])
        if t:
            out.append('Cost: quick %s s, %d cases; thorough %s s, %d cases (8 cores).' % (t['quick'][0], t['quick'][1], t['thorough'][0], t['thorough'][1]))
        out.append('Beyond the tests: %s.\n' % REACH[d['id']])
    out.append(LIMITS)
    known = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt')) if not l.startswith('#')]
    fixed = [l for l in known if l.startswith('fixed')]
    out.append('%d genuine defects were found by the checks and repaired by "fix:" commits; %d are recorded and not repaired (known_findings.txt).\n' % (len(fixed), len(known) - len(fixed)))
    for l in fixed:
        w = l.split(' ', 3)
        out.append('* %s %s: %s' % (w[1].split('=')[1], w[2], w[3]))
    out.append('')
    out.append('''## Planted changes

Each one was written from the text of a property and the code, confirmed with `tools/plant.sh` (applies, builds, passes the tests, the
demonstration tells it from the unchanged tree) and run with `tools/catch.sh` against the check of its property. Those that were missed at
first are marked; the check was then strengthened. `tools/mutate.py` also applies systematic small mutations (constants, operators, indices,
removed statements) to every file of the package and runs the checks until one notices; the survivors were inspected one by one.
''')
    p = os.path.join(HERE, 'tools', 'catches.txt')
    if os.path.exists(p):
        out.append('| change | needs | caught by | |')
        out.append('|---|---|---|---|')
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            name, rest = line.split(':', 1)
            f = os.path.join(HERE, 'seeded', name, 'meta.json')
            if not os.path.exists(f):
                continue
            checks = [x.split(':') for x in rest.split('#')[0].split()]
            note = rest.split('#')[1].strip() if '#' in rest else ''
            out.append('| %s | %s | %s | %s |' % (name, json.load(open(f))['needs'], ' '.join(c[0] for c in checks if c[1] == '1') or 'none', note))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
