"""
Write the planted changes in /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json).

Each one is a replacement in one or more files of /repo, with a demonstration. Confirm with tools/plant.sh.
"""
import difflib
import json
import os
import stat
import sys

ROOT = os.environ.get('SRC', '/repo')
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PKG = 'atooms/postprocessing/'

HEAD = '''\
# Exits with 0 if the package behaves as it should, with 1 otherwise
import os
import sys
import shutil
import tempfile
import numpy
sys.dont_write_bytecode = True
import atooms.postprocessing as pp
from atooms.system import System, Particle, Cell
from atooms.trajectory.ram import TrajectoryRam


def trajectory(frames, steps=None, side=10.0, species=None, timestep=1.0, mass=None, unfolded=None, velocity=None,
               block=None):
    """Trajectory in memory from a list of arrays of positions"""
    th = TrajectoryRam()
    for i, pos in enumerate(frames):
        particle = []
        for j, r in enumerate(pos):
            p = Particle(position=numpy.array(r, dtype=float), species='A' if species is None else species[j],
                         mass=1.0 if mass is None else mass[j])
            if velocity is not None:
                p.velocity = numpy.array(velocity[i][j], dtype=float)
            if unfolded is not None:
                p.position_unfolded = numpy.array(unfolded[i][j], dtype=float)
            particle.append(p)
        L = numpy.ones(len(pos[0])) * side
        th.write(System(particle=particle, cell=Cell(L)), i if steps is None else steps[i])
    th.timestep = timestep
    if block is not None:
        th.block_size = block
    return th


def fold(r, side):
    return r - numpy.rint(r / side) * side


def write_xyz(path, frames, side, species=None, steps=None, dt=1.0):
    with open(path, 'w') as fh:
        for i, pos in enumerate(frames):
            fh.write('%d\\nstep:%d columns:name,pos dt:%.17g cell:%s\\n' % (
                len(pos), i if steps is None else steps[i], dt, ','.join(['%.17g' % side] * len(pos[0]))))
            for j, r in enumerate(pos):
                fh.write(' '.join(['A' if species is None else species[j]] + ['%.17g' % x for x in r]) + '\\n')


def check(ok, what):
    if not ok:
        print('WRONG:', what)
        sys.exit(1)


'''

SEEDS = {}


def seed(name, prop, edits, needs, breaks, demo):
    SEEDS[name] = (prop, edits, needs, breaks, demo)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds.py')).read())


def main(only):
    for name, (prop, edits, needs, breaks, demo) in SEEDS.items():
        if only and name not in only:
            continue
        d = os.path.join(OUT, name)
        os.makedirs(d, exist_ok=True)
        diff = ''
        for path in dict.fromkeys(e[0] for e in edits):
            full = path if '/' in path else PKG + path
            old = open(os.path.join(ROOT, full)).read()
            new = old
            for p, a, b in edits:
                if p == path:
                    assert new.count(a) == 1, (name, path, a, new.count(a))
                    new = new.replace(a, b)
            diff += ''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True),
                                                 'a/' + full, 'b/' + full))
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + demo.strip() + '\n')
        sh = os.path.join(d, 'demo.sh')
        open(sh, 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(sh, 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(name)


main(sys.argv[1:])
