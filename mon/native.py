"""
Build the f2py extension modules from /repo's *current* .f90 sources, outside /repo.

Two flavours:
  plain : -O2, what a user runs
  san   : gfortran run-time bounds checks + AddressSanitizer + UBSan, never optimised away

Products are cached by a digest of sources, flavour and tool versions in $VERIF_NATIVE_CACHE or
/verif/.cache/native (git-ignored); nothing is ever written in /repo.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'atooms', 'postprocessing')
CACHE = os.environ.get('VERIF_NATIVE_CACHE', os.path.join(VERIF, '.cache', 'native'))
PYTHON = '/opt/venv/bin/python'
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')
MODULES = ('realspace', 'fourierspace')
FLAVOURS = {
    'plain': (['-O2', '-fPIC'], ['-O2', '-fPIC'], []),
    'san': (['-O1', '-g', '-fPIC', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-fcheck=bounds,do,mem,pointer,recursion', '-fbacktrace'],
            ['-O1', '-g', '-fPIC', '-fno-omit-frame-pointer', '-fsanitize=address'],
            ['-fsanitize=address,undefined']),
}


def _digest(name, flavour):
    h = hashlib.sha256()
    with open(os.path.join(PKG, name + '.f90'), 'rb') as fh:
        h.update(fh.read())
    h.update(repr((flavour, FLAVOURS[flavour], sys.version, SUFFIX)).encode())
    import numpy
    h.update(numpy.__version__.encode())
    return h.hexdigest()[:24]


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))


def _build(name, flavour):
    dst_dir = os.path.join(CACHE, '%s-%s-%s' % (name, flavour, _digest(name, flavour)))
    dst = os.path.join(dst_dir, name + '_wrap' + SUFFIX)
    if os.path.exists(dst):
        return dst
    import numpy
    import numpy.f2py
    os.makedirs(CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix='build-', dir=CACHE)
    try:
        shutil.copy(os.path.join(PKG, name + '.f90'), work)
        mod = name + '_wrap'
        _run([sys.executable, '-m', 'numpy.f2py', name + '.f90', '-m', mod, '--lower'], work)
        f2py_src = os.path.join(os.path.dirname(numpy.f2py.__file__), 'src')
        shutil.copy(os.path.join(f2py_src, 'fortranobject.c'), work)
        inc = ['-I', numpy.get_include(), '-I', f2py_src, '-I', sysconfig.get_paths()['include']]
        fflags, cflags, lflags = FLAVOURS[flavour]
        wrappers = [f for f in sorted(os.listdir(work)) if 'f2pywrappers' in f]
        cmds = [['gcc'] + cflags + ['-w', '-DNPY_NO_DEPRECATED_API=NPY_1_9_API_VERSION'] + inc
                + ['-c', c, '-o', c + '.o'] for c in (mod + 'module.c', 'fortranobject.c')]
        fcmd = [['gfortran'] + fflags + ['-w', '-c', name + '.f90', '-o', name + '.o']]
        # the user's source is what is checked; the generated wrapper only forwards descriptors
        wflags = [f for f in fflags if not f.startswith('-fcheck')]
        fcmd += [['gfortran'] + wflags + ['-w', '-c', w, '-o', w + '.o'] for w in wrappers]
        with ThreadPoolExecutor(4) as ex:
            futs = [ex.submit(_run, c, work) for c in cmds]
            for c in fcmd:
                _run(c, work)
            for f in futs:
                f.result()
        objs = [f for f in sorted(os.listdir(work)) if f.endswith('.o')]
        out = mod + SUFFIX
        _run(['gfortran', '-shared'] + lflags + objs + ['-o', out], work)
        stage = tempfile.mkdtemp(prefix='stage-', dir=CACHE)
        shutil.copy(os.path.join(work, out), stage)
        try:
            os.rename(stage, dst_dir)
        except OSError:
            shutil.rmtree(stage, ignore_errors=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return dst


def build(flavour='plain'):
    """Return {module name: path of shared object} for the current sources."""
    global CACHE
    try:
        os.makedirs(CACHE, exist_ok=True)
    except OSError:
        CACHE = tempfile.mkdtemp(prefix='vp-native-')
    names = [n for n in MODULES if os.path.exists(os.path.join(PKG, n + '.f90'))]
    with ThreadPoolExecutor(len(names) or 1) as ex:
        paths = list(ex.map(lambda n: _build(n, flavour), names))
    return {n + '_wrap': p for n, p in zip(names, paths)}


def asan_preload():
    p = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True)
    return os.path.realpath(p.stdout.strip())


if __name__ == '__main__':
    for fl in FLAVOURS:
        print(fl, build(fl))
