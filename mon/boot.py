"""
Import atooms.postprocessing from /repo's working tree, with the extension modules built by
mon.native from the current sources (never the ones lying in /repo).
"""
import importlib.abc
import importlib.util
import os
import sys

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True

from . import native

PREFIX = 'atooms.postprocessing.'


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, paths):
        self.paths = {PREFIX + k: v for k, v in paths.items()}

    def find_spec(self, name, path=None, target=None):
        if name in self.paths:
            return importlib.util.spec_from_file_location(name, self.paths[name])
        return None


_loaded = None


def load(flavour='plain'):
    """Import and return the package."""
    global _loaded
    if _loaded is None:
        paths = native.build(flavour)
        sys.meta_path.insert(0, _Finder(paths))
        if native.REPO not in sys.path:
            sys.path.insert(0, native.REPO)
        import atooms
        repo_atooms = os.path.join(native.REPO, 'atooms')
        if repo_atooms in list(atooms.__path__):
            pass
        else:
            atooms.__path__.insert(0, repo_atooms)
        import atooms.postprocessing as pp
        assert os.path.dirname(os.path.abspath(pp.__file__)) == native.PKG, pp.__file__
        _loaded = pp
    return _loaded
