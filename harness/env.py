"""
Prepares the process for running the code under test: environment, import path, freshly built native code, memory
monitor. To be imported before numpy.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

WANTED = {
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
}


def reexec():
    """ Restarts this program with the environment the checks need, once. """
    if all(os.environ.get(k) == v for k, v in WANTED.items()):
        return
    os.environ.update(WANTED)
    os.execv(sys.executable, [sys.executable] + sys.argv)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def find_spec(self, fullname, path, target=None):
        if fullname != self.name:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, self.path)
        return importlib.util.spec_from_file_location(fullname, self.path, loader=loader)


def load_extension_file(name, path):
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    module = importlib.util.module_from_spec(spec)
    loader.exec_module(module)
    return module


poison = None


def setup(variant='plain', memory_monitor=True):
    global poison
    from . import build

    sys.dont_write_bytecode = True
    sys.path.insert(0, build.REPO)

    ext = build.extension(variant)
    if ext is not None:
        sys.meta_path.insert(0, _Finder(build.EXT_NAME, ext))

    if memory_monitor:
        poison = load_extension_file('verif_poison', build.poison())
        poison.install()

    import warnings
    warnings.simplefilter('ignore')
    os.environ['PYTHONWARNINGS'] = 'ignore'
