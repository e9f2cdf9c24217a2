"""
Builds native code, out of /repo: the Cython extension from /repo's current utils.pyx (plain, and with
AddressSanitizer + UndefinedBehaviorSanitizer), and the numpy memory monitor. Results are kept in a folder named by the
hash of what they were built from, so a changed source is always rebuilt.
"""
import contextlib
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYX = os.path.join(REPO, 'aideme/active_learning/factorization/utils.pyx')
EXT_NAME = 'aideme.active_learning.factorization.utils'
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')

VARIANTS = {
    'plain': ['-O2'],
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
}


def build_root():
    root = os.path.join(VERIF, 'build')
    try:
        os.makedirs(root, exist_ok=True)
        with tempfile.TemporaryFile(dir=root):
            pass
        return root
    except OSError:
        root = os.path.join(tempfile.gettempdir(), 'verif-build')
        os.makedirs(root, exist_ok=True)
        return root


@contextlib.contextmanager
def _lock(root):
    with open(os.path.join(root, '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    res = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if res.returncode != 0:
        raise BuildError('{} failed:\n{}'.format(' '.join(cmd), res.stdout[-3000:]))


def _includes():
    import numpy
    return ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include()]


def _cached(key, filename, make):
    root = build_root()
    out_dir = os.path.join(root, key)
    out = os.path.join(out_dir, filename)
    if os.path.exists(out):
        return out
    with _lock(root):
        if not os.path.exists(out):
            tmp = tempfile.mkdtemp(dir=root)
            try:
                make(tmp, os.path.join(tmp, filename))
                keep = tempfile.mkdtemp(dir=root)
                shutil.move(os.path.join(tmp, filename), os.path.join(keep, filename))
                os.chmod(keep, 0o755)
                os.rename(keep, out_dir)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
    return out


def extension(variant='plain'):
    """ :return: path of the compiled extension for the current utils.pyx, or None if there is no such file any more """
    if not os.path.exists(PYX):
        return None

    with open(PYX, 'rb') as f:
        source = f.read()

    key = 'ext-' + variant + '-' + hashlib.sha256(source + repr((VARIANTS[variant], sys.version, 1)).encode()).hexdigest()[:16]

    def make(tmp, out):
        pkg = os.path.join(tmp, os.path.dirname(EXT_NAME.replace('.', '/')))
        os.makedirs(pkg)
        d = tmp
        for part in EXT_NAME.split('.')[:-1]:
            d = os.path.join(d, part)
            open(os.path.join(d, '__init__.py'), 'w').close()
        with open(os.path.join(pkg, 'utils.pyx'), 'wb') as f:
            f.write(source)
        _run([sys.executable, '-m', 'cython', '-3', '--module-name', EXT_NAME, '-o', os.path.join(tmp, 'utils.c'), os.path.join(pkg, 'utils.pyx')], tmp)
        _run(['gcc', '-shared', '-fPIC', '-w', '-fwrapv', *VARIANTS[variant], *_includes(), os.path.join(tmp, 'utils.c'), '-o', out], tmp)

    return _cached(key, 'utils' + SUFFIX, make)


def poison():
    src = os.path.join(VERIF, 'harness/native/poison.c')
    with open(src, 'rb') as f:
        key = 'poison-' + hashlib.sha256(f.read() + sys.version.encode()).hexdigest()[:16]

    def make(tmp, out):
        _run(['gcc', '-shared', '-fPIC', '-O2', '-w', *_includes(), src, '-o', out], tmp)

    return _cached(key, 'verif_poison' + SUFFIX, make)


if __name__ == '__main__':
    for v in VARIANTS:
        print(extension(v))
    print(poison())
