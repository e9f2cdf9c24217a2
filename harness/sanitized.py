"""
Runs cases of C24 (and trainings of factorized models from C23) with the extension built with sanitizers. To be started with the
sanitizer runtimes preloaded. Input arrays are allocated by malloc with their exact size, so that the first byte out of bounds is seen.
Prints one JSON line at the end; whatever the sanitizers find ends the process.
"""
import ctypes
import json
import os
import sys

from . import env

env.setup('asan', memory_monitor=False)

import numpy as np  # noqa: E402

from . import build, core  # noqa: E402
from checks import c23, c24  # noqa: E402

libc = ctypes.CDLL(None)
libc.malloc.restype, libc.malloc.argtypes = ctypes.c_void_p, [ctypes.c_size_t]
libc.free.restype, libc.free.argtypes = None, [ctypes.c_void_p]


class ExactAllocator(c24.Allocator):
    def _get(self, nbytes):
        p = libc.malloc(nbytes)
        self.used.append(p)
        return p

    def __call__(self, x):
        x = np.asarray(x, dtype=float)
        view = self.empty(x.size).reshape(x.shape)
        view[...] = x
        return view

    def empty(self, size):
        return np.frombuffer((ctypes.c_double * size).from_address(self._get(8 * size)), dtype=float)

    def strided(self, rng, x):
        """ ends with the last (or starts with the first) element used """
        if x.size == 0 or rng.rand() < 0.3:
            return self(x)
        r, c = int(rng.randint(1, 3)), int(rng.randint(1, 4))
        n, k = x.shape
        pitch = c * (k - 1) + 1 + int(rng.randint(3))
        flat = self.empty(pitch * r * (n - 1) + c * (k - 1) + 1)
        flat[...] = np.nan
        view = np.lib.stride_tricks.as_strided(flat, shape=(n, k), strides=(8 * pitch * r, 8 * c))
        if rng.rand() < 0.5:
            view = view[::-1, ::-1]
        view[...] = x
        return view

    def done(self):
        for p in self.used:
            libc.free(p)
        self.used = []


def main():
    index, cases, seed = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    loaded = getattr(c24.routines, '__file__', '')
    assert os.path.realpath(loaded) == os.path.realpath(build.extension('asan')), loaded
    c24.ALLOCATE = ExactAllocator()
    ctx = core.Ctx('quick', {})
    check24, check23 = core.Check('C24'), core.Check('C23')
    plan = [(check24, w) for w in check24.workloads.values() if w.name != 'sanitized'] + [(check23, check23.workloads[n]) for n in ('full_batch', 'batches', 'partitioned', 'kernels')]
    for i in range(cases):
        check, w = plan[i % len(plan)]
        print(json.dumps({'case': [check.prop, w.name, seed, i]}), flush=True)
        error = core.run_case(check, ctx, w, seed, i)
        c24.ALLOCATE.done()
        if error is not None:
            print(json.dumps({'violation': '{} {} (seed {}, case {}): {}'.format(check.prop, w.name, seed, i, error)}), flush=True)
            break
    print(json.dumps({'events': {'cases': sum(1 for _ in range(cases)), 'calls': ctx.events['calls'], 'model_gradients': ctx.events['gradients'] + ctx.events['partition_gradients']}}), flush=True)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
