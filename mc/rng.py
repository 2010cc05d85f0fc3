"""A random generator whose choices are dictated by the explorer.

`Scripted(n)` is a real numpy Generator (numpy.random.default_rng hands it through), but
every permutation / resampling of n rows takes the next scripted index vector.  This turns
"for every random choice" into an enumeration of all permutations or resamplings.
"""

import itertools

import numpy as np


class Scripted(np.random.Generator):
    """Draws come from `script`; `log` records (kind, indices).

    kind=None: every draw takes the script.  kind="perm" / "boot": only draws of that kind
    do; a draw of the other kind takes an index vector that gives it away (all zeros for a
    resampling in place of a permutation, the identity the other way round).
    """

    def __init__(self, script, fail_at=None, exc=RuntimeError, kind=None):
        super().__init__(np.random.PCG64(12345))
        self.script = [list(s) for s in script]
        self.used = 0
        self.draws = 0
        self.fail_at = fail_at
        self.exc = exc
        self.kind = kind
        self.log = []

    # ---- bookkeeping
    def _next(self, n, kind="perm"):
        self.draws += 1
        if self.fail_at is not None and self.draws == self.fail_at:
            raise self.exc("injected fault")
        if self.kind not in (None, kind):
            idx = [0] * n if kind == "boot" else list(range(n))
        elif not self.script:
            idx = list(range(n))
        else:
            idx = self.script[self.used % len(self.script)]
            self.used += 1
        if len(idx) != n:
            raise AssertionError(f"script for {len(idx)} rows used on {n}")
        self.log.append((kind, tuple(idx)))
        return idx

    # ---- the ways of permuting
    def shuffle(self, x, axis=0):
        n = x.shape[axis] if hasattr(x, "shape") else len(x)
        idx = self._next(n)
        if isinstance(x, np.ndarray):
            x[...] = np.take(x, idx, axis=axis)
        else:
            x[:] = [x[i] for i in idx]

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            return np.array(self._next(int(x)))
        x = np.asarray(x)
        return np.take(x, self._next(x.shape[axis]), axis=axis)

    def permuted(self, x, axis=None, out=None):
        x = np.asarray(x)
        if axis is None and x.ndim > 1:
            return super().permuted(x, axis=axis, out=out)
        if x.ndim > 1:  # every lane is permuted on its own
            lanes = np.moveaxis(x.copy(), axis, 0)
            flat = lanes.reshape(lanes.shape[0], -1)
            flat = np.column_stack([c[self._next(len(c))] for c in flat.T])
            res = np.moveaxis(flat.reshape(lanes.shape), 0, axis)
        else:
            res = x[self._next(len(x))]
        if out is not None:
            out[...] = res
        return res

    # ---- the ways of resampling
    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if isinstance(a, (int, np.integer)):
            a = np.arange(a)
        a = np.asarray(a)
        n = a.shape[axis] if size is None else int(np.prod(size))
        return np.take(a, self._next(n, "boot" if replace else "perm"), axis=axis)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        lo = 0 if high is None else low
        n = int(np.prod(size)) if size is not None else 1
        return np.array(self._next(n, "boot"), dtype=dtype) + lo


def permutations(n):
    return list(itertools.permutations(range(n)))


def resamplings(n):
    return list(itertools.product(range(n), repeat=n))
