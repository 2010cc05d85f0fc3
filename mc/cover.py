"""Feature coverage of a check run (VERIF_COVER=FILE): which kinds of input reach which class.

Development aid, not part of any verdict: shows which sizes, types and parameters a check never
gives to an estimator class, i.e. where a change that needs them would go unseen.
"""

import json
import os
from collections import defaultdict

SEEN = defaultdict(set)
SIZES = (1, 2, 3, 4, 8, 16, 32, 64, 100, 128, 256, 300, 500, 1000, 2000, 5000, 10000, 32768, 65536, 10**9)


def bucket(n):
    for s in SIZES:
        if n <= s:
            return s
    return "big"


def features(est):
    import numpy as np

    d = est.__dict__
    out = set()
    arrays = []
    for name in ("data", "source", "dest", "cond"):
        v = d.get(name)
        if v is None:
            continue
        parts = v if isinstance(v, tuple) else (v,)
        for i, p in enumerate(parts):
            for q in p if isinstance(p, tuple) else (p,):
                arrays.append((f"{name}{i}" if isinstance(v, tuple) else name, getattr(q, "data", q) if not isinstance(q, np.ndarray) else q))
    out.add(("nvars", len(arrays)))
    for name, a in arrays:
        if not isinstance(a, np.ndarray):
            continue
        out.add(("dtype", a.dtype.str if a.dtype.kind not in "USO" else a.dtype.kind))
        out.add(("N", bucket(len(a))))
        out.add(("ndim", a.ndim, bucket(a.shape[1]) if a.ndim > 1 else 0))
        out.add(("contig", a.flags.c_contiguous))
        out.add(("writeable", a.flags.writeable))
        if a.size and a.dtype.kind in "iufb" and len(a) <= 5000:
            f = a.astype(float)
            out.add(("negative", bool((f < 0).any())))
            m = np.abs(f).max()
            out.add(("mag", "0" if m == 0 else int(np.clip(np.floor(np.log10(m) / 3), -9, 9)) if np.isfinite(m) else "inf"))
            out.add(("frac", bool((f != np.round(f)).any())))
            K = len(np.unique(f))
            out.add(("K", bucket(K)))
            out.add(("distinct", "const" if K == 1 else "all" if K == f.size else "some"))
    for k, v in d.items():
        if isinstance(v, (int, float, str, bool)) or v is None:
            if k not in ("res_global",):
                if isinstance(v, float) and k not in ("alpha", "q", "bandwidth", "minkowski_p", "noise_level", "base"):
                    continue
                out.add(("par", k, repr(v)))
    return out


def install():
    from infomeasure.estimators.base import Estimator

    orig = Estimator.calculate

    def calculate(self):
        try:
            SEEN[type(self).__name__] |= features(self)
        except Exception as e:  # noqa: BLE001
            SEEN[type(self).__name__].add(("error", repr(e)[:80]))
        return orig(self)

    Estimator.calculate = calculate


def dump(path):
    with open(f"{path}.{os.getpid()}", "w") as f:
        json.dump({k: sorted(map(list, v), key=repr) for k, v in SEEN.items()}, f)
