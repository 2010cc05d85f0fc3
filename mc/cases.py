"""One vocabulary of requests (measure x approach x data) used by the lifecycle checks.

A request is built from small symbol streams, so that "all requests" can be enumerated by
enumerating streams.  Continuous approaches get the streams plus a fixed tie-free jitter.
"""

import infomeasure as im
import numpy as np

from mc.lib import APPROACHES, H_KW

CONT = ("kernel", "metric", "renyi", "tsallis")
HX = ("discrete", "miller_madow", "bayes", "kernel", "metric", "ordinal", "renyi", "tsallis")
JSD = ("discrete", "bayes", "shrink", "ordinal", "kernel")
NO_LOG = ("tsallis",)
# number of streams per request
WIDTH = {"h": 1, "hj": 2, "hx": 2, "mi": 2, "mi3": 3, "mi4": 4, "cmi": 3, "te": 2, "cte": 3}
NAME = {"hj": "h", "mi3": "mi", "mi4": "mi"}


def offers(measure, approach):
    if measure == "hx":
        return approach in HX
    if measure == "jsd":
        return approach in JSD
    if measure == "kld":
        return approach in HX
    return True


def kwargs(measure, approach, n):
    kw = dict(H_KW[approach])
    if approach in ("metric", "renyi", "tsallis"):
        kw["k"] = 2 if n > 5 else 1
    if approach in ("renyi", "tsallis"):
        if measure not in ("h", "hj", "hx"):
            kw["noise_level"] = 0
    return kw


def column(approach, stream, j):
    n = len(stream)
    if approach in CONT:
        # distinct per sample and variable, far below the distance between symbols
        return np.array(
            [s + ((i * (3 + 2 * j) + j + 1) % (n + 1)) / (7.0 * n + 3 * j) + 0.011 * j
             for i, s in enumerate(stream)]
        )
    return np.array(stream, dtype=np.int64)


def columns(approach, streams):
    return [column(approach, s, j) for j, s in enumerate(streams)]


def request(measure, approach, streams):
    """(positional data, keyword arguments) for im.estimator(..., measure=...)."""
    cols = columns(approach, streams)
    kw = kwargs(measure, approach, len(streams[0]))
    if measure == "hj":
        return (tuple(cols),), kw
    if measure in ("cmi", "cte"):
        kw["cond"] = cols[2]
        return tuple(cols[:2]), kw
    return tuple(cols), kw


def create(measure, approach, args, kw, **more):
    m = {"hj": "entropy", "h": "entropy", "mi3": "mi", "mi4": "mi"}.get(measure, measure)
    return im.estimator(*args, measure=m, approach=approach, **{**kw, **more})


FUNC = {
    "h": im.entropy,
    "hj": im.entropy,
    "hx": im.cross_entropy,
    "mi": im.mutual_information,
    "mi3": im.mutual_information,
    "mi4": im.mutual_information,
    "cmi": im.conditional_mutual_information,
    "te": im.transfer_entropy,
    "cte": im.conditional_transfer_entropy,
    "jsd": im.jsd,
    "kld": im.kld,
}


def combos(measures=None, approaches=None):
    for m in measures or ("h", "hj", "hx", "mi", "mi3", "cmi", "te", "cte"):
        for a in approaches or APPROACHES:
            if not offers(m, a):
                continue
            if m == "mi3" and a in ("metric",):
                continue
            yield m, a


def copy_tree(x):
    """Deep copy of nested tuples of arrays."""
    if isinstance(x, tuple):
        return tuple(copy_tree(v) for v in x)
    if isinstance(x, dict):
        return {k: copy_tree(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return list(x)
    return x


def same_tree(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_tree(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return (
            isinstance(b, np.ndarray)
            and a.dtype == b.dtype
            and a.shape == b.shape
            and a.tobytes() == b.tobytes()
        )
    return type(a) is type(b) and (a == b or a != a and b != b)
