"""Values of every measure from columns of samples, independent of the estimators.

A column is a list of tuples (points or symbols), one per sample.  Used by the checks that
need to know what a measure of *given samples* is, e.g. of a permuted source.
Only the NSB entropy is taken from the library (its deviations are known finding F-NSB,
judged by P02); it is used here merely as a function of the samples.
"""

import math

import infomeasure as im
import numpy as np

from mc import ref

_NSB = {}


def cat(*cols):
    return [sum((tuple(c[i]) for c in cols), ()) for i in range(len(cols[0]))]


def nsb(pts):
    sym = {}
    key = tuple(sym.setdefault(p, len(sym)) for p in pts)
    counts = [0] * len(sym)
    for s in key:
        counts[s] += 1
    k = tuple(sorted(counts))
    if k not in _NSB:
        _NSB[k] = float(im.entropy([s for s, c in enumerate(k) for _ in range(c)], approach="nsb", base="e"))
    return _NSB[k]


def entropy_fn(approach, kw):
    """pts -> entropy in nats, for the approaches that combine entropies."""
    if approach == "nsb":
        return nsb
    if approach == "renyi":
        return lambda p: ref.h_renyi(p, k=kw.get("k", 4), alpha=kw["alpha"])
    if approach == "tsallis":
        return lambda p: ref.h_tsallis(p, k=kw.get("k", 4), q=kw["q"])
    if approach == "ordinal":
        approach = "discrete"
    hkw = {}
    if approach == "bayes":
        hkw["alpha"] = kw["alpha"]
    return lambda p: ref.combine_entropy(approach, p, **hkw)


def _mean(v):
    v = list(v)
    return math.fsum(v) / len(v)


def _dens(kw, pts):
    return ref.density(kw.get("kernel", "box"), pts, kw["bandwidth"])


def l_mi(approach, kw, cols):
    """Local values where the approach is defined through them, else None."""
    if approach == "metric":
        return ref.l_ksg_mi(cols, k=kw.get("k", 4), p=kw.get("minkowski_p", math.inf),
                            ksg_id=kw.get("ksg_id", 1))
    if approach == "kernel":
        j, ds = _dens(kw, cat(*cols)), [_dens(kw, c) for c in cols]
        return [math.log(j[i]) - sum(math.log(d[i]) for d in ds) for i in range(len(j))]
    return None


def l_cmi(approach, kw, cols, cond):
    if approach == "metric":
        return ref.l_ksg_cmi(cols, cond, k=kw.get("k", 4), p=kw.get("minkowski_p", math.inf),
                             ksg_id=kw.get("ksg_id", 1))
    if approach == "kernel":
        j, z = _dens(kw, cat(*cols, cond)), _dens(kw, cond)
        vs = [_dens(kw, cat(c, cond)) for c in cols]
        return [math.log(j[i]) + math.log(z[i]) - sum(math.log(v[i]) for v in vs)
                for i in range(len(j))]
    return None


def mi(approach, kw, cols):
    loc = l_mi(approach, kw, cols)
    if loc is not None:
        return _mean(loc)
    e = entropy_fn(approach, kw)
    return sum(e(c) for c in cols) - e(cat(*cols))


def cmi(approach, kw, cols, cond):
    loc = l_cmi(approach, kw, cols, cond)
    if loc is not None:
        return _mean(loc)
    e = entropy_fn(approach, kw)
    return sum(e(cat(c, cond)) for c in cols) - e(cat(*cols, cond)) - e(cond)


def as_points(a):
    a = np.asarray(a)
    return [tuple(r) if np.ndim(r) else (r,) for r in a.tolist()]


def symbols(approach, kw, a):
    """The samples a measure sees: rank patterns for the ordinal approach."""
    if approach == "ordinal":
        return [(p,) for p in ref.ordinal_patterns(list(a), kw["embedding_dim"], kw.get("step_size", 1))]
    return as_points(a)


def te_parts(approach, kw, x, y, z=None):
    """(future, destination history, source history, condition history) columns."""
    step = kw.get("step_size", 1)
    pt = kw.get("prop_time", 0) or 0
    x, y = ref.shift_te(list(x), list(y), pt, step)
    xs, ys = symbols(approach, kw, x), symbols(approach, kw, y)
    zs = None if z is None else symbols(approach, kw, z)
    fut, dh, sh, ch = ref.te_columns(
        xs, ys, zs,
        src_hist=kw.get("src_hist_len", 1), dest_hist=kw.get("dest_hist_len", 1),
        step=step, cond_hist=kw.get("cond_hist_len", 1),
    )
    flat = lambda c: None if c is None else [sum(r, ()) for r in c]  # noqa: E731
    return flat(fut), flat(dh), flat(sh), flat(ch)


def te_rows(approach, kw, fut, dh, sh, ch=None):
    base = cat(dh, ch) if ch is not None else dh
    loc = l_cmi(approach, kw, [fut, sh], base)
    if loc is not None:
        return _mean(loc)
    e = entropy_fn(approach, kw)
    return e(cat(fut, base)) + e(cat(sh, base)) - e(cat(fut, sh, base)) - e(base)
