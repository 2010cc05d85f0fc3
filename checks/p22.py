"""P22 - local values average to the value, or are refused."""

import itertools
import math
from io import UnsupportedOperation

import infomeasure as im
import numpy as np

from mc import cases, model
from mc.lib import lcg, rgs

try:
    from infomeasure.utils.exceptions import TheoreticalInconsistencyError as _Theory
except Exception:  # noqa: BLE001
    _Theory = UnsupportedOperation

LEVEL = "model_checking"
RULE = (
    "streams grow one joint sample at a time (the state is the stream); every reached stream is "
    "given to every measure and approach, once asking for the value first and once for the local "
    "values first. Where local values are offered there must be one per reconstructed sample with "
    "the value as their mean (the shrinkage entropy's mean differs by definition and is left "
    "out), else the request is refused and the value unharmed. Parameters (base, offset, "
    "histories, kernels, dimensions) vary on fixed streams. Non-trivial: the stream is not constant."
)
ASSUMPTIONS = [
    "which approaches offer local values follows the documentation; their content is decided by P01-P13",
    "agreement of mean and value to 1e-9",
]
BOUNDS = {
    "quick": "all streams up to renaming: one variable length <= 6, two length <= 4 (3 symbols), "
    "three length <= 4 (2 symbols); TE pairs length <= 6, triples <= 5; 16 approaches, 8 measures",
    "thorough": "one variable <= 8, two <= 5, three <= 5 (2 symbols); TE <= 8, CTE <= 6",
}
OFFERS = ("discrete", "grassberger", "kernel", "metric", "miller_madow", "ordinal", "shrink", "zhang")
REFUSE = (UnsupportedOperation, _Theory)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for m, a in cases.combos():
        parts = (8 if th else 3) if m != "h" and a in OFFERS else (4 if th else 1)
        for i in range(parts):
            out.append(("streams", m, a, i, parts, th))
        out.append(("parameters", m, a))
    for a in OFFERS:
        if a != "metric":
            for i in range(4 if th else 2):
                out.append(("streams", "mi4", a, i, 4 if th else 2, th))
        out += [("long", a, n) for n in ((600, 3000, 9000) if th else (600, 3000)) if (a, n) != ("kernel", 9000)]
    out.sort(key=lambda t: t[0] == "parameters")
    return out


def binary(n):
    return [s for s in rgs(n, 2)]


def grow(m, a, th):
    """All stream tuples for a measure, shortest first."""
    few = a not in OFFERS
    if m == "h":
        for n in range(2, (9 if th else 7) - (2 if few else 0)):
            for s in rgs(n):
                yield (s,)
    elif m in ("hj", "mi", "hx"):
        top = (6 if th else 5) - (1 if few else 0)
        for n in range(2, top):
            for s in rgs(n, 3):
                for t in itertools.product(range(3), repeat=n) if n < 5 and a not in ("kernel", "metric") else rgs(n, 3):
                    yield s, t
    elif m in ("mi3", "cmi"):
        top = (6 if th else 5) - (1 if few else 0)
        for n in range(2, top):
            for s in binary(n):
                for t in binary(n):
                    for u in binary(n):
                        yield s, t, u
    elif m == "mi4":
        for n in range(2, 5 if th else 4):
            for st in itertools.product(binary(n), repeat=4):
                yield st
    elif m == "te":
        for n in range(3, (9 if th else 7) - (2 if few else 0)):
            for s in binary(n):
                for t in binary(n):
                    yield s, t
    else:
        for n in range(3, (7 if th else 6) - (1 if few else 0)):
            for s in binary(n):
                for t in binary(n):
                    for u in binary(n):
                        yield s, t, u


# per-point neighbours need enough samples
def minimum(m, a):
    if a in ("metric", "renyi", "tsallis"):
        return 5 if m in ("te", "cte") else 3
    if a == "ordinal":
        return 4 if m in ("te", "cte") else 3
    return 2


def count(m, a, cols, kw):
    """Number of reconstructed samples."""
    n = len(cols[0])
    if m in ("te", "cte"):
        return len(model.te_parts(a, kw, cols[0], cols[1], cols[2] if m == "cte" else None)[0])
    if m in ("mi", "mi3", "mi4", "cmi"):
        n -= abs(kw.get("offset", 0) or 0)
    if a == "ordinal":
        n -= (kw["embedding_dim"] - 1) * kw.get("step_size", 1)
    return n


def ask(est, first):
    """(value, local values or exception name), in the given order."""
    out = {}
    for op in (("local", "value") if first == "local" else ("value", "local")):
        try:
            out[op] = est.result() if op == "value" else est.local_vals()
        except REFUSE as exc:
            out[op] = ("refused", type(exc).__name__)
    if first == "value":
        return out["value"], out["local"], est.result()
    return out["value"], out["local"], out["value"]


def judge(rec, case, m, a, n, mk):
    offers = a in OFFERS and m != "hx"
    got = {}
    for first in ("value", "local"):
        c = {**case, "first": first}
        ok, est = rec.call(c, "estimator", mk)
        if not ok:
            return
        ok, r = rec.call(c, "value and local values", ask, est, first)
        if not ok:
            return
        got[first] = v, loc, again = r
        rec.traces += 1
        rec.true(not isinstance(v, tuple), c, "a value", v, "the value is refused")
        rec.true(same_float(v, again), c, v, again, "the value after asking for local values")
        if isinstance(loc, tuple):
            rec.true(not offers, c, "local values", loc, "offered local values are refused")
            continue
        if not rec.true(offers, c, "refused", loc, "undefined local values are returned"):
            continue
        if not rec.true(isinstance(loc, np.ndarray) and loc.shape == (n,), c, n, np.shape(loc), "number of local values"):
            continue
        rec.outcome(v)
        if a == "shrink" and m in ("h", "hj"):
            continue
        mean = float(np.mean(loc))
        rec.true(abs(mean - v) <= 1e-9 + 1e-9 * abs(v) or same_float(mean, v), c, v, mean,
                 "the mean of the local values is not the value")
    if len(got) == 2:
        a1, a2 = got["value"], got["local"]
        rec.true(same_float(a1[0], a2[0]), case, a1[0], a2[0], "the value depends on the order of requests")
        if isinstance(a1[1], np.ndarray) and isinstance(a2[1], np.ndarray):
            rec.true(a1[1].shape == a2[1].shape and np.allclose(a1[1], a2[1], rtol=1e-12, atol=1e-12, equal_nan=True),
                     case, a1[1], a2[1], "the local values depend on the order of requests")


def same_float(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    return x == y or (x != x and y != y) or abs(x - y) <= 1e-12 + 1e-12 * abs(x)


def streams(rec, m, a, part, parts, th):
    lim = minimum(m, a)
    i = -1
    for st in grow(m, a, th):
        if len(st[0]) < lim:
            continue
        if a == "nsb" and m != "h" and len(st[0]) > 4:
            continue
        i += 1
        if i % parts != part:
            continue
        args, kw = cases.request(m, a, st)
        if a in ("metric", "renyi", "tsallis"):
            kw["k"] = 1
        cols = cases.columns(a, st)
        n = count(m, a, cols, kw)
        case = {"measure": m, "approach": a, "streams": st}
        rec.ev(any(len(set(s)) > 1 for s in st))
        rec.time_state(*st)
        judge(rec, case, m, a, n, lambda: cases.create(m, a, args, kw))
        rec.sample(case)



ST = (
    (0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0, 0, 1),
    (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2, 1, 0),
    (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0, 1, 1),
)


def long(rec, a, n):
    """Long series, many of whose local values are zero or alike."""
    for name, st in (
        ("mixed", [lcg(q + n, n, 3) for q in (1, 2, 3)]),
        ("rare", [[int(v == 0) for v in lcg(q + n, n, 97)] for q in (1, 2, 3)]),
        ("equal halves", [[v * (i < n // 2) for i, v in enumerate(lcg(q + n, n, 4))] for q in (1, 2, 3)]),
    ):
        for m in ("h", "hj", "mi", "mi3", "cmi", "te", "cte"):
            if not cases.offers(m, a) or (m, a) == ("mi3", "metric"):
                continue
            if n > 600 and a in ("kernel", "metric") and m not in ("h", "mi"):
                continue
            args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
            cols = cases.columns(a, st)
            case = {"measure": m, "approach": a, "streams": (name, n)}
            rec.ev()
            rec.node("long", m, a, n, name)
            judge(rec, case, m, a, count(m, a, cols, kw), lambda: cases.create(m, a, args, kw))


def options(m, a):
    yield {}
    for b in (2, 10, 3, 1.5, "e"):
        yield {"base": b}
    if m == "mi":
        for o in (1, 2, -1, -3):
            yield {"offset": o}
    if m in ("mi", "mi3", "cmi") and a in cases.CONT:
        yield {"normalize": True}
    if m in ("te", "cte"):
        for s, d, t in itertools.product((1, 2, 3), (1, 2, 3), (1, 2)):
            yield {"src_hist_len": s, "dest_hist_len": d, "step_size": t}
        if m == "te":
            for pt in (1, 2, 3):
                yield {"prop_time": pt}
                yield {"prop_time": pt, "src_hist_len": 2}
                yield {"prop_time": pt, "step_size": 2}
        else:
            for c in (2, 3):
                yield {"cond_hist_len": c}
                yield {"cond_hist_len": c, "dest_hist_len": 2, "step_size": 2}
    if a == "kernel":
        for k in ("box", "gaussian"):
            for bw in (0.3, 1.0, 4.0):
                yield {"kernel": k, "bandwidth": bw}
    if a == "metric":
        for k in (1, 2, 3, 4):
            for p in (1, 2, math.inf):
                yield {"k": k, "minkowski_p": p}
        if m not in ("h", "hj", "hx"):
            yield {"ksg_id": 1, "k": 3}
            yield {"ksg_id": 2, "k": 3}
    if a == "ordinal":
        for d in (1, 2, 3, 4):
            yield {"embedding_dim": d}
        if m not in ("te", "cte"):
            yield {"embedding_dim": 3, "step_size": 2}
            yield {"embedding_dim": 2, "step_size": 3}


def parameters(rec, m, a):
    args, kw = cases.request(m, a, ST[: cases.WIDTH[m]])
    cols = cases.columns(a, ST)
    if a == "nsb" and m not in ("h",):
        opts = [{}, {"base": 2}]
    else:
        opts = list(options(m, a))
    for o in opts:
        if a == "ordinal" and "step_size" in o and m in ("te", "cte"):
            pass
        k = {**kw, **o}
        case = {"measure": m, "approach": a, "options": o}
        rec.ev()
        rec.node("parameters", m, a, o)
        judge(rec, case, m, a, count(m, a, cols, k), lambda: cases.create(m, a, args, k))
    # multi-dimensional variables
    if a != "ordinal" and m not in ("hx",) and a != "nsb":
        wide = [np.stack([c, c[::-1]], axis=1) for c in cols]
        if m == "hj":
            margs, mkw = ((tuple(cols),), dict(kw))
        elif m in ("cmi", "cte"):
            # the Miller-Madow CMI documents a one-dimensional condition
            cond = cols[2] if (m, a) == ("cmi", "miller_madow") else wide[2]
            margs, mkw = tuple(wide[:2]), {**kw, "cond": cond}
        else:
            margs, mkw = tuple(wide[: cases.WIDTH[m]]), dict(kw)
        case = {"measure": m, "approach": a, "options": "two-dimensional samples"}
        rec.ev()
        rec.node("wide", m, a)
        n = len(cols[0]) - (1 if m in ("te", "cte") else 0)
        judge(rec, case, m, a, n, lambda: cases.create(m, a, margs, mkw))
