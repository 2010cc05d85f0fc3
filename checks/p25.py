"""P25 - entropies from counts, and the container of counted samples."""

import itertools
import math

import infomeasure as im
import numpy as np
from infomeasure.utils.data import DiscreteData

from mc import ref
from mc.lib import H_KW, expand, lnb, partitions, sequences

LEVEL = "model_checking"
RULE = (
    "states are count vectors, a transition counts one more sample of a known or new symbol. In every "
    "state the estimator class built from the counts has to give the value of the estimator that read "
    "samples with these counts, and of the formula, for every order, name and integer type of the "
    "symbols and counts and every base; the container has to report the sums, shares and refusals that "
    "follow from the counts. Non-trivial: at least two symbols."
)
ASSUMPTIONS = [
    "counts are positive; what a zero count means to the estimators is not promised",
    "Chao-Shen is evaluated in floating point and only compared up to counts of 2^40",
    "NSB (known finding F-NSB in P02) is only compared with itself reading the samples",
]
BOUNDS = {
    "quick": "all partitions of N <= 14 in up to 24 orders (NSB N <= 8 in 2), 7 kinds of names, 9 integer types, 6 bases; "
    "count vectors over 1, 2, 255, 256, 65535, 65536, 2^31, 2^40, 2^53, 2^60 with up to 3 symbols for closed forms; all "
    "containers of up to 3 counts from -1..3",
    "thorough": "N <= 20 (NSB N <= 11)",
}
APPR = ("discrete", "miller_madow", "ansb", "bayes", "bonachela", "chao_shen", "chao_wang_jost",
        "grassberger", "nsb", "shrink", "zhang")
NAMES = {
    "plain": lambda k: list(range(k)),
    "array": lambda k: np.arange(k) * 7 - 9,
    "descending": lambda k: np.arange(k)[::-1] * 3,
    "text": lambda k: ["s" + "x" * (k - i) for i in range(k)],
    "floats": lambda k: np.arange(k) / 3 - 1,
    "tuple": lambda k: tuple(range(100, 100 + k)),
    "huge": lambda k: np.array([2**63 + i for i in range(k)], dtype=np.uint64),
}
TYPES = {
    "list": list,
    "tuple": tuple,
    "int64": lambda c: np.array(c, dtype=np.int64),
    "int32": lambda c: np.array(c, dtype=np.int32),
    "int16": lambda c: np.array(c, dtype=np.int16),
    "int8": lambda c: np.array(c, dtype=np.int8),
    "uint64": lambda c: np.array(c, dtype=np.uint64),
    "uint32": lambda c: np.array(c, dtype=np.uint32),
    "uint16": lambda c: np.array(c, dtype=np.uint16),
    "uint8": lambda c: np.array(c, dtype=np.uint8),
    "big endian": lambda c: np.array(c, dtype=">i4"),
    "strided": lambda c: np.repeat(np.array(c), 2)[::2],
    "read-only": lambda c: _ro(np.array(c)),
}
HUGE = (1, 2, 255, 256, 65535, 65536, 2**31, 2**40, 2**53 + 2, 2**60)
BASES = (2, "e", 10, 3, 2.5, 0.5)


def _ro(a):
    a.setflags(write=False)
    return a


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for a in APPR:
        top = (11 if th else 8) if a == "nsb" else (20 if th else 14)
        for n in range(1, top + 1):
            out.append(("counts", a, n))
        out.append(("types", a))
        out.append(("bases", a))
        if a not in ("nsb", "zhang", "bonachela", "chao_wang_jost"):
            for first in HUGE:
                out.append(("huge", a, first))
    out += [("container",), ("refusals",), ("frozen",)]
    return sorted(out, key=lambda t: (t[1:2] != ("nsb",), -t[2] if len(t) > 2 and isinstance(t[2], int) and t[0] == "counts" else 0))


def variants(a, n, k):
    if a == "ansb":
        return [{}, {"K": k + 2}] if n != k else [{}]
    if a == "bayes":
        return [{"alpha": v} for v in (0.5, 1.0, "sch-grass", "min-max")] + [{"alpha": 0.5, "K": k + 3}]
    if a == "nsb":
        return [{}, {"K": k + 1}]
    return [{}]


def value(rec, case, a, uniq, counts, **kw):
    cls = im.get_estimator_class(measure="entropy", approach=a)
    ok, est = rec.call(case, "estimator from counts", cls.from_counts, uniq, counts, **kw)
    if not ok:
        return False, None
    return rec.call(case, "value from counts", est.result)


def formula(a, c, kw, base="e"):
    if a == "discrete":
        return ref.h_discrete(c) / lnb(base)
    if a == "miller_madow":
        return ref.h_miller_madow(c) / lnb(base)
    return ref.DISCRETE[a][0](c, **kw) / lnb(base)


def orders(part, few):
    perms = list(dict.fromkeys(itertools.permutations(part))) if len(part) < 5 else [
        tuple(part[i:] + part[:i]) for i in range(len(part))
    ]
    return perms[:2] if few else perms[:24]


def compare(rec, case, a, exp, got, nt):
    rec.ev(nt)
    rec.traces += 1
    rec.outcome(got)
    rec.close(case, exp, got, f"{a} entropy from counts differs", 1e-7, 1e-9)


def counts(rec, a, n):
    for part in partitions(n):
        part = list(part)
        k = len(part)
        src = tuple(sorted(part))
        for v in sorted(set(part)):  # the model: one sample fewer
            less = list(part)
            less.remove(v)
            rec.edge((a, tuple(sorted(less + ([v - 1] if v > 1 else [])))), "sample", (a, src))
        for kw in variants(a, n, k):
            data = np.array(expand(part, 2)) + 5
            ok, exp = rec.call({"counts": part}, "value from samples", im.entropy, data, approach=a, **kw)
            if not ok:
                continue
            exp = float(exp)
            if a != "nsb":
                rec.close({"counts": part, "approach": a, **kw}, formula(a, dict(enumerate(part)), kw), exp,
                          "entropy of samples with these counts", 1e-7, 1e-9)
            for j, order in enumerate(orders(part, a == "nsb")):
                name = list(NAMES)[j % len(NAMES)]
                case = {"approach": a, "counts": order, "names": name, **kw}
                ok, got = value(rec, case, a, NAMES[name](k), list(order), **kw)
                if ok:
                    compare(rec, case, a, exp, got, k > 1)
    rec.sample({"approach": a, "n": n})


def types(rec, a):
    """Every container and integer type of the counts, up to its limits; every kind of name."""
    vectors = [(3, 1, 2), (1,), (5, 5), (1, 1, 1, 2), (100, 27, 1, 1), (127, 2), (128, 127, 1), (255, 1, 2), (200, 200),
               (32767, 1, 1), (40000, 3), (65535, 2, 1)]
    for vec in vectors:
        n, k = sum(vec), len(vec)
        if a == "nsb" and n > 20:
            continue
        for kw in variants(a, n, k)[:2]:
            exp = im.entropy(np.repeat(np.arange(k), vec), approach=a, **kw)
            for t, f in TYPES.items():
                if not fits(f, vec):
                    continue
                for name, g in NAMES.items() if t in ("list", "uint8") else list(NAMES.items())[:1]:
                    cs, us = f(vec), g(k)
                    keep = np.array(cs).tolist(), np.array(us).tolist()
                    case = {"approach": a, "counts": vec, "type": t, "names": name, **kw}
                    rec.node(a, vec, t, name)
                    ok, got = value(rec, case, a, us, cs, **kw)
                    if ok:
                        compare(rec, case, a, float(exp), got, k > 1)
                        rec.true((np.array(cs).tolist(), np.array(us).tolist()) == keep, case, keep,
                                 [cs, us], "the counts were modified")


def fits(f, vec):
    try:
        return tuple(int(v) for v in f(vec)) == vec
    except OverflowError:
        return False


def bases(rec, a):
    for vec in ((3, 1, 2), (1, 1, 4, 2), (6, 2), (5,)):
        n, k = sum(vec), len(vec)
        for kw in variants(a, n, k)[:2]:
            nats = im.entropy(np.repeat(np.arange(k), vec), approach=a, base="e", **kw)
            for b in BASES:
                case = {"approach": a, "counts": vec, "base": b, **kw}
                rec.node(a, vec, b)
                ok, got = value(rec, case, a, list(range(k)), list(vec), base=b, **kw)
                if ok:
                    compare(rec, case, a, float(nats) / lnb(b), got, k > 1)
            # without a base the configured default is used
            for b in (2, 10):
                im.Config.set("base", b)
                try:
                    case = {"approach": a, "counts": vec, "configured base": b, **kw}
                    ok, got = value(rec, case, a, list(range(k)), list(vec), **kw)
                finally:
                    im.Config.reset()
                if ok:
                    compare(rec, case, a, float(nats) / lnb(b), got, k > 1)


def huge(rec, a, first):
    if a == "chao_shen" and first > 2**40:
        rec.skipped += 1  # (1 - p)^N has no digits left in floating point
        return
    for k in (1, 2, 3):
        for rest in itertools.product(HUGE[:-2] if a == "chao_shen" else HUGE, repeat=k - 1):
            vec = (first, *rest)
            n = sum(vec)
            for kw in variants(a, n, k)[:3]:
                case = {"approach": a, "counts": vec, **kw}
                rec.node(a, vec)
                ok, got = value(rec, case, a, list(range(k)), list(vec), **kw)
                if ok:
                    rec.ev(k > 1)
                    rec.traces += 1
                    rec.outcome(got)
                    rec.close(case, formula(a, dict(enumerate(vec)), kw), got,
                              f"{a} entropy from counts differs from its formula", 1e-5, 1e-9)


# ------------------------------------------------------------------------- container
def container(rec):
    """All short sample sequences: the container is the histogram of what it read."""
    for n in range(1, 7):
        for seq in sequences(3, n):
            for f in (list, lambda s: np.array(s) * 2.5 - 1, lambda s: np.array(["b", "a", "cc"])[list(s)]):
                data = f(seq)
                rec.hist_state(seq)
                rec.ev(len(set(seq)) > 1)
                case = {"samples": seq}
                ok, d = rec.call(case, "container", DiscreteData.from_data, data)
                if not ok:
                    continue
                h = ref.hist(np.asarray(data).tolist())
                check(rec, case, d, h)
                rec.true(np.array_equal(d.data, np.asarray(data)), case, data, d.data, "the samples were not kept")
    for k in (1, 2, 3):
        for vec in itertools.product((1, 2, 7, 300), repeat=k):
            for name, g in NAMES.items():
                u = g(k)
                case = {"counts": vec, "names": name}
                rec.ev(k > 1)
                ok, d = rec.call(case, "container", DiscreteData.from_counts, u, vec)
                if ok:
                    check(rec, case, d, dict(zip(np.asarray(u).tolist(), vec)))
                    rec.true(d.data is None, case, None, d.data, "samples appeared from nowhere")


def check(rec, case, d, h):
    n = sum(h.values())
    got = dict(zip(np.asarray(d.uniq).tolist(), np.asarray(d.counts).tolist()))
    rec.true(got == dict(h) and len(d.uniq) == len(h), case, dict(h), got, "the counts of the symbols are wrong")
    rec.true(d.N == n and d.K == len(h), case, [n, len(h)], [d.N, d.K], "wrong number of samples or symbols")
    p = {u: c / n for u, c in h.items()}
    dist = {np.asarray(u).item(): float(v) for u, v in d.distribution_dict.items()}
    rec.true(dist.keys() == p.keys() and all(abs(dist[u] - p[u]) < 1e-12 for u in p), case, p, dist, "wrong probabilities")
    rec.true(abs(math.fsum(map(float, d.probabilities)) - 1) < 1e-9, case, 1, d.probabilities, "probabilities do not sum to one")


def refusals(rec):
    """All small combinations of symbols, counts and samples: accepted iff consistent."""
    for ku in range(0, 4):
        for kc in range(0, 4):
            for vec in itertools.product((-1, 0, 1, 3), repeat=kc):
                u = np.arange(ku)
                good = ku == kc and all(v >= 0 for v in vec) and sum(vec) > 0
                case = {"symbols": ku, "counts": vec}
                attempt(rec, case, good, lambda: DiscreteData.from_counts(u, np.array(vec, dtype=int)))
                attempt(rec, {**case, "estimator": True}, good,
                        lambda: im.get_estimator_class(measure="h", approach="bayes").from_counts(u, np.array(vec, dtype=int), alpha=1.0))
                if good:
                    for n in range(0, sum(vec) + 3):
                        attempt(rec, {**case, "samples": n}, n == sum(vec),
                                lambda: DiscreteData(uniq=u, counts=np.array(vec), data=np.zeros(n)))
    for bad in ([0.5, 0.5], [1.0, 2.0], np.array([1.5, 2]), [True, "a"]):
        attempt(rec, {"counts": bad}, False, lambda: DiscreteData.from_counts([1, 2], bad))
    for empty in ([], np.array([]), ()):
        attempt(rec, {"samples": "empty"}, False, lambda: DiscreteData.from_data(empty))


def attempt(rec, case, good, fn):
    rec.ev()
    rec.node(case)
    try:
        fn()
        got = "accepted"
    except Exception as exc:  # noqa: BLE001
        got = "refused" if isinstance(exc, (ValueError, TypeError)) else type(exc).__name__
    rec.outcome(got)
    rec.true(got == ("accepted" if good else "refused"), case, "accepted" if good else "refused", got,
             "consistency of symbols, counts and samples")


def frozen(rec):
    d = DiscreteData.from_counts([1, 2], [3, 4])
    for name in ("uniq", "counts", "N", "K", "data"):
        rec.ev()
        rec.node(name)
        try:
            setattr(d, name, 1)
            got = "assigned"
        except AttributeError:
            got = "refused"
        rec.true(got == "refused", {"attribute": name}, "refused", got, "the container can be changed")
    # the caller's array is the caller's: estimators do not follow or change it
    for a in APPR:
        c = np.array([3, 1, 2], dtype=np.int32)
        kw = {"alpha": 1.0} if a == "bayes" else {}
        est = im.get_estimator_class(measure="h", approach=a).from_counts([1, 2, 3], c, **kw)
        est.result()
        rec.ev()
        rec.true(c.tolist() == [3, 1, 2], {"approach": a}, [3, 1, 2], c, "the counts were modified")
