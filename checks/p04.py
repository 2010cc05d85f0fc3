"""P04 - Jensen-Shannon divergence."""

import itertools
import math

import infomeasure as im
import numpy as np

from checks.p03 import compositions
from mc import cases, ref
from mc.lib import ENCODINGS, expand, lnb, long_streams, rgs, shape_counts

LEVEL = "exploration"
RULE = (
    "all pairs (triples) of count vectors over a common alphabet, all argument orders, "
    "every estimator offering the divergence. Non-trivial: the distributions differ."
)
ASSUMPTIONS = ["floating point agreement within 1e-9"]
BOUNDS = {
    "quick": "pairs: 3 symbols 1..5 samples, 4 symbols 1..3; triples: 3 symbols 1..3; "
    "4 to 6 distributions out of 4 histograms; ordinal series over 3 values, lengths "
    "together at most 8, 3 to 5 of 4 series; kernel samples in 1 and 2 dimensions; larger shapes"
        "; mixed kinds; one object given twice"
        "; aliased arguments",
    "thorough": "pairs: 4 symbols 1..6; triples: 3 symbols 1..4; quadruples 1..3; 4 to 7 of 4; "
    "ordinal series over 3 values, lengths together at most 10",
}
APPR = (
    [("discrete", {}), ("shrink", {})]
    + [
        ("bayes", {"alpha": a})
        for a in (0.0, 0.5, 1.0, "jeffrey", "laplace", "sch-grass", "min-max")
    ]
    + [("bayes", {"alpha": 0.5, "K": 7})]
)

# moves of P23 that must not matter here either
SHARED = [("aliases", "jsd", a) for a in cases.JSD]


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    k, m = (4, 6) if th else (3, 5)
    for n in range(1, m + 1):
        for n2 in range(1, m + 1):
            out.append(("tuples", k, (n, n2)))
    if not th:
        for n in (1, 2, 3):
            for n2 in (1, 2, 3):
                out.append(("tuples", 4, (n, n2)))
    for ns in itertools.product(range(1, 5 if th else 4), repeat=3):
        out.append(("tuples", 3, ns))
    if th:
        for ns in itertools.product(range(1, 4), repeat=4):
            out.append(("tuples", 3, ns))
    for a in range(len(APPR)):
        out.append(("large", a))
        out.append(("rare", a))
    for enc in ENCODINGS:
        out.append(("encodings", enc))
    for n in range(1, (7 if th else 6)):
        for n2 in range(1, n + 1):
            for d in (1, 2, 3):
                if d <= n2 and n + n2 <= (10 if th else 8):
                    out.append(("ordinal", n, n2, d))
    out.append(("kernel",))
    out.append(("kernel_many",))
    for m in range(4, 8 if th else 7):
        for first in range(4):
            out.append(("many", m, first))
    for m in (3, 4, 5):
        out.append(("ordinal_many", m))
    out.append(("bases",))
    out.append(("mixed",))
    for m in (2, 3, 4):
        out.append(("alias", m))
    return out


def dist(approach, kw, c):
    if approach == "discrete":
        return ref.probs(c)
    if approach == "shrink":
        return ref.shrink_probs(c)
    return ref.p_bayes(c, **kw)


def one(rec, approach, kw, seqs, data, case, base="e", mono=True):
    dists = [dist(approach, kw, ref.hist(s)) for s in seqs]
    exp = ref.jsd_of(dists) / lnb(base)
    differ = any(d != dists[0] for d in dists)
    ok, got = rec.call(
        case,
        "JSD",
        im.jensen_shannon_divergence,
        *data,
        approach=approach,
        base=base,
        **kw,
    )
    if not ok:
        return
    rec.ev(differ)
    rec.outcome(got)
    rec.close(case, exp, got, f"{approach} JSD differs from H(mixture) - mean H")
    if approach in ("discrete", "shrink") and lnb(base) > 0:
        rec.true(
            -1e-9 <= got * lnb(base) <= math.log(len(seqs)) + 1e-9,
            case,
            "0 <= JSD <= log(number of distributions)",
            got,
            "JSD out of bounds",
        )
        if not differ:
            rec.close(case, 0.0, got, "JSD of equal distributions is not 0")
    if approach == "discrete":
        supports = [set(d) for d in dists]
        if all(not (a & b) for a, b in itertools.combinations(supports, 2)):
            rec.close(
                case,
                math.log(len(seqs)) / lnb(base),
                got,
                "JSD of disjoint supports is not log(number of distributions)",
            )


KINDS = {
    "int": lambda s: np.array(s),
    "int8": lambda s: np.array(s, np.int8),
    "float": lambda s: np.array(s, float),
    "bool": lambda s: np.array([v > 0 for v in s]),
    "str": lambda s: np.array([str(v) for v in s]),
    "list of str": lambda s: ["s%d" % v for v in s],
    "list": list,
}


def mixed(rec):
    """Samples whose symbols are of different types: only equal symbols are shared."""
    hs = [(2, 1), (0, 3), (1, 1)]
    for m in (2, 3):
        for kinds in itertools.product(KINDS, repeat=m):
            for pick in itertools.product(hs, repeat=m):
                data = [KINDS[k](expand(c)) for k, c in zip(kinds, pick)]
                seqs = [v if isinstance(v, list) else v.tolist() for v in data]
                for approach, kw in APPR[:2] + APPR[3:4]:
                    case = {"types": kinds, "counts": pick, "approach": approach, **kw}
                    one(rec, approach, kw, seqs, data, case)


def alias(rec, m):
    """The very same array (or list) object given several times."""
    for pick in itertools.product(range(4), repeat=m):
        if len(set(pick)) == m:
            continue
        for make in (np.array, list):
            objs = [make(expand(c)) for c in FEW]
            for approach, kw in APPR[:2] + APPR[3:4] + APPR[-1:]:
                case = {"histograms": [FEW[i] for i in pick], "same object": True, "approach": approach, **kw}
                one(rec, approach, kw, [list(objs[i]) for i in pick], [objs[i] for i in pick], case)
        objs = [np.array(x, float) for x in SERIES]
        dists = [ref.probs(ref.hist(ref.ordinal_patterns(SERIES[i], 2))) for i in pick]
        case = {"series": [SERIES[i] for i in pick], "same object": True}
        ok, got = rec.call(
            case, "ordinal JSD", im.jsd, *[objs[i] for i in pick], approach="ordinal", embedding_dim=2, stable=True
        )
        if ok:
            rec.ev(any(p != dists[0] for p in dists))
            rec.close(case, ref.jsd_of(dists), got, "ordinal JSD of one object given twice")
        objs = [np.array(x, float) for x in POINTS]
        exp = kernel_jsd("box", [[(v,) for v in POINTS[i]] for i in pick], 1.5)
        case = {"samples": [POINTS[i] for i in pick], "same object": True}
        ok, got = rec.call(
            case, "kernel JSD", im.jsd, *[objs[i] for i in pick], approach="kernel", kernel="box", bandwidth=1.5
        )
        if ok:
            rec.ev()
            rec.close(case, exp, got, "kernel JSD of one object given twice", rtol=1e-7, atol=1e-8)


POINTS = [(0, 1, 1), (2, 0, 3, 3), (5, 4), (1, 9, 2)]


def kernel_jsd(kern, data, bw):
    """Entropy of the pooled samples minus the mean entropy, None where it is undefined."""

    def h(sample):
        dens = ref.density(kern, sample, bw)
        if dens is None:
            return None
        return -math.fsum(math.log(v) for v in dens) / len(sample)

    parts = [h(s) for s in data]
    whole = h([q for s in data for q in s])
    return None if whole is None or None in parts else whole - math.fsum(parts) / len(data)


def tuples(rec, k, ns):
    for cs in itertools.product(*[list(compositions(n, k)) for n in ns]):
        seqs = [expand(c, i % 3) for i, c in enumerate(cs)]
        data = [s if i % 2 else np.array(s) for i, s in enumerate(seqs)]
        appr = APPR if len(ns) == 2 and k == 3 else APPR[:2] + APPR[3:4] + APPR[-2:]
        for approach, kw in appr:
            one(
                rec,
                approach,
                kw,
                seqs,
                data,
                {"counts": cs, "approach": approach, **kw},
            )
    rec.sample({"k": k, "ns": ns})


FEW = [(2, 1, 0), (0, 1, 3), (1, 1, 1), (0, 0, 2)]


def many(rec, m, first):
    """All m-tuples out of four histograms, so every position meets every distribution."""
    for rest in itertools.product(range(4), repeat=m - 1):
        pick = (first, *rest)
        seqs = [expand(FEW[i], j % 3) for j, i in enumerate(pick)]
        data = [np.array(s) for s in seqs]
        for approach, kw in APPR[:2] + APPR[3:4] + APPR[-1:]:
            case = {"histograms": [FEW[i] for i in pick], "approach": approach, **kw}
            one(rec, approach, kw, seqs, data, case)


SERIES = [(0, 1, 2, 1, 3), (2, 1, 0, 1), (1, 1, 2, 0, 0, 3), (0, 2, 1, 3)]


def ordinal_many(rec, m):
    for pick in itertools.product(SERIES, repeat=m):
        for d, step in ((2, 1), (3, 1), (2, 2)):
            dists = [ref.probs(ref.hist(ref.ordinal_patterns(x, d, step))) for x in pick]
            case = {"series": pick, "dim": d, "step": step}
            ok, got = rec.call(
                case,
                "ordinal JSD",
                im.jsd,
                *[np.array(x, float) for x in pick],
                approach="ordinal",
                embedding_dim=d,
                step_size=step,
                stable=True,
            )
            if ok:
                rec.ev(any(p != dists[0] for p in dists))
                rec.close(
                    case,
                    ref.jsd_of(dists),
                    got,
                    "ordinal JSD differs from pattern distributions",
                )


def kernel_many(rec):
    """Kernel JSD of several samples, in one and two dimensions, both kernels."""
    pts1 = [[(0,), (1,), (1,)], [(2,), (0,), (3,), (3,)], [(5,), (4,)], [(1,), (9,), (2,)]]
    pts2 = [
        [(0, 0), (1, 2), (1, 0), (3, 1)],
        [(2, 1), (0, 1), (3, 3)],
        [(5, 0), (4, 4), (4, 1)],
        [(1, 9), (9, 2), (2, 2)],
    ]
    for pts, m in itertools.product((pts1, pts2), (2, 3, 4, 5, 6)):
        if m > 4:  # one point of each kind, and every single pick repeated
            picks = [tuple((i + j * s) % 4 for j in range(m)) for i in range(4) for s in range(4)]
        else:
            picks = itertools.product(range(4), repeat=m)
        for pick in picks:
            for kern, bw in (("box", 1.5), ("box", 4.5), ("gaussian", 0.8)):
                data = [pts[i] for i in pick]
                exp = kernel_jsd(kern, data, bw)
                if exp is None:
                    rec.skipped += 1
                    continue
                case = {"samples": data, "kernel": kern, "bandwidth": bw}
                arrs = [np.array(s, float) for s in data]
                if pts is pts1:
                    arrs = [a[:, 0] for a in arrs]
                ok, got = rec.call(
                    case, "kernel JSD", im.jsd, *arrs, approach="kernel", kernel=kern, bandwidth=bw
                )
                if ok:
                    rec.ev()
                    rec.close(case, exp, got, "kernel JSD differs", rtol=1e-7, atol=1e-8)


def encodings(rec, enc):
    f = ENCODINGS[enc]
    for n, n2 in itertools.product(range(1, 4), repeat=2):
        for joint in rgs(n + n2, 5):
            for approach, kw in APPR[:4]:
                seqs = [joint[:n], joint[n:]]
                one(
                    rec,
                    approach,
                    kw,
                    seqs,
                    [f(s) for s in seqs],
                    {
                        "p": seqs[0],
                        "q": seqs[1],
                        "enc": enc,
                        "approach": approach,
                        **kw,
                    },
                )
    for n, k, seqs in long_streams(3):
        for approach, kw in APPR[:4]:
            for group in (seqs[:2], [seqs[0], seqs[1][: n // 2], seqs[2]]):
                case = {"lcg": (n, k), "samples": len(group), "enc": enc, "approach": approach, **kw}
                one(rec, approach, kw, group, [f(s) for s in group], case)


def rare(rec, a):
    """Symbols of very small probability count as any other."""
    approach, kw = APPR[a]
    for n in (3000, 30000):
        for n2 in (40, n // 3, n + 7):
            for k in (1, 3, 12):
                p = [0] * (n - k) + list(range(1, k + 1))
                q = [0] * (n2 - 2 * k) + list(range(2, k + 2)) + list(range(k + 1, 2 * k + 1))
                r = [1] * n2
                case = {"n": (n, n2), "rare": k, "approach": approach, **kw}
                one(rec, approach, kw, [p, q], [np.array(p), np.array(q)], case)
                one(rec, approach, kw, [q, p], [np.array(q), np.array(p)], case)
                one(rec, approach, kw, [p, q, r], [np.array(p), np.array(q), np.array(r)], {**case, "third": True})


def large(rec, a):
    approach, kw = APPR[a]
    for n in (20, 127, 128, 256, 1000):
        for n2 in (5, n, 3 * n):
            for k in (2, 5, 40, 129, 300):
                if k > n or k > n2:
                    continue
                for s1, s2 in itertools.product(
                    ("uniform", "geometric", "pairs"), repeat=2
                ):
                    for shift in (0, k // 2, k):
                        p = expand(shape_counts(n, k, s1), 0)
                        q = [v + shift for v in expand(shape_counts(n2, k, s2), 1)]
                        r = [v + 2 * shift for v in expand(shape_counts(n, k, s2), 0)]
                        case = {
                            "n": (n, n2),
                            "k": k,
                            "shapes": (s1, s2),
                            "shift": shift,
                            "approach": approach,
                            **kw,
                        }
                        one(rec, approach, kw, [p, q], [np.array(p), np.array(q)], case)
                        one(
                            rec,
                            approach,
                            kw,
                            [p, q, r],
                            [np.array(p), np.array(q), np.array(r)],
                            {**case, "third": True},
                        )


def bases(rec):
    for cs in itertools.product(list(compositions(3, 3)), repeat=2):
        for base in (2, 10, 3, 0.5):
            for approach, kw in APPR:
                seqs = [expand(c) for c in cs]
                one(
                    rec,
                    approach,
                    kw,
                    seqs,
                    seqs,
                    {"counts": cs, "base": base, "approach": approach, **kw},
                    base,
                )


def ordinal(rec, n, n2, d):
    """All pairs of short series; patterns of the series are the distributions."""
    second = list(itertools.product(range(3), repeat=n2))
    for x in itertools.product(range(3), repeat=n):
        px = ref.hist(ref.ordinal_patterns(x, d))
        for y in second:
            py = ref.hist(ref.ordinal_patterns(y, d))
            case = {"x": x, "y": y, "dim": d}
            exp = ref.jsd_of([ref.probs(px), ref.probs(py)])
            ok, got = rec.call(
                case,
                "ordinal JSD",
                im.jsd,
                list(x),
                np.array(y),
                approach="ordinal",
                embedding_dim=d,
                stable=True,
            )
            if ok:
                rec.ev(px != py)
                rec.outcome(got)
                rec.close(
                    case, exp, got, "ordinal JSD differs from pattern distributions"
                )
    rec.sample({"n": n, "n2": n2, "dim": d})


def kernel(rec):
    """Kernel JSD: entropy of the pooled data minus the mean entropy."""

    def h(pts, bw):
        n = len(pts)
        out = []
        for a in pts:
            c = sum(1 for b in pts if abs(a - b) <= bw / 2)
            out.append(-math.log(c / (n * bw)))
        return math.fsum(out) / n

    for n, n2 in itertools.product((2, 3, 4), repeat=2):
        for x in itertools.combinations_with_replacement(range(4), n):
            for y in itertools.combinations_with_replacement(range(1, 5), n2):
                for bw in (1, 3):
                    case = {"x": x, "y": y, "bandwidth": bw}
                    X, Y = np.array(x, float), np.array(y, float)
                    exp = h(x + y, bw) - (h(x, bw) + h(y, bw)) / 2
                    ok, got = rec.call(
                        case,
                        "kernel JSD",
                        im.jsd,
                        X,
                        Y,
                        approach="kernel",
                        kernel="box",
                        bandwidth=bw,
                    )
                    if ok:
                        rec.ev()
                        rec.close(case, exp, got, "kernel JSD differs")
                    ok, got2 = rec.call(
                        case,
                        "kernel JSD",
                        im.jsd,
                        Y,
                        X,
                        approach="kernel",
                        kernel="box",
                        bandwidth=bw,
                    )
                    if ok:
                        rec.close(case, exp, got2, "kernel JSD is not symmetric")
