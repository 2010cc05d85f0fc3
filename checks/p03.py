"""P03 - cross-entropy and Kullback-Leibler divergence of discrete samples."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, ref
from mc.lib import ENCODINGS, expand, lcg, lnb, long_streams, m_kw, partitions, rgs, shape_counts

LEVEL = "exploration"
RULE = (
    "all pairs of count vectors over a common alphabet (so including partially and fully "
    "disjoint supports and unequal sample sizes), for every estimator offering "
    "cross-entropy, in several orders and dtypes. Non-trivial: some common symbol and "
    "the two distributions differ."
)
ASSUMPTIONS = ["floating point agreement within 1e-9"]
BOUNDS = {
    "quick": "4 symbols, 1..5 x 1..5 samples, together at most 8 (all count vectors); bases; larger shapes"
        "; mixed kinds of the two samples; KLD = cross-entropy - entropy for every approach, on up to 300 samples in 1 to 3 dimensions"
        "; symbols at every type limit, aliased arguments",
    "thorough": "4 symbols, 1..7 x 1..7 samples; 5 symbols 1..4; larger shapes",
}

APPR = {
    "discrete": ({}, lambda p, q, **k: ref.hx_discrete(p, q)),
    "miller_madow": ({}, lambda p, q, **k: ref.hx_miller_madow(p, q)),
    "mm": ({}, lambda p, q, **k: ref.hx_miller_madow(p, q)),
}
H = {
    "discrete": ref.h_discrete,
    "miller_madow": ref.h_miller_madow,
    "mm": ref.h_miller_madow,
    "bayes": ref.h_bayes,
}


def bayes_kws():
    for a in (0.0, 0.5, 1.0, 2, "jeffrey", "laplace", "sch-grass", "min-max"):
        yield {"alpha": a}
        if a in (0.5, "sch-grass", "min-max"):
            yield {"alpha": a, "K": 4}
            yield {"alpha": a, "K": 9}


def combos(full=True):
    for a in ("discrete", "miller_madow") + (("mm",) if full else ()):
        yield a, {}
    for kw in bayes_kws():
        yield "bayes", kw


def compositions(n, k):
    """All count vectors of n samples over k symbols."""
    if k == 1:
        yield (n,)
        return
    for v in range(n + 1):
        for rest in compositions(n - v, k - 1):
            yield (v,) + rest


UNEVEN = (1, 2, 3, 5, 9, 17, 33, 65, 129, 257, 1000)

# moves of P23 that must not matter here either
SHARED = [*((kind, "hx", a) for kind in ("boundaries", "aliases") for a in ("discrete", "miller_madow", "bayes")), *(("aliases", "kld", a) for a in ("discrete", "miller_madow", "bayes"))]


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    k, m = (4, 7) if th else (4, 5)
    for n in range(1, m + 1):
        for n2 in range(1, m + 1):
            if th or n + n2 <= 8:
                out.append(("pairs", k, n, n2))
    if th:
        for n in range(1, 5):
            for n2 in range(1, 5):
                out.append(("pairs", 5, n, n2))
    for enc in ENCODINGS:
        out.append(("encodings", enc, 5 if th else 4))
    out.append(("bases",))
    for n in (30, 127, 128, 255, 256, 300, 1000) + ((5000,) if th else ()):
        out.append(("large", n))
    out.append(("multidim",))
    out += [("crowd", n) for n in ((40000, 90001) if th else (90001,))]
    for kp in UNEVEN + ((5000,) if th else ()):
        out.append(("uneven", kp))
    out.append(("identity",))
    for n, m in ((40, 25), (90, 200), (300, 300)) + (((700, 400),) if th else ()):
        for d in (1, 2, 3):
            out.append(("identity_long", n, m, d))
    out.append(("mixed",))
    return out


def one(rec, approach, kw, sp, sq, dp, dq, case, base="e"):
    cp, cq = ref.hist(sp), ref.hist(sq)
    b = lnb(base)
    if approach == "bayes":
        exp = ref.hx_bayes(cp, cq, **kw)
        hp = ref.h_bayes(cp, **kw)
    else:
        exp = APPR[approach][1](cp, cq)
        hp = H[approach](cp)
    nontriv = bool(set(cp) & set(cq)) and ref.probs(cp) != ref.probs(cq)
    ok, got = rec.call(
        case,
        "cross-entropy",
        im.cross_entropy,
        dp,
        dq,
        approach=approach,
        base=base,
        **kw,
    )
    if ok:
        rec.ev(nontriv)
        rec.outcome(got)
        rec.close(
            case, exp / b, got, f"{approach} cross-entropy differs from -sum p log q"
        )
    ok, got = rec.call(
        case,
        "KLD",
        im.kullback_leiber_divergence,
        dp,
        dq,
        approach=approach,
        base=base,
        **kw,
    )
    if ok:
        rec.ev(nontriv)
        rec.close(
            case, (exp - hp) / b, got, f"{approach} KLD differs from H_Q(P) - H(P)"
        )
        if approach == "discrete" and set(cp) <= set(cq) and lnb(base) > 0:
            rec.true(
                got >= -1e-9, case, ">= 0", got, "KLD negative although Q covers P"
            )
            if ref.probs(cp) == ref.probs(cq):
                rec.close(case, 0.0, got, "KLD of equal distributions is not 0")


def pairs(rec, k, n, n2):
    cq_all = list(compositions(n2, k))
    for a in compositions(n, k):
        sp = expand(a, 2)
        for b in cq_all:
            sq = expand(b, 1)
            for approach, kw in combos(False):
                case = {"p": a, "q": b, "approach": approach, **kw}
                one(rec, approach, kw, sp, sq, sp, np.array(sq), case)
    rec.sample({"k": k, "n": n, "n2": n2})


def encodings(rec, enc, nmax):
    """The two samples share an encoding; results depend on the symbols only."""
    f = ENCODINGS[enc]
    for n in range(1, nmax + 1):
        for n2 in range(1, nmax + 1):
            for joint in rgs(n + n2, 5):
                sp, sq = joint[:n], joint[n:]
                for approach, kw in (
                    ("discrete", {}),
                    ("miller_madow", {}),
                    ("bayes", {"alpha": 0.5}),
                ):
                    case = {"p": sp, "q": sq, "enc": enc, "approach": approach}
                    one(rec, approach, kw, sp, sq, f(sp), f(sq), case)
        if n * 2 > 6:
            break
    for n, k, (x, y) in long_streams(2):
        for approach, kw in (("discrete", {}), ("miller_madow", {}), ("bayes", {"alpha": "min-max"})):
            for q in (y, y[: n // 2 + 1]):
                case = {"lcg": (n, k), "nq": len(q), "enc": enc, "approach": approach}
                one(rec, approach, kw, x, q, f(x), f(q), case)


def bases(rec):
    for a in compositions(4, 3):
        for b in compositions(3, 3):
            for base in (2, 10, 3, 2.5, 0.5):
                for approach, kw in combos():
                    case = {"p": a, "q": b, "approach": approach, "base": base, **kw}
                    one(
                        rec,
                        approach,
                        kw,
                        expand(a),
                        expand(b),
                        expand(a),
                        expand(b),
                        case,
                        base,
                    )


def crowd(rec, n):
    """Tens of thousands of different symbols."""
    u = [i if i % 11 else i // 2 for i in range(n)]
    for name, q in (("shifted", [v + n // 3 for v in u]), ("few", [v % 300 for v in u]), ("thinned", u[:: 3]),
                    ("reversed", u[::-1][: n // 2]), ("powers", [v + 65536 for v in u])):
        for approach, kw in (("discrete", {}), ("miller_madow", {}), ("bayes", {"alpha": "min-max"})):
            case = {"n": n, "second": name, "approach": approach}
            rec.node("crowd", n, name, approach)
            one(rec, approach, kw, u, q, np.array(u), np.array(q), case)
            one(rec, approach, kw, q, u, np.array(q), np.array(u), {**case, "exchanged": True})
            if approach == "discrete":
                names = [np.array([f"n{v}" for v in s]) for s in (u, q)]
                one(rec, approach, kw, u, q, *names, {**case, "names": True})


def large(rec, n):
    for n2 in (1, n - 1, n, 2 * n + 1):
        for k in (2, 5, 128, 300, n):
            if k > n:
                continue
            for s1, s2 in itertools.product(
                ("uniform", "geometric", "linear"), repeat=2
            ):
                for shift in (0, k // 2, k):
                    sp = expand(shape_counts(n, k, s1), 2 if n < 300 else 0)
                    kk = min(k, n2)
                    sq = [v + shift for v in expand(shape_counts(n2, kk, s2), 1)]
                    for approach, kw in (
                        ("discrete", {}),
                        ("miller_madow", {}),
                        ("bayes", {"alpha": "min-max"}),
                    ):
                        case = {
                            "n": n,
                            "n2": n2,
                            "k": k,
                            "shapes": (s1, s2),
                            "shift": shift,
                            "approach": approach,
                        }
                        one(rec, approach, kw, sp, sq, np.array(sp), np.array(sq), case)


def uneven(rec, kp):
    """Alphabets of very different sizes, sharing symbols at every end or in between."""
    for kq in UNEVEN:
        for where in ("start", "middle", "end", "interleaved", "edge"):
            big, small = max(kp, kq), min(kp, kq)
            if where == "interleaved":
                gap = max(1, big // small)
                few = [v * gap for v in range(small)]
            else:
                lo = {"start": 0, "middle": (big - small) // 2, "end": big - small, "edge": big - 1}[where]
                few = [lo + v for v in range(small)]
            many = list(range(big))
            ap, aq = (many, few) if kp >= kq else (few, many)
            for cp, cq in ((1, 1), (2, 3)):
                sp = [v for i, v in enumerate(ap) for _ in range(1 + (i * cp) % 3)]
                sq = [v for i, v in enumerate(aq) for _ in range(1 + (i * cq) % 4)]
                for approach, kw in (("discrete", {}), ("miller_madow", {}), ("bayes", {"alpha": 0.5})):
                    case = {"symbols": [kp, kq], "overlap": where, "counts": [cp, cq], "approach": approach}
                    rec.node("uneven", kp, kq, where, cp, cq, approach)
                    one(rec, approach, kw, sp, sq, np.array(sp), sq, case)


def multidim(rec):
    """Strings, mixed alphabets and different integer widths of the two samples."""
    for n in range(1, 5):
        for n2 in range(1, 5):
            for joint in rgs(n + n2, 4):
                sp, sq = joint[:n], joint[n:]
                dp = np.array(sp, dtype=np.int8)
                for dq in (
                    np.array(sq, dtype=np.int64),
                    np.array(sq, dtype=float),
                    list(sq),
                ):
                    case = {
                        "p": sp,
                        "q": sq,
                        "q type": str(getattr(dq, "dtype", "list")),
                    }
                    one(rec, "discrete", {}, sp, sq, dp, dq, case)


def mixed(rec):
    """Symbols of different types in the two samples: only equal symbols are shared."""
    from checks.p04 import KINDS

    hs = [(2, 1), (0, 3), (1, 1), (1, 2)]
    for kinds in itertools.product(KINDS, repeat=2):
        for pick in itertools.product(hs, repeat=2):
            data = [KINDS[k](expand(c)) for k, c in zip(kinds, pick)]
            seqs = [v if isinstance(v, list) else v.tolist() for v in data]
            for approach, kw in (("discrete", {}), ("miller_madow", {}), ("bayes", {"alpha": 0.5})):
                case = {"types": kinds, "counts": pick, "approach": approach}
                one(rec, approach, kw, *seqs, *data, case)


def identity_long(rec, n, m, d):
    """The same for long and multi-dimensional samples of every numeric approach."""
    col = lambda s, q: [v / 9973 * q for v in lcg(s, n if s < 9 else m, 10**6)]  # noqa: E731
    p = np.array([col(i + 1, 1 + i) for i in range(d)]).T
    q = np.array([col(i + 10, 2 - i) for i in range(d)]).T
    rec.node("identity_long", n, m, d)
    pats = (np.array(lcg(5, n, 10**6)), np.array(lcg(6, m, 10**6)))
    cases = []
    for k in (1, 4, 9):
        for mp in (2, math.inf):
            cases.append(("metric", dict(k=k, minkowski_p=mp, noise_level=0)))
        for al in (0.5, 1, 1.3, 2):
            cases.append(("renyi", dict(k=k, alpha=al)))
            cases.append(("tsallis", dict(k=k, q=al)))
    for bw in (5, 40.0, 150):
        for kern in ("box", "gaussian"):
            cases.append(("kernel", {"bandwidth": bw, "kernel": kern}))
    if d == 1:
        for dim, step in ((2, 1), (3, 2), (4, 1), (5, 1)):
            cases.append(("ordinal", {"embedding_dim": dim, "step_size": step}))
    for i, (a, kw) in enumerate(cases):
        base = ("e", 2, 10)[i % 3]
        for u, v in (pats, pats[::-1]) if a == "ordinal" else ((p, q), (q, p), (p, p)):
            case = {"approach": a, **kw, "samples": [len(u), len(v)], "dim": d, "base": base}
            ok1, hx = rec.call(case, "hx", im.hx, u, v, approach=a, base=base, **kw)
            ok2, h = rec.call(case, "h", im.h, u, approach=a, base=base, **kw)
            ok3, kl = rec.call(case, "kld", im.kld, u, v, approach=a, base=base, **kw)
            if ok1 and ok2 and ok3 and math.isfinite(hx):
                rec.ev()
                rec.traces += 1
                rec.outcome(kl)
                rec.close(case, hx - h, kl, "KLD differs from cross-entropy minus entropy")
    rec.sample({"samples": [n, m], "dim": d})


def identity(rec):
    """KLD is cross-entropy minus entropy for every approach that has both."""
    x = [0.5, 2.0, 3.25, 1.0, 7.5, 4.0, 2.75, 9.0, 6.0]
    y = [1.5, 0.25, 3.0, 8.0, 2.25, 5.0, 6.5, 4.5, 0.0, 7.0, 3.5]
    xi, yi = [0, 1, 2, 0, 1, 1, 0, 2], [0, 1, 0, 3, 1, 2, 2]
    cases = []
    for k in (1, 2, 3, 4):
        for p in (2, math.inf):
            for kid in (1, 2):
                cases.append(
                    (
                        "metric",
                        {"k": k, "minkowski_p": p, "noise_level": 0, "ksg_id": kid},
                        x,
                        y,
                    )
                )
        for al in (0.5, 1, 1.5, 2):
            cases.append(("renyi", {"k": k, "alpha": al}, x, y))
            cases.append(("tsallis", {"k": k, "q": al}, x, y))
    for bw in (0.5, 1.5, 4):
        for kern in ("box", "gaussian"):
            cases.append(("kernel", {"bandwidth": bw, "kernel": kern}, x, y))
    for d in (2, 3, 4):
        cases.append(("ordinal", {"embedding_dim": d, "stable": True}, x, y))
        cases.append(("ordinal", {"embedding_dim": d, "stable": True}, xi, yi))
    for a, kw in combos():
        cases.append((a, kw, xi, yi))
    for a, kw, p, q in cases:
        for base in ("e", 2, 10):
            for u, v, same in ((p, q, 0), (q, p, 0), (p, p, 0), (p, p, 1), (q, q, 1)):
                case = {"approach": a, **kw, "p": u, "q": v, "base": base, "same object": same}
                u2 = np.array(u)
                v2 = u2 if same else np.array(v)
                ok1, hx = rec.call(
                    case, "hx", im.hx, u2, v2, approach=a, base=base, **kw
                )
                ok2, h = rec.call(case, "h", im.h, u2, approach=a, base=base, **kw)
                ok3, kl = rec.call(
                    case, "kld", im.kld, u2, v2, approach=a, base=base, **kw
                )
                if ok1 and ok2 and ok3:
                    rec.ev()
                    rec.outcome(kl)
                    rec.close(
                        case, hx - h, kl, "KLD differs from cross-entropy minus entropy"
                    )
