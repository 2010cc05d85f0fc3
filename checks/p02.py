"""P02 - bias-corrected, shrinkage and Bayesian entropies equal their published formulas."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.core import same
from mc.lib import ENCODINGS, expand, lcg, lnb, long_streams, partitions, rgs, shape_counts

LEVEL = "exploration"
RULE = (
    "all count vectors (integer partitions) of N samples up to the bound, for every "
    "estimator and parameter choice, realised as samples in several orders and dtypes "
    "and as joint variables; plus a fixed grid of larger count shapes. Non-trivial: at "
    "least two distinct symbols."
)
ASSUMPTIONS = [
    "closed forms evaluated in double precision; tolerance 1e-8 relative",
    "NSB reference integrates numerically (Gauss-Legendre in log beta)",
]
BOUNDS = {
    "quick": "partitions of N <= 15; NSB N <= 9; all streams up to renaming to N=5 in 36 encodings; larger shapes to N=2000"
    "; joint entropy of 5 to 12 variables"
        "; symbols at every type limit, aliased arguments",
    "thorough": "partitions of N <= 22; NSB N <= 13; larger shapes to N=20000",
}

LOCAL = {"miller_madow", "grassberger", "shrink", "zhang"}
ALPHAS = [0.0, 0.1, 0.5, 1.0, 2, 7.5, "jeffrey", "laplace", "sch-grass", "min-max"]


def variants(approach, n, k):
    """Parameter choices for one count vector."""
    if approach == "ansb":
        ks = [None, k, k + 1, max(1, k - 1), n - 1, n]
        return [{"K": q} for q in dict.fromkeys(ks) if q is None or q >= 1]
    if approach == "bayes":
        out = [{"alpha": a} for a in ALPHAS]
        out += [
            {"alpha": a, "K": q}
            for a in (0.5, "sch-grass", "min-max")
            for q in (k, k + 1, k + 10)
        ]
        return out
    if approach == "nsb":
        return [{}, {"K": k + 1}, {"K": 2 * k + 3}]
    return [{}]


CLOSED = [
    "miller_madow",
    "ansb",
    "bayes",
    "bonachela",
    "chao_shen",
    "chao_wang_jost",
    "grassberger",
    "shrink",
    "zhang",
]


MANYVARS = (('miller_madow', ('h',)), ('bayes', ('h',)), ('shrink', ('h',)), ('chao_shen', ('h',)), ('chao_wang_jost', ('h',)), ('grassberger', ('h',)), ('zhang', ('h',)), ('bonachela', ('h',)), ('ansb', ('h',)))

# moves of P23 that must not matter here either
SHARED = [(kind, m, a) for kind in ("boundaries", "aliases") for m, a in cases.combos(("h", "hj"), [a for a in cases.APPROACHES if a not in (*cases.CONT, "discrete", "ordinal", "nsb")])]


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for a in CLOSED:
        for n in range(1, (22 if th else 15) + 1):
            out.append(("counts", a, n))
        for n in (20, 40, 81, 127, 128, 200, 256, 500, 1000, 2000) + (
            (5000, 20000) if th else ()
        ):
            if a in ("zhang", "bonachela") and n > 5000:
                continue
            out.append(("large", a, n))
        out.append(("jointforms", a, 9 if th else 7))
        out.append(("bases", a))
        out.append(("encodings", a, 6 if th else 5))
    for a in CLOSED:
        for first in CELLS:
            out.append(("huge", a, first))
    for n in range(1, (13 if th else 9) + 1):
        out.append(("nsb", n))
    out.append(("nsblarge",))
    out += [("crowd", "h", a, n) for a in ("miller_madow", "shrink", "chao_shen", "grassberger", "ansb", "bayes") for n in ((40000, 90001, 200001) if th else (90001,))]
    for a, ms in MANYVARS:
        out += [("manyvars", *t) for t in many.tasks(a, ms, tier == "thorough")]
    return sorted(
        out, key=lambda t: -(t[2] if len(t) > 2 and isinstance(t[2], int) else 0)
    )


def crowd(rec, *task):
    many.crowd(rec, *task)


def manyvars(rec, *task):
    many.run(rec, *task)


def check(rec, approach, counts, seq, data, kw, case, rtol=1e-8, local=True, base="e"):
    f, fl = ref.DISCRETE[approach]
    c = ref.hist(seq)
    ok, est = rec.call(
        case,
        approach,
        im.estimator,
        data,
        measure="h",
        approach=approach,
        base=base,
        **kw,
    )
    if not ok:
        return
    ok, got = rec.call(case, approach, est.result)
    if not ok:
        return
    b = lnb(base)
    rec.ev(len(c) > 1)
    rec.outcome(got)
    rec.close(
        case,
        f(c, **kw) / b,
        got,
        f"{approach} entropy differs from its formula",
        rtol,
        1e-9,
    )
    if local and fl is not None and approach in LOCAL:
        ok, loc = rec.call(case, approach + " local values", est.local_vals)
        if ok:
            rec.close(
                case,
                [v / b for v in fl(seq, c, **kw)],
                loc,
                f"{approach} local values differ from the formula",
                rtol,
                1e-9,
            )


def counts(rec, approach, n):
    for part in partitions(n):
        k = len(part)
        for kw in variants(approach, n, k):
            for order in (0, 1, 2):
                seq = expand(part, order)
                case = {"counts": part, "order": order, "approach": approach, **kw}
                data = seq if order == 0 else np.array(seq) * 11 - 30
                check(rec, approach, part, seq, data, kw, case)
    rec.sample({"approach": approach, "n": n, "last": part})


def large(rec, approach, n):
    for k in sorted(
        {1, 2, 3, 5, 17, 41, 127, 128, 129, 256, 257, n // 3, n // 2, n - 2, n - 1, n}
    ):
        if not 1 <= k <= n:
            continue
        if approach == "zhang" and n * k > 400000:
            continue
        for shape in ("uniform", "onebig", "geometric", "pairs", "linear"):
            part = shape_counts(n, k, shape)
            kws = variants(approach, n, k) if n <= 200 else variants(approach, n, k)[:4]
            for kw in kws:
                seq = expand(part, 2 if n < 500 else 0)
                case = {"n": n, "k": k, "shape": shape, "approach": approach, **kw}
                check(
                    rec,
                    approach,
                    part,
                    seq,
                    np.array(seq),
                    kw,
                    case,
                    rtol=1e-7,
                    local=n <= 500,
                )
    for k in (2, 9, 80, 600):
        seq = lcg(n + 3 * k, n, k)
        if approach == "zhang" and n * k > 400000:
            continue
        for kw in variants(approach, n, len(set(seq)))[:3]:
            case = {"lcg": (n + 3 * k, n, k), "approach": approach, **kw}
            check(
                rec,
                approach,
                None,
                seq,
                np.array(seq),
                kw,
                case,
                rtol=1e-7,
                local=n <= 500,
            )


CELLS = (1, 2, 300, 32768, 65536, 70000)


def huge(rec, approach, first):
    """Few symbols with counts beyond 16 bits."""
    for k in (1, 2, 3):
        for rest in itertools.combinations_with_replacement(CELLS, k - 1):
            part = (first, *rest)
            if rest and rest[-1] < first:
                continue
            n = sum(part)
            if approach in ("zhang", "bonachela") and n > 110000:
                continue
            c = dict(enumerate(part))
            data = np.repeat(np.arange(k) * 5 - 1, part)
            for kw in variants(approach, n, k)[:3]:
                case = {"counts": part, "approach": approach, **kw}
                ok, est = rec.call(case, approach, im.estimator, data, measure="h", approach=approach, **kw)
                if not ok:
                    continue
                ok, got = rec.call(case, approach, est.result)
                if ok:
                    rec.ev(k > 1)
                    rec.outcome(got)
                    rec.close(case, ref.DISCRETE[approach][0](c, **kw), got, f"{approach} entropy differs from its formula", 1e-6, 1e-9)


def jointforms(rec, approach, nmax):
    """Joint variables are treated as one variable of the joint symbols."""
    for n in range(1, nmax + 1):
        for part in partitions(n):
            seq = expand(part, 2)
            a = [v % 2 for v in seq]
            b = [v // 2 for v in seq]
            r = ref.rows(a, b)
            for kw in variants(approach, n, len(part))[:3]:
                for name, data in (
                    ("tuple", (a, np.array(b))),
                    ("array", np.array([a, b]).T),
                    (
                        "str",
                        (np.array(["xy"[v] for v in a]), np.array([-v for v in b])),
                    ),
                    ("strs", np.array(["q%d" % v for v in seq])),
                ):
                    case = {"counts": part, "form": name, "approach": approach, **kw}
                    check(rec, approach, part, r, data, kw, case)


def bases(rec, approach):
    for n in range(1, 10):
        for part in partitions(n):
            seq = expand(part, 2)
            for base in (2, 10, 3, 2.5, 0.5):
                for kw in variants(approach, n, len(part))[:3]:
                    case = {"counts": part, "base": base, "approach": approach, **kw}
                    check(rec, approach, part, seq, seq, kw, case, base=base)


def encodings(rec, approach, nmax):
    """Every kind of symbol, alone and as a joint variable of itself and a constant."""
    for enc, f in ENCODINGS.items():
        for n in range(1, nmax + 1):
            for seq in rgs(n, 5):
                k = len(set(seq))
                for kw in variants(approach, n, k)[:2]:
                    case = {"pattern": seq, "encoding": enc, "approach": approach, **kw}
                    check(rec, approach, None, seq, f(seq), kw, case)
                    if n == nmax:
                        tup = (f(seq), f((0,) * n))
                        r = [(v, 0) for v in seq]
                        check(rec, approach, None, r, tup, kw, {**case, "joint": "const"}, local=False)
        for n, k, (seq,) in long_streams(1):
            for kw in variants(approach, n, len(set(seq)))[:1]:
                case = {"lcg": (n, k), "encoding": enc, "approach": approach, **kw}
                check(rec, approach, None, seq, f(seq), kw, case)


def nsb_one(rec, part, kw, seq, base="e"):
    c = ref.hist(seq)
    case = {"counts": part, "approach": "nsb", "base": base, **kw}
    ok, got = rec.call(case, "nsb", im.entropy, seq, approach="nsb", base=base, **kw)
    if not ok:
        return
    rec.ev(len(c) > 1)
    rec.outcome(got)
    b = lnb(base)
    if same(ref.h_nsb(c, **kw) / b, got, 1e-6, 1e-8):
        return
    rec_val = ref.h_nsb_recorded(c, **kw) / b
    if same(rec_val, got, 1e-5, 1e-7):
        rec.finding("F-NSB", case, got)
    else:
        rec.violation(
            case, ref.h_nsb(c, **kw) / b, got, "NSB entropy differs from its formula"
        )


def nsb(rec, n):
    for part in partitions(n):
        for kw in variants("nsb", n, len(part)):
            nsb_one(rec, part, kw, expand(part, 2))
    rec.sample({"approach": "nsb", "n": n})


def nsblarge(rec):
    for n, k in ((20, 4), (50, 10), (100, 7), (200, 40)):
        for shape in ("uniform", "geometric", "linear", "pairs"):
            part = shape_counts(n, k, shape)
            for base in ("e", 2):
                nsb_one(rec, tuple(part), {}, expand(part, 0), base)
