"""P11 - nearest-neighbour entropies: Kozachenko-Leonenko, Renyi, Tsallis."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.lib import NUMERIC, lcg, lnb, ranged

inf = math.inf
LEVEL = "exploration"
RULE = (
    "all point multisets (ties and repeated points included) on an integer grid in one, two "
    "and three dimensions, for every admissible k, norm, order and variant, plus all pairs of "
    "point sets for cross-entropies, compared with brute-force neighbour search. "
    "Non-trivial: at least two distinct points."
)
ASSUMPTIONS = [
    "noise switched off (P19 decides what the noise may do)",
    "Renyi/Tsallis orders above k+1 are outside the estimator's domain",
    "floating point agreement within 1e-9 relative",
]
BOUNDS = {
    "quick": "1-D: <=5 points on 0..4 in two orders; 2-D: <=4 points on 3x3; 3-D: <=4 on "
    "2x2x2; cross: <=3 x <=4 points on 0..3 and on 2x2; k 1..n-1; p in 1,1.5,2,3,inf; 8 "
    "orders; lcg point sets to n=4200, d=8"
        "; numeric types over their range"
    "; joint entropy of 5 to 12 variables; cross-entropies of 1..1500 against 5..2200 points"
        "; aliased arguments",
    "thorough": "1-D: <=7 points on 0..6; 2-D: <=6 points on 3x3; 3-D: <=5; cross: <=4 x <=5",
}
PS = (1, 1.5, 2, 3, inf)
QS = (0.3, 0.5, 1, 1.0, 1.5, 2, 2.0, 2.5, 3, 4)


MANYVARS = (('metric', ('h',)), ('renyi', ('h',)), ('tsallis', ('h',)))

# moves of P23 that must not matter here either
SHARED = [("aliases", m, a) for m in ("h", "hj", "hx") for a in ("metric", "renyi", "tsallis")]


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for n in range(2, 8 if th else 6):
        for first in range(7 if th else 5):
            out.append(("sets1", n, 7 if th else 5, first))
    for n in range(2, 7 if th else 5):
        for first in range(9):
            out.append(("sets2", n, first))
    for n in range(2, 6 if th else 5):
        for first in range(8):
            out.append(("sets3", n, first))
    for a in range(1, 5 if th else 4):
        for b in range(1, 6 if th else 5):
            out.append(("cross1", a, b))
            if a <= 3 and b <= (4 if th else 3):
                out.append(("cross2", a, b))
    for n in (12, 30, 100, 300) + ((1000, 2000) if th else ()):
        for d in (1, 2, 3, 5, 8):
            out.append(("large", n, d))
    for n, d in ((1025, 1), (1100, 3), (2100, 2), (4200, 1)) + (((4200, 3), (12000, 1)) if th else ()):
        out.insert(0, ("large", n, d))
    for a, b in UNEVEN:
        out.append(("uneven", a, b))
    out += [("orders", n, d) for n in (14, 60, 200) for d in (1, 2, 3)]
    out.append(("bases",))
    out.append(("scales",))
    out += [("numeric", kind) for kind in NUMERIC]
    for a, ms in MANYVARS:
        out += [("manyvars", *t) for t in many.tasks(a, ms, tier == "thorough")]
    return out


def manyvars(rec, *task):
    many.run(rec, *task)


def forms(pts):
    """Ways to hand the points over."""
    d = len(pts[0])
    a = np.array(pts, dtype=float)
    if d == 1:
        yield "1d", a[:, 0]
        yield "list", [int(p[0]) if float(p[0]).is_integer() else p[0] for p in pts]
        yield "column", a
    else:
        yield "2d", a
        yield "joint", tuple(a[:, i] for i in range(d))


def entropies(rec, pts, case, heavy=True):
    n, d = len(pts), len(pts[0])
    nontriv = len(set(pts)) > 1
    for k in range(1, n):
        if not heavy and k not in (1, 2, n // 2, n - 1):
            continue
        for p in PS:
            for kid in (1, 2):
                if kid == 2 and p not in (2, inf):
                    continue
                loc = ref.l_kl(pts, k, p, kid)
                exp = math.fsum(loc) / n
                for name, data in forms(pts):
                    if name != "1d" and name != "2d" and (p != inf or kid != 1):
                        continue
                    c = {**case, "k": k, "p": p, "ksg_id": kid, "form": name}
                    ok, est = rec.call(
                        c,
                        "KL entropy",
                        im.estimator,
                        data,
                        measure="h",
                        approach="metric",
                        k=k,
                        ksg_id=kid,
                        minkowski_p=p,
                        noise_level=0,
                    )
                    if not ok:
                        continue
                    ok, got = rec.call(c, "KL entropy", est.result)
                    if not ok:
                        continue
                    rec.ev(nontriv)
                    rec.outcome(got)
                    rec.close(c, exp, got, "KL entropy differs from its formula")
                    ok, got = rec.call(c, "KL local values", est.local_vals)
                    if ok:
                        rec.close(c, loc, got, "local KL entropies differ")
        for q in QS:
            if q > k + 1:
                continue
            for appr, par, exp in (
                ("renyi", "alpha", ref.h_renyi(pts, k, q)),
                ("tsallis", "q", ref.h_tsallis(pts, k, q)),
            ):
                for name, data in forms(pts):
                    if name in ("list", "column") and q != 2:
                        continue
                    c = {**case, "approach": appr, "k": k, par: q, "form": name}
                    ok, got = rec.call(
                        c, appr, im.entropy, data, approach=appr, k=k, **{par: q}
                    )
                    if ok:
                        rec.ev(nontriv)
                        rec.outcome(got)
                        rec.close(c, exp, float(got), f"{appr} entropy differs", 1e-8)


def numeric(rec, kind):
    """Series over the whole range of a numeric type are taken as the numbers they are."""
    ints, arrays = ranged(kind)
    rec.node(kind)
    variants = [("1d", arrays[0], [(float(v),) for v in ints[0]])]
    both = [(float(a), float(b)) for a, b in zip(*ints[:2])]
    variants += [("2d", np.stack(arrays[:2], axis=1), both), ("joint", tuple(arrays[:2]), both)]
    sw = arrays[0].astype(arrays[0].dtype.newbyteorder(">"))
    variants += [("big endian", sw, variants[0][2]), ("reversed view", arrays[0][::-1], variants[0][2][::-1])]
    ro = arrays[0].copy()
    ro.setflags(write=False)
    variants += [("read-only", ro, variants[0][2])]
    for form, data, pts in variants:
        for k in (1, 2, 4):
            for p, kid in itertools.product((1, 2, inf), (1, 2)):
                if kid == 2 and p == 1:
                    continue
                case = {"type": kind, "form": form, "k": k, "p": p, "ksg_id": kid}
                kw = dict(approach="metric", k=k, minkowski_p=p, ksg_id=kid, noise_level=0)
                ok, got = rec.call(case, "KL entropy", im.entropy, data, **kw)
                if ok:
                    rec.ev()
                    exp = math.fsum(ref.l_kl(pts, k, p, kid)) / len(pts)
                    rec.close(case, exp, got, "KL entropy of this numeric type", 1e-9)
            for q in (0.5, 1, 2):
                if q > k + 1:
                    continue
                for appr, par, exp in (
                    ("renyi", "alpha", ref.h_renyi(pts, k, q)),
                    ("tsallis", "q", ref.h_tsallis(pts, k, q)),
                ):
                    case = {"type": kind, "form": form, "approach": appr, "k": k, par: q}
                    ok, got = rec.call(case, appr, im.entropy, data, approach=appr, k=k, **{par: q})
                    if ok:
                        rec.ev()
                        rec.close(case, exp, float(got), f"{appr} entropy of this numeric type", 1e-8)
    for k in (1, 3):
        for a, b in ((0, 1), (1, 2)):
            P, Q = ([(float(v),) for v in ints[i]] for i in (a, b))
            kw = dict(approach="metric", k=k, noise_level=0)
            case = {"type": kind, "k": k, "samples": (a, b)}
            ok, got = rec.call(case, "cross-entropy", im.cross_entropy, arrays[a], arrays[b], **kw)
            if ok:
                rec.ev()
                rec.close(case, ref.hx_kl(P, Q, k, inf, 1), got, "KL cross-entropy of this numeric type", 1e-9)
    rec.sample({"type": kind})


def sets1(rec, n, size, first):
    for rest in itertools.combinations_with_replacement(range(first, size), n - 1):
        s = (first,) + rest
        for order in ("up", "mixed"):
            o = s if order == "up" else s[::2] + s[1::2][::-1]
            pts = [(float(v),) for v in o]
            rec.node(1, o)
            entropies(rec, pts, {"points": o})
    rec.sample({"n": n, "grid": size, "first": first})


def sets2(rec, n, first):
    cells = list(itertools.product(range(3), repeat=2))
    for rest in itertools.combinations_with_replacement(range(first, 9), n - 1):
        pts = [tuple(float(v) for v in cells[i]) for i in (first,) + rest]
        rec.node(2, pts)
        entropies(rec, pts, {"points": pts})
    rec.sample({"n": n, "first": first})


def sets3(rec, n, first):
    cells = list(itertools.product(range(2), repeat=3))
    for rest in itertools.combinations_with_replacement(range(first, 8), n - 1):
        pts = [tuple(float(v) for v in cells[i]) for i in (first,) + rest]
        rec.node(3, pts)
        entropies(rec, pts, {"points": pts})


def crosses(rec, P, Q, case):
    nontriv = len(set(Q)) > 1
    d = len(P[0])
    dP = np.array(P) if d > 1 else np.array(P)[:, 0]
    dQ = np.array(Q) if d > 1 else np.array(Q)[:, 0]
    for k in range(1, len(Q) + 1):
        for p in PS:
            for kid in (1, 2):
                c = {**case, "k": k, "p": p, "ksg_id": kid}
                ok, got = rec.call(
                    c,
                    "KL cross-entropy",
                    im.cross_entropy,
                    dP,
                    dQ,
                    approach="metric",
                    k=k,
                    minkowski_p=p,
                    ksg_id=kid,
                    noise_level=0,
                )
                if ok:
                    rec.ev(nontriv)
                    rec.outcome(got)
                    rec.close(
                        c,
                        ref.hx_kl(P, Q, k, p, kid),
                        float(got),
                        "KL cross-entropy differs from its formula",
                    )
        for q in QS:
            if q > k + 1:
                continue
            for appr, par, exp in (
                ("renyi", "alpha", ref.h_renyi(P, k, q, Q)),
                ("tsallis", "q", ref.h_tsallis(P, k, q, Q)),
            ):
                c = {**case, "approach": appr, "k": k, par: q}
                ok, got = rec.call(
                    c, appr, im.cross_entropy, dP, dQ, approach=appr, k=k, **{par: q}
                )
                if ok:
                    rec.ev(nontriv)
                    rec.close(c, exp, float(got), f"{appr} cross-entropy differs", 1e-8)
    # the divergence is the difference of the two
    if 2 <= len(P) and len(Q) >= 2:
        k = min(len(P), len(Q)) - 1
        for appr, kw, h, hx in (
            (
                "metric",
                dict(noise_level=0),
                ref.h_kl(P, k=k),
                ref.hx_kl(P, Q, k),
            ),
            ("renyi", dict(alpha=0.5), ref.h_renyi(P, k, 0.5), ref.h_renyi(P, k, 0.5, Q)),
            ("tsallis", dict(q=1.5), ref.h_tsallis(P, k, 1.5), ref.h_tsallis(P, k, 1.5, Q)),
        ):
            c = {**case, "divergence": appr, "k": k}
            ok, got = rec.call(c, "KLD", im.kld, dP, dQ, approach=appr, k=k, **kw)
            if ok:
                rec.ev(nontriv)
                rec.close(c, hx - h, float(got), "KLD is not cross-entropy minus entropy", 1e-8)


def cross1(rec, a, b):
    for P in itertools.combinations_with_replacement(range(4), a):
        for Q in itertools.combinations_with_replacement(range(4), b):
            P_, Q_ = [(float(v),) for v in P], [(float(v),) for v in Q[::-1]]
            rec.node("x1", P, Q)
            crosses(rec, P_, Q_, {"P": P, "Q": Q[::-1]})
    rec.sample({"a": a, "b": b})


def cross2(rec, a, b):
    cells = [tuple(map(float, c)) for c in itertools.product(range(2), repeat=2)]
    for P in itertools.combinations_with_replacement(cells, a):
        for Q in itertools.combinations_with_replacement(cells, b):
            rec.node("x2", P, Q)
            crosses(rec, list(P), list(Q), {"P": P, "Q": Q})


ORDER_GRID = sorted(
    {round(0.05 * i, 2) for i in range(1, 130)} | {v + s * 10.0**-e for v in (1, 2, 3) for s in (1, -1) for e in (2, 3, 4, 5, 6)}
    | {1, 2, 3, 1e-3, 1e-6, 10, 12.5, 20}
)


def orders(rec, n, d):
    """Renyi and Tsallis entropies and cross-entropies over a fine grid of orders."""
    pts = [tuple(v / 16 for v in r) for r in zip(*(lcg(31 * v + n, n, 1000) for v in range(d)))]
    half = n // 2
    P, Q = pts[:half], pts[half:]
    A, AP, AQ = (np.array(v) if d > 1 else np.array(v)[:, 0] for v in (pts, P, Q))
    for q in ORDER_GRID:
        rec.node("order", n, d, q)
        tol = 1e-6 if 0 < abs(q - 1) < 1e-3 else 1e-8
        for k in {math.floor(q) + 1, 3, 5}:
            if q > k + 1 or k >= half - 1:
                continue
            for appr, par, one, two in (
                ("renyi", "alpha", ref.h_renyi(pts, k, q), ref.h_renyi(P, k, q, Q)),
                ("tsallis", "q", ref.h_tsallis(pts, k, q), ref.h_tsallis(P, k, q, Q)),
            ):
                c = {"lcg": (n, d), "approach": appr, "k": k, par: q}
                for exp, fun, args in ((one, im.entropy, (A,)), (two, im.cross_entropy, (AP, AQ))):
                    ok, got = rec.call(c, appr, fun, *args, approach=appr, k=k, **{par: q})
                    if ok:
                        rec.ev()
                        rec.traces += 1
                        rec.outcome(got)
                        rec.close({**c, "arguments": len(args)}, exp, float(got), f"{appr} entropy of this order", tol, tol)


def large(rec, n, d):
    for mod in (1000, 10**7) if n > 1000 else (3, 1000, 10**7):
        cols = [lcg(11 * v + n, n, mod) for v in range(d)]
        unit = 2.0**16 if mod == 10**7 else 1.0
        pts = [tuple(v / unit / (7 if i % 2 else 1) for i, v in enumerate(r)) for r in zip(*cols)]
        case = {"lcg": (n, d, mod)}
        a = np.array(pts) if d > 1 else np.array(pts)[:, 0]
        for k in (4, 24) if n > 1000 else (1, 4, 11) if n < 100 or d > 3 else (1, 4, 11, 24, 60, n - 1):
            for p in (1, 2, inf):
                loc = ref.l_kl(pts, k, p, 1)
                c = {**case, "k": k, "p": p}
                ok, est = rec.call(
                    c,
                    "KL entropy",
                    im.estimator,
                    a,
                    measure="h",
                    approach="kl",
                    k=k,
                    minkowski_p=p,
                    noise_level=0,
                )
                if ok:
                    ok, got = rec.call(c, "KL entropy", est.result)
                if ok:
                    rec.ev()
                    rec.close(c, math.fsum(loc) / n, got, "KL entropy differs")
                    rec.close(c, loc, est.local_vals(), "local KL entropies differ")
            for q in (0.5, 1, 1.5):
                for appr, par, exp in (
                    ("renyi", "alpha", ref.h_renyi(pts, k, q)),
                    ("tsallis", "q", ref.h_tsallis(pts, k, q)),
                ):
                    c = {**case, "approach": appr, "k": k, par: q}
                    ok, got = rec.call(
                        c, appr, im.entropy, a, approach=appr, k=k, **{par: q}
                    )
                    if ok:
                        rec.ev()
                        rec.close(c, exp, float(got), f"{appr} entropy differs", 1e-8)
            half = n // 2
            P, Q = pts[:half], pts[half:]
            c = {**case, "k": k, "cross": True}
            ok, got = rec.call(
                c,
                "KL cross",
                im.cross_entropy,
                a[:half],
                a[half:],
                approach="metric",
                k=min(k, len(Q)),
                noise_level=0,
            )
            if ok:
                rec.ev()
                rec.close(c, ref.hx_kl(P, Q, min(k, len(Q))), float(got), "KL cross differs")


UNEVEN = ((1, 400), (3, 1500), (12, 700), (60, 2200), (400, 5), (1500, 9), (2200, 61))


def uneven(rec, a, b):
    """Cross-entropies of samples of very different sizes."""
    for d in (1, 2, 4):
        P, Q = (
            [tuple(v / 256 for v in r) for r in zip(*(lcg(n + 3 * v + s, n, 5000) for v in range(d)))]
            for s, n in ((1, a), (2, b))
        )
        rec.node("uneven", a, b, d)
        dP, dQ = (np.array(v) if d > 1 else np.array(v)[:, 0] for v in (P, Q))
        for k in (1, 4, min(b, 20)):
            for appr, kw, exp in (
                ("metric", dict(noise_level=0), ref.hx_kl(P, Q, k)),
                ("metric", dict(noise_level=0, ksg_id=2, minkowski_p=2), ref.hx_kl(P, Q, k, 2, 2)),
                ("renyi", dict(alpha=0.6), ref.h_renyi(P, k, 0.6, Q)),
                ("renyi", dict(alpha=1), ref.h_renyi(P, k, 1, Q)),
                ("tsallis", dict(q=1.7), ref.h_tsallis(P, k, 1.7, Q)),
            ):
                if kw.get("q", 0) > k + 1:
                    continue
                c = {"sizes": (a, b), "d": d, "k": k, "approach": appr, **kw}
                ok, got = rec.call(c, "cross-entropy", im.cross_entropy, dP, dQ, approach=appr, k=k, **kw)
                if ok:
                    rec.ev()
                    rec.outcome(got)
                    rec.close(c, exp, float(got), f"{appr} cross-entropy of uneven samples differs", 1e-8)


def bases(rec):
    for base in (2, 3, 10, 2.5, 0.5):
        for s in itertools.combinations_with_replacement(range(4), 4):
            pts = [(float(v),) for v in s]
            for k in (1, 2, 3):
                c = {"points": s, "k": k, "base": base}
                for appr, kw, exp in (
                    ("metric", dict(noise_level=0), ref.h_kl(pts, k=k) / lnb(base)),
                    ("renyi", dict(alpha=0.7), ref.h_renyi(pts, k, 0.7) / lnb(base)),
                    ("renyi", dict(alpha=1), ref.h_renyi(pts, k, 1) / lnb(base)),
                    ("tsallis", dict(q=1), ref.h_tsallis(pts, k, 1, base=base)),
                    ("tsallis", dict(q=0.7), ref.h_tsallis(pts, k, 0.7, base=base)),
                ):
                    ok, got = rec.call(
                        c, appr, im.entropy, list(s), approach=appr, k=k, base=base, **kw
                    )
                    if ok:
                        rec.ev(len(set(s)) > 1)
                        rec.close({**c, "approach": appr}, exp, float(got), "base", 1e-8)


SCALES = (
    (1e-9, 0), (1e9, 0), (1, 1e6), (1e-3, -5.0), (1e100, 0), (1e-100, 0), (1e-30, 0), (1e30, 0), (1e-13, 1e-9), (1e4, -3e6),
)


def scales(rec):
    """Very small, very large and offset coordinates."""
    for scale, off in SCALES:
        for s in itertools.combinations_with_replacement(range(4), 4):
            pts = [(v * scale + off,) for v in s]
            scaled(rec, pts, {"points": s, "scale": scale, "offset": off}, len(set(s)) > 1)
        if not 1e-50 < scale < 1e50:
            continue
        for d in (2, 3):
            for mod in (3, 50):
                cols = [lcg(5 * d + v + mod, 9, mod) for v in range(d)]
                pts = [tuple(v * scale + off for v in r) for r in zip(*cols)]
                scaled(rec, pts, {"lcg": (9, d, mod), "scale": scale, "offset": off}, True)


def scaled(rec, pts, case, nontrivial):
    a = np.array(pts)[:, 0] if len(pts[0]) == 1 else np.array(pts)
    for k in (1, 2, 3):
        for appr, kw, exp in [("metric", dict(noise_level=0), ref.h_kl(pts, k=k))] + [
            e
            for q in (0.1, 0.7, 1, 2, 3)
            if q < k + 1
            for e in (("renyi", dict(alpha=q), ref.h_renyi(pts, k, q)), ("tsallis", dict(q=q), ref.h_tsallis(pts, k, q)))
        ]:
            c = {**case, "k": k, "approach": appr, **kw}
            ok, got = rec.call(c, appr, im.entropy, a, approach=appr, k=k, **kw)
            if ok:
                rec.ev(nontrivial)
                rec.close(c, exp, float(got), "entropy at this scale", 1e-7)
    # cross-entropies within and between scales
    for half in (len(pts) // 2, 1):
        P, Q = pts[:half], pts[half:]
        for p, q, where in ((P, Q, "first"), (Q, P, "second"), ([tuple(v * 1e-6 for v in r) for r in P], Q, "apart")):
            for k in (1, 2):
                if k > len(q):
                    continue
                dp, dq = ((np.array(v)[:, 0] if len(v[0]) == 1 else np.array(v)) for v in (p, q))
                for appr, kw, exp in [("metric", dict(noise_level=0), ref.hx_kl(p, q, k))] + [
                    e
                    for al in (0.1, 0.7, 1, 2, 3)
                    if al < k + 1
                    for e in (
                        ("renyi", dict(alpha=al), ref.h_renyi(p, k, al, q)),
                        ("tsallis", dict(q=al), ref.h_tsallis(p, k, al, q)),
                    )
                ]:
                    c = {**case, "k": k, "approach": appr, **kw, "cross": where, "half": half}
                    ok, got = rec.call(c, "cross-entropy", im.cross_entropy, dp, dq, approach=appr, k=k, **kw)
                    if ok:
                        rec.ev(nontrivial)
                        rec.close(c, exp, float(got), "cross-entropy at this scale", 1e-7)
