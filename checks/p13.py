"""P13 - kernel density measures."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.lib import NUMERIC, lcg, lnb, ranged, scaled

inf = math.inf
LEVEL = "model_checking"
RULE = (
    "exploration of streams of grid points in one and two dimensions and of paired and triple "
    "streams (coinciding points included): a state is the stream so far, a transition appends "
    "one sample; the model sums box or Gaussian kernels directly, bandwidths on and off the "
    "grid distances. Each trace is replayed on the real estimators, local values included. "
    "Non-trivial: all variables vary."
)
ASSUMPTIONS = [
    "a Gaussian density needs a variable with some variance (scipy refuses otherwise)",
    "directions whose share of the variance (each variable scaled to unit variance) is below "
    "1e-10 are dropped (documented in the code); data between 1e-13 and 1e-7 are left out",
]
BOUNDS = {
    "quick": "1-D: all series over 4 values to length 5; 2-D: 3x2 cells to length 4; cross: <=3 x "
    "<=4, in the plane and on lines 2 x 3 and 2 x 4 points; pairs over 3x3 to length 4, triples 2x2x2 to length 4, TE/CTE likewise with 6 embeddings; "
    "box bandwidths 0.5,1,2,3, Gaussian 0.3,1; worker counts 1,2,3,8,-1 on 20000 points; lcg n<=300, long ones to n=2100"
        "; numeric types over their range"
    "; joint entropy, MI and CMI of 5 to 12 variables; histories 1..4 x 1..4 x 0..4; variables of up to 6 columns"
        "; aliased arguments",
    "thorough": "1-D to 6, 2-D to 5, pairs to 5, triples to 5, lcg n<=1000, 24001 points",
}
BOX = (0.5, 1, 1.0, 2, 3.0)
GAU = (0.3, 1)
EMB = (
    dict(),
    dict(src_hist=2),
    dict(dest_hist=2),
    dict(step=2),
    dict(prop_time=1),
    dict(prop_time=-1, step=1),
)
CEMB = (dict(), dict(cond_hist=2), dict(src_hist=2), dict(dest_hist=2), dict(step=2))
LIB = {
    "src_hist": "src_hist_len",
    "dest_hist": "dest_hist_len",
    "cond_hist": "cond_hist_len",
    "step": "step_size",
    "prop_time": "prop_time",
}


MANYVARS = (('kernel', ('h', 'mi', 'cmi')),)

# moves of P23 that must not matter here either
SHARED = [("aliases", m, "kernel") for m in ("h", "hj", "hx", "mi", "mi3", "cmi", "te", "cte", "jsd", "kld")]


def tasks(tier, seed):
    th = tier == "thorough"
    small = []
    for n in range(2, 7 if th else 6):
        for first in range(4):
            small.append(("series", n, first))
    for n in range(2, 6 if th else 5):
        for first in range(6):
            small.append(("plane", n, first))
    for a in range(1, 4):
        for b in range(2, 5):
            small.append(("cross", a, b))
    for a in (2, 3) if th else (2,):
        for b in (3, 4):
            for first in range(6):
                small.append(("cross2d", a, b, first))
    for n in range(2, 6 if th else 5):
        for x in itertools.product(range(3), repeat=n):
            small.append(("pairs", x, 3))
        for x in itertools.product(range(2), repeat=n):
            small.append(("triples", x))
    for n in range(3, 6 if th else 5):
        for x in itertools.product(range(2), repeat=n):
            small.append(("tes", x))
            if n < 4 or th or x[0] == 0:
                small.append(("ctes", x))
    out = [("bundle", small[i::64]) for i in range(64)]
    # the long tasks first
    out = [("workers", 20000, w) for w in (2, 3, 8, -1)] + out
    out += [("workers_cross", 2), ("workers_box",), ("multi",), ("bases",), ("normalised",)]
    out += [("thin", n, e) for n in (9, 40, 90) for e in (1e-2, 1e-3, 3e-4, 1e-4)]
    out += [("deep", n, d) for n in (12, 60, 150) for d in (2, 3, 4, 5, 6, 9)]
    out += [("units", i) for i in range(len(SCALES))]
    out += [("numeric", kind) for kind in NUMERIC]
    if th:
        out = [("workers", 24001, w) for w in (2, 3, 5, 8, -1)] + out
    for n in (20, 100, 300) + ((1000,) if th else ()):
        for mod in (4, 10**6):
            out.append(("large", n, mod))
    for n in (1025, 2100) + ((4200,) if th else ()):
        out.insert(0, ("large", n, 10**6))
    for a, ms in MANYVARS:
        out += [("manyvars", *t) for t in many.tasks(a, ms, tier == "thorough")]
    for a in ('kernel',):
        out += [("pasts", *t) for t in many.past_tasks(a, tier == "thorough")]
        out += [("wide", *t) for t in many.wide_tasks(a, tier == "thorough")]
    return out


def manyvars(rec, *task):
    many.run(rec, *task)


def pasts(rec, *task):
    many.pasts(rec, *task)


def wide(rec, *task):
    many.wide(rec, *task)


def bundle(rec, items):
    for t in items:
        globals()[t[0]](rec, *t[1:])


def flat(v):
    return sum((flat(w) for w in v), ()) if isinstance(v, tuple) else (float(v),)


def pts(*cols):
    return [flat(tuple(r)) for r in zip(*cols)]


def cmp(rec, case, measure, loc, args, kw, nt, base="e", rtol=1e-8, atol=1e-8):
    """Value and local values of one request; loc None: no reference (degenerate)."""
    if loc is None:
        rec.skipped += 1
        return
    loc = [v / lnb(base) for v in loc]
    ok, est = rec.call(
        case, measure, im.estimator, *args, measure=measure, approach="kernel", base=base, **kw
    )
    if not ok:
        return
    ok, got = rec.call(case, measure, est.result)
    if not ok:
        return
    rec.ev(nt)
    rec.traces += 1
    rec.outcome(got)
    rec.close(
        case,
        math.fsum(loc) / len(loc),
        float(got),
        f"kernel {measure} differs from the direct density formula",
        rtol,
        atol,
    )
    ok, got = rec.call(case, measure + " local values", est.local_vals)
    if ok:
        rec.close(case, loc, got, f"local kernel {measure} differs", rtol, atol)


def kernels():
    for bw in BOX:
        yield dict(kernel="box", bandwidth=bw)
    for bw in GAU:
        yield dict(kernel="gaussian", bandwidth=bw)


def dens(kw, p, at=None):
    return ref.density(kw["kernel"], p, kw["bandwidth"], at)


def l_h(kw, p):
    d = dens(kw, p)
    return d and [-math.log(v) for v in d]


def l_mi(kw, variables):
    ds = [dens(kw, v) for v in variables]
    j = dens(kw, pts(*variables))
    if j is None or any(d is None for d in ds):
        return None
    return [math.log(j[i]) - sum(math.log(d[i]) for d in ds) for i in range(len(j))]


def l_cmi(kw, variables, cond):
    j = dens(kw, pts(*variables, cond))
    z = dens(kw, cond)
    vs = [dens(kw, pts(v, cond)) for v in variables]
    if j is None or z is None or any(v is None for v in vs):
        return None
    return [
        math.log(j[i]) + math.log(z[i]) - sum(math.log(v[i]) for v in vs)
        for i in range(len(j))
    ]


def te_loc(kw, x, y, z, par):
    fut, dh, sh, ch = ref.te_columns(x, y, z, **par)
    if len(fut) < 2:
        return None
    base = [d + c for d, c in zip(dh, ch)] if ch is not None else dh
    return l_cmi(kw, [pts(fut), pts(sh)], pts(base))


def entropy(rec, p, case):
    a = np.array(p)
    nt = len(set(p)) > 1
    for kw in kernels():
        loc = l_h(kw, p)
        c = {**case, **kw}
        cmp(rec, c, "h", loc, (a if len(p[0]) > 1 else a[:, 0],), kw, nt)
        if len(p[0]) > 1:
            cmp(rec, {**c, "form": "joint"}, "h", loc, (tuple(a.T),), kw, nt)
        else:
            cmp(rec, {**c, "form": "column"}, "h", loc, (a,), kw, nt)


def series(rec, n, first):
    for rest in itertools.product(range(4), repeat=n - 1):
        s = (first,) + rest
        rec.hist_state(s)
        entropy(rec, [(float(v),) for v in s], {"x": s})
    rec.sample({"n": n, "first": first})


def plane(rec, n, first):
    cells = list(itertools.product(range(3), range(2)))
    for rest in itertools.product(range(6), repeat=n - 1):
        p = [tuple(map(float, cells[i])) for i in (first,) + rest]
        rec.hist_state(p)
        entropy(rec, p, {"points": p})


def cross(rec, a, b):
    for P in itertools.product(range(4), repeat=a):
        for Q in itertools.combinations_with_replacement(range(4), b):
            p, q = [(float(v),) for v in P], [(float(v),) for v in Q]
            rec.time_state("x", [P], [Q])
            for kw in kernels():
                d = dens(kw, q, p)
                if d is None:
                    continue
                exp = -math.fsum(math.log(v) for v in d if v > 0) / len(d)
                if kw["kernel"] == "gaussian" and len(p) < 1:
                    continue
                case = {"P": P, "Q": Q, **kw}
                if a == 1:
                    # a single evaluation point has no array of densities; not promised
                    continue
                ok, got = rec.call(
                    case, "cross-entropy", im.cross_entropy, P and list(P), list(Q), approach="kernel", **kw
                )
                if ok:
                    rec.ev(len(set(Q)) > 1)
                    rec.traces += 1
                    rec.close(case, exp, float(got), "kernel cross-entropy differs")
                h = l_h(kw, p)
                if h is None:
                    continue
                ok, got = rec.call(
                    case, "KLD", im.kld, list(P), list(Q), approach="kernel", **kw
                )
                if ok:
                    rec.ev(len(set(Q)) > 1)
                    rec.close(
                        case,
                        exp - math.fsum(h) / len(h),
                        float(got),
                        "kernel KLD is not cross-entropy minus entropy",
                    )


CELLS2 = ((0, 0), (1, 0), (3, 0), (0, 2), (1, 2), (3, 6))


def cross2d(rec, a, b, first):
    """Samples of points in the plane, and on lines in the plane and in space."""
    for Q in itertools.combinations_with_replacement(range(6), b - 1):
        q = [tuple(map(float, CELLS2[i])) for i in (first, *Q)]
        if Q[0] < first:
            continue
        for P in itertools.product(range(6), repeat=a):
            p = [tuple(map(float, CELLS2[i])) for i in P]
            rec.time_state("x2", [P], [(first, *Q)])
            for lift in (False, True):
                if lift and (sum(P) + sum(Q)) % 3:
                    continue
                # a third coordinate which the other two determine
                pp = [(x, y, x - 2 * y) for x, y in p] if lift else p
                qq = [(x, y, x - 2 * y) for x, y in q] if lift else q
                for kw in kernels():
                    if kw["kernel"] == "box" and kw["bandwidth"] not in (1.0, 3.0):
                        continue
                    d = dens(kw, qq, pp)
                    if d is None:
                        rec.skipped += 1
                        continue
                    exp = -math.fsum(math.log(v) for v in d if v > 0) / len(d)
                    case = {"P": pp, "Q": qq, **kw}
                    ok, got = rec.call(case, "cross-entropy", im.cross_entropy, np.array(pp), np.array(qq),
                                       approach="kernel", **kw)
                    if ok:
                        rec.ev(len(set(qq)) > 1)
                        rec.traces += 1
                        rec.outcome(got)
                        rec.close(case, exp, float(got), "kernel cross-entropy differs", 1e-8, 1e-8)
    rec.sample({"a": a, "b": b, "first": first})


def pairs(rec, x, ky):
    n = len(x)
    for y in itertools.product((0, 1, 3)[:ky], repeat=n):
        rec.time_state(x, y)
        for kw in kernels():
            cmp(
                rec,
                {"x": x, "y": y, **kw},
                "mi",
                l_mi(kw, [pts(x), pts(y)]),
                (np.array(x), np.array(y)),
                kw,
                len(set(x)) > 1 and len(set(y)) > 1,
            )
    rec.sample({"x": x, "y": "all"})


def triples(rec, x):
    n = len(x)
    for y in itertools.product(range(2), repeat=n):
        for z in itertools.product((0, 2), repeat=n):
            rec.time_state(x, y, z)
            A = tuple(map(np.array, (x, y, z)))
            P = [pts(v) for v in (x, y, z)]
            nt = len(set(x)) > 1 and len(set(y)) > 1
            for kw in kernels():
                case = {"x": x, "y": y, "z": z, **kw}
                cmp(rec, case, "cmi", l_cmi(kw, P[:2], P[2]), A[:2], dict(kw, cond=A[2]), nt)
                if n < 4:
                    cmp(rec, case, "mi", l_mi(kw, P), A, kw, nt)
                    cmp(
                        rec,
                        {**case, "three|cond": True},
                        "cmi",
                        l_cmi(kw, [P[0], P[1], P[2]], P[0][::-1]),
                        A,
                        dict(kw, cond=A[0][::-1]),
                        nt,
                    )


def embed(rec, x, y, z, embs, case, kws, base="e"):
    for par in embs:
        for kw in kws:
            loc = te_loc(kw, x, y, z, par)
            if loc is None:
                continue
            k = dict(kw, **{LIB[a]: b for a, b in par.items()})
            if z is not None:
                k["cond"] = np.array(z)
            cmp(
                rec,
                {**case, **par, **kw},
                "te" if z is None else "cte",
                loc,
                (np.array(x), np.array(y)),
                k,
                len(set(x)) > 1 and len(set(y)) > 1,
                base,
            )


FEW = (
    dict(kernel="box", bandwidth=1),
    dict(kernel="box", bandwidth=2.0),
    dict(kernel="gaussian", bandwidth=0.7),
)


def tes(rec, x):
    n = len(x)
    for y in itertools.product((0, 1, 3), repeat=n):
        rec.time_state("te", x, y)
        embed(rec, x, y, None, EMB, {"x": x, "y": y}, FEW)


def ctes(rec, x):
    n = len(x)
    for y in itertools.product(range(2), repeat=n):
        for z in itertools.product((0, 2), repeat=n):
            rec.time_state("cte", x, y, z)
            embed(rec, x, y, z, CEMB, {"x": x, "y": y, "z": z}, FEW)


def multi(rec):
    """Several columns per variable and condition, four variables, degenerate directions."""
    for n in (4, 9, 25):
        for mod in (3, 50):
            X = list(zip(lcg(n, n, mod), lcg(n + 1, n, mod)))
            Y = list(zip(lcg(n + 2, n, mod), lcg(n + 3, n, mod), lcg(n + 4, n, mod)))
            z = lcg(n + 5, n, mod)
            Z = list(zip(z, lcg(n + 6, n, mod)))
            w = lcg(n + 7, n, mod)
            D = [(v, 2 * v) for v in z]  # a plane with one direction
            for nm, grp in (("full", (X, Y, Z, w)), ("flat", (X, D, Z, z))):
                A = tuple(np.array(v) for v in grp)
                P = [pts(v) for v in grp]
                rec.time_state(*grp)
                for bw in (1, 4, 20.0, 0.8):
                    for kern in ("box", "gaussian"):
                        kw = dict(kernel=kern, bandwidth=bw)
                        case = {"n": n, "mod": mod, "group": nm, **kw}
                        for i in range(4):
                            cmp(rec, {**case, "h": i}, "h", l_h(kw, P[i]), (A[i],), kw, True)
                        for sel in ((0, 1), (1, 3), (0, 2), (0, 1, 2, 3), (3, 0, 2)):
                            cmp(
                                rec,
                                {**case, "vars": sel},
                                "mi",
                                l_mi(kw, [P[i] for i in sel]),
                                tuple(A[i] for i in sel),
                                kw,
                                True,
                            )
                        for sel, c in (((0, 1), 2), ((1, 3), 2), ((0, 1), 3), ((0, 1, 3), 2), ((3, 3), 0)):
                            cmp(
                                rec,
                                {**case, "vars": sel, "cond": c},
                                "cmi",
                                l_cmi(kw, [P[i] for i in sel], P[c]),
                                tuple(A[i] for i in sel),
                                dict(kw, cond=A[c]),
                                True,
                            )
                        for sel in ((0, 1), (3, 0), (1, 3)):
                            if n > 4:
                                embed(
                                    rec,
                                    grp[sel[0]],
                                    grp[sel[1]],
                                    None,
                                    EMB[:2],
                                    {**case, "te": sel},
                                    (kw,),
                                )


SCALES = (1e-12, 1e-9, 1e-6, 3e-5, 1e-3, 0.1, 1, 30.0, 1e4, 1e6, 1e9, 1e12)


def units(rec, i):
    """Variables in any unit: the densities only change by the change of volume."""
    f = SCALES[i]
    for n in (4, 7, 12):
        for mod in (3, 50):
            a, b, z = (lcg(n + j, n, mod) for j in range(3))
            w = [p + q for p, q in zip(a, b)]
            for g in SCALES if mod == 50 else (f, 1.0):
                A, B, Z = [v * f for v in a], [v * g for v in b], [v * g for v in z]
                nt = len(set(a)) > 1 and len(set(b)) > 1
                case = {"lcg": (n, mod), "scales": (f, g)}
                rec.hist_state((i, n, mod, g))
                for bw in (0.3, 1):
                    kw = dict(kernel="gaussian", bandwidth=bw)
                    c = {**case, **kw}
                    cmp(rec, c, "h", l_h(kw, pts(A)), (np.array(A),), kw, nt)
                    cmp(rec, {**c, "joint": 1}, "h", l_h(kw, pts(A, B)), ((np.array(A), np.array(B)),), kw, nt)
                    cmp(rec, c, "mi", l_mi(kw, [pts(A), pts(B)]), (np.array(A), np.array(B)), kw, nt)
                    cmp(rec, c, "cmi", l_cmi(kw, [pts(A), pts(B)], pts(Z)), (np.array(A), np.array(B)),
                        dict(kw, cond=np.array(Z)), nt)
                    # collinear and constant coordinates
                    if f == g:
                        W = [v * f for v in w]
                        for name, cols in (("sum", (A, B, W)), ("copy", (A, A)), ("double", (A, [2 * v for v in A])),
                                           ("constant", (A, [0.1] * n)), ("constants", ([-7.3] * n, A, [0.1] * n))):
                            p = pts(*cols)
                            cmp(rec, {**c, "coordinates": name}, "h", l_h(kw, p), (np.array(p),), kw, nt)
                            cmp(rec, {**c, "coordinates": name, "form": "joint"}, "h", l_h(kw, p),
                                (tuple(map(np.array, cols)),), kw, nt)
                for bw in (0.5, 2):
                    kw = dict(kernel="box", bandwidth=bw * f)
                    c = {**case, **kw}
                    H = [v * f for v in b]
                    cmp(rec, c, "h", l_h(kw, pts(A)), (np.array(A),), kw, nt)
                    cmp(rec, c, "mi", l_mi(kw, [pts(A), pts(H)]), (np.array(A), np.array(H)), kw, nt)
    rec.sample({"scale": f})


def thin(rec, n, e):
    """All but collinear coordinates still span the space."""
    a, b, c, z = ([v / 7 for v in lcg(n * 3 + j, n, 50)] for j in range(4))
    A = [p * 1.5 for p in a]
    B = [2 * p + e * q for p, q in zip(a, b)]
    C = [e * r - p for p, r in zip(a, c)]
    rec.node("thin", n, e)
    saved = ref.THIN[0]
    ref.THIN[0] = 5e-10
    try:
        for bw in (0.4, 1.3):
            kw = dict(kernel="gaussian", bandwidth=bw)
            case = {"n": n, "thickness": e, **kw}
            for name, cols in (("two", (A, B)), ("three", (A, B, C)), ("with another", (z, A, B)), ("twice", (A, B, z, C))):
                p = pts(*cols)
                cmp(rec, {**case, "coordinates": name}, "h", l_h(kw, p), (np.array(p),), kw, True, rtol=3e-6, atol=3e-6)
                cmp(rec, {**case, "coordinates": name, "form": "joint"}, "h", l_h(kw, p), (tuple(map(np.array, cols)),), kw, True, rtol=3e-6, atol=3e-6)
            V = [pts(v) for v in (A, B, z, C)]
            arr = [np.array(v) for v in (A, B, z, C)]
            for sel in ((0, 1), (0, 3), (0, 2, 1), (2, 0)):
                cmp(rec, {**case, "vars": sel}, "mi", l_mi(kw, [V[i] for i in sel]), tuple(arr[i] for i in sel), kw, True, rtol=3e-6, atol=3e-6)
            for sel, q in (((0, 1), 2), ((0, 2), 1), ((2, 1), 3)):
                cmp(rec, {**case, "vars": sel, "cond": q}, "cmi", l_cmi(kw, [V[i] for i in sel], V[q]),
                    tuple(arr[i] for i in sel), dict(kw, cond=arr[q]), True, rtol=3e-6, atol=3e-6)
    finally:
        ref.THIN[0] = saved


def deep(rec, n, d):
    """Samples with many coordinates that no narrower type holds exactly."""
    cols = [[(v + i / (7 * n)) / 7 for i, v in enumerate(lcg(n * 5 + j, n, 60))] for j in range(d)]
    rec.node("deep", n, d)
    p = pts(*cols)
    half = n // 2
    for kw in (dict(kernel="gaussian", bandwidth=0.6), dict(kernel="gaussian", bandwidth=2), dict(kernel="box", bandwidth=5.3)):
        case = {"n": n, "coordinates": d, **kw}
        cmp(rec, case, "h", l_h(kw, p), (np.array(p),), kw, True)
        cmp(rec, {**case, "form": "joint"}, "h", l_h(kw, p), (tuple(map(np.array, cols)),), kw, True)
        cmp(rec, case, "mi", l_mi(kw, [[r[:1] for r in p], [r[1:] for r in p]]), (np.array(p)[:, :1], np.array(p)[:, 1:]), kw, True)
        dq = dens(kw, p[half:], p[:half])
        if dq is not None and all(v > 0 for v in dq):
            ok, got = rec.call(case, "cross-entropy", im.cross_entropy, np.array(p[:half]), np.array(p[half:]), approach="kernel", **kw)
            if ok:
                rec.ev()
                rec.close(case, -math.fsum(map(math.log, dq)) / half, float(got), "kernel cross-entropy differs", 1e-8, 1e-8)


def bases(rec):
    for base in (2, 10, 3.5):
        for n in (3, 8):
            x, y, z = (lcg(s + n, n, 5) for s in (1, 2, 3))
            rec.time_state("b", x, y, z)
            A = tuple(map(np.array, (x, y, z)))
            P = [pts(v) for v in (x, y, z)]
            for kw in kernels():
                case = {"n": n, "base": base, **kw}
                cmp(rec, case, "h", l_h(kw, P[0]), A[:1], kw, True, base)
                cmp(rec, case, "mi", l_mi(kw, P[:2]), A[:2], kw, True, base)
                cmp(rec, case, "cmi", l_cmi(kw, P[:2], P[2]), A[:2], dict(kw, cond=A[2]), True, base)
                if n > 3:
                    embed(rec, x, y, None, EMB, case, (kw,), base)
                    embed(rec, x, y, z, CEMB, case, (kw,), base)


def normalised(rec):
    """normalize=True scales each variable to [0,1] first; offsets pair x[i] with y[i+o]."""
    for n in (4, 9, 16):
        for s in range(4):
            x, y = lcg(s + n, n, 9), lcg(s + 3 * n, n, 30)
            if len(set(x)) < 2 or len(set(y)) < 2:
                continue
            for o in (-2, -1, 0, 1, 2):
                a, b = (x[: n - o], y[o:]) if o >= 0 else (x[-o:], y[: n + o])
                if len(set(a)) < 2 or len(set(b)) < 2:
                    continue
                rec.time_state("o", x, y)
                for kw in (
                    dict(kernel="box", bandwidth=2),
                    dict(kernel="gaussian", bandwidth=0.5),
                ):
                    cmp(
                        rec,
                        {"x": x, "y": y, "offset": o, **kw},
                        "mi",
                        l_mi(kw, [pts(a), pts(b)]),
                        (x, np.array(y)),
                        dict(kw, offset=o),
                        True,
                    )
            # scaled to [0, 1]; bandwidth off every normalised distance
            sx = [(v - min(x)) / (max(x) - min(x)) for v in x]
            sy = [(v - min(y)) / (max(y) - min(y)) for v in y]
            for kw in (
                dict(kernel="box", bandwidth=0.531737),
                dict(kernel="gaussian", bandwidth=0.5),
            ):
                cmp(
                    rec,
                    {"x": x, "y": y, "normalize": True, **kw},
                    "mi",
                    l_mi(kw, [pts(sx), pts(sy)]),
                    (np.array(x), np.array(y)),
                    dict(kw, normalize=True),
                    True,
                )


def numeric(rec, kind):
    """Series over the whole range of a numeric type are taken as the numbers they are."""
    ints, arrays = ranged(kind)
    rec.time_state(kind, *ints)
    span = max(ints[0]) - min(ints[0])
    for norm in (False, True):
        v = [scaled(s) for s in ints] if norm else ints
        P = [pts(s) for s in v]
        more = {"normalize": True} if norm else {}
        unit = 1 if norm else span
        for kw in (
            dict(kernel="box", bandwidth=0.531737 * unit),
            dict(kernel="box", bandwidth=0.931737 * unit),
            dict(kernel="gaussian", bandwidth=0.5),
        ):
            case = {"type": kind, **more, **kw}
            for sel in ((0, 1), (1, 2), (0, 1, 2)):
                cmp(rec, {**case, "vars": sel}, "mi", l_mi(kw, [P[i] for i in sel]), tuple(arrays[i] for i in sel), dict(kw, **more), True)
            cmp(rec, case, "cmi", l_cmi(kw, P[:2], P[2]), arrays[:2], dict(kw, cond=arrays[2], **more), True)
            if norm:
                continue
            cmp(rec, case, "h", l_h(kw, P[0]), arrays[:1], kw, True)
            embed(rec, *arrays[:2], None, EMB[:3], case, (kw,))
            embed(rec, *arrays, CEMB[:2], case, (kw,))
    rec.sample({"type": kind, "series": ints})


def large(rec, n, mod):
    x, y, z = (lcg(s * n + 1, n, mod) for s in (1, 2, 3))
    y = [(x[t - 1] + y[t]) / 2 for t in range(n)]
    rec.time_state("l", x, y, z)
    A = tuple(map(np.array, (x, y, z)))
    P = [pts(v) for v in (x, y, z)]
    for bw in (mod / 4 + 0.1, 0.5):
        for kern in ("box", "gaussian"):
            kw = dict(kernel=kern, bandwidth=bw if kern == "box" else 0.4)
            case = {"lcg": (n, mod), **kw}
            cmp(rec, case, "h", l_h(kw, P[1]), A[1:2], kw, True)
            cmp(rec, case, "mi", l_mi(kw, P[:2]), A[:2], kw, True)
            cmp(rec, case, "cmi", l_cmi(kw, P[:2], P[2]), A[:2], dict(kw, cond=A[2]), True)
            embed(rec, x, y, None, EMB[:1] + EMB[4:5], case, (kw,))
            embed(rec, x, y, z, CEMB[1:2], case, (kw,))


def _big(n):
    return np.array(lcg(n, n, 10**6)) / 10**5


def workers(rec, n, w):
    """The parallel path: chunk boundaries neither lose, repeat nor reorder points."""
    x = _big(n)
    rec.node("workers", n, w)
    kw = dict(kernel="gaussian", bandwidth=0.2)
    case = {"n": n, "workers": w, **kw}
    ok, est = rec.call(
        case, "workers", im.estimator, x, measure="h", approach="kernel", workers=w, **kw
    )
    if not ok:
        return
    ok, loc = rec.call(case, "local values", est.local_vals)
    if not ok:
        return
    rec.ev()
    rec.traces += 1
    loc = np.asarray(loc)
    if not rec.true(loc.shape == (n,), case, (n,), loc.shape, "one local value per sample"):
        return
    rec.close(case, float(np.mean(loc)), float(est.result()), "value is the mean")
    var = float(np.var(x, ddof=1)) * 0.04
    # exact densities at fixed places, among them both sides of every chunk boundary
    at = set(range(0, n, 501)) | {0, n - 1}
    for parts in range(2, 9):
        for b in range(1, parts):
            for d in (-2, -1, 0, 1, 2):
                at.add(min(n - 1, max(0, b * n // parts + d)))
    for i in sorted(at):
        d = float(np.mean(np.exp(-0.5 * (x - x[i]) ** 2 / var))) / math.sqrt(2 * math.pi * var)
        rec.close({**case, "i": i}, -math.log(d), float(loc[i]), "density at a point differs", 1e-8)
    # the whole vector must be a function of the point only
    o = np.argsort(x, kind="stable")
    jump = np.abs(np.diff(loc[o]))
    rec.true(
        float(jump.max()) < 0.05, case, "smooth in x", float(jump.max()), "points out of order"
    )


def workers_cross(rec, w):
    q, p = _big(20000), np.array(lcg(3, 16500, 10**6)) / 10**5
    kw = dict(kernel="gaussian", bandwidth=0.2, workers=w)
    rec.node("workers_cross", w)
    var = float(np.var(q, ddof=1)) * 0.04
    s = 0.0
    for i in range(0, len(p), 100):
        b = p[i : i + 100, None]
        d = np.exp(-0.5 * (q[None, :] - b) ** 2 / var).mean(axis=1)
        s += float(np.log(d / math.sqrt(2 * math.pi * var)).sum())
    ok, got = rec.call(kw, "cross-entropy", im.cross_entropy, p, q, approach="kernel", **kw)
    if ok:
        rec.ev()
        rec.traces += 1
        rec.close(kw, -s / len(p), float(got), "parallel kernel cross-entropy differs", 1e-8)


def workers_box(rec):
    x, y, z = (lcg(s, 500, 60) for s in (1, 2, 3))
    A = tuple(map(np.array, (x, y, z)))
    P = [pts(v) for v in (x, y, z)]
    rec.time_state("w", x, y, z)
    for w in (1, 2, 3, 8, -1):
        for kw in (dict(kernel="box", bandwidth=7), dict(kernel="gaussian", bandwidth=0.3)):
            if kw["kernel"] == "gaussian" and w not in (1, -1):
                continue
            case = {"workers": w, **kw}
            k = dict(kw, workers=w)
            cmp(rec, case, "h", l_h(kw, P[0]), A[:1], k, True)
            cmp(rec, case, "mi", l_mi(kw, P[:2]), A[:2], k, True)
            cmp(rec, case, "cmi", l_cmi(kw, P[:2], P[2]), A[:2], dict(k, cond=A[2]), True)
            if w in (1, 3):
                cmp(rec, case, "te", te_loc(kw, x, y, None, {}), A[:2], k, True)
                cmp(rec, case, "cte", te_loc(kw, x, y, z, {}), A[:2], dict(k, cond=A[2]), True)
