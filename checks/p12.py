"""P12 - KSG mutual information, conditional MI and transfer entropies."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.lib import NUMERIC, lcg, lnb, ranged, rgs, scaled

inf = math.inf
LEVEL = "model_checking"
RULE = (
    "exploration of paired and triple series over a small grid (coinciding points and equal "
    "distances included; the first series up to renaming where that is a grid symmetry is not "
    "used - all series are enumerated): a state is the stream so far, a transition appends one "
    "sample to each series; the model counts neighbours by brute force. Norms without exact "
    "distances are explored on tie-free point sets (all permutations). Each trace is replayed "
    "on the real estimators, local values included. Non-trivial: both series vary."
)
ASSUMPTIONS = [
    "noise switched off (P19 decides what the noise may do)",
    "for p other than 1 and infinity neighbour ties are not decided (rounded distances)",
]
BOUNDS = {
    "quick": "pairs over 3x3 grid values to length 4 and 3x2 at 5, triples 2x2x2 to length 4, "
    "k 1..n-1, types I/II, p=1,inf; TE/CTE with 9 embeddings on pairs (2x3 to 5) and "
    "triples (2x2x2 to 4); all permutations of 5 generic points at p=1,1.5,2,3,inf; offsets "
    "-3..3; lcg to n=300, long ones at n=1025,2100,4200"
        "; numeric types over their range; k to 48"
    "; MI and CMI of 5 to 12 variables; histories 1..4 x 1..4 x 0..4; variables of up to 6 columns"
        "; aliased arguments",
    "thorough": "pairs 3x3 to length 5, triples to 5, TE to 6, permutations of 6 points, lcg "
    "to n=1000",
}
VALS = (0, 1, 3)
EMB = (
    dict(),
    dict(src_hist=2),
    dict(dest_hist=2),
    dict(step=2),
    dict(prop_time=1),
    dict(prop_time=-1),
    dict(src_hist=3, dest_hist=2),
    dict(src_hist=2, dest_hist=1, step=2),
    dict(prop_time=1, step=2),
)
CEMB = (
    dict(),
    dict(cond_hist=2),
    dict(src_hist=2),
    dict(dest_hist=2),
    dict(src_hist=2, dest_hist=2, cond_hist=3),
    dict(step=2),
)


MANYVARS = (('metric', ('mi', 'cmi')),)

# moves of P23 that must not matter here either
SHARED = [("aliases", m, "metric") for m in ("mi", "cmi", "te", "cte")]


def tasks(tier, seed):
    th = tier == "thorough"
    small = []
    for n in range(2, 6):
        for x in itertools.product(range(3), repeat=n):
            ky = 3 if n < 5 or th else 2
            if n < 5 or x[0] == 0 or th:
                small.append(("pairs", x, ky))
    for n in range(2, 6 if th else 5):
        for x in itertools.product(range(2), repeat=n):
            small.append(("triples", x))
    for n in range(3, 7 if th else 6):
        for x in itertools.product(range(2), repeat=n):
            small.append(("tes", x, 3 if n < 6 else 2))
    for n in range(3, 6 if th else 5):
        for x in itertools.product(range(2), repeat=n):
            small.append(("ctes", x))
    k = 64
    out = [("bundle", small[i::k]) for i in range(k)]
    for n in (3, 4, 5) + ((6,) if th else ()):
        for first in range(n):
            out.append(("generic", n, first))
    for o in range(-3, 4):
        out.append(("offsets", o))
    out.append(("multi",))
    out += [("numeric", kind) for kind in NUMERIC]
    for k in (5, 10, 11, 16, 20, 31, 48):
        out.append(("neighbours", k))
    for n in (20, 60, 150, 300) + ((1000,) if th else ()):
        for mod in (4, 10**6):
            out.append(("large", n, mod))
    for n in (1025, 2100, 4200) + ((10001,) if th else ()):
        for kid in (1, 2):
            out.insert(0, ("long", n, kid))
    for a, ms in MANYVARS:
        out += [("manyvars", *t) for t in many.tasks(a, ms, tier == "thorough")]
    for a in ('metric',):
        out += [("pasts", *t) for t in many.past_tasks(a, tier == "thorough")]
        out += [("wide", *t) for t in many.wide_tasks(a, tier == "thorough")]
    return out


def manyvars(rec, *task):
    many.run(rec, *task)


def pasts(rec, *task):
    many.pasts(rec, *task)


def wide(rec, *task):
    many.wide(rec, *task)


def bundle(rec, items):
    for t in items:
        globals()[t[0]](rec, *t[1:])


def col(v):
    return [(float(s),) for s in v]


def flat(v):
    return sum((flat(w) for w in v), ()) if isinstance(v, tuple) else (float(v),)


def pts(*cols):
    return [flat(tuple(r)) for r in zip(*cols)]


LIB = {
    "src_hist": "src_hist_len",
    "dest_hist": "dest_hist_len",
    "cond_hist": "cond_hist_len",
    "step": "step_size",
    "prop_time": "prop_time",
}


def cmp(rec, case, measure, loc, args, kw, nt, base="e"):
    b = lnb(base)
    loc = [v / b for v in loc]
    ok, est = rec.call(
        case,
        measure,
        im.estimator,
        *args,
        measure=measure,
        approach="metric",
        noise_level=0,
        base=base,
        **kw,
    )
    if not ok:
        return
    ok, got = rec.call(case, measure, est.result)
    if not ok:
        return
    rec.ev(nt)
    rec.traces += 1
    rec.outcome(got)
    rec.close(
        case,
        math.fsum(loc) / len(loc),
        float(got),
        f"KSG {measure} differs from the formula with exact neighbour counts",
    )
    ok, got = rec.call(case, measure + " local values", est.local_vals)
    if ok:
        rec.close(case, loc, got, f"local KSG {measure} differs")


def variants(n, ps=(1, inf)):
    for k in range(1, n):
        for p in ps:
            for kid in (1, 2):
                yield k, p, kid, dict(k=k, minkowski_p=p, ksg_id=kid)


def pairs(rec, x, ky):
    n = len(x)
    xs = tuple(VALS[v] for v in x)
    for y in itertools.product(VALS[:ky], repeat=n):
        rec.time_state(xs, y)
        nt = len(set(xs)) > 1 and len(set(y)) > 1
        for k, p, kid, kw in variants(n, (1, inf) if n < 5 else (inf,)):
            loc = ref.l_ksg_mi([col(xs), col(y)], k, p, kid)
            case = {"x": xs, "y": y, **kw}
            cmp(rec, case, "mi", loc, (np.array(xs), np.array(y)), kw, nt)
    rec.sample({"x": xs, "y": "all"})


def triples(rec, x):
    n = len(x)
    for y in itertools.product(range(2), repeat=n):
        for z in itertools.product((0, 2), repeat=n):
            rec.time_state(x, y, z)
            nt = len(set(x)) > 1 and len(set(y)) > 1
            for k, p, kid, kw in variants(n, (1, inf) if n < 4 else (inf,)):
                case = {"x": x, "y": y, "z": z, **kw}
                cmp(
                    rec,
                    case,
                    "cmi",
                    ref.l_ksg_cmi([col(x), col(y)], col(z), k, p, kid),
                    (np.array(x), np.array(y)),
                    dict(kw, cond=np.array(z)),
                    nt,
                )
                if n < 4:
                    cmp(
                        rec,
                        {**case, "three": True},
                        "mi",
                        ref.l_ksg_mi([col(x), col(y), col(z)], k, p, kid),
                        (np.array(x), np.array(y), np.array(z)),
                        kw,
                        nt,
                    )
                    cmp(
                        rec,
                        {**case, "w": x[::-1]},
                        "cmi",
                        ref.l_ksg_cmi(
                            [col(x), col(y), col(x[::-1])], col(z), k, p, kid
                        ),
                        (np.array(x), np.array(y), np.array(x[::-1])),
                        dict(kw, cond=np.array(z)),
                        nt,
                    )
    rec.sample({"x": x, "y": "all", "z": "all"})


def te_loc(x, y, z, k, p, kid, par):
    fut, dh, sh, ch = ref.te_columns(x, y, z, **par)
    base = [d + c for d, c in zip(dh, ch)] if ch is not None else dh
    if len(fut) <= k:
        return None
    return ref.l_ksg_cmi([pts(fut), pts(sh)], pts(base), k, p, kid)


def embed(rec, x, y, z, embs, kmax, ps, case, base="e"):
    for par in embs:
        for k, p, kid, kw in variants(kmax + 1, ps):
            loc = te_loc(x, y, z, k, p, kid, par)
            if loc is None:
                continue
            lib = {LIB[a]: b for a, b in par.items()}
            args = (np.array(x), np.array(y))
            if z is not None:
                kw = dict(kw, cond=np.array(z))
            cmp(
                rec,
                {**case, **par, "k": k, "p": p, "ksg_id": kid},
                "te" if z is None else "cte",
                loc,
                args,
                dict(kw, **lib),
                len(set(x)) > 1 and len(set(y)) > 1,
                base,
            )


def tes(rec, x, ky):
    n = len(x)
    for y in itertools.product(VALS[:ky], repeat=n):
        rec.time_state("te", x, y)
        embed(rec, x, y, None, EMB[: 9 if n < 5 else 5], 2, (inf,), {"x": x, "y": y})
    rec.sample({"x": x, "y": "all"})


def ctes(rec, x):
    n = len(x)
    for y in itertools.product(range(2), repeat=n):
        for z in itertools.product((0, 2), repeat=n):
            rec.time_state("cte", x, y, z)
            case = {"x": x, "y": y, "z": z}
            embed(rec, x, y, z, CEMB if n < 4 else CEMB[:4], 2, (inf,), case)


GEN = [0.0, 1.013, 2.231, 3.977, 6.4142, 9.1919]


def generic(rec, n, first):
    """All permutations of points with pairwise different distances, every norm."""
    xs = tuple(GEN[:n])
    zs = tuple(1.7 * v + 0.13 * i * i for i, v in enumerate(GEN[:n]))[::-1]
    for perm in itertools.permutations(range(n)):
        if perm[0] != first:
            continue
        y = tuple(1.37 * GEN[i] + 0.011 * GEN[i] ** 2 for i in perm)
        rec.time_state(xs, y, zs)
        for k, p, kid, kw in variants(n, (1, 1.5, 2, 3, inf)):
            case = {"x": xs, "y": y, **kw}
            args = (np.array(xs), np.array(y))
            cmp(rec, case, "mi", ref.l_ksg_mi([col(xs), col(y)], k, p, kid), args, kw, True)
            cmp(
                rec,
                {**case, "z": zs},
                "cmi",
                ref.l_ksg_cmi([col(xs), col(y)], col(zs), k, p, kid),
                args,
                dict(kw, cond=np.array(zs)),
                True,
            )
        case = {"x": xs, "y": y}
        embed(rec, xs, y, None, EMB[:4], 3, (2, 3), case)
        embed(rec, xs, y, zs, CEMB[:3], 3, (2, 3), {**case, "z": zs})
    rec.sample({"n": n, "first": first})


def offsets(rec, o):
    for n in (abs(o) + 2, abs(o) + 4, 12):
        if n <= abs(o) + 2 and n == 12:
            continue
        for s in range(6):
            x, y = lcg(s + n, n, 5), lcg(s + 2 * n + 1, n, 5)
            if o >= 0:
                a, b = x[: n - o], y[o:]
            else:
                a, b = x[-o:], y[: n + o]
            rec.time_state("off", x, y)
            for k, p, kid, kw in variants(min(len(a), 4)):
                loc = ref.l_ksg_mi([col(a), col(b)], k, p, kid)
                for base in ("e", 2, 10):
                    cmp(
                        rec,
                        {"x": x, "y": y, "offset": o, "base": base, **kw},
                        "mi",
                        loc,
                        (x, np.array(y)),
                        dict(kw, offset=o),
                        True,
                        base,
                    )


def numeric(rec, kind):
    """Series over the whole range of a numeric type are taken as the numbers they are."""
    ints, arrays = ranged(kind)
    rec.time_state(kind, *ints)
    for norm in (False, True):
        v = [scaled(s) for s in ints] if norm else ints
        P = [col(s) for s in v]
        more = {"normalize": True} if norm else {}
        for k, p, kid, kw in variants(4, (1, 2, inf)):
            case = {"type": kind, **more, **kw}
            for sel in ((0, 1), (1, 2), (0, 1, 2)):
                exp = ref.l_ksg_mi([P[i] for i in sel], k, p, kid)
                cmp(rec, {**case, "vars": sel}, "mi", exp, tuple(arrays[i] for i in sel), dict(kw, **more), True)
            exp = ref.l_ksg_cmi(P[:2], P[2], k, p, kid)
            cmp(rec, case, "cmi", exp, tuple(arrays[:2]), dict(kw, cond=arrays[2], **more), True)
            if norm:
                continue
            for par in (dict(), dict(src_hist=2, step=2), dict(dest_hist=2)):
                lib = {LIB[a]: b for a, b in par.items()}
                loc = te_loc(*v[:2], None, k, p, kid, par)
                if loc:
                    cmp(rec, {**case, **par}, "te", loc, tuple(arrays[:2]), dict(kw, **lib), True)
                loc = te_loc(*v, k, p, kid, par)
                if loc:
                    cmp(rec, {**case, **par}, "cte", loc, tuple(arrays[:2]), dict(kw, cond=arrays[2], **lib), True)
    rec.sample({"type": kind, "series": ints})


def multi(rec):
    """Variables and conditions with several columns, four variables, lists, bases."""
    for n in (5, 12, 25):
        for mod in (3, 10**5):
            X = list(zip(lcg(n, n, mod), lcg(n + 1, n, mod)))
            Y = list(zip(lcg(n + 2, n, mod), lcg(n + 3, n, mod), lcg(n + 4, n, mod)))
            z = lcg(n + 5, n, mod)
            Z = list(zip(z, lcg(n + 6, n, mod)))
            w = lcg(n + 7, n, mod)
            rec.time_state(X, Y, Z, w)
            for base in ("e", 2):
                for k, p, kid, kw in variants(4):
                    A = tuple(np.array(v) for v in (X, Y, Z, w))
                    case = {"n": n, "mod": mod, "base": base, **kw}
                    P = [pts(v) for v in (X, Y, Z, w)]
                    for name, sel in (("xy", (0, 1)), ("yw", (1, 3)), ("all", (0, 1, 2, 3))):
                        cmp(
                            rec,
                            {**case, "vars": name},
                            "mi",
                            ref.l_ksg_mi([P[i] for i in sel], k, p, kid),
                            tuple(A[i] for i in sel),
                            kw,
                            True,
                            base,
                        )
                    for name, sel, c in (
                        ("xy|Z", (0, 1), 2),
                        ("yw|Z", (1, 3), 2),
                        ("xy|w", (0, 1), 3),
                        ("xyw|Z", (0, 1, 3), 2),
                        ("xwyw|Z", (0, 3, 1, 3), 2),
                    ):
                        cmp(
                            rec,
                            {**case, "vars": name},
                            "cmi",
                            ref.l_ksg_cmi([P[i] for i in sel], P[c], k, p, kid),
                            tuple(A[i] for i in sel),
                            dict(kw, cond=A[c]),
                            True,
                            base,
                        )
                    loc = te_loc(X, Y, None, k, p, kid, dict(src_hist=2))
                    if loc:
                        cmp(
                            rec,
                            {**case, "te": "X->Y"},
                            "te",
                            loc,
                            A[:2],
                            dict(kw, src_hist_len=2),
                            True,
                            base,
                        )


def neighbours(rec, k):
    """Many neighbours, long histories and steps, in tie-free and in tied series."""
    n = 66
    for mod in (5, 10**6):
        x, y, z, w = (lcg(s * n + k, n, mod) for s in (1, 2, 3, 4))
        y = [(x[t - 1] + y[t]) / 2 for t in range(n)]
        rec.time_state("k", k, x, y, z)
        P = [col(v) for v in (x, y, z, w)]
        for p, kid in itertools.product((1, 2, inf), (1, 2)):
            if p == 2 and mod == 5:
                continue  # equal distances are square roots that may differ by rounding
            kw = dict(k=k, minkowski_p=p, ksg_id=kid)
            case = {"lcg": (n, mod), **kw}
            for sel in ((0, 1), (0, 1, 2), (3, 1, 0, 2)):
                args = tuple((x, y, z, w)[i] for i in sel)
                cmp(rec, {**case, "vars": sel}, "mi", ref.l_ksg_mi([P[i] for i in sel], k, p, kid), args, kw, True)
            for sel, c in (((0, 1), 2), ((0, 3, 1), 2)):
                args = tuple((x, y, z, w)[i] for i in sel)
                exp = ref.l_ksg_cmi([P[i] for i in sel], P[c], k, p, kid)
                cmp(rec, {**case, "vars": sel}, "cmi", exp, args, dict(kw, cond=z), True)
            for par in (
                dict(src_hist=5, dest_hist=3),
                dict(src_hist=1, dest_hist=6),
                dict(src_hist=3, dest_hist=4, step=5),
                dict(src_hist=2, step=9, prop_time=7),
                dict(dest_hist=2, step=3, prop_time=-5),
            ):
                lib = {LIB[a]: b for a, b in par.items()}
                loc = te_loc(x, y, None, k, p, kid, par)
                if loc:
                    cmp(rec, {**case, **par}, "te", loc, (x, y), dict(kw, **lib), True)
                if "prop_time" in par:
                    continue
                for ch in (1, 4):
                    loc = te_loc(x, y, z, k, p, kid, dict(par, cond_hist=ch))
                    if loc:
                        more = dict(kw, cond=z, cond_hist_len=ch, **lib)
                        cmp(rec, {**case, **par, "cond_hist": ch}, "cte", loc, (x, y), more, True)
    rec.sample({"k": k})


def long(rec, n, kid):
    """Thousands of samples, one- and two-dimensional."""
    x, y, z = ([v / 2**14 for v in lcg(s * n + 1, n, 10**6)] for s in (1, 2, 3))
    y = [(x[t - 1] + y[t]) / 2 for t in range(n)]
    rec.node("long", n, kid)
    two = [(a, b) for a, b in zip(z, x[::-1])]
    k = 4 if kid == 1 else 7
    kw = dict(k=k, ksg_id=kid)
    case = {"lcg": n, **kw}
    X, Y, Z = map(col, (x, y, z))
    cmp(rec, case, "mi", ref.l_ksg_mi([X, Y], k, inf, kid), (x, y), kw, True)
    cmp(rec, {**case, "dim": 2}, "mi", ref.l_ksg_mi([two, Y], k, inf, kid), (two, y), kw, True)
    if n < 4000:
        cmp(rec, case, "mi", ref.l_ksg_mi([X, Y, Z], k, inf, kid), (x, y, z), kw, True)
    cmp(rec, case, "cmi", ref.l_ksg_cmi([X, Y], Z, k, inf, kid), (x, y), dict(kw, cond=z), True)
    for par in (dict(src_hist=2, prop_time=1), dict(dest_hist=3, step=2)):
        lib = dict(kw, **{LIB[a]: b for a, b in par.items()})
        cmp(rec, {**case, **par}, "te", te_loc(x, y, None, k, inf, kid, par), (x, y), lib, True)
    par = dict(src_hist=2, cond_hist=2)
    lib = dict(kw, cond=z, **{LIB[a]: b for a, b in par.items()})
    cmp(rec, {**case, **par}, "cte", te_loc(x, y, z, k, inf, kid, par), (x, y), lib, True)


def large(rec, n, mod):
    x, y, z = (lcg(s * n + 1, n, mod) for s in (1, 2, 3))
    y = [(x[t - 1] + y[t]) / 2 for t in range(n)]
    rec.time_state(x, y, z)
    for k in (1, 4, 7):
        for kid in (1, 2):
            kw = dict(k=k, ksg_id=kid)
            case = {"lcg": (n, mod), **kw}
            cmp(rec, case, "mi", ref.l_ksg_mi([col(x), col(y)], k, inf, kid), (x, y), kw, True)
            cmp(
                rec,
                case,
                "cmi",
                ref.l_ksg_cmi([col(x), col(y)], col(z), k, inf, kid),
                (x, y),
                dict(kw, cond=z),
                True,
            )
            embed(rec, x, y, None, (EMB[0], EMB[6], EMB[8]), 0, (), case)
            for par in (EMB[0], EMB[6], EMB[8]):
                cmp(
                    rec,
                    {**case, **par},
                    "te",
                    te_loc(x, y, None, k, inf, kid, par),
                    (x, y),
                    dict(kw, **{LIB[a]: b for a, b in par.items()}),
                    True,
                )
            cmp(
                rec,
                case,
                "cte",
                te_loc(x, y, z, k, inf, kid, dict(cond_hist=2)),
                (x, y),
                dict(kw, cond=z, cond_hist_len=2),
                True,
            )
