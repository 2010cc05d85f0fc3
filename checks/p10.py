"""P10 - ordinal (permutation) measures."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.lib import lcg, lnb

LEVEL = "model_checking"
RULE = (
    "all weak orderings of n samples (every series up to order-preserving relabelling, ties "
    "included) are enumerated; the model slides the embedding window through the series - "
    "one state per window, its rank pattern is the symbol - and every measure is recomputed "
    "from the symbol stream and compared with the real estimators. Non-trivial: at least "
    "two different patterns."
)
ASSUMPTIONS = [
    "equal samples are ordered by time when stable=True (documented); without it only tie-free "
    "series are compared",
]
BOUNDS = {
    "quick": "weak orderings of <=6 samples (entropy), tie-free <=7; pairs of series <=4 (MI, "
    "KLD, JSD, cross-entropy, TE), triples <=4 (CMI, CTE); dimension 1..6, delay 1..3; "
    "long fixed series with dimension up to 20"
        "; all histories 1..4 x 1..4 x 1..3, steps 1..3, 5 propagation times for dimensions 1..4 on 50 and 90 samples"
    "; joint entropy, MI and CMI of 5 to 12 variables"
        "; aliased arguments",
    "thorough": "weak orderings of <=7 samples, pairs <=5, triples <=4 complete",
}


def weak_orders(n):
    """All series of n samples up to order isomorphism: dense rankings."""
    for s in itertools.product(range(n), repeat=n):
        m = max(s, default=-1)
        if len(set(s)) == m + 1:
            yield s


MANYVARS = (('ordinal', ('h', 'mi', 'cmi')),)

# moves of P23 that must not matter here either
SHARED = [("aliases", m, "ordinal") for m in ("h", "hx", "mi", "mi3", "cmi", "te", "cte", "jsd", "kld")]


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    k = 24
    for n in range(1, 8 if th else 7):
        for i in range(k if n > 4 else 1):
            out.append(("single", n, i, k if n > 4 else 1))
    for i in range(8):
        out.append(("tiefree", 8 if th else 7, i, 8))
    for n in range(2, 6 if th else 5):
        for i in range(k if n > 3 else 1):
            out.append(("pair", n, i, k if n > 3 else 1))
    for n in (2, 3, 4):
        for i in range(k if n > 2 else 1):
            out.append(("triple", n, i, k if n > 2 else 1, False))
    if th:
        for i in range(24):
            out.append(("triple", 4, i, 24, True))
    for i in range(4):
        out.append(("monotone", 5, i, 4))
    for n in (30, 100, 257, 1000):
        out.append(("long", n))
    for n in (70, 130, 260) if th else (70,):
        for i in range(4):
            out.append(("plateaus", n, i))
    for n in (800, 2500) if th else (800,):
        out.append(("rich", n))
    for sh in range(1, 6 if th else 5):
        for dim in (1, 2, 3, 4):
            out.append(("histories", dim, sh))
    for a, ms in MANYVARS:
        out += [("manyvars", *t) for t in many.tasks(a, ms, tier == "thorough")]
    return out


def manyvars(rec, *task):
    many.run(rec, *task)


def sl(it, i, k):
    return itertools.islice(it, i, None, k)


def n_windows(n, dim, step):
    return n - (dim - 1) * step


def h(sym):
    return ref.h_discrete(ref.hist(sym))


def single(rec, n, i, k):
    for s in sl(weak_orders(n), i, k):
        for dim, step in itertools.product(range(1, 7), (1, 2, 3)):
            if n_windows(n, dim, step) < 1:
                continue
            pat = ref.ordinal_patterns(s, dim, step)
            rec.states += len(pat)
            rec.transitions += len(pat) - 1
            rec.ev(len(set(pat)) > 1)
            case = {"series": s, "dim": dim, "step": step}
            kw = dict(
                approach="ordinal", embedding_dim=dim, step_size=step, stable=True
            )
            ok, est = rec.call(
                case, "ordinal entropy", im.estimator, np.array(s), measure="h", **kw
            )
            if not ok:
                continue
            ok, got = rec.call(case, "ordinal entropy", est.result)
            if not ok:
                continue
            rec.traces += 1
            rec.outcome(got)
            rec.close(case, h(pat), got, "ordinal entropy of the rank patterns")
            rec.true(
                -1e-12 <= got <= math.log(math.factorial(dim)) + 1e-9,
                case,
                "0 <= H <= ln(d!)",
                got,
                "ordinal entropy out of bounds",
            )
            c = ref.hist(pat)
            ok, lv = rec.call(case, "ordinal local values", est.local_vals)
            if ok:
                rec.close(
                    case,
                    [-math.log(c[p] / len(pat)) for p in pat],
                    lv,
                    "ordinal local values per window",
                )
            if len(set(s)) == n and dim > 1:  # no ties: the stable flag is irrelevant
                ok, g2 = rec.call(
                    case,
                    "ordinal entropy",
                    im.entropy,
                    list(s),
                    approach="permutation",
                    embedding_dim=dim,
                    step_size=step,
                )
                if ok:
                    rec.close(case, h(pat), g2, "unstable sorting of a tie-free series")
            elif n <= 4 and dim == 2 and step == 1:
                # unstable: ties may count either way, but consistently
                ok, g2 = rec.call(
                    case,
                    "ordinal entropy",
                    im.entropy,
                    list(s),
                    approach="ordinal",
                    embedding_dim=dim,
                )
    rec.sample({"n": n, "slice": i})


def tiefree(rec, n, i, k):
    for s in sl(itertools.permutations(range(n)), i, k):
        for dim, step in ((2, 1), (3, 1), (3, 2), (4, 1), (5, 1), (4, 2)):
            if n_windows(n, dim, step) < 1:
                continue
            pat = ref.ordinal_patterns(s, dim, step)
            rec.states += len(pat)
            rec.transitions += len(pat) - 1
            rec.ev(len(set(pat)) > 1)
            case = {"series": s, "dim": dim, "step": step, "stable": False}
            ok, est = rec.call(
                case,
                "ordinal entropy",
                im.estimator,
                np.array(s, dtype=float),
                measure="h",
                approach="ordinal",
                embedding_dim=dim,
                step_size=step,
            )
            if not ok:
                continue
            ok, got = rec.call(case, "ordinal entropy", est.result)
            if ok:
                rec.traces += 1
                rec.outcome(got)
                rec.close(case, h(pat), got, "ordinal entropy of a tie-free series")
                ok, lv = rec.call(case, "ordinal local values", est.local_vals)
                c = ref.hist(pat)
                if ok:
                    rec.close(
                        case,
                        [-math.log(c[p] / len(pat)) for p in pat],
                        lv,
                        "ordinal local values",
                    )


def params(n):
    for dim, step in (
        ((1, 1), (2, 1), (3, 1), (2, 2)) if n < 4 else ((2, 1), (3, 1), (2, 2))
    ):
        if n_windows(n, dim, step) >= 1:
            yield dim, step


def pair(rec, n, i, k):
    for a in sl(weak_orders(n), i, k):
        for b in weak_orders(n):
            two(rec, a, b)
        # cross-entropy between series of different lengths
        for m in (2, 3, n + 1):
            bs = weak_orders(m) if m <= 3 else itertools.permutations(range(m))
            for b in bs:
                crosslike(rec, a, b)
    rec.sample({"n": n, "slice": i})


def crosslike(rec, a, b):
    for dim, step in params(min(len(a), len(b))):
        pa, pb = ref.ordinal_patterns(a, dim, step), ref.ordinal_patterns(b, dim, step)
        case = {"p": a, "q": b, "dim": dim, "step": step}
        kw = dict(approach="ordinal", embedding_dim=dim, step_size=step, stable=True)
        ca, cb = ref.hist(pa), ref.hist(pb)
        rec.ev(len(set(pa + pb)) > 1)
        rec.node("cross", a, b, dim, step)
        ok, got = rec.call(
            case, "ordinal cross-entropy", im.cross_entropy, np.array(a), list(b), **kw
        )
        if ok:
            rec.traces += 1
            rec.outcome(got)
            rec.close(case, ref.hx_discrete(ca, cb), got, "ordinal cross-entropy")
        ok, got = rec.call(case, "ordinal KLD", im.kld, list(a), np.array(b), **kw)
        if ok:
            rec.close(case, ref.hx_discrete(ca, cb) - h(pa), got, "ordinal KLD")
        ok, got = rec.call(case, "ordinal JSD", im.jsd, np.array(a), np.array(b), **kw)
        if ok:
            rec.close(
                case, ref.jsd_of([ref.probs(ca), ref.probs(cb)]), got, "ordinal JSD"
            )


def te_locals(x, y, z=None, **par):
    """log p(future | all) / p(future | history[, condition])."""
    fut, dh, sh, ch = ref.te_columns(x, y, z, **par)
    bs = [d + c for d, c in zip(dh, ch)] if ch is not None else dh
    fb, sb, fsb = list(zip(fut, bs)), list(zip(sh, bs)), list(zip(fut, sh, bs))
    cf, cs, cj, cb = map(ref.hist, (fb, sb, fsb, bs))
    return [math.log(cj[j] * cb[b] / (cf[f] * cs[s])) for f, s, j, b in zip(fb, sb, fsb, bs)]


def two(rec, a, b):
    n = len(a)
    A, B = np.array(a), np.array(b, dtype=float)
    for dim, step in params(n):
        pa, pb = ref.ordinal_patterns(a, dim, step), ref.ordinal_patterns(b, dim, step)
        pj = list(zip(pa, pb))
        case = {"x": a, "y": b, "dim": dim, "step": step}
        kw = dict(approach="ordinal", embedding_dim=dim, step_size=step, stable=True)
        rec.ev(len(set(pj)) > 1)
        rec.states += len(pj)
        rec.transitions += len(pj) - 1
        ok, est = rec.call(
            case, "joint ordinal entropy", im.estimator, (A, B), measure="h", **kw
        )
        if ok:
            ok, got = rec.call(case, "joint ordinal entropy", est.result)
        if ok:
            rec.traces += 1
            rec.close(case, h(pj), got, "joint ordinal entropy")
            c = ref.hist(pj)
            ok, lv = rec.call(case, "joint ordinal locals", est.local_vals)
            if ok:
                rec.close(
                    case,
                    [-math.log(c[p] / len(pj)) for p in pj],
                    lv,
                    "joint ordinal local values",
                )
        mi = h(pa) + h(pb) - h(pj)
        ok, est = rec.call(
            case, "ordinal MI", im.estimator, A, list(b), measure="mi", **kw
        )
        if ok:
            ok, got = rec.call(case, "ordinal MI", est.result)
        if ok:
            rec.traces += 1
            rec.outcome(got)
            rec.close(case, mi, got, "ordinal MI")
            ca, cb, cj = ref.hist(pa), ref.hist(pb), ref.hist(pj)
            m = len(pj)
            ok, lv = rec.call(case, "ordinal MI locals", est.local_vals)
            if ok:
                rec.close(
                    case,
                    [math.log(cj[p] * m / (ca[p[0]] * cb[p[1]])) for p in pj],
                    lv,
                    "ordinal MI local values",
                )
        # transfer entropy on the symbols
        for sh, dh, pt in ((1, 1, 0), (2, 1, 0), (1, 2, 0), (1, 1, 1), (1, 1, -1)):
            xs, ys = ref.shift_te(a, b, pt, step)
            if n_windows(len(xs), dim, step) <= max(sh, dh) * step:
                continue
            par = dict(src_hist=sh, dest_hist=dh, step=step)
            sx, sy = (
                ref.ordinal_patterns(xs, dim, step),
                ref.ordinal_patterns(ys, dim, step),
            )
            exp = ref.te_of("discrete", sx, sy, **par)
            c = {**case, **par, "pt": pt}
            ok, est = rec.call(
                c,
                "ordinal TE",
                im.estimator,
                A,
                B,
                measure="te",
                src_hist_len=sh,
                dest_hist_len=dh,
                prop_time=pt,
                **kw,
            )
            if not ok:
                continue
            ok, got = rec.call(c, "ordinal TE", est.result)
            if ok:
                rec.traces += 1
                rec.outcome(got)
                rec.close(c, exp, got, "ordinal TE")
            if n < 4 or (sh, dh) == (2, 1):
                ok, lv = rec.call(c, "ordinal TE locals", est.local_vals)
                if ok:
                    rec.close(c, te_locals(sx, sy, **par), lv, "ordinal TE local values")
        # offset of the MI
        for o in (1, -1):
            if n_windows(n - 1, dim, step) < 1:
                continue
            xs, ys = (a[:-1], b[1:]) if o > 0 else (a[1:], b[:-1])
            qa, qb = (
                ref.ordinal_patterns(xs, dim, step),
                ref.ordinal_patterns(ys, dim, step),
            )
            ok, got = rec.call(
                {**case, "offset": o}, "ordinal MI", im.mi, A, B, offset=o, **kw
            )
            if ok:
                rec.close(
                    {**case, "offset": o},
                    h(qa) + h(qb) - h(list(zip(qa, qb))),
                    got,
                    "ordinal MI with offset",
                )


def triple(rec, n, i, k, tiefree):
    """n <= 3: all; n = 4: one weak ordering and two binary (or all tie-free) series."""
    if n < 4:
        bs = list(weak_orders(n))
    elif tiefree:
        bs = list(itertools.permutations(range(n)))
    else:
        bs = [
            (0, 0, 1, 1),
            (0, 1, 0, 1),
            (1, 0, 0, 1),
            (1, 1, 0, 0),
            (0, 1, 1, 1),
            (0, 0, 1, 0),
        ]
    first = itertools.permutations(range(n)) if tiefree else weak_orders(n)
    for a in sl(first, i, k):
        for b in bs:
            for z in bs:
                three(rec, a, b, z)
    rec.sample({"n": n, "slice": i})


def three(rec, a, b, z):
    n = len(a)
    A, B, Z = np.array(a), list(b), np.array(z, dtype=np.int16)
    for dim, step in params(n):
        p = [ref.ordinal_patterns(v, dim, step) for v in (a, b, z)]
        case = {"x": a, "y": b, "z": z, "dim": dim, "step": step}
        kw = dict(approach="ordinal", embedding_dim=dim, step_size=step, stable=True)
        rec.ev(len(set(zip(*p))) > 1)
        rec.states += len(p[0])
        rec.transitions += len(p[0]) - 1
        exp = (
            h(list(zip(p[0], p[2])))
            + h(list(zip(p[1], p[2])))
            - h(list(zip(*p)))
            - h(p[2])
        )
        ok, est = rec.call(
            case, "ordinal CMI", im.estimator, A, B, cond=Z, measure="cmi", **kw
        )
        if ok:
            ok, got = rec.call(case, "ordinal CMI", est.result)
        if ok:
            rec.traces += 1
            rec.outcome(got)
            rec.close(case, exp, got, "ordinal CMI")
            ok, lv = rec.call(case, "ordinal CMI locals", est.local_vals)
            if ok:
                cj, cz = ref.hist(list(zip(*p))), ref.hist(p[2])
                cx, cy = ref.hist(list(zip(p[0], p[2]))), ref.hist(list(zip(p[1], p[2])))
                rec.close(
                    case,
                    [math.log(cj[s] * cz[s[2]] / (cx[s[0], s[2]] * cy[s[1], s[2]])) for s in zip(*p)],
                    lv,
                    "ordinal CMI local values",
                )
        if n < 4:
            r = ref.ordinal_patterns(a[::-1], dim, step)
            cols = (p[0], p[1], r)
            exp = sum(h(list(zip(c, p[2]))) for c in cols) - h(list(zip(*cols, p[2]))) - h(p[2])
            ok, got = rec.call(case, "ordinal CMI of three", im.cmi, A, B, A[::-1], cond=Z, **kw)
            if ok:
                rec.close(case, exp, got, "ordinal CMI of three variables")
            cols = (*p, r)
            exp = sum(map(h, cols)) - h(list(zip(*cols)))
            ok, got = rec.call(case, "ordinal MI of four", im.mi, A, B, Z, A[::-1], **kw)
            if ok:
                rec.close(case, exp, got, "ordinal MI of four variables")
        ok, got = rec.call(case, "ordinal MI of three", im.mi, A, B, Z, **kw)
        if ok:
            rec.close(
                case,
                sum(map(h, p)) - h(list(zip(*p))),
                got,
                "ordinal MI of three variables",
            )
        ok, got = rec.call(
            case, "joint ordinal entropy of three", im.entropy, (A, B, Z), **kw
        )
        if ok:
            rec.close(
                case, h(list(zip(*p))), got, "joint ordinal entropy of three series"
            )
        for ch in (1, 2):
            if len(p[0]) <= ch * step:
                continue
            exp = ref.te_of("discrete", p[0], p[1], p[2], step=step, cond_hist=ch)
            c = {**case, "ch": ch}
            ok, est = rec.call(
                c, "ordinal CTE", im.estimator, A, B, measure="cte", cond=Z, cond_hist_len=ch, **kw
            )
            if not ok:
                continue
            ok, got = rec.call(c, "ordinal CTE", est.result)
            if ok:
                rec.traces += 1
                rec.close(c, exp, got, "ordinal CTE")
            if n < 4 or step == 1:
                ok, lv = rec.call(c, "ordinal CTE locals", est.local_vals)
                if ok:
                    loc = te_locals(p[0], p[1], p[2], step=step, cond_hist=ch)
                    rec.close(c, loc, lv, "ordinal CTE local values")


MAPS = {
    "scale": lambda s: [2.5 * v - 3 for v in s],
    "exp": lambda s: [math.exp(3 * v) for v in s],
    "tiny": lambda s: [1.0 + v * 2.0**-52 for v in s],
    "huge": lambda s: [int(2**61 + v) for v in s],
    "neg": lambda s: [-100 + v for v in s],
    "uint8": lambda s: np.array([250 + v for v in s], dtype=np.uint8),
    "int8": lambda s: np.array([-128 + v for v in s], dtype=np.int8),
    "float32": lambda s: np.array(s, dtype=np.float32) / 3,
    "inf": lambda s: [-math.inf if v == 0 else v for v in s],
    "strided": lambda s: np.array([w for v in s for w in (v, -v, 7)])[::3],
    "reversed_view": lambda s: np.array(list(reversed(s)))[::-1],
    "bigendian": lambda s: np.array(s, dtype=">i4"),
    "list": list,
}


def monotone(rec, n, i, k):
    """Only the order matters: values, dtypes and memory layout do not."""
    for s in sl(weak_orders(n), i, k):
        for dim, step in ((2, 1), (3, 1), (2, 2), (3, 2), (4, 1)):
            if n_windows(n, dim, step) < 1:
                continue
            pat = ref.ordinal_patterns(s, dim, step)
            t = tuple(reversed(s))
            pt = ref.ordinal_patterns(t, dim, step)
            for name, f in MAPS.items():
                case = {"series": s, "dim": dim, "step": step, "map": name}
                rec.ev(len(set(pat)) > 1)
                rec.node("map", s, dim, step, name)
                kw = dict(
                    approach="ordinal", embedding_dim=dim, step_size=step, stable=True
                )
                ok, got = rec.call(case, "ordinal entropy", im.entropy, f(s), **kw)
                if ok:
                    rec.traces += 1
                    rec.outcome(got)
                    rec.close(
                        case,
                        h(pat),
                        got,
                        "ordinal entropy depends on more than the order",
                    )
                if len(set(s)) == n:  # without ties, stable ordering makes no difference
                    ok, got = rec.call(case, "ordinal entropy", im.entropy, f(s), **{**kw, "stable": False})
                    if ok:
                        rec.close({**case, "stable": False}, h(pat), got,
                                  "ordinal entropy depends on more than the order")
                    ok, got = rec.call(case, "ordinal local values", lambda: im.estimator(
                        f(s), measure="h", **{**kw, "stable": False}).local_vals())
                    if ok:
                        c = ref.hist(pat)
                        rec.close({**case, "stable": False}, [-math.log(c[q] / len(pat)) for q in pat], got,
                                  "ordinal local values depend on more than the order")
                if sum(s) % 4:
                    continue
                for base in (2, "e", 10, 7):
                    ok, got = rec.call(
                        case, "ordinal MI", im.mi, f(s), f(t), base=base, **kw
                    )
                    if ok:
                        exp = (h(pat) + h(pt) - h(list(zip(pat, pt)))) / lnb(base)
                        rec.close(
                            {**case, "base": base},
                            exp,
                            got,
                            "ordinal MI depends on more than the order",
                        )


def stairs(n):
    """Series full of ties: steps up, down and up and down, of every width."""
    for w in (1, 2, 3, 5, 9, 16, 22, 40):
        up = [i // w for i in range(n)]
        yield ("up", w), up
        yield ("down", w), [-v for v in up]
        for m in (2, 3, 5):
            yield ("saw", w, m), [v % m for v in up]
            yield ("wave", w, m), [abs(v % (2 * m) - m) for v in up]


def plateaus(rec, n, part):
    """Ties keep their order in windows of every length."""
    for name, s in list(stairs(n))[part::4]:
        for dim in range(2, 21):
            for step in (1, 2, 3):
                if n_windows(n, dim, step) < 5:
                    continue
                t = s[::-1]
                ps, pt = ref.ordinal_patterns(s, dim, step), ref.ordinal_patterns(t, dim, step)
                case = {"samples": n, "series": name, "dim": dim, "step": step}
                kw = dict(approach="ordinal", embedding_dim=dim, step_size=step, stable=True)
                rec.ev(len(set(ps)) > 1)
                rec.node("plateaus", n, name, dim, step)
                rec.states += len(ps)
                ok, got = rec.call(case, "ordinal entropy", im.entropy, np.array(s, dtype=float), **kw)
                if ok:
                    rec.traces += 1
                    rec.outcome(got)
                    rec.close(case, h(ps), got, "ordinal entropy")
                ok, got = rec.call(case, "ordinal MI", im.mi, s, np.array(t), **kw)
                if ok:
                    rec.close(case, h(ps) + h(pt) - h(list(zip(ps, pt))), got, "ordinal MI")
                if step == 1:
                    ok, got = rec.call(case, "ordinal TE", im.te, s, t, **kw)
                    if ok:
                        rec.close(case, ref.te_of("discrete", ps, pt), got, "ordinal TE")


TYPES = (list, np.array, lambda v: np.array(v, "float32"), lambda v: np.array(v, ">i2"))


def histories(rec, dim, sh):
    """Every combination of history lengths, step and propagation time; ties and none."""
    for n, m in ((50, 6), (90, 10**4)):
        x, y, z = (lcg(n * q + dim, n, m) for q in (1, 2, 3))
        y = [x[t - 3] if t % 3 else y[t] for t in range(n)]
        if m > n:  # no ties, so that an unstable sort has one answer too
            x, y, z = ([v * n + t for t, v in enumerate(s)] for s in (x, y, z))
        rec.time_state(x, y, z)
        for i, (dh, ch, step) in enumerate(itertools.product(range(1, 5), range(1, 4), (1, 2, 3))):
            base = ("e", 2, 10, 3)[i % 4]
            b = lnb(base)
            stable = m < n or bool(i % 2)
            f, g, q = (TYPES[(i + j) % 4 if m < n else (i + j) % 2] for j in range(3))
            kw = dict(approach="ordinal", embedding_dim=dim, step_size=step, stable=stable, base=base)
            par = dict(src_hist=sh, dest_hist=dh, step=step)
            case = {"n": n, "values": m, "dim": dim, "base": base, "stable": stable, **par}
            for pt in (0, 1, 3, -1, -4) if ch == 1 else ():
                xs, ys = ref.shift_te(x, y, pt, step)
                if n_windows(len(xs), dim, step) <= max(sh, dh) * step:
                    continue
                sx, sy = (ref.ordinal_patterns(v, dim, step) for v in (xs, ys))
                c = {**case, "prop_time": pt}
                ok, got = rec.call(
                    c, "ordinal TE", im.te, f(x), g(y), src_hist_len=sh, dest_hist_len=dh, prop_time=pt, **kw
                )
                if ok:
                    rec.ev()
                    rec.traces += 1
                    rec.outcome(got)
                    rec.close(c, ref.te_of("discrete", sx, sy, **par) / b, got, "ordinal TE", rtol=1e-8)
            sx, sy, sz = (ref.ordinal_patterns(v, dim, step) for v in (x, y, z))
            if len(sx) > max(sh, dh, ch) * step:
                par["cond_hist"] = ch
                c = {**case, "cond_hist": ch}
                ok, est = rec.call(
                    c,
                    "ordinal CTE",
                    im.estimator,
                    f(x),
                    g(y),
                    measure="cte",
                    cond=q(z),
                    src_hist_len=sh,
                    dest_hist_len=dh,
                    cond_hist_len=ch,
                    **kw,
                )
                ok, got = rec.call(c, "ordinal CTE", est.result) if ok else (False, None)
                if ok:
                    rec.ev()
                    rec.traces += 1
                    rec.outcome(got)
                    exp = ref.te_of("discrete", sx, sy, sz, **par)
                    rec.close(c, exp / b, got, "ordinal CTE", rtol=1e-8)
                    ok, lv = rec.call(c, "ordinal CTE locals", est.local_vals)
                if ok:
                    exp = [v / b for v in te_locals(sx, sy, sz, **par)]
                    rec.close(c, exp, lv, "ordinal CTE local values")
    rec.sample({"dim": dim, "src_hist": sh})


def rich(rec, n):
    """Cross-entropies whose series show hundreds of patterns, of even and uneven number."""
    for n1, n2 in ((n, n), (n, n // 7), (n // 7, n), (n, 3 * n // 4)):
        for m in (4, 10**6):
            a, b = lcg(n1 + 3, n1, m), lcg(n2 + 7, n2, m)
            for dim, step in ((4, 1), (5, 1), (5, 3), (6, 1), (6, 2), (7, 1), (9, 1)):
                pa, pb = ref.ordinal_patterns(a, dim, step), ref.ordinal_patterns(b, dim, step)
                case = {"samples": [n1, n2], "values": m, "dim": dim, "step": step}
                kw = dict(approach="ordinal", embedding_dim=dim, step_size=step, stable=True)
                ca, cb = ref.hist(pa), ref.hist(pb)
                rec.ev(len(set(ca) & set(cb)) > 1)
                rec.node("rich", n1, n2, m, dim, step)
                rec.states += len(pa) + len(pb)
                ok, got = rec.call(case, "ordinal cross-entropy", im.hx, np.array(a), b, **kw)
                if ok:
                    rec.traces += 1
                    rec.outcome(got)
                    rec.close(case, ref.hx_discrete(ca, cb), got, "ordinal cross-entropy")
                ok, got = rec.call(case, "ordinal KLD", im.kld, a, np.array(b), **kw)
                if ok:
                    rec.close(case, ref.hx_discrete(ca, cb) - h(pa), got, "ordinal KLD")
                ok, got = rec.call(case, "ordinal JSD", im.jsd, np.array(a), np.array(b), **kw)
                if ok:
                    rec.close(case, ref.jsd_of([ref.probs(ca), ref.probs(cb)]), got, "ordinal JSD")


def long(rec, n):
    for m in (3, 50, 10**6):
        s, t, z = (lcg(n + q, n, m) for q in (1, 2, 3))
        for dim, step in [(d, 1) for d in range(2, 21)] + [
            (3, 2),
            (4, 5),
            (5, 3),
            (12, 2),
            (2, 7),
            (2, 40),
            (2, 70),
            (3, 66),
            (4, 130),
            (2, 257),
        ]:
            if n_windows(n, dim, step) < 4:
                continue
            ps, pt, pz = (ref.ordinal_patterns(v, dim, step) for v in (s, t, z))
            case = {"n": n, "values": m, "dim": dim, "step": step}
            kw = dict(
                approach="ordinal", embedding_dim=dim, step_size=step, stable=True
            )
            rec.ev()
            rec.states += len(ps)
            rec.transitions += len(ps)
            ok, got = rec.call(case, "ordinal entropy", im.entropy, s, **kw)
            if ok:
                rec.traces += 1
                rec.outcome(got)
                rec.close(case, h(ps), got, "ordinal entropy")
            if n > 300 and dim not in (2, 3, 5, 13, 20):
                continue
            ok, got = rec.call(case, "ordinal MI", im.mi, s, t, **kw)
            if ok:
                rec.close(
                    case,
                    h(ps) + h(pt) - h(list(zip(ps, pt))),
                    got,
                    "ordinal MI",
                    rtol=1e-8,
                )
            ok, got = rec.call(
                case, "ordinal joint", im.entropy, (np.array(s), np.array(t)), **kw
            )
            if ok:
                rec.close(case, h(list(zip(ps, pt))), got, "joint ordinal entropy")
            ok, got = rec.call(case, "ordinal cross-entropy", im.hx, s, t, **kw)
            if ok:
                rec.close(
                    case,
                    ref.hx_discrete(ref.hist(ps), ref.hist(pt)),
                    got,
                    "ordinal cross-entropy",
                )
            if len(ps) > 3 * step:
                ok, got = rec.call(
                    case, "ordinal TE", im.te, s, t, src_hist_len=2, **kw
                )
                if ok:
                    rec.close(
                        case,
                        ref.te_of("discrete", ps, pt, src_hist=2, step=step),
                        got,
                        "ordinal TE",
                        rtol=1e-8,
                    )
                ok, got = rec.call(case, "ordinal CTE", im.cte, s, t, cond=z, **kw)
                if ok:
                    rec.close(
                        case,
                        ref.te_of("discrete", ps, pt, pz, step=step),
                        got,
                        "ordinal CTE",
                        rtol=1e-8,
                    )
            ok, got = rec.call(case, "ordinal CMI", im.cmi, s, t, cond=z, **kw)
            if ok:
                exp = (
                    h(list(zip(ps, pz)))
                    + h(list(zip(pt, pz)))
                    - h(list(zip(ps, pt, pz)))
                    - h(pz)
                )
                rec.close(case, exp, got, "ordinal CMI", rtol=1e-8)
