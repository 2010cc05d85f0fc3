"""P09 - MI, CMI, TE and CTE of every count-based estimator combine that estimator's entropies."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.lib import ENCODINGS, NUMERIC, lcg, lnb, long_streams, ranged, rgs, scaled, sequences

LEVEL = "model_checking"
RULE = (
    "exploration of paired/triple symbol streams (first stream up to renaming): a state is "
    "the stream so far, a transition appends one sample to each; for each count-based "
    "estimator and parameter choice the model combines that estimator's reference "
    "entropies of the joint histograms as the entropy identity demands, and the trace is "
    "replayed on the real MI/CMI/TE/CTE estimators. Non-trivial: both streams vary."
)
ASSUMPTIONS = [
    "entropies themselves are decided by P01/P02; NSB entropies are taken from the library "
    "(their deviation is known finding F-NSB of P02), only their combination is decided here",
    "the shrinkage estimator combines the means of its local values (documented)",
]
BOUNDS = {
    "quick": "Renyi/Tsallis: 2 streams over 3 grid values to length 5, 14 orders/variants; others: 2 streams <=3x2 symbols to length 5 (MI, TE), 3 streams 2x2x2 to length 4 (CMI, "
    "CTE, 3-variable MI); NSB to length 4; Bayes with 7 prior choices and fixed K; 27 encodings; series of up to 1100 samples, with equal ends too"
        "; CMI of 3 and 4 variables; all histories 1..4 x 1..4 x 1..3, steps 1..3, 5 propagation times on 31 and 70 samples; numeric types over their range; Renyi/Tsallis to n=1030"
    "; MI and CMI of 5 to 12 variables; histories 1..4 x 1..4 x 0..4; variables of up to 6 columns"
        "; symbols at every type limit, aliased arguments",
    "thorough": "2 streams <=3x3 to length 6; 3 streams to length 5; NSB to length 5",
}

VARIANTS = {
    "ansb": [{}],
    "bayes": [
        {"alpha": a}
        for a in (0.5, 1, 0.0, "jeffrey", "laplace", "sch-grass", "min-max")
    ]
    + [{"alpha": 0.3, "K": 50}, {"alpha": "sch-grass", "K": 70}],
    "bonachela": [{}],
    "chao_shen": [{}],
    "chao_wang_jost": [{}],
    "discrete": [{}],
    "grassberger": [{}],
    "miller_madow": [{}],
    "shrink": [{}],
    "zhang": [{}],
    "nsb": [{}],
}
# cheap on every case; the others follow on the first variant only
CHEAP = [a for a in VARIANTS if a != "nsb"]


MANYVARS = (('renyi', ('mi', 'cmi')), ('tsallis', ('mi', 'cmi')), ('bayes', ('mi', 'cmi')), ('shrink', ('mi', 'cmi')), ('chao_shen', ('mi', 'cmi')), ('chao_wang_jost', ('mi', 'cmi')), ('grassberger', ('mi', 'cmi')), ('zhang', ('mi', 'cmi')), ('bonachela', ('mi', 'cmi')), ('ansb', ('mi', 'cmi')), ('nsb', ('mi', 'cmi')), ('discrete', ('mi', 'cmi')), ('miller_madow', ('mi', 'cmi')))

# moves of P23 that must not matter here either
SHARED = [(kind, m, a) for kind in ("boundaries", "aliases") for m, a in cases.combos(("mi", "mi3", "cmi", "te", "cte")) if a not in (*cases.CONT, "ordinal", "nsb", "discrete")]
SHARED += [("aliases", m, a) for m, a in cases.combos(("mi", "mi3", "cmi", "te", "cte"), ("renyi", "tsallis"))]


def tasks(tier, seed):
    th = tier == "thorough"
    small = []
    for n in range(1, 7 if th else 6):
        for x in rgs(n, 3):
            small.append(("pairs", x, 3 if th or n <= 3 else 2, CHEAP))
    for n in range(1, 6 if th else 5):
        for x in rgs(n, 2):
            small.append(("triples", x, CHEAP))
    for n in range(2, 6 if th else 5):
        for x in rgs(n, 2):
            small.append(("pairs", x, 2, ["nsb"]))
    for n in range(2, 5 if th else 4):
        for x in rgs(n, 2):
            small.append(("triples", x, ["nsb"]))
    k = 64
    out = [("bundle", small[i::k]) for i in range(k)]
    for n in (2, 3):
        out.append(("multidim", n))
    for n in (4, 5) + ((6,) if th else ()):
        for x in rgs(n, 3):
            out.append(("knn", x))
    out.append(("knn_params",))
    out += [("numeric", kind) for kind in NUMERIC]
    for n in range(2, 5 if th else 4):
        for x in rgs(n, 2):
            out.append(("manycond", x))
    for enc in ENCODINGS:
        out.append(("encodings", enc))
    for n in (30, 100, 300, 1000, 1100) + ((5000,) if th else ()):
        for k in (2, 5, 30):
            out.append(("large", n, k))
    for a in CHEAP:
        out += [("histories", a, h) for h in range(1, 6 if th else 5)]
    out += [("knn_large", n) for n in (70, 130, 257, 1030) + ((2100,) if th else ())]
    for a, ms in MANYVARS:
        out += [("manyvars", *t) for t in many.tasks(a, ms, tier == "thorough")]
    for a in ('renyi', 'tsallis'):
        out += [("pasts", *t) for t in many.past_tasks(a, tier == "thorough")]
        out += [("wide", *t) for t in many.wide_tasks(a, tier == "thorough")]
    out += [("orders", a) for a in ("renyi", "tsallis")]
    out += [("faint", *t) for t in many.faint_tasks()]
    for a in CHEAP:
        out += [("wide", *t) for t in many.wide_tasks(a, tier == "thorough")]
    return out


def manyvars(rec, *task):
    many.run(rec, *task)


def pasts(rec, *task):
    many.pasts(rec, *task)


def faint(rec, *task):
    many.faint(rec, *task)


def wide(rec, *task):
    many.wide(rec, *task)


def bundle(rec, items):
    for t in items:
        globals()[t[0]](rec, *t[1:])


class Ent:
    """Reference entropy of joint columns, memoised per case."""

    def __init__(self, approach, kw):
        self.approach, self.kw, self.memo = approach, kw, {}

    def __call__(self, *cols):
        sym = ref.rows(*cols)
        key = tuple(sorted(ref.hist(sym).values()))
        if key not in self.memo:
            if self.approach == "nsb":
                ids = {s: i for i, s in enumerate(dict.fromkeys(sym))}
                self.memo[key] = float(
                    im.entropy([ids[s] for s in sym], approach="nsb", **self.kw)
                )
            else:
                self.memo[key] = ref.combine_entropy(self.approach, sym, **self.kw)
        return self.memo[key]


def ents(approaches):
    for a in approaches:
        for kw in VARIANTS[a]:
            yield a, kw, Ent(a, kw)


_cache = {}


def cached_ents(approaches):
    key = tuple(approaches)
    if key not in _cache:
        _cache[key] = list(ents(approaches))
    for a, kw, e in _cache[key]:
        if len(e.memo) > 20000:
            e.memo.clear()
    return _cache[key]


def cmp(rec, case, name, exp, fn, args, kw, nontriv, rtol=1e-8):
    ok, got = rec.call(case, name, fn, *args, **kw)
    if not ok:
        return
    rec.ev(nontriv)
    rec.traces += 1
    rec.outcome(got)
    rec.close(
        case,
        float(exp),
        float(got),
        f"{name} is not the documented combination of entropies",
        rtol,
        1e-8,
    )


def te_exp(e, x, y, z=None, **par):
    fut, dh, sh, ch = ref.te_columns(x, y, z, **par)
    base = [d + c for d, c in zip(dh, ch)] if ch is not None else dh
    return e(fut, base) + e(sh, base) - e(fut, sh, base) - e(base)


TE_PARS = (dict(), dict(src_hist=2), dict(dest_hist=2, prop_time=1), dict(step=2))


def lib_par(par):
    names = {
        "src_hist": "src_hist_len",
        "dest_hist": "dest_hist_len",
        "cond_hist": "cond_hist_len",
        "step": "step_size",
        "prop_time": "prop_time",
    }
    return {names[k]: v for k, v in par.items()}


def fits(n, par):
    st = par.get("step", 1)
    n -= abs(par.get("prop_time", 0)) * st
    return (
        max(par.get("src_hist", 1), par.get("dest_hist", 1), par.get("cond_hist", 1))
        * st
        < n
    )


def pairs(rec, x, ky, approaches):
    n = len(x)
    X = np.array(x)
    for y in sequences(ky, n):
        Y = np.array(y)
        rec.time_state(x, y)
        nontriv = len(set(x)) > 1 and len(set(y)) > 1
        for a, kw, e in cached_ents(approaches):
            case = {"x": x, "y": y, "approach": a, **kw}
            exp = e(x) + e(y) - e(x, y)
            if a == "discrete":
                exp = max(exp, 0.0)
            cmp(rec, case, "MI", exp, im.mi, (X, Y), dict(approach=a, **kw), nontriv)
            for par in TE_PARS[: 1 if a in ("bayes", "nsb") else None]:
                if fits(n, par):
                    cmp(
                        rec,
                        {**case, **par},
                        "TE",
                        te_exp(e, x, y, **par),
                        im.te,
                        (X, Y),
                        dict(approach=a, **kw, **lib_par(par)),
                        nontriv,
                    )
    rec.sample({"x": x})


def triples(rec, x, approaches):
    n = len(x)
    X = np.array(x)
    for y in sequences(2, n):
        for z in sequences(2, n):
            Y, Z = np.array(y), np.array(z)
            rec.time_state(x, y, z)
            nontriv = len(set(x)) > 1 and len(set(y)) > 1
            for a, kw, e in cached_ents(approaches):
                if a == "bayes" and kw.get("alpha") not in (0.5, "min-max") and n > 3:
                    continue
                case = {"x": x, "y": y, "z": z, "approach": a, **kw}
                cmp(
                    rec,
                    case,
                    "CMI",
                    e(x, z) + e(y, z) - e(x, y, z) - e(z),
                    im.cmi,
                    (X, Y),
                    dict(cond=Z, approach=a, **kw),
                    nontriv,
                )
                if n <= 3:
                    cmp(
                        rec,
                        case,
                        "MI of three",
                        e(x) + e(y) + e(z) - e(x, y, z),
                        im.mi,
                        (X, Y, Z),
                        dict(approach=a, **kw),
                        nontriv,
                    )
                for par in (dict(), dict(cond_hist=2)):
                    if fits(n, par):
                        cmp(
                            rec,
                            {**case, **par},
                            "CTE",
                            te_exp(e, x, y, z, **par),
                            im.cte,
                            (X, Y),
                            dict(cond=Z, approach=a, **kw, **lib_par(par)),
                            nontriv,
                        )
    rec.sample({"x": x})


def manycond(rec, x):
    """CMI of three and four variables: sum H(Xi, Z) - H(X1..Xm, Z) - H(Z), as documented."""
    n = len(x)
    for y in sequences(2, n):
        for w in sequences(2, n):
            for z in rgs(n, 2):
                rec.time_state(x, y, w, z)
                v = tuple(reversed(w))
                for a, kw, e in cached_ents(CHEAP):
                    if a == "bayes" and kw.get("alpha") not in (0.5, "min-max"):
                        continue
                    for cols in ((x, y, w), (w, v, y, x)):
                        cmp(
                            rec,
                            {"vars": cols, "z": z, "approach": a, **kw},
                            f"CMI of {len(cols)}",
                            math.fsum(e(c, z) for c in cols) - e(*cols, z) - e(z),
                            im.cmi,
                            [np.array(c) for c in cols],
                            dict(cond=np.array(z), approach=a, **kw),
                            len(set(x)) > 1 and len(set(y)) > 1,
                        )
                        exp = math.fsum(e(c) for c in cols) - e(*cols)
                        cmp(
                            rec,
                            {"vars": cols, "approach": a, **kw},
                            f"MI of {len(cols)}",
                            max(exp, 0.0) if a == "discrete" else exp,
                            im.mi,
                            [np.array(c) for c in cols],
                            dict(approach=a, **kw),
                            len(set(x)) > 1 and len(set(y)) > 1,
                        )
    rec.sample({"x": x})


def multidim(rec, n):
    cells = list(itertools.product(range(2), repeat=2))
    for x in itertools.product(cells, repeat=n):
        for y in sequences(2, n):
            X, Y = np.array(x), np.array(y)
            rec.time_state(x, y)
            z = tuple(reversed(x))
            for a, kw, e in cached_ents(CHEAP):
                if a == "bayes" and kw.get("alpha") != 0.5:
                    continue
                case = {"x": x, "y": y, "approach": a}
                cmp(
                    rec,
                    case,
                    "MI of a 2-D variable",
                    e(x) + e(y) - e(x, y),
                    im.mi,
                    (X, Y),
                    dict(approach=a, **kw),
                    True,
                )
                if a != "miller_madow":  # refuses a 2-D condition with a clear error
                    cmp(
                        rec,
                        {**case, "z": z},
                        "CMI with 2-D condition",
                        e(x, z) + e(y, z) - e(x, y, z) - e(z),
                        im.cmi,
                        (X, Y),
                        dict(cond=np.array(z), approach=a, **kw),
                        True,
                    )
                yy = tuple(zip(y, y[::-1]))
                if n > 1:
                    cmp(
                        rec,
                        {**case, "yy": yy},
                        "TE of 2-D series",
                        te_exp(e, x, yy),
                        im.te,
                        (X, np.array(yy)),
                        dict(approach=a, **kw),
                        True,
                    )
    rec.sample({"n": n})


def encodings(rec, enc):
    """Every kind of symbol reaches every term."""
    f = ENCODINGS[enc]
    groups = [
        (x, y, z)
        for n in (2, 3)
        for x in rgs(n)
        for y in rgs(n, 2)
        for z in ((0, 1, 0)[:n], (1, 1, 0)[:n])
    ]
    groups += [s for n, k, s in long_streams(3) if n in (7, 13, 33, 128, 300)]
    for x, y, z in groups:
        n = len(x)
        rec.time_state(x, y, z)
        X, Y, Z = f(x), f(y), f(z)
        nt = len(set(x)) > 1 and len(set(y)) > 1
        for a, kw, e in cached_ents(CHEAP):
            if a == "bayes" and kw.get("alpha") not in (0.5, "min-max"):
                continue
            case = {"x": x, "y": y, "z": z, "enc": enc, "approach": a, **kw}
            k = dict(approach=a, **kw)
            exp = e(x) + e(y) - e(x, y)
            cmp(rec, case, "MI", max(exp, 0.0) if a == "discrete" else exp, im.mi, (X, Y), k, nt)
            exp = e(x, z) + e(y, z) - e(x, y, z) - e(z)
            cmp(rec, case, "CMI", exp, im.cmi, (X, Y), dict(k, cond=Z), nt)
            cmp(rec, case, "TE", te_exp(e, x, y), im.te, (X, Y), k, nt)
            cmp(rec, case, "CTE", te_exp(e, x, y, z), im.cte, (X, Y), dict(k, cond=Z), nt)
            if n == 3 or n > 100:
                exp = e(x) + e(y) + e(z) - e(x, y, z)
                cmp(rec, case, "MI of three", exp, im.mi, (X, Y, Z), k, nt)


def large(rec, n, k):
    for kind in ("indep", "driven", "padded"):
        x, y, z = (lcg(n * q + k, n, m) for q, m in ((1, k), (2, k), (3, 3)))
        if kind == "driven":
            y = [x[t - 1] if t % 4 else y[t] for t in range(n)]
        if kind == "padded":  # equal ends, different distributions
            pad = [0] * 5
            y = [v * v % k for v in y]
            x, y, z = (pad + v[5 : n - 5] + pad for v in (x, y, z))
        for a, kw, e in cached_ents(CHEAP + ["nsb"]):
            if a == "nsb" and (n > 300 or kind != "indep"):
                continue
            if a in ("zhang", "bonachela") and n > 1100:
                continue
            e.memo.clear()
            rec.time_state(x, y, z)
            case = {"n": n, "k": k, "kind": kind, "approach": a, **kw}
            for base in ("e", 2):
                b = lnb(base)
                kk = dict(approach=a, base=base, **kw)
                cmp(
                    rec,
                    case,
                    "MI",
                    (e(x) + e(y) - e(x, y)) / b,
                    im.mi,
                    (x, np.array(y)),
                    kk,
                    True,
                )
                cmp(
                    rec,
                    case,
                    "CMI",
                    (e(x, z) + e(y, z) - e(x, y, z) - e(z)) / b,
                    im.cmi,
                    (x, y),
                    dict(cond=z, **kk),
                    True,
                )
                cmp(rec, case, "TE", te_exp(e, x, y) / b, im.te, (x, y), kk, True)
                cmp(
                    rec,
                    case,
                    "CTE",
                    te_exp(e, x, y, z, dest_hist=2) / b,
                    im.cte,
                    (x, y),
                    dict(cond=z, dest_hist_len=2, **kk),
                    True,
                )
                cmp(
                    rec,
                    case,
                    "MI of 4",
                    (e(x) + e(y) + e(z) + e(x[::-1]) - e(x, y, z, x[::-1])) / b,
                    im.mi,
                    (x, y, z, x[::-1]),
                    kk,
                    True,
                )


def histories(rec, approach, src):
    """Every combination of history lengths, step and propagation time, on longer series."""
    for n, k in ((31, 2), (70, 3)):
        x, y, z = (lcg(n * q + src, n, m) for q, m in ((1, k), (2, k), (3, 2)))
        y = [x[t - 2] if t % 3 else y[t] for t in range(n)]
        rec.time_state(x, y, z)
        X, Y, Z = map(np.array, (x, y, z))
        hkw = VARIANTS[approach][0]
        e = Ent(approach, hkw)
        for i, (dest, cond, step) in enumerate(
            itertools.product(range(1, 5), range(1, 4), (1, 2, 3))
        ):
            base = ("e", 2, 10, 3)[i % 4]
            par = dict(src_hist=src, dest_hist=dest, step=step)
            kw = dict(approach=approach, base=base, **hkw)
            case = {"n": n, "k": k, "base": base, **par}
            if cond == 1:
                for prop in (0, 1, 3, -1, -4):
                    p = dict(par, prop_time=prop)
                    if fits(n, p):
                        exp = te_exp(e, x, y, **p) / lnb(base)
                        cmp(rec, {**case, **p}, "TE", exp, im.te, (X, Y), {**kw, **lib_par(p)}, True)
            p = dict(par, cond_hist=cond)
            exp = te_exp(e, x, y, z, **p) / lnb(base)
            cmp(rec, {**case, **p}, "CTE", exp, im.cte, (X, Y), dict(kw, cond=Z, **lib_par(p)), True)
    rec.sample({"approach": approach, "src_hist": src})


# --------------------------------------------------- Renyi and Tsallis: entropies from P11
GRID = (0.0, 1.0, 2.5)
ORDERS = (("renyi", "alpha", ref.h_renyi), ("tsallis", "q", ref.h_tsallis))


def stack(*cols):
    return [tuple(float(v) for v in r) for r in ref.rows(*cols)]


def knn_compare(rec, case, appr, par, q, k, hfun, x, y, z, te_pars, extra=(), base="e"):
    H = lambda *cols: hfun(stack(*cols), k, q)  # noqa: E731
    b = 1.0 if appr == "tsallis" and q != 1 else lnb(base)
    kw = {par: q, "k": k, "approach": appr, "noise_level": 0, "base": base}
    case = {**case, "x": x, "y": y, "z": z, **kw}
    X, Y, Z = np.array(x), np.array(y), np.array(z)
    nt = len(set(x)) > 1 and len(set(y)) > 1
    cmp(rec, case, "MI", (H(x) + H(y) - H(x, y)) / b, im.mi, (X, Y), kw, nt)
    cmp(
        rec,
        case,
        "CMI",
        (H(x, z) + H(y, z) - H(x, y, z) - H(z)) / b,
        im.cmi,
        (X, Y),
        dict(cond=Z, **kw),
        nt,
    )
    if "mi3" in extra:
        cmp(
            rec,
            case,
            "MI of three",
            (H(x) + H(y) + H(z) - H(x, y, z)) / b,
            im.mi,
            (X, Y, Z),
            kw,
            nt,
        )
        for w, cols in ((y[::-1], (x, y, z)), (y[1:] + y[:1], (x, y, z, x[::-1]))):
            exp = math.fsum(H(c, w) for c in cols) - H(*cols, w) - H(w)
            cmp(
                rec,
                case,
                f"CMI of {len(cols)}",
                exp / b,
                im.cmi,
                [np.array(c) for c in cols],
                dict(kw, cond=np.array(w)),
                nt,
            )
    for p in te_pars:
        fut, dh, sh, _ = ref.te_columns(x, y, **p)
        if len(fut) <= k:
            continue
        c = {**case, **p}
        exp = (H(fut, dh) + H(sh, dh) - H(fut, sh, dh) - H(dh)) / b
        cmp(rec, c, "TE", exp, im.te, (X, Y), dict(kw, **lib_par(p)), nt)
        if p.get("prop_time"):
            continue
        fut, dh, sh, ch = ref.te_columns(x, y, z, **p)
        if len(fut) <= k:
            continue
        bs = [d + c_ for d, c_ in zip(dh, ch)]
        exp = (H(fut, bs) + H(sh, bs) - H(fut, sh, bs) - H(bs)) / b
        cmp(rec, c, "CTE", exp, im.cte, (X, Y), dict(kw, cond=Z, **lib_par(p)), nt)


def knn(rec, x):
    """All pairs of grid-valued series; the condition is a fixed function of the stream."""
    n = len(x)
    xs = tuple(GRID[v] for v in x)
    for y in itertools.product(GRID[: 3 if n < 5 else 2], repeat=n):
        zs = tuple((v * 2 + i % 2) for i, v in enumerate(xs[1:] + xs[:1]))
        rec.time_state(xs, y)
        for appr, par, hfun in ORDERS:
            for q in (0.5, 1, 1.5):
                for k in (1, 2):
                    knn_compare(
                        rec, {}, appr, par, q, k, hfun, xs, y, zs, (dict(), dict(src_hist=2))
                    )
    rec.sample({"x": xs})


def orders(rec, appr):
    """Every measure over a fine grid of orders."""
    par, hfun = next((p, h) for a, p, h in ORDERS if a == appr)
    n = 40
    x, z = (tuple(v / 16 for v in lcg(s, n, 1000)) for s in (3, 8))
    y = tuple(a / 2 + b / 32 for a, b in zip(x[1:] + x[:1], lcg(21, n, 1000)))
    X, Y, Z = map(np.array, (x, y, z))
    grid = [0.05 * i for i in range(1, 80)] + [1 + s * 10.0**-e for s in (1, -1) for e in (2, 3, 4, 5)] + [1, 2, 3]
    for q in grid:
        rec.node("order", appr, q)
        tol = 3e-6 if 0 < abs(q - 1) < 1e-3 else 1e-8
        k = max(3, math.ceil(q) + 1)
        H = lambda *cols: hfun(stack(*cols), k, q)  # noqa: E731
        kw = {par: q, "k": k, "approach": appr, "noise_level": 0}
        fut, dh, sh, _ = ref.te_columns(x, y)
        f3, d3, s3, c3 = ref.te_columns(x, y, z)
        bs = stack(d3, c3)
        for name, exp, fun, args, more in (
            ("MI", H(x) + H(y) - H(x, y), im.mi, (X, Y), {}),
            ("CMI", H(x, z) + H(y, z) - H(x, y, z) - H(z), im.cmi, (X, Y), {"cond": Z}),
            ("TE", H(fut, dh) + H(sh, dh) - H(fut, sh, dh) - H(dh), im.te, (X, Y), {}),
            ("CTE", H(f3, bs) + H(s3, bs) - H(f3, s3, bs) - H(bs), im.cte, (X, Y), {"cond": Z}),
        ):
            case = {"measure": name, **kw}
            ok, got = rec.call(case, name, fun, *args, **kw, **more)
            if ok:
                rec.ev()
                rec.traces += 1
                rec.outcome(got)
                rec.close(case, exp, float(got), f"{name} of this order", tol, tol)


def numeric(rec, kind):
    """Series over the whole range of a numeric type, also scaled to [0, 1]."""
    ints, arrays = ranged(kind)
    rec.time_state(kind, *ints)
    for norm in (False, True):
        v = [scaled(s) for s in ints] if norm else ints
        for appr, par, hfun in ORDERS:
            for q in (0.5, 1, 1.5):
                for k in (2, 3):
                    H = lambda *cols: hfun(stack(*cols), k, q)  # noqa: E731
                    kw = {par: q, "k": k, "approach": appr, "noise_level": 0}
                    case = {"type": kind, "normalize": norm, **kw}
                    if norm:
                        kw["normalize"] = True
                    x, y, z = v
                    X, Y, Z = arrays
                    cmp(rec, case, "MI", H(x) + H(y) - H(x, y), im.mi, (X, Y), kw, True)
                    exp = H(x) + H(y) + H(z) - H(x, y, z)
                    cmp(rec, case, "MI of three", exp, im.mi, (X, Y, Z), kw, True)
                    exp = H(x, z) + H(y, z) - H(x, y, z) - H(z)
                    cmp(rec, case, "CMI", exp, im.cmi, (X, Y), dict(kw, cond=Z), True)
                    if norm:
                        continue
                    fut, dh, sh, _ = ref.te_columns(x, y)
                    exp = H(fut, dh) + H(sh, dh) - H(fut, sh, dh) - H(dh)
                    cmp(rec, case, "TE", exp, im.te, (X, Y), kw, True)
    rec.sample({"type": kind, "series": ints})


def knn_large(rec, n):
    """Long tie-free series, one- and two-dimensional."""
    x, y, z = ([v / 97 for v in lcg(s * n, n, 10**6)] for s in (1, 2, 3))
    y = [v + w for v, w in zip(y, x)]
    rec.time_state(x, y, z)
    two = [(a, b) for a, b in zip(x, x[::-1])]
    for appr, par, hfun in ORDERS:
        for q in (0.7, 1, 1.3):
            for k in (4,) if n > 1000 else (4, 12):
                knn_compare(
                    rec,
                    {"n": n},
                    appr,
                    par,
                    q,
                    k,
                    hfun,
                    x,
                    y,
                    z,
                    (dict(src_hist=2, dest_hist=2, prop_time=2),),
                    base=2,
                )
                kw = {par: q, "k": k, "approach": appr, "noise_level": 0}
                H = lambda *cols: hfun(stack(*cols), k, q)  # noqa: E731
                args = (np.array(two), np.array(y))
                case = {"n": n, **kw}
                exp = H(two) + H(y) - H(two, y)
                cmp(rec, case, "MI of a 2-D variable", exp, im.mi, args, kw, True)
                exp = H(two, z) + H(y, z) - H(two, y, z) - H(z)
                cmp(rec, case, "CMI of a 2-D variable", exp, im.cmi, args, dict(kw, cond=z), True)


def knn_params(rec):
    """Longer tie-free series with every parameter off its default."""
    for n in (12, 40):
        x, y, z = ([v / 97 for v in lcg(s * n, n, 10**6)] for s in (1, 2, 3))
        rec.time_state(x, y, z)
        pars = (
            dict(src_hist=2),
            dict(dest_hist=3, prop_time=1),
            dict(step=2, cond_hist=2),
            dict(prop_time=-2),
            dict(src_hist=3, dest_hist=2, step=2, cond_hist=1),
        )
        for appr, par, hfun in ORDERS:
            for q in (0.3, 0.9, 1, 1.0, 2, 2.5, 4.5):
                for k in (1, 2, 3, 4, 5):
                    if q > k + 1:
                        continue
                    for base in ("e", 2, 10):
                        knn_compare(
                            rec,
                            {"n": n},
                            appr,
                            par,
                            q,
                            k,
                            hfun,
                            x,
                            y,
                            z,
                            pars if base == 2 and n == 12 else pars[:1],
                            ("mi3",),
                            base,
                        )
