"""P15 - permutation and bootstrap tests."""

import itertools
import math
from io import UnsupportedOperation

import infomeasure as im
import numpy as np

from mc import cases, model, ref
from mc.lib import APPROACHES, lcg, rgs
from mc.rng import Scripted, permutations, resamplings

LEVEL = "model_checking"
RULE = (
    "the random generator is replaced by one whose draws the explorer dictates; every "
    "permutation (or resampling) of the rows is taken as a draw and the surrogate returned "
    "by the real test is compared with the measure of the reordered samples, recomputed from "
    "the definitions. state = data set and draw, transition = one draw. summary: all sequences of draws up to a length; p-value, "
    "t-score, mean, spread, percentiles and intervals are recomputed from the surrogates. "
    "Non-trivial: the draw is not the identity."
)
ASSUMPTIONS = [
    "draws go through the permuting/resampling methods of the numpy generator; if an "
    "implementation draws otherwise, surrogates are checked for membership in the set of "
    "values of all permutations/resamplings",
]
BOUNDS = {
    "quick": "4 rows: all 24 permutations, all 256 resamplings, 16 approaches x MI/CMI/TE, "
    "15 x 3 data sets; first variables of 1-3 columns; 3 rows: all pairs of draws (36/729), triples of permutations; long series (300 and 1100 rows) with 6 dictated draws; up to 2048 surrogates",
    "thorough": "as quick with 15 x 8 data sets, 5 rows (120 permutations) and all parameters; long series to 2500 rows",
}
inf = math.inf


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for a in sorted(APPROACHES, key=lambda a: a not in ("nsb", "metric", "miller_madow", "discrete", "ordinal")):
        for m in ("mi", "cmi", "te"):
            out.append(("surr", m, a, "permutation_test", th))
            out.append(("surr", m, a, "bootstrap", th))
    for a in APPROACHES:
        out.append(("params", a))
        if a != "ordinal":
            out.append(("multi", a))
        out.append(("cte", a))
        out.append(("real", a))
        out.append(("effective", a))
    for m in ("mi", "cmi", "te"):
        for a in ("discrete", "metric", "ordinal"):
            out.append(("summary", m, a, th))
    for n in (2500, 1100) if th else (1100, 300):
        for a in sorted(APPROACHES, key=lambda a: a not in ("renyi", "tsallis", "metric", "kernel")):
            for m in ("mi", "cmi", "te"):
                out.append(("large", m, a, 40 if a == "nsb" else n))
    out += [("many", m, a) for m, a in MANY]
    out.append(("defaults",))
    out.append(("refused",))
    return out


# ------------------------------------------------------------------- the surrogate model
def rows_of(m, a, kw, args):
    """(sampled column, function from a reordered column to the value)."""
    if m == "mi":
        o = kw.get("offset", 0) or 0
        x, y = list(args[0]), list(args[1])
        if o > 0:
            x, y = x[: len(x) - o], y[o:]
        elif o < 0:
            x, y = x[-o:], y[: len(y) + o]
        if kw.get("normalize"):
            x, y = norm(x), norm(y)
        cx, cy = model.symbols(a, kw, x), model.symbols(a, kw, y)
        clip = (lambda v: max(v, 0.0)) if a == "discrete" else (lambda v: v)
        return cx, lambda c: clip(model.mi(a, kw, [c, cy]))
    if m == "cmi":
        cx, cy, cz = (model.symbols(a, kw, v) for v in (*args, kw["cond"]))
        return cx, lambda c: model.cmi(a, kw, [c, cy], cz)
    fut, dh, sh, ch = model.te_parts(a, kw, *args, kw.get("cond"))
    return sh, lambda c: model.te_rows(a, kw, fut, dh, c, ch)


def norm(v):
    lo, hi = min(v), max(v)
    return [(u - lo) / (hi - lo) for u in v]


def run(rec, case, m, a, args, kw, script, method, n_tests, base="e", seed_arg=False):
    kind = "perm" if method == "permutation_test" else "boot"
    g = Scripted(script, kind=kind)
    ok, est = rec.call(case, "creation", cases.create, m, a, args, kw, base=base,
                       **({"seed": g} if seed_arg else {}))
    if not ok:
        return None
    if not seed_arg:
        est.rng = g
    ok, res = rec.call(case, "statistical test", est.statistical_test, n_tests, method)
    return (est, res, g) if ok else None


def compare(rec, case, column, value, script, res, g, lnb=1.0):
    got = [float(v) for v in res.test_values]
    if not rec.true(len(got) == len(script) and res.n_tests == len(script), case, len(script),
                    (len(got), res.n_tests), "number of surrogates"):
        return
    cache = {}

    def exp(idx):
        if idx not in cache:
            cache[idx] = value([column[i] for i in idx]) / lnb
        return cache[idx]

    if g.draws == len(script):
        for s, v in zip(script, got):
            s = tuple(s)
            rec.ev(s != tuple(range(len(s))))
            rec.node(case["measure"], case["approach"], case.get("x"), case.get("y"), s)
            rec.outcome(v)
            rec.traces += 1
            if not rec.close({**case, "draw": s}, exp(s), v,
                             "surrogate is not the measure of the reordered samples",
                             rtol=1e-7, atol=1e-8):
                return
    else:  # drawn in another way: each surrogate must be one of the possible ones
        kind = permutations if case["method"] == "permutation_test" else resamplings
        possible = {round(exp(s), 7) for s in kind(len(column))}
        for v in got:
            rec.ev()
            rec.traces += 1
            if not rec.true(min((abs(v - p) for p in possible), default=inf) < 1e-6
                            or math.isnan(v), case,
                            "one of the values of the reordered samples", v,
                            "surrogate is not the measure of any reordering"):
                return


def check_summary(rec, case, res, observed, n, method):
    """The result restates exactly its own surrogates."""
    tv = [float(v) for v in np.asarray(res.test_values)]
    k = len(tv)
    rec.true(res.method == method and res.n_tests == n == k, case, (method, n),
             (res.method, res.n_tests, k), "method or number of tests")
    rec.close(case, float(observed), float(res.observed_value), "observed value", rtol=0, atol=0)
    if any(not math.isfinite(v) for v in tv):
        return
    p = sum(v > res.observed_value for v in tv) / k
    rec.close(case, p, float(res.p_value), "p-value", rtol=0, atol=1e-12)
    mean = math.fsum(tv) / k
    std = math.sqrt(math.fsum((v - mean) ** 2 for v in tv) / (k - 1))
    rec.close(case, mean, float(res.null_mean), "mean of the surrogates", rtol=1e-9, atol=1e-12)
    rec.close(case, std, float(res.null_std), "spread of the surrogates", rtol=1e-6, atol=1e-12)
    if std > 1e-9:
        rec.close(case, (res.observed_value - mean) / std, float(res.t_score), "t-score",
                  rtol=1e-6, atol=1e-9)
    elif float(res.null_std) == 0:
        rec.true(math.isnan(res.t_score), case, "nan", res.t_score, "t-score without spread")
    s = sorted(tv)

    def pct(q):
        pos = q / 100 * (k - 1)
        lo = math.floor(pos)
        hi = min(lo + 1, k - 1)
        return s[lo] + (s[hi] - s[lo]) * (pos - lo)

    for q in (0, 2.5, 25, 50, 90, 100):
        rec.close(case, pct(q), float(res.percentile(q)), f"percentile {q}", rtol=1e-9, atol=1e-12)
    for c in (5, 50, 90, 95, 99.9):
        y = (100 - c) / 2
        rec.close(case, [pct(y), pct(100 - y)], res.confidence_interval(c),
                  f"confidence interval {c}", rtol=1e-9, atol=1e-12)


def untouched(rec, case, est, args, kw, before, value):
    """After the test, the estimator still has the original value and data."""
    rec.true(cases.same_tree(before, (args, kw)), case, "unchanged data", "changed",
             "the test modified the user's data")
    rec.close(case, value, est.result(), "the test changed the value", rtol=0, atol=0)
    try:
        est.calculate()
    except Exception as exc:  # noqa: BLE001
        rec.violation(case, value, repr(exc), "recalculation after a test")
        return
    rec.close(case, value, est.result(), "recalculation after a test gives another value",
              rtol=1e-12, atol=1e-13)


def streams(m, th):
    xs = list(rgs(4)) if m in ("mi", "cmi") else [s + (0,) for s in rgs(4, 3)]
    ys = [(0, 1, 1, 0), (0, 0, 1, 2), (0, 1, 2, 3), (1, 0, 0, 0), (0, 1, 0, 1), (2, 1, 0, 0),
          (0, 0, 0, 0), (3, 2, 1, 0)]
    zs = [(0, 1, 0, 0), (0, 0, 1, 1), (1, 0, 1, 0)]
    if m == "te":
        ys = [y + (s,) for y, s in zip(ys, (1, 0, 1, 1, 0, 2, 1, 0))]
    ys = ys if th else ys[:3]
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            yield (x, y) if m != "cmi" else (x, y, zs[(i + j) % 3])


def surr(rec, m, a, method, th):
    perm = method == "permutation_test"
    for j, st in enumerate(streams(m, th)):
        if not perm and j % (4 if th else 9) and (th or j % 3 or a != "discrete"):
            continue
        if a == "nsb" and j % 6:
            continue
        if a == "ordinal":  # n - 1 symbols: one more sample
            st = tuple(s + (v,) for s, v in zip(st, (1, 3, 2)))
        args, kw = cases.request(m, a, st)
        column, value = rows_of(m, a, kw, args)
        n = len(column)
        script = permutations(n) if perm else resamplings(n)
        case = {"measure": m, "approach": a, "method": method, "x": st[0], "y": st[1:]}
        before = cases.copy_tree((args, kw))
        r = run(rec, case, m, a, args, kw, script, method, len(script), seed_arg=j % 2 == 0)
        if r is None:
            continue
        est, res, g = r
        compare(rec, case, column, value, script, res, g)
        obs = value(column)
        rec.close(case, obs, res.observed_value, "observed value", rtol=1e-7, atol=1e-8)
        check_summary(rec, case, res, est.result(), len(script), method)
        untouched(rec, case, est, args, kw, before, est.result())
    rec.sample({"measure": m, "approach": a, "method": method})


# ------------------------------------------------------------------------- parameters
TE_PARS = (
    dict(src_hist_len=2),
    dict(dest_hist_len=2),
    dict(step_size=2),
    dict(prop_time=1),
    dict(prop_time=-1),
    dict(src_hist_len=2, dest_hist_len=2, prop_time=1),
    dict(offset=1),
)
EXTRA = {
    "metric": (dict(ksg_id=2), dict(k=2), dict(minkowski_p=2.0)),
    "kernel": (dict(kernel="gaussian", bandwidth=0.8), dict(bandwidth=0.7)),
    "renyi": (dict(alpha=0.5), dict(alpha=1)),
    "tsallis": (dict(q=0.7), dict(q=1)),
    "bayes": (dict(alpha="min-max"), dict(alpha=2.0)),
    "ordinal": (dict(embedding_dim=3), dict(step_size=2)),
}
S7 = ((0, 1, 1, 2, 0, 1, 0), (1, 2, 0, 0, 1, 1, 2), (0, 0, 1, 0, 1, 1, 0))


def some(n):
    """For larger n: every rotation, transposition and the reversal."""
    out = [tuple(range(n))[i:] + tuple(range(n))[:i] for i in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        p = list(range(n))
        p[i], p[j] = p[j], p[i]
        out.append(tuple(p))
    return out + [tuple(range(n))[::-1]]


def large(rec, m, a, n):
    """Long series: a few dictated draws that move or repeat samples over the whole length."""
    extra = 1 if m == "te" else 0
    extra += 1 if a == "ordinal" else 0
    mod = 5 if a != "ordinal" else 50
    st = tuple(tuple(lcg(s, n + extra, mod)) for s in (3, 8, 21))
    st = (st[0], tuple((u + v) % mod for u, v in zip(st[0], st[1])), st[2])[: cases.WIDTH[m]]
    args, kw = cases.request(m, a, st)
    column, value = rows_of(m, a, kw, args)
    n = len(column)
    order = sorted(range(n), key=lambda i: ((i * 7919) % (n + 1), i))
    perm = [tuple(range(n))[::-1], tuple(range(n // 3, n)) + tuple(range(n // 3)), tuple(order),
            tuple(range(n - 2)) + (n - 1, n - 2)]
    boot = [tuple(i // 2 for i in range(n)), tuple(n - 1 - i // 3 for i in range(n)),
            tuple((i * i + 3 * i) % n for i in range(n))]
    for method, script in (("permutation_test", perm), ("bootstrap", boot)):
        if method == "bootstrap" and a in ("renyi", "tsallis", "metric"):
            script = script[:2]
        case = {"measure": m, "approach": a, "method": method, "n": n}
        before = cases.copy_tree((args, kw))
        r = run(rec, case, m, a, args, kw, script, method, len(script))
        if r is None:
            continue
        est, res, g = r
        if g.draws == len(script):
            for j, (s, v) in enumerate(zip(script, map(float, res.test_values))):
                rec.ev()
                rec.node(m, a, method, n, j)
                rec.outcome(v)
                rec.traces += 1
                rec.close({**case, "draw": j}, value([column[i] for i in s]), v,
                          "surrogate is not the measure of the reordered samples", rtol=1e-7, atol=1e-8)
        else:
            rec.skipped += 1
        rec.close(case, value(column), res.observed_value, "observed value", rtol=1e-7, atol=1e-8)
        check_summary(rec, case, res, est.result(), len(script), method)
        untouched(rec, case, est, args, kw, before, est.result())


MANY = (("mi", "discrete"), ("te", "discrete"), ("cmi", "miller_madow"), ("mi", "ordinal"), ("te", "metric"))


def many(rec, m, a):
    """Many surrogates: numbers of tests around the powers of two and the usual defaults."""
    st = tuple(s[:5] for s in S7)
    args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
    column, value = rows_of(m, a, kw, args)
    n = len(column)
    for method, draws in (("permutation_test", permutations(n)), ("bootstrap", resamplings(n))):
        for k in (63, 64, 99, 100, 101, 127, 128, 199, 200, 201, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 1024, 2048):
            if k > 300 and (m, a) != ("mi", "discrete"):
                continue
            script = [draws[(i * 7 + i // 5) % len(draws)] for i in range(k)]
            case = {"measure": m, "approach": a, "method": method, "n_tests": k}
            r = run(rec, case, m, a, args, kw, script, method, k)
            if r is None:
                continue
            est, res, g = r
            compare(rec, case, column, value, script, res, g)
            check_summary(rec, case, res, est.result(), k, method)


def params(rec, a):
    reqs = []
    st = tuple(s[:6] for s in S7)
    for off in (1, -1, 2):
        reqs.append(("mi", st, dict(offset=off)))
    if a in ("kernel", "metric", "renyi", "tsallis"):
        reqs.append(("mi", st, dict(normalize=True)))
    for par in TE_PARS:
        if a == "ordinal" and par.get("step_size", 1) > 1:
            reqs.append(("te", tuple(s + (2, 0) for s in S7), par))
        else:
            reqs.append(("te", S7, par))
    for par in EXTRA.get(a, ()):
        for m in ("mi", "cmi", "te"):
            if a == "ordinal":
                reqs.append((m, tuple(s + (2, 0, 1, 1) for s in S7), par))
            else:
                reqs.append((m, S7, par))
    for m, st, par in reqs:
        args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
        kw.update(par)
        mk = dict(kw)
        if "offset" in par and m == "te":
            mk["prop_time"] = par["offset"]
        case = {"measure": m, "approach": a, "x": st[0], "y": st[1:], **par}
        try:
            column, value = rows_of(m, a, mk, args)
        except (IndexError, ValueError, ZeroDivisionError, TypeError):
            continue
        n = len(column)
        if n < 3:
            continue
        for method in ("permutation_test", "bootstrap"):
            if method == "permutation_test":
                script = permutations(n) if n <= 4 else some(n)
            else:
                script = [tuple((i * i + s) % n for i in range(n)) for s in range(n)]
                script += [(0,) * n, tuple(range(n)), (0,) + tuple(range(n - 1))]
                if a in ("metric", "renyi", "tsallis") and mk.get("ksg_id") == 2:
                    script = script[-2:]
            c = {**case, "method": method}
            if a == "kernel" and mk.get("kernel") == "gaussian":
                # a constant resample has no Gaussian density
                script = [s for s in script if len(set(s)) > 2]
            before = cases.copy_tree((args, kw))
            r = run(rec, c, m, a, args, kw, script, method, len(script), base=2)
            if r is None:
                continue
            est, res, g = r
            lb = 1.0 if a == "tsallis" and kw["q"] != 1 else math.log(2)
            try:
                compare(rec, c, column, value, script, res, g, lnb=lb)
            except TypeError:  # the density does not exist for some draw
                rec.skipped += 1
            check_summary(rec, c, res, est.result(), len(script), method)
            untouched(rec, c, est, args, kw, before, est.result())
    # multi-dimensional first variable: whole samples are moved
    if a not in ("ordinal",):
        X = np.array([[0, 1], [1, 0], [1, 1], [0, 0]], dtype=float if a in cases.CONT else int)
        if a in cases.CONT:
            X = X + np.array([[0.1, 0.03], [0.2, 0.31], [0.05, 0.02], [0.33, 0.17]])
        y = cases.column(a, (0, 1, 1, 2), 1)
        kw = cases.kwargs("mi", a, 4)
        column, value = rows_of("mi", a, kw, (X, y))
        for method, script in (("permutation_test", permutations(4)), ("bootstrap", resamplings(4)[::5])):
            c = {"measure": "mi", "approach": a, "x": X.tolist(), "y": y.tolist(), "method": method}
            r = run(rec, c, "mi", a, (X, y), kw, script, method, len(script))
            if r:
                compare(rec, c, column, value, script, r[1], r[2])


def wide(a, stream, form):
    """A first variable of several columns."""
    c = np.asarray(cases.column(a, stream, 0))
    d = np.asarray(cases.column(a, stream[::-1], 2))
    if form == "one":
        return c.reshape(-1, 1)
    if form == "twice":  # the second column repeats the first
        return np.column_stack([c, c])
    if form == "three":
        return np.column_stack([c, d, c])
    if form == "fortran":
        return np.asfortranarray(np.column_stack([c, d]))
    return np.column_stack([c, d])


def multi(rec, a):
    """Variables of several columns: whole samples move, scripted and with ordinary generators."""
    for m, form in itertools.product(("mi", "cmi", "te"), ("one", "twice", "two", "three", "fortran")):
        if a == "nsb" and form not in ("twice", "two"):
            continue
        st = tuple(s[:5] for s in S7)[: cases.WIDTH[m]]
        if m != "te":
            st = tuple(s[:4] for s in st)
        args, kw = cases.request(m, a, st)
        args = (wide(a, st[0], form), *args[1:])
        for par in (dict(),) if m != "te" else (dict(), dict(src_hist_len=2), dict(prop_time=1)):
            kw2 = {**kw, **par}
            case = {"measure": m, "approach": a, "form": form, "x": args[0].tolist(), "y": st[1:], **par}
            try:
                column, value = rows_of(m, a, kw2, args)
                cases.create(m, a, args, kw2, base="e").result()
                value(column)
            except Exception:  # noqa: BLE001 - not offered for several columns
                rec.skipped += 1
                continue
            n = len(column)
            for method in ("permutation_test", "bootstrap"):
                perm = method == "permutation_test"
                script = permutations(n) if perm else resamplings(n)[::5]
                if a == "nsb":
                    script = script[::5]
                c = {**case, "method": method}
                before = cases.copy_tree((args, kw2))
                r = run(rec, c, m, a, args, kw2, script, method, len(script))
                if r is None:
                    continue
                compare(rec, c, column, value, script, r[1], r[2])
                untouched(rec, c, r[0], args, kw2, before, r[0].result())
                if a == "nsb":
                    continue
                poss = [value([column[i] for i in s]) for s in (permutations(n) if perm else resamplings(n))]
                for seed in (1, 2):
                    ok, est = rec.call(c, "creation", cases.create, m, a, args, kw2, base="e", seed=seed)
                    ok, res = rec.call(c, "test", est.statistical_test, 12, method) if ok else (ok, None)
                    if not ok:
                        continue
                    rec.ev()
                    rec.node("multi", m, a, form, method, seed)
                    for v in map(float, res.test_values):
                        if not rec.true(any(ref_same(v, p) for p in poss), {**c, "seed": seed},
                                        "a possible surrogate", v,
                                        "surrogate is not the measure of any reordering"):
                            break


def cte(rec, a):
    """Conditional transfer entropy (known finding: its test never draws)."""
    st = tuple(s[:5] for s in S7) if a != "ordinal" else tuple(s[:6] for s in S7)
    for st in (st, (st[1], st[0], st[2]), (st[0], st[2], st[1])):
        args, kw = cases.request("cte", a, st)
        for par in (dict(), dict(cond_hist_len=2), dict(dest_hist_len=2)):
            kw2 = {**kw, **par}
            case = {"measure": "cte", "approach": a, "x": st[0], "y": st[1:], **par}
            column, value = rows_of("cte", a, kw2, args)
            n = len(column)
            for method, script in (("permutation_test", permutations(n)),
                                   ("bootstrap", resamplings(n)[::7])):
                if len(script) < 2:
                    continue
                c = {**case, "method": method}
                r = run(rec, c, "cte", a, args, kw2, script, method, len(script))
                if r is None:
                    continue
                est, res, g = r
                exp = [value([column[i] for i in s]) for s in script]
                obs = est.result()
                tv = [float(v) for v in res.test_values]
                rec.ev()
                rec.traces += 1
                if all(v == obs for v in tv) and any(
                    not abs(e - obs) < 1e-7 for e in exp if not math.isnan(e)
                ):
                    rec.finding("F-CTE-TEST", c, tv[:3])
                    check_summary(rec, c, res, obs, len(script), method)
                else:
                    compare(rec, c, column, value, script, res, g)
                    check_summary(rec, c, res, obs, len(script), method)


def real(rec, a):
    """Ordinary seeded generators: every surrogate is a possible one, of the right kind."""
    st4 = {"mi": ((0, 1, 1, 2), (1, 0, 2, 2)), "cmi": ((0, 1, 1, 2), (1, 0, 2, 2), (0, 1, 0, 0)),
           "te": ((0, 1, 1, 2, 0), (1, 0, 2, 2, 1))}
    for m, st in st4.items():
        if a == "ordinal":
            st = tuple(s + (v,) for s, v in zip(st, (1, 3, 2)))
        args, kw = cases.request(m, a, st)
        column, value = rows_of(m, a, kw, args)
        n = len(column)
        perms = [value([column[i] for i in s]) for s in permutations(n)]
        boots = [value([column[i] for i in s]) for s in resamplings(n)]
        for method, poss in (("permutation_test", perms), ("bootstrap", boots)):
            seen = []
            for seed in range(1, 9):
                case = {"measure": m, "approach": a, "x": st[0], "y": st[1:], "method": method, "seed": seed}
                ok, est = rec.call(case, "creation", cases.create, m, a, args, kw, base="e", seed=seed)
                if not ok:
                    continue
                ok, res = rec.call(case, "test", est.statistical_test, 25, method)
                if not ok:
                    continue
                rec.ev()
                rec.node("real", m, a, method, seed)
                rec.traces += 1
                tv = [float(v) for v in res.test_values]
                seen += tv
                for v in tv:
                    if not rec.true(any(ref_same(v, p) for p in poss), case, "a possible surrogate", v,
                                    "surrogate is not the measure of any reordering"):
                        break
                check_summary(rec, case, res, est.result(), 25, method)
            fin = [p for p in poss if math.isfinite(p)]
            if fin and max(fin) - min(fin) > 1e-6 and seen:
                # 200 draws: a possible value of the right kind has to show up
                case = {"measure": m, "approach": a, "method": method}
                rec.true(max(seen) - min(seen) > 1e-9 or any(math.isnan(v) for v in seen), case,
                         "different surrogates", sorted(set(seen))[:3], "all surrogates are equal")
                only = [p for p in poss if not any(ref_same(p, q) for q in perms)]
                if method == "bootstrap" and len(only) > 60:
                    rec.true(any(not any(ref_same(v, q) for q in perms) for v in seen), case,
                             "a resampling that is no permutation", "only permutations",
                             "bootstrap surrogates are permutations")


def ref_same(v, p):
    if math.isnan(v) or math.isnan(p):
        return math.isnan(v) and math.isnan(p)
    if math.isinf(v) or math.isinf(p):
        return v == p
    return abs(v - p) < 1e-6


def effective(rec, a):
    """Effective transfer entropy: the value minus that of one surrogate."""
    for m in ("te", "cte"):
        st = tuple(s[:5] for s in S7) if a != "ordinal" else tuple(s[:6] for s in S7)
        args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
        column, value = rows_of(m, a, kw, args)
        n = len(column)
        for method, script in (("permutation_test", permutations(n)), ("bootstrap", resamplings(n)[::9]),
                               (None, permutations(n)[::5])):
            if a == "nsb":
                script = script[::6]
            for conf in ("permutation_test", "bootstrap") if method is None else (None,):
                for s in script:
                    case = {"measure": m, "approach": a, "method": method, "draw": s, "configured": conf}
                    eff = conf or method
                    g = Scripted([s], kind="perm" if eff == "permutation_test" else "boot")
                    est = cases.create(m, a, args, kw, base="e")
                    est.rng = g
                    if conf:
                        im.Config.set("statistical_test_method", conf)
                    a_ = () if method is None else (method,)
                    ok, got = rec.call(case, "effective value", est.effective_val, *a_)
                    im.Config.reset()
                    if not ok:
                        continue
                    rec.ev(s != tuple(range(n)))
                    rec.node("eff", m, a, eff, s)
                    rec.traces += 1
                    exp = value(column) - value([column[i] for i in s])
                    if m == "cte" and got == 0.0 and not abs(exp) < 1e-7:
                        rec.finding("F-CTE-TEST", case, got)
                    elif g.draws:
                        rec.close(case, exp, got, "effective value", rtol=1e-7, atol=1e-8)
                    rec.close(case, value(column), est.result(), "value after effective value",
                              rtol=1e-7, atol=1e-8)


def summary(rec, m, a, th):
    """All sequences of draws: every arrangement of surrogates around the observed value."""
    st = {"mi": ((0, 1, 1), (0, 1, 2)), "cmi": ((0, 1, 1), (0, 1, 2), (0, 0, 1)),
          "te": ((0, 1, 1, 0), (0, 1, 1, 2))}[m]
    if a == "ordinal":
        st = tuple(s + (v,) for s, v in zip(st, (2, 0, 1)))
    args, kw = cases.request(m, a, st)
    if a == "metric":
        kw["k"] = 1
    column, value = rows_of(m, a, kw, args)
    n = len(column)
    perms, boots = permutations(n), resamplings(n)
    for method, draws in (("permutation_test", perms), ("bootstrap", boots)):
        seqs = list(itertools.product(draws, repeat=2))
        if method == "permutation_test":
            seqs += list(itertools.product(draws, repeat=3))
            if th:
                seqs += list(itertools.product(draws[::2] + draws[:1], repeat=5))
        elif not th:
            seqs = seqs[::3]
        for seq in seqs:
            case = {"measure": m, "approach": a, "method": method, "x": st[0], "y": st[1:], "draws": seq}
            r = run(rec, case, m, a, args, kw, seq, method, len(seq))
            if r is None:
                continue
            est, res, g = r
            prev = ("start", m, a, method)
            for s in seq:
                rec.edge(prev, s, prev + (s,))
                prev = prev + (s,)
            compare(rec, case, column, value, seq, res, g)
            check_summary(rec, case, res, est.result(), len(seq), method)
            if a == "metric":
                for q, how in ((30, "lower"), (30, "higher"), (30, "nearest"), (50, "midpoint")):
                    rec.close({**case, "how": how}, percentile_by(how, list(res.test_values), q),
                              float(res.percentile(q, method=how)), "percentile method", atol=1e-12)


def percentile_by(how, v, q):
    s = sorted(float(x) for x in v)
    pos = q / 100 * (len(s) - 1)
    lo, hi = math.floor(pos), math.ceil(pos)
    if how == "lower":
        return s[lo]
    if how == "higher":
        return s[hi]
    if how == "midpoint":
        return (s[lo] + s[hi]) / 2
    return s[round(pos)]


def defaults(rec):
    """Configured defaults, explicit arguments and their combinations, in any order."""
    methods = (None, "permutation_test", "bootstrap")
    for m, a in (("mi", "discrete"), ("cmi", "bayes"), ("te", "discrete"), ("mi", "ordinal"), ("te", "metric")):
        st = tuple(s[:5] for s in S7)[: cases.WIDTH[m]]
        args, kw = cases.request(m, a, st)
        for cm, cn, am, an, when in itertools.product(
            methods, (None, 2, 7), methods, (None, 2, 3), ("before", "after")
        ):
            case = {"measure": m, "approach": a, "configured": (cm, cn), "asked": (am, an), "when": when}

            def conf():
                if cm:
                    im.Config.set("statistical_test_method", cm)
                if cn:
                    im.Config.set("statistical_test_n_tests", cn)

            im.Config.reset()
            if when == "before":
                conf()
            ok, est = rec.call(case, "creation", cases.create, m, a, args, kw, base="e")
            if when == "after":
                conf()
            exp_m = am or cm or "permutation_test"
            exp_n = an or cn or 200
            kind = "perm" if exp_m == "permutation_test" else "boot"
            g = Scripted([], kind=kind)
            est.rng = g
            k = {}
            if am:
                k["method"] = am
            if an:
                k["n_tests"] = an
            ok, res = rec.call(case, "test", est.statistical_test, **k)
            im.Config.reset()
            if not ok:
                continue
            rec.ev()
            rec.traces += 1
            rec.edge((cm, cn), (when, am, an), (exp_m, exp_n))
            check_summary(rec, case, res, est.result(), exp_n, exp_m)
            if g.draws:
                rec.true({x for x, _ in g.log} == {kind}, case, kind, {x for x, _ in g.log},
                         "wrong kind of draw for the method")


def refused(rec):
    st3 = tuple(s[:5] for s in S7)
    for a in APPROACHES:
        for m in ("mi", "cmi", "te", "cte"):
            args, kw = cases.request(m, a, st3[: cases.WIDTH[m]])
            try:
                est = cases.create(m, a, args, kw, base="e")
                v0 = est.result()
            except Exception as exc:  # noqa: BLE001
                rec.violation({"m": m, "a": a}, "a value", repr(exc), "creation")
                continue
            for what, arg, excs in (
                ("method", dict(n_tests=5, method="bogus"), (ValueError,)),
                ("method case", dict(n_tests=5, method=""), (ValueError,)),
                ("zero", dict(n_tests=0, method="bootstrap"), (ValueError,)),
                ("negative", dict(n_tests=-3, method="permutation_test"), (ValueError,)),
                ("float", dict(n_tests=2.5, method="permutation_test"), (ValueError, TypeError)),
                ("text", dict(n_tests="5", method="permutation_test"), (ValueError, TypeError)),
                ("one", dict(n_tests=1, method="permutation_test"), (ValueError,)),
            ):
                case = {"measure": m, "approach": a, "what": what}
                rec.ev()
                rec.node("refused", m, a, what)
                rec.traces += 1
                try:
                    got = est.statistical_test(**arg)
                except excs:
                    pass
                except Exception as exc:  # noqa: BLE001
                    rec.violation(case, "ValueError", repr(exc), "wrong refusal")
                else:
                    rec.violation(case, "ValueError", repr(got)[:80], "not refused")
                rec.close(case, v0, est.result(), "value after a refused test", rtol=0, atol=0)
            g = Scripted([], kind="perm")
            est.rng = g
            ok, res = rec.call({"m": m, "a": a}, "test after refusals", est.statistical_test, 3, "permutation_test")
            if ok:
                check_summary(rec, {"m": m, "a": a, "after": "refusals"}, res, v0, 3, "permutation_test")
        # more than two variables
        for m in ("mi", "cmi"):
            if a == "metric" and m == "cmi":
                continue
            cols = cases.columns(a, S7)
            kw = cases.kwargs(m, a, 7)
            if m == "cmi":
                kw["cond"] = cases.column(a, (0, 1, 0, 1, 1, 0, 0), 5)
            try:
                est = cases.create(m, a, tuple(cols), kw, base="e")
                v0 = est.result()
            except Exception:  # noqa: BLE001 - three variables not offered
                continue
            rec.ev()
            for method in ("permutation_test", "bootstrap"):
                try:
                    got = est.statistical_test(4, method)
                except UnsupportedOperation:
                    pass
                except Exception as exc:  # noqa: BLE001
                    rec.violation({"m": m, "a": a}, "UnsupportedOperation", repr(exc), "wrong refusal")
                else:
                    rec.violation({"m": m, "a": a, "vars": 3}, "UnsupportedOperation", repr(got)[:80], "not refused")
            rec.close({"m": m, "a": a}, v0, est.result(), "value after a refused test", rtol=0, atol=0)
