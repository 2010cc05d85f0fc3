"""P21 - percentile and interval queries of statistical test results."""

import copy
import dataclasses
import itertools
import pickle
from fractions import Fraction as Fr

import infomeasure as im
import numpy as np
from infomeasure.utils.data import StatisticalTestResult

from mc import cases
from mc.lib import lcg

LEVEL = "exploration"
RULE = (
    "every sequence of surrogate values over a small alphabet (order matters only for the "
    "check that queries leave it alone) x every query level x every interpolation method x every "
    "form of the query is answered by the real result object and compared with the textbook "
    "definition in exact arithmetic. Results made by real statistical tests of every measure are "
    "queried the same way. Non-trivial: the surrogates are not all equal."
)
ASSUMPTIONS = [
    "the method names have the meaning numpy documents for its percentile function",
    "discontinuous methods are decided at levels that binary floating point represents exactly",
]
BOUNDS = {
    "quick": "sequences of 2..5 of 4 values, 5 series of 10 to 257, 22 levels, 13 methods, 6 query forms",
    "thorough": "sequences of 2..7 of 4 values (multisets above 5), series of up to 1001",
}
VALUES = (-1.5, 0.0, 0.25, 3.0)
EXACT = [100 * k / 16 for k in range(17)]
OTHER = [2.5, 5, 33.3, 95, 97.5]
LEVELS_CI = [1e-6, 1, 12.5, 25, 50, 68.27, 75, 87.5, 90, 95, 99, 99.9999]
CONTINUOUS = {
    "linear": (Fr(1), Fr(1)),
    "interpolated_inverted_cdf": (Fr(0), Fr(1)),
    "hazen": (Fr(1, 2), Fr(1, 2)),
    "weibull": (Fr(0), Fr(0)),
    "median_unbiased": (Fr(1, 3), Fr(1, 3)),
    "normal_unbiased": (Fr(3, 8), Fr(3, 8)),
}
DISCRETE = ("inverted_cdf", "averaged_inverted_cdf", "closest_observation", "lower", "higher", "midpoint", "nearest")


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for n in range(2, 8 if th else 6):
        for first in range(len(VALUES)):
            out.append(("queries", n, first, th))
    for n in (10, 33, 99, 100, 101, 128, 200, 257) + ((500, 1000, 1001) if th else ()):
        out.append(("long", n))
    for m, a in cases.combos(("mi", "cmi", "te", "cte")):
        out.append(("real", m, a))
    out.append(("refused",))
    out.append(("frozen",))
    return out


def pct(values, q, method):
    """The q-th percentile in exact arithmetic."""
    x = sorted(Fr(v) for v in values)
    n = len(x)
    p = Fr(q) / 100

    def at(i):  # 1-based, clipped
        return x[min(max(i, 1), n) - 1]

    if method in CONTINUOUS:
        a, b = CONTINUOUS[method]
        v = n * p + a + p * (1 - a - b)  # 1-based virtual index
        v = min(max(v, Fr(1)), Fr(n))
        j = v.numerator // v.denominator
        g = v - j
        return at(j) + g * (at(j + 1) - at(j))
    v = n * p
    j = v.numerator // v.denominator
    if method == "inverted_cdf":
        return at(j if v == j else j + 1)
    if method == "averaged_inverted_cdf":
        return (at(j) + at(j + 1)) / 2 if v == j else at(j + 1)
    if method == "closest_observation":
        w = v - Fr(1, 2)
        j = w.numerator // w.denominator
        return at(j if w == j and j % 2 == 0 else j + 1)
    w = (n - 1) * p  # 0-based linear index
    j = w.numerator // w.denominator
    lo, hi = at(j + 1), at(j + 1 if w == j else j + 2)
    if method == "lower":
        return lo
    if method == "higher":
        return hi
    if method == "midpoint":
        return (lo + hi) / 2
    return x[round(w)]  # nearest, ties to even (Fraction rounds half to even)


def result_of(values):
    arr = np.array(values)
    return StatisticalTestResult(
        p_value=0.5, t_score=1.0, test_values=arr, observed_value=0.1, null_mean=float(arr.mean()),
        null_std=float(arr.std(ddof=1)), n_tests=len(arr), method="permutation_test",
    )


def query(rec, case, res, values, full):
    before = res.test_values.tobytes()
    for q in EXACT + OTHER:
        for meth in (None, *CONTINUOUS, *(DISCRETE if q in EXACT else ())):
            rec.ev(len(set(values)) > 1)
            rec.node(sorted(values), q, meth)
            c = {**case, "q": q, "method": meth}
            kw = {} if meth is None else {"method": meth}
            ok, got = rec.call(c, "percentile", res.percentile, q, **kw)
            if ok:
                rec.traces += 1
                exp = float(pct(values, q, meth or "linear"))
                rec.close(c, exp, got, "percentile", rtol=1e-9, atol=1e-9)
                rec.outcome(got)
                rec.true(np.ndim(got) == 0, c, "a scalar", np.shape(got), "form of the answer")
    if full:
        qs = [0, 25, 62.5, 100, 12.5]
        for meth in ("linear", "lower", "hazen"):
            exp = [float(pct(values, q, meth)) for q in qs]
            for form in (list, tuple, np.array):
                ok, got = rec.call(case, "percentiles", res.percentile, form(qs), method=meth)
                if ok:
                    rec.close({**case, "form": form.__name__, "method": meth}, exp, got, "several percentiles")
            ok, got = rec.call(case, "percentiles", res.percentile, np.float64(25), meth)
            if ok:
                rec.close(case, exp[1], got, "numpy scalar level, positional method")
            ok, got = rec.call(case, "percentiles", res.percentile, np.array([[0, 25], [62.5, 100]]), method=meth)
            if ok:
                rec.close(case, [exp[:2], exp[2:4]], got, "levels in a matrix")
    last = None
    for cl in LEVELS_CI:
        for meth in (None, "linear", "weibull", "median_unbiased") + (("lower", "higher", "nearest", "midpoint")
                                                                      if cl in (12.5, 25, 50, 75, 87.5) else ()):
            kw = {} if meth is None else {"method": meth}
            c = {**case, "confidence_level": cl, "method": meth}
            rec.ev(len(set(values)) > 1)
            ok, got = rec.call(c, "confidence interval", res.confidence_interval, cl, **kw)
            if not ok:
                continue
            rec.traces += 1
            lo = Fr(100 - Fr(cl)) / 2
            exp = [float(pct(values, lo, meth or "linear")), float(pct(values, 100 - lo, meth or "linear"))]
            rec.close(c, exp, got, "confidence interval")
            rec.true(np.shape(got) == (2,) and got[0] <= got[1], c, "an ordered pair", got, "confidence interval")
            if meth is None and np.shape(got) == (2,):
                if last is not None:
                    rec.true(got[0] <= last[0] + 1e-12 and got[1] >= last[1] - 1e-12, c, last, got,
                             "intervals of growing level are nested")
                last = got
    rec.true(res.test_values.tobytes() == before, case, "unchanged surrogates", res.test_values,
             "a query changed the result")


def queries(rec, n, first, th):
    seqs = itertools.product(VALUES, repeat=n - 1) if n <= 4 else itertools.combinations_with_replacement(VALUES, n - 1)
    for rest in seqs:
        values = (VALUES[first],) + rest
        query(rec, {"surrogates": values}, result_of(values), values, True)
    rec.sample({"n": n, "first": VALUES[first]})


def long(rec, n):
    """Many surrogates: shuffled runs, few distinct values, one outlier, already sorted."""
    r = lcg(n, n, 4 * n)
    for name, values in (
        ("many values", [v / 16 - n / 8 for v in r]),
        ("four values", [VALUES[v % 4] for v in r]),
        ("one outlier", [0.0] * (n // 2) + [1e6] + [0.0] * (n - n // 2 - 1)),
        ("falling", [float(n - i) for i in range(n)]),
        ("alternating", [(-1.0) ** i * i for i in range(n)]),
    ):
        query(rec, {"n": n, "surrogates": name}, result_of(values), values, n < 300)
    rec.sample({"n": n})


STREAMS = ((0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0), (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2), (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0))


def real(rec, m, a):
    """Results of real tests: the queries are about exactly their surrogates."""
    args, kw = cases.request(m, a, STREAMS[: cases.WIDTH[m]])
    for method in ("permutation_test", "bootstrap"):
        for n in (2, 3, 8):
            case = {"measure": m, "approach": a, "method": method, "n_tests": n}
            est = cases.create(m, a, args, kw, seed=5) if a != "metric" else cases.create(m, a, args, kw)
            ok, res = rec.call(case, "statistical test", est.statistical_test, n_tests=n, method=method)
            if not ok:
                continue
            vals = [float(v) for v in res.test_values]
            rec.true(len(vals) == n and res.n_tests == n and res.method == method, case, n, len(vals), "surrogates")
            rec.node(m, a, method, n)
            if all(np.isfinite(vals)):
                query(rec, case, res, vals, False)


def refused(rec):
    res = result_of((0.0, 1.0, 2.0))
    bad_q = [-1, 100.5, 101, -1e-9, 1e9, [50, 101], [-1, 50], (0, 200), np.array([5.0, -5.0]), "fifty", None, object()]
    for q in bad_q:
        for meth in ("linear", "lower", "hazen"):
            rec.ev()
            rec.node("q", q if not isinstance(q, np.ndarray) and type(q) is not object else str(type(q)), meth)
            try:
                got = res.percentile(q, method=meth)
            except Exception:  # noqa: BLE001
                continue
            rec.violation({"q": str(q)}, "refused", got, "percentile out of range answered")
    for meth in ("cubic", "", "Linear", 3):
        rec.ev()
        try:
            got = res.percentile(50, method=meth)
        except Exception:  # noqa: BLE001
            continue
        rec.violation({"method": meth}, "refused", got, "unknown method answered")
    for cl in (0, 100, -5, 100.1, 150, float("nan"), float("inf"), -float("inf"), "95", None, [95]):
        for meth in ("linear", "lower"):
            rec.ev()
            rec.node("cl", str(cl), meth)
            try:
                got = res.confidence_interval(cl, method=meth)
            except Exception as exc:  # noqa: BLE001
                if isinstance(cl, (int, float)):
                    rec.true(isinstance(exc, ValueError), {"confidence_level": cl}, "ValueError", repr(exc), "refusal")
                continue
            rec.violation({"confidence_level": str(cl)}, "refused", got, "confidence level out of range answered")


def frozen(rec):
    res = result_of((0.0, 1.0, 2.0))
    fields = [f.name for f in dataclasses.fields(res)]
    for name in fields + ["something_new"]:
        rec.ev()
        rec.node("frozen", name)
        for act in (lambda: setattr(res, name, 1), lambda: delattr(res, name)):
            try:
                act()
            except Exception:  # noqa: BLE001
                continue
            rec.violation({"field": name}, "refused", "accepted", "a result can be changed")
    est = im.estimator([0, 1, 1, 0, 1, 0], [0, 1, 0, 0, 1, 0], measure="mi", approach="discrete", seed=1)
    r1 = est.statistical_test(n_tests=4, method="bootstrap")
    snap = (r1.p_value, r1.t_score, r1.test_values.tobytes(), r1.observed_value, r1.null_mean, r1.null_std, r1.n_tests, r1.method)
    r2 = est.statistical_test(n_tests=9, method="permutation_test")
    r2.test_values[:] = 7
    now = (r1.p_value, r1.t_score, r1.test_values.tobytes(), r1.observed_value, r1.null_mean, r1.null_std, r1.n_tests, r1.method)
    rec.true(snap == now, "two tests of one estimator", snap, now, "a later test changed an earlier result")
    for clone in (copy.deepcopy(res), pickle.loads(pickle.dumps(res)), copy.copy(res)):
        rec.ev()
        for name in fields:
            x, y = getattr(res, name), getattr(clone, name)
            rec.true(np.array_equal(x, y), name, x, y, "a copy of a result differs")
        rec.close("copy", [0.5, 1.5], clone.confidence_interval(50), "a copy of a result answers otherwise")
