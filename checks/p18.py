"""P18 - invalid requests are refused, their valid neighbours are answered."""

import io
import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, ref
from mc.lib import APPROACHES, H_KW

LEVEL = "exploration"
RULE = (
    "catalogue: every malformed argument (kind x position) of every measure and approach, through the "
    "estimator factory and the functional interface, must end in an exception; grids: all combinations "
    "of lengths, histories, delays, embeddings and neighbour numbers within the bounds, the reference "
    "index model saying which fit; afterwards the valid request must give what it gave before. "
    "Non-trivial: the request is malformed, or sits on the boundary of what fits."
)
ASSUMPTIONS = [
    "an exception of any type is a refusal; the message is not examined",
    "negative bases: no finite number may be returned (approaches without a logarithm excepted)",
]
BOUNDS = {
    "quick": "whole catalogue; all triples of lengths <= 5; all (source, destination, condition history <= 3, step <= 3, "
    "|propagation| <= 2) for 3..8 samples; embeddings 1..7 x steps 1..3 x 1..8 samples"
        "; empty and overlong offsets",
    "thorough": "lengths <= 7; histories <= 4, steps <= 4, |propagation| <= 3 for 3..12 samples; embeddings 1..9 x steps 1..4 x 1..12 samples",
}
N = 12
ST = (
    (0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0),
    (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2),
    (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0),
)
PAIRED = ("mi", "mi3", "cmi", "te", "cte")


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for m, a in sorted(cases.combos(), key=lambda c: c[1] != "nsb"):
        out.append(("catalogue", m, a))
    for m, a in cases.combos(PAIRED):
        out.append(("lengths", m, a, 7 if th else 5))
    for a in APPROACHES:
        out.append(("joint_lengths", a, 6 if th else 4))
        for m in ("te", "cte"):
            for n in range(3, (12 if th else 8) + 1):
                out.append(("histories", m, a, n, 4 if th else 3))
    for m in ("h", "hj", "hx", "mi", "mi3", "cmi"):
        out.append(("embeddings", m, *((9, 4, 12) if th else (7, 3, 8))))
    for m, a in cases.combos(None, ("metric", "renyi", "tsallis")):
        out.append(("neighbours", m, a, 9 if th else 7))
    for m in ("h", "hx", "mi", "cmi", "te", "cte"):
        out.append(("names", m))
    for m, a in cases.combos(("mi", "mi3", "cmi", "te", "cte", "h")):
        out.append(("testing", m, a))
    for a in APPROACHES:
        out.append(("composite", a))
        out.append(("offsets", a, 9 if th else 6))
    return out


def outcome(fn):
    """(refused?, what)"""
    try:
        v = fn()
        return False, v
    except Exception as exc:  # noqa: BLE001
        return True, type(exc).__name__


def entries(m, a, args, kw):
    yield "estimator", lambda: float(np.sum(cases.create(m, a, args, kw).result()))
    yield "function", lambda: float(np.sum(cases.FUNC[m](*args, approach=a, **kw)))


def malformed(m, a, args, kw):
    """All single corruptions of a valid request: (name, args, kwargs)."""
    args = list(args)

    def at(i, v):
        x = list(args)
        x[i] = v
        return tuple(x)

    yield "no data", (), kw
    for i, v in enumerate(args):
        for name, w in (
            ("None", None), ("int", 3), ("float", 1.5), ("str", "abab"), ("dict", {1: 2}), ("set", {1, 2}),
            ("empty list", []), ("empty array", np.array([])), ("empty int array", np.array([], dtype=int)),
            ("empty 2-D", np.zeros((0, 2))), ("zero-dimensional", np.array(3)), ("generator", iter([1, 2])),
            ("object", object()),
        ):
            yield f"data {i} is {name}", at(i, w), kw
        if m in PAIRED:
            yield f"data {i} is shorter", at(i, v[:-1]), kw
            yield f"data {i} is much shorter", at(i, v[: len(v) // 2]), kw
            yield f"data {i} is one value", at(i, v[:1]), kw
            yield f"data {i} is longer", at(i, np.concatenate([v, v[:1]])), kw
            yield f"data {i} is twice as long", at(i, np.concatenate([v, v])), kw
    if m == "hj":
        x, y = args[0]
        for name, t in (
            ("first part shorter", (x[:-1], y)), ("second part shorter", (x, y[:-1])), ("second part longer", (x, np.append(y, y[0]))),
            ("second part one value", (x, y[:1])), ("second part empty", (x, y[:0])), ("both parts empty", (x[:0], y[:0])),
            ("no parts", ()), ("a part is None", (x, None)), ("a part is a number", (x, 3)), ("a part is a string", (x, "abc")),
            ("a part is a dict", (x, {0: 1})), ("third part shorter", (x, y, x[:-1])), ("third part longer", (x, y, np.append(x, x[0]))),
        ):
            yield "joint: " + name, (t,), kw
    if m in ("h", "hj", "hx"):
        yield "three data", (args[0],) * 3, kw
        yield "four data", (args[0],) * 4, kw
        yield "a condition", tuple(args), {**kw, "cond": ST[2]}
    if m == "hx":
        yield "one data", args[:1], kw
        yield "a joint variable first", (tuple(args), args[1]), kw
        yield "a joint variable second", (args[0], tuple(args)), kw
    if m in ("te", "cte"):
        yield "one data", tuple(args[:1]), kw
        yield "three data", (*args, args[0]), kw
    if a in ("metric", "renyi", "tsallis", "kernel"):
        if m in ("mi", "mi3", "cmi"):
            for i, v in enumerate(args):
                yield f"normalising data {i} of two columns", at(i, np.column_stack((v, v))), {**kw, "normalize": True}
        if m == "cmi":
            two = np.column_stack((kw["cond"], kw["cond"]))
            yield "normalising a condition of two columns", tuple(args), {**kw, "cond": two, "normalize": True}
            more = (*args, np.column_stack((args[0], args[1])))
            yield "normalising a third variable of two columns", more, {**kw, "normalize": True}
        # no neighbourhoods around a value which is no number
        for bad in (np.nan, np.inf, -np.inf):
            for where in (0, 5, -2):

                def spoilt(v):
                    w = np.array(v, dtype=float)
                    w[where] = bad
                    return w

                for i, v in enumerate(args):
                    if isinstance(v, tuple):
                        for j in range(len(v)):
                            t = tuple(spoilt(c) if q == j else c for q, c in enumerate(v))
                            yield f"part {j} has {bad} at {where}", at(i, t), kw
                        continue
                    yield f"data {i} has {bad} at {where}", at(i, spoilt(v)), kw
                if "cond" in kw:
                    yield f"condition has {bad} at {where}", tuple(args), {**kw, "cond": spoilt(kw["cond"])}
    if "cond" in kw:
        c = kw["cond"]
        for name, w in (
            ("a number", 3), ("a string", "abab"), ("an empty list", []), ("an empty array", np.array([])), ("shorter", c[:-1]),
            ("longer", np.append(c, c[0])), ("one value", c[:1]), ("None", None),
            ("half", c[: len(c) // 2]), ("twice as long", np.concatenate([c, c])),
        ):
            yield "condition is " + name, tuple(args), {**kw, "cond": w}
        yield "no condition", tuple(args), {k: v for k, v in kw.items() if k != "cond"}
    par = {"bandwith": [3], "foo": [1], "approach_": ["discrete"], "Base": [2]}
    if a in ("metric", "renyi", "tsallis"):
        par["k"] = [0, -1, -3, "a", None, "4", [4]]
        par["noise_level"] = [-1, -1e-9]
    if a == "metric":
        par["ksg_id"] = [0, 3, -1, "1", None]
        par["minkowski_p"] = [0.5, 0, -1, "a", 0.999999]
    if a == "kernel":
        par["bandwidth"] = [0, -1, None, "a", [1], 0.0, -0.5, "1"]
        par["kernel"] = ["x", None, 3, "", "boxx", "epanechnikov"]
    if a == "renyi":
        par["alpha"] = [-1, -0.1, "a", None, 0, 0.0]
    if a == "tsallis":
        par["q"] = [-1, -0.1, "a", None, 0, 0.0]
    if a == "bayes":
        par["alpha"] = ["a", None, "", "jeffreys", "minmax"]
        par["K"] = ["a"]
    if a == "nsb":
        par["K"] = ["a"]
    if a == "ordinal":
        par["embedding_dim"] = [0, -1, 1.5, "a", None, N + 1, N + 2, 40, "2"]
    if a == "ordinal" or m in ("te", "cte"):
        par["step_size"] = [0, -1, 1.5, "a", N, N + 1, 100, "1"]
    if m in ("mi", "mi3"):
        par["offset"] = [1.5, "a", "1"]
    if m == "cmi":
        par["offset"] = [1, -1, 1.5, "a"]
    if m in ("te", "cte"):
        for h in ("src_hist_len", "dest_hist_len") + (("cond_hist_len",) if m == "cte" else ()):
            par[h] = [0, -1, 1.5, "a", None, "1", N, N + 1, 100]
        par["prop_time"] = [1.5, "a", "1", N, N + 1, -N, 100, -100]
        par["offset"] = [1.5, "a", N]
    for p, vs in par.items():
        for v in vs:
            yield f"{p}={v!r}", tuple(args), {**kw, p: v}
    # parameters an approach needs
    for p in ("bandwidth", "kernel", "embedding_dim"):
        if p in kw:
            yield f"{p} missing", tuple(args), {k: v for k, v in kw.items() if k != p}
    if a == "bayes":
        yield "alpha missing", tuple(args), {k: v for k, v in kw.items() if k != "alpha"}
    # parameters of other approaches
    for p, v in (("bandwidth", 1.0), ("kernel", "box"), ("embedding_dim", 2), ("q", 1.5), ("ksg_id", 1), ("minkowski_p", 2)):
        if p not in H_KW[a] and not (a == "metric" and p in ("ksg_id", "minkowski_p")):
            yield f"foreign {p}", tuple(args), {**kw, p: v}
    # both at once
    if m in ("te", "cte"):
        yield "prop_time and offset", tuple(args), {**kw, "prop_time": 1, "offset": 2}


def catalogue(rec, m, a):
    args, kw = cases.request(m, a, ST[: cases.WIDTH[m]])
    keep = cases.copy_tree((args, kw))
    random_noise = a == "metric"
    if random_noise:
        kw["noise_level"] = 0
        keep = cases.copy_tree((args, kw))
    before = {}
    for entry, fn in entries(m, a, args, kw):
        ok, before[entry] = rec.call((m, a, entry), "the valid request", fn)
        if not ok:
            return
    for name, bad_args, bad_kw in malformed(m, a, args, kw):
        for entry, fn in entries(m, a, bad_args, bad_kw):
            rec.ev()
            rec.traces += 1
            rec.node(m, a, name, entry)
            refused, what = outcome(fn)
            rec.outcome(what if refused else "answered")
            if not refused:
                rec.violation({"measure": m, "approach": a, "malformed": name, "through": entry}, "an error", what,
                              "a malformed request is answered")
    for base in (-1, -2, -0.5, -10, -1e-9):
        if a == "tsallis":
            break
        for entry, fn in entries(m, a, args, {**kw, "base": base}):
            rec.ev()
            rec.node(m, a, "base", base, entry)
            refused, what = outcome(fn)
            if not refused and math.isfinite(what) and not (m == "hx" and a == "renyi"):
                rec.violation({"measure": m, "approach": a, "base": base, "through": entry}, "an error", what,
                              "a negative base gives a number")
    for entry, fn in entries(m, a, args, kw):
        ok, v = rec.call((m, a, entry), "the valid request after the refusals", fn)
        if ok:
            rec.close((m, a, entry), before[entry], v, "the refused requests changed the valid one", rtol=0, atol=0)
    rec.true(cases.same_tree(keep, (args, kw)), (m, a), "untouched data", "changed", "the data were changed")
    rec.sample({"measure": m, "approach": a, "malformed": [n for n, _, _ in malformed(m, a, args, kw)][::12]})


def column(a, j, n):
    return cases.column(a, [(i * (j + 2) + i // 2 + j) % 3 for i in range(n)], j)


def lengths(rec, m, a, top):
    w = cases.WIDTH[m]
    for ns in itertools.product(range(1, top + 1), repeat=w):
        same = len(set(ns)) == 1
        cols = [column(a, j, n) for j, n in enumerate(ns)]
        kw = cases.kwargs(m, a, max(ns))
        args = tuple(cols)
        if m in ("cmi", "cte"):
            kw["cond"] = cols[2]
            args = tuple(cols[:2])
        if same:
            # enough samples for every approach: must be answered
            if ns[0] < 5 or a in ("renyi", "tsallis"):
                continue
            rec.ev()
            rec.call({"measure": m, "approach": a, "lengths": ns}, "samples of equal length",
                     cases.create(m, a, args, kw).result)
            continue
        for entry, fn in entries(m, a, args, kw):
            rec.ev()
            rec.traces += 1
            rec.node("lengths", m, a, ns, entry)
            refused, what = outcome(fn)
            rec.outcome(what if refused else "answered")
            if not refused:
                rec.violation({"measure": m, "approach": a, "lengths": ns, "through": entry}, "an error", what,
                              "samples of different length are answered")
    # rows of two-dimensional samples count, not values
    if a not in cases.CONT or w != 2:
        return
    x, y = column(a, 0, 8), column(a, 1, 8)
    kw = cases.kwargs(m, a, 8)
    for p, q in ((x.reshape(4, 2), y), (x, y.reshape(4, 2)), (x.reshape(4, 2), y.reshape(2, 4)), (x.reshape(1, 8), y), (x, y.reshape(2, 4))):
        rec.ev()
        rec.node("rows", m, a, p.shape, q.shape)
        refused, what = outcome(lambda: float(cases.create(m, a, (p, q), kw).result()))
        if not refused:
            rec.violation({"measure": m, "approach": a, "shapes": (p.shape, q.shape)}, "an error", what,
                          "samples with different numbers of rows are answered")


def joint_lengths(rec, a, top):
    for w in (2, 3):
        for ns in itertools.product(range(0, top + 1), repeat=w):
            if len(set(ns)) == 1 and ns[0] > 0:
                continue
            cols = tuple(column(a, j, n) if n else np.array([]) for j, n in enumerate(ns))
            kw = cases.kwargs("hj", a, max(ns))
            for lists in (False, True):
                arg = tuple(list(c) for c in cols) if lists else cols
                for entry, fn in entries("hj", a, (arg,), kw):
                    rec.ev()
                    rec.traces += 1
                    rec.node("joint", a, ns, lists, entry)
                    refused, what = outcome(fn)
                    rec.outcome(what if refused else "answered")
                    if not refused:
                        rec.violation({"approach": a, "lengths": ns, "through": entry, "lists": lists}, "an error", what,
                                      "parts of different length are answered")


def histories(rec, m, a, n, top):
    """Which histories fit is decided by the index model of the reference."""
    cols = [column(a, j, n) for j in range(3)]
    kw = cases.kwargs(m, a, n)
    if "k" in kw:
        kw["k"] = 1
    pmax = top - 1
    for src, dst, cnd, step, prop in itertools.product(
        range(1, top + 1), range(1, top + 1), range(1, top + 1) if m == "cte" else (0,), range(1, top + 1), range(-pmax, pmax + 1)
    ):
        if m == "cte" and cnd not in (src, dst) and cnd > 1 and max(src, dst, cnd) != cnd:
            continue
        left = n - abs(prop) * step
        par = {"src_hist_len": src, "dest_hist_len": dst, "step_size": step, "prop_time": prop}
        rows = 0
        if a == "ordinal":
            left -= step  # the symbols of an embedding of two
        if left > 0:
            rows = len(ref.te_slices(left, src, dst, step, cnd or None))
        if m == "cte":
            par["cond_hist_len"] = cnd
            args, more = tuple(cols[:2]), {"cond": cols[2]}
            if prop:
                # shifting the pair leaves the condition longer
                rows = None
        else:
            args, more = tuple(cols[:2]), {}
        case = {"measure": m, "approach": a, "samples": n, **par}
        refused, what = outcome(lambda: float(cases.create(m, a, args, {**kw, **more, **par}).result()))
        rec.node(m, a, n, src, dst, cnd, step, prop)
        rec.traces += 1
        if rows is None:
            if left <= 0:
                rec.ev()
                rec.true(refused, case, "an error", what, "an impossible propagation time is answered")
            continue
        rec.ev(rows <= 1)
        rec.outcome(what if refused else "answered")
        if rows == 0:
            rec.true(refused, case, "an error", what, "histories longer than the data are answered")
        elif rows >= (4 if a in ("metric", "renyi", "tsallis", "kernel") else 1):
            if a in ("renyi", "tsallis") or (a == "nsb" and rows < 3):
                continue  # their domain depends on the values (P02, P04)
            rec.true(not refused, case, "a value", what, "a history which fits is refused")
    rec.sample({"measure": m, "approach": a, "samples": n})


def embeddings(rec, m, dims, steps, top):
    for n in range(1, top + 1):
        cols = [np.array([(i * (3 + j) + j) % (n + 1) for i in range(n)]) for j in range(3)]
        for d, s in itertools.product(range(1, dims + 1), range(1, steps + 1)):
            rows = n - (d - 1) * s
            w = cases.WIDTH[m]
            args = (tuple(cols[:2]),) if m == "hj" else tuple(cols[: 2 if m == "cmi" else w])
            kw = {"embedding_dim": d, "step_size": s, "stable": True}
            if m == "cmi":
                kw["cond"] = cols[2]
            case = {"measure": m, "samples": n, "embedding_dim": d, "step_size": s}
            for entry, fn in entries(m, "ordinal", args, kw):
                refused, what = outcome(fn)
                rec.ev(rows <= 1)
                rec.traces += 1
                rec.node("embed", m, n, d, s, entry)
                rec.outcome(what if refused else "answered")
                if rows < 1:
                    rec.true(refused, {**case, "through": entry}, "an error", what, "an impossible embedding is answered")
                else:
                    rec.true(not refused, {**case, "through": entry}, "a value", what, "an embedding which fits is refused")


def neighbours(rec, m, a, top):
    """k up to the number of other samples is accepted, k below one or above it refused."""
    for n, n2 in itertools.product(range(4, top + 1), range(1, top + 1)):
        if n != n2 and m != "hx":
            continue
        args, kw = cases.request(m, a, [s[:n] for s in ST[: cases.WIDTH[m]]])
        avail = n - 1 - (m in ("te", "cte"))
        if m == "hx":
            args = (args[0], cases.request(m, a, [s[:n2] for s in ST[:2]])[0][1])
            avail = n2
        for k in (*range(-2, avail + 4), n + 1, 100):
            for t in (int, np.int64, np.int32, np.uint8):
                if k < 0 and t is np.uint8:
                    continue
                case = {"measure": m, "approach": a, "samples": [n, n2], "k": k, "type": t.__name__}
                refused, what = outcome(lambda: float(cases.create(m, a, args, {**kw, "k": t(k)}).result()))
                rec.ev(k in (0, 1, avail, avail + 1))
                rec.traces += 1
                rec.node("k", m, a, n, n2, k, t.__name__)
                rec.outcome(what if refused else "answered")
                if k < 1:
                    rec.true(refused, case, "an error", what, "a non-positive number of neighbours is answered")
                elif k > avail:
                    rec.true(refused, case, "an error", what, "more neighbours than there are points are answered")
                else:
                    rec.true(not refused, case, "a value", what, "a possible number of neighbours is refused")
        if n != n2:
            continue
        for v in (float("nan"), -1, -0.0001, 0.5, 1.5, "2"):
            refused, what = outcome(lambda: float(cases.create(m, a, args, {**kw, "k": v}).result()))
            rec.ev()
            rec.true(refused, {"measure": m, "approach": a, "k": repr(v)}, "an error", what, "an impossible k is answered")


def names(rec, m):
    args, kw = cases.request(m, "discrete", ST[: cases.WIDTH[m]])
    words = [None, "", " ", "discret", "discretee", "x", "none", "Discrete ", " discrete", "dis crete", "discrete\n", 3, 1.5, True,
             ["discrete"], ("discrete",), {"discrete": 1}, b"discrete", object(), "h", "entropy", "mi", "gaussian", "lz", "ksg2", "kll"]
    if m in ("h", "hx"):
        words.append("ksg")
    else:
        words.append("kl")
        words.append("cs")
        words.append("cwj")
        words.append("js")
    for w in words:
        for entry, fn in (
            ("estimator", lambda: cases.create(m, w, args, kw).result()),
            ("function", lambda: cases.FUNC[m](*args, approach=w, **kw)),
            ("class", lambda: im.get_estimator_class(measure=NAMES[m][0], approach=w)),
        ):
            rec.ev()
            rec.traces += 1
            rec.node("approach", m, repr(w), entry)
            refused, what = outcome(fn)
            rec.outcome(what if refused else "answered")
            rec.true(refused, {"measure": m, "approach": repr(w), "through": entry}, "an error", what, "an unknown approach is answered")
    for entry, fn in (("estimator", lambda: im.estimator(*args, measure=NAMES[m][0], **kw)), ("function", lambda: cases.FUNC[m](*args, **kw))):
        rec.ev()
        refused, what = outcome(fn)
        rec.true(refused, {"measure": m, "approach": "missing", "through": entry}, "an error", what, "a missing approach is answered")
    wrong = [None, "", "x", "entropyy", "hh", "mutual information x", "cm", "tee", "ctee", "jsd", "kld", 3, 1.5, ["h"], ("mi",), b"h", True, object(), "information", "transfer"]
    for w in wrong:
        for entry, fn in (
            ("estimator", lambda: im.estimator(*args, measure=w, approach="discrete", **kw).result()),
            ("class", lambda: im.get_estimator_class(measure=w, approach="discrete")),
        ):
            rec.ev()
            rec.traces += 1
            rec.node("measure", m, repr(w), entry)
            refused, what = outcome(fn)
            rec.true(refused, {"measure": repr(w), "through": entry}, "an error", what, "an unknown measure is answered")
    rec.ev()
    rec.true(outcome(lambda: im.estimator(*args, approach="discrete", **kw))[0], "no measure", "an error", "answered", "a missing measure is answered")
    # the neighbours that are names
    for w in NAMES[m]:
        for ap in ("discrete", "Discrete", "DISCRETE"):
            rec.ev()
            ok, v = rec.call({"measure": w, "approach": ap}, "a documented name",
                             lambda: im.estimator(*args, measure=w, approach=ap, **kw).result())
            if ok:
                rec.outcome(v)
    rec.sample({"measure": m})


NAMES = {
    "h": ("entropy", "h"),
    "hx": ("cross_entropy", "hx"),
    "mi": ("mutual_information", "mi"),
    "cmi": ("conditional_mutual_information", "cmi"),
    "te": ("transfer_entropy", "te"),
    "cte": ("conditional_transfer_entropy", "cte"),
}


def testing(rec, m, a):
    """Statistical tests: numbers, methods and measures that cannot be tested."""
    args, kw = cases.request(m, a, ST[: cases.WIDTH[m]])
    more = {} if m == "h" else {"seed": 1}
    est = cases.create(m, a, args, kw, **more)
    before = float(est.result()) if a != "metric" else None
    grid = [(n, "permutation_test") for n in (0, -1, -5, 1.5, 2.0, "3", [3], 1, float("nan"))]
    grid += [(3, w) for w in ("", "perm", "permutation", "bootstrapp", "x", 3, ["bootstrap"], "jackknife")]
    grid += [(0, "bootstrap"), (-2, "bootstrap"), (2.5, "bootstrap")]
    if m == "mi3":
        grid += [(3, "permutation_test"), (3, "bootstrap")]
    for n, w in grid:
        rec.ev()
        rec.traces += 1
        rec.node("test", m, a, repr(n), repr(w))
        try:
            r = est.statistical_test(n, w)
            refused, what = False, f"p={r.p_value}"
        except io.UnsupportedOperation:
            refused, what = True, "UnsupportedOperation"
        except Exception as exc:  # noqa: BLE001
            refused, what = True, type(exc).__name__
        rec.outcome(what)
        if n == 1 and w == "permutation_test":
            continue  # one test value: refused today, but nothing promises it
        rec.true(refused, {"measure": m, "approach": a, "n_tests": n, "method": w}, "an error", what, "an impossible test is answered")
    if m != "h":
        r = est.result()
        if before is not None:
            rec.close((m, a), before, float(r), "refused tests changed the value", rtol=0, atol=0)


def composite(rec, a):
    args, kw = cases.request("hx", a, ST[:2])
    x, y = args
    bad = [
        ("no data", ()), ("one data", (x,)), ("None first", (None, y)), ("None second", (x, None)),
        ("a number", (x, 3)), ("a string", (x, "abab")), ("empty first", (x[:0], y)), ("empty second", (x, y[:0])), ("a dict", (x, {1: 2})), ("a set", ({1, 2}, y)),
    ]
    for name, fn, offers in (("kld", im.kld, a in cases.HX), ("jsd", im.jsd, a in cases.JSD)):
        for what, data in bad:
            if name == "jsd" and what in ("no data", "one data"):
                if what == "one data":
                    continue  # the divergence of one distribution is zero
            rec.ev()
            rec.traces += 1
            rec.node(name, a, what)
            refused, got = outcome(lambda: float(fn(*data, approach=a, **kw)))
            rec.outcome(got if refused else "answered")
            rec.true(refused, {"measure": name, "approach": a, "malformed": what}, "an error", got, "a malformed divergence is answered")
        refused, got = outcome(lambda: float(fn(x, y, approach=a, **kw)))
        rec.ev()
        if offers:
            rec.true(not refused, {"measure": name, "approach": a}, "a value", got, "an offered divergence is refused")
        else:
            rec.true(refused, {"measure": name, "approach": a}, "an error", got, "a divergence the approach does not have is answered")
        for w in (None, "", "x", 3, "discret"):
            refused, got = outcome(lambda: float(fn(x, y, approach=w)))
            rec.ev()
            rec.true(refused, {"measure": name, "approach": repr(w)}, "an error", got, "an unknown approach is answered")
    if a not in cases.HX:
        for entry, f in (("function", lambda: im.cross_entropy(x, y, approach=a, **kw)),
                         ("estimator", lambda: im.estimator(x, y, measure="hx", approach=a, **kw).result())):
            refused, got = outcome(f)
            rec.ev()
            rec.node("hx", a, entry)
            rec.true(refused, {"measure": "hx", "approach": a, "through": entry}, "an error", got,
                     "a cross-entropy the approach does not have is answered")
    if a in cases.JSD and kw.get("alpha") is None:
        for ns in itertools.product((0, 2, 6), repeat=3):
            if 0 in ns:
                rec.ev()
                refused, got = outcome(lambda: float(im.jsd(*[x[:n] for n in ns], approach=a, **kw)))
                rec.true(refused, {"measure": "jsd", "approach": a, "lengths": ns}, "an error", got, "empty data are answered")


def offsets(rec, a, top):
    """Offsets below the number of samples are applied, larger ones leave nothing."""
    for n in range(4, top + 1):
        args, kw = cases.request("mi", a, [s[:n] for s in ST[:2]])
        if "k" in kw:
            kw["k"] = 1
        for off in range(-n - 2, n + 3):
            left = n - abs(off)
            case = {"approach": a, "samples": n, "offset": off}
            refused, got = outcome(lambda: float(cases.create("mi", a, args, {**kw, "offset": off}).result()))
            rec.ev(left <= 1)
            rec.traces += 1
            rec.node("offset", a, n, off)
            rec.outcome(got if refused else "answered")
            if left <= 0:
                rec.true(refused, case, "an error", got, "an offset beyond the data is answered")
            elif left >= 4 and a not in ("renyi", "tsallis"):
                rec.true(not refused, case, "a value", got, "a possible offset is refused")
