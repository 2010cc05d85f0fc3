"""P17 - all ways to request a measure give the same value."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases
from mc.core import same
from mc.lib import ALIASES, APPROACHES, H_KW, lcg

LEVEL = "exploration"
RULE = (
    "every measure x approach name or alias x spelling x interface (function, its short name, "
    "generic factory, class by name) x argument set (each argument alone, every pair, all) is "
    "evaluated and compared with the estimator class called directly. An argument which must "
    "matter for the data has to change the value. Non-trivial: at least one non-default argument "
    "or a name other than the canonical one."
)
ASSUMPTIONS = [
    "agreement between interfaces; that the common value is right is decided by P01-P13",
]
BOUNDS = {
    "quick": "5 measures x 16 approaches x all aliases, 3 letter cases, all documented spellings; "
    "argument sets: none, single, pairs, all"
        "; each argument at up to 10 values through every interface; every number type of each argument",
    "thorough": "all subsets of the arguments, three data sets",
}
inf = math.inf
# short and long names of the functions
FUNCS = {
    "h": ("entropy", "h"),
    "hx": ("cross_entropy", "hx"),
    "mi": ("mutual_information", "mi"),
    "cmi": ("conditional_mutual_information", "cmi"),
    "te": ("transfer_entropy", "te"),
    "cte": ("conditional_transfer_entropy", "cte"),
    "jsd": ("jensen_shannon_divergence", "jsd"),
    "kld": ("kullback_leiber_divergence", "kld"),
}
FACTORY = {
    "h": ("entropy", "h", "H", "Entropy"),
    "hx": ("cross_entropy", "hx", "cross entropy", "Cross-Entropy"),
    "mi": ("mutual_information", "mi", "MI", "mutual information", "Mutual-Information"),
    "cmi": ("conditional_mutual_information", "cmi", "Conditional Mutual Information", "conditional-mutual-information"),
    "te": ("transfer_entropy", "te", "Te", "transfer entropy", "Transfer-Entropy"),
    "cte": ("conditional_transfer_entropy", "cte", "CTE", "conditional transfer entropy"),
}
CLASS = {
    "h": ("entropy", "h", "Entropy", "H"),
    "mi": ("mutual_information", "mi", "Mutual_Information", "MI"),
    "cmi": ("conditional_mutual_information", "cmi", "CMI", "Conditional_Mutual_Information"),
    "te": ("transfer_entropy", "te", "Transfer_Entropy", "TE"),
    "cte": ("conditional_transfer_entropy", "cte", "CTE"),
}
DATA = (
    ((0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0, 0, 1), (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2, 1, 0),
     (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0, 1, 1)),
    ((0, 1, 1, 2, 3, 0, 1, 2, 2, 1, 3, 0), (1, 1, 2, 0, 0, 3, 3, 1, 2, 0, 1, 1), (2, 0, 1, 1, 0, 0, 2, 2, 1, 0, 1, 0)),
    ((1, 0, 0, 0, 1, 0, 1, 1, 0, 1, 1), (0, 1, 0, 0, 0, 1, 0, 1, 1, 0, 1), (0, 1, 1, 0, 1, 1, 0, 0, 1, 0, 0)),
)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for m in ("h", "hj", "hx", "mi", "mi3", "cmi", "te", "cte"):
        for a in APPROACHES:
            if not cases.offers(m, a) or (m == "mi3" and a == "metric"):
                continue
            for d in range(len(DATA) if th else 1):
                out.append(("interfaces", m, a, d, th))
                if d == 0:
                    out.append(("levels", m, a))
                    out.append(("numbers", m, a))
    for m in ("jsd", "kld"):
        for a in cases.JSD if m == "jsd" else cases.HX:
            out.append(("composite", m, a))
    out.append(("single",))
    out.append(("dispatch",))
    out.append(("classes",))
    return out


def names(m, a):
    kind = {"hj": "h", "hx": "h", "mi3": "mi"}.get(m, m)
    out = [a] + [n for n, c in ALIASES[kind].items() if c == a]
    return out


def spell(n):
    return [n, n.upper(), n.title()]


def base_kw(m, a):
    kw = dict(H_KW[a])
    if a in ("metric", "renyi", "tsallis"):
        kw["k"] = 2
    if a in ("renyi", "tsallis") and m not in ("h", "hj", "hx"):
        kw["noise_level"] = 0
    return kw


def arguments(m, a):
    """Non-default arguments: name -> (value, must it change the value?)."""
    out = {"base": (2, a != "tsallis")}
    kind = {"hj": "h", "mi3": "mi"}.get(m, m)
    if kind == "mi" and m != "mi3":
        out["offset"] = (1, a != "ansb")
    if kind in ("mi", "cmi") and a in cases.CONT:
        out["normalize"] = (True, True)
    if kind in ("te", "cte"):
        if kind == "te":
            out["prop_time"] = (1, True)
        out["src_hist_len"] = (2, True)
        out["dest_hist_len"] = (2, True)
        out["step_size"] = (2, True)
        if kind == "cte":
            out["cond_hist_len"] = (2, True)
    if a == "ansb":
        out["undersampled"] = (0.5, False)
        if kind in ("h",):
            out["K"] = (7, False)
    elif a == "bayes":
        out["alpha"] = (1.7, True)
        out["K"] = (300, True)
    elif a == "nsb":
        out["K"] = (300, True)
    elif a == "kernel":
        out["bandwidth"] = (2.2, True)
        out["kernel"] = ("gaussian", True)
        out["workers"] = (2, False)
    elif a == "metric":
        out["k"] = (3, True)
        out["ksg_id"] = (2, kind != "hx")
        out["minkowski_p"] = (2.0, m not in ("h", "hx"))
    elif a == "ordinal":
        out["embedding_dim"] = (3, True)
        out["stable"] = (False, False)
        out["step_size"] = (2, kind != "hx")
    elif a == "renyi":
        out["k"] = (3, True)
        out["alpha"] = (0.7, True)
    elif a == "tsallis":
        out["k"] = (3, True)
        out["q"] = (0.7, True)
    return out


def subsets(args, th):
    keys = sorted(args)
    if th:
        for r in range(len(keys) + 1):
            yield from itertools.combinations(keys, r)
    else:
        for r in (0, 1, 2):
            yield from itertools.combinations(keys, r)
        if len(keys) > 2:
            yield tuple(keys)


def build(m, a, d):
    st = DATA[d]
    cols = cases.columns(a, st)
    if m == "hj":
        return (tuple(cols[:2]),), {}
    if m in ("cmi", "cte"):
        return tuple(cols[:2]), {"cond": cols[2]}
    return tuple(cols[: cases.WIDTH[m]]), {}


def loc(est):
    try:
        return est.local_vals()
    except Exception as exc:  # noqa: BLE001
        return type(exc).__name__


def agree(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return isinstance(x, str) and isinstance(y, str) and x == y
    return same(x, y, 1e-11, 1e-12)


def interfaces(rec, m, a, d, th):
    kind = {"hj": "h", "mi3": "mi"}.get(m, m)
    cls_kind = "h" if kind == "hx" else kind
    data, cond = build(m, a, d)
    args = arguments(m, a)
    plain = None
    for sub in subsets(args, th):
        if "workers" in sub and len(sub) > 1:
            continue  # each evaluation starts processes; once is enough
        kw = {**base_kw(m, a), **{k: args[k][0] for k in sub}}
        case = {"measure": m, "approach": a, "data": d, "arguments": {k: args[k][0] for k in sub}}
        cls = im.get_estimator_class(cls_kind, a)
        ok, est = rec.call(case, "class called directly", cls, *data, **cond, **kw)
        if not ok:
            continue
        ok, exp = rec.call(case, "class called directly", est.result)
        if not ok:
            continue
        exp_loc = loc(est)
        if not sub:
            plain = exp
        elif len(sub) == 1 and args[sub[0]][1] and d == 0 and plain is not None and not (
            math.isnan(plain) and math.isnan(exp)
        ):
            rec.true(not same(plain, exp, 1e-12, 1e-12), case, "another value than the default's",
                     (plain, exp), "the argument has no effect")
        for f in FUNCS[kind]:
            rec.ev(bool(sub))
            rec.node(m, a, sub, f)
            ok, got = rec.call({**case, "interface": f}, f, getattr(im, f), *data, approach=a, **cond, **kw)
            if ok:
                rec.traces += 1
                rec.outcome(got)
                rec.close({**case, "interface": f}, exp, got, "function and class disagree",
                          rtol=1e-11, atol=1e-12)
        for f in FACTORY[kind] if not sub else FACTORY[kind][:2]:
            c = {**case, "interface": f"estimator(measure={f!r})"}
            rec.ev(bool(sub) or f != FACTORY[kind][0])
            rec.node(m, a, sub, "factory", f)
            ok, est = rec.call(c, f, im.estimator, *data, measure=f, approach=a, **cond, **kw)
            if ok:
                ok, got = rec.call(c, f, est.result)
            if ok:
                rec.traces += 1
                rec.close(c, exp, got, "factory and class disagree", rtol=1e-11, atol=1e-12)
                rec.true(agree(exp_loc, loc(est)), c, exp_loc, loc(est),
                         "local values of factory and class disagree")
                rec.true(type(est) is cls, c, cls.__name__, type(est).__name__,
                         "the factory returns another class")
    # names and spellings of the approach
    for n in names(m, a):
        for s in spell(n):
            kw = {**base_kw(m, a), **{k: v for k, (v, _) in args.items() if k in ("base", "k", "src_hist_len")}}
            case = {"measure": m, "approach": s}
            exp = im.get_estimator_class(cls_kind, a)(*data, **cond, **kw).result()
            for f in FUNCS[kind]:
                rec.ev(s != a)
                rec.node(m, s, f)
                ok, got = rec.call({**case, "interface": f}, "spelling of the approach", getattr(im, f),
                                   *data, approach=s, **cond, **kw)
                if ok:
                    rec.traces += 1
                    rec.close({**case, "interface": f}, exp, got, "spelling of the approach", rtol=1e-11, atol=1e-12)
            ok, est = rec.call(case, "spelling of the approach", im.estimator, *data, measure=FACTORY[kind][-1],
                               approach=s, **cond, **kw)
            if ok:
                rec.close(case, exp, est.result(), "spelling of the approach (factory)", rtol=1e-11, atol=1e-12)
            for c in CLASS[cls_kind]:
                ok, k = rec.call({**case, "class": c}, "class by name", im.get_estimator_class, c, s)
                if ok:
                    rec.true(k is im.get_estimator_class(cls_kind, a), {**case, "class": c},
                             im.get_estimator_class(cls_kind, a).__name__, k.__name__, "alias names another class")
    rec.sample({"measure": m, "approach": a, "arguments": sorted(args)})


LEVELS = {
    "offset": (-11, -5, -1, 0, 1, 2, 7, 13),
    "prop_time": (-13, -3, -1, 0, 1, 2, 5, 12),
    "src_hist_len": (1, 2, 3, 4, 5, 6, 9, 17),
    "dest_hist_len": (1, 2, 3, 4, 5, 6, 9, 17),
    "cond_hist_len": (1, 2, 3, 4, 5, 6, 9, 17),
    "step_size": (1, 2, 3, 4, 5, 7, 11),
    "base": ("e", 2, 3, 10, 2.5, 0.5),
    "k": (1, 2, 4, 5, 9, 20),
    "ksg_id": (1, 2),
    "minkowski_p": (1, 1.5, 2, 3, math.inf),
    "bandwidth": (0.3, 1, 1.5, 3, 12.5),
    "kernel": ("box", "gaussian"),
    "normalize": (False, True),
    "embedding_dim": (2, 3, 4, 5),
    "undersampled": (0.01, 0.1, 0.5),
    "alpha": (0.3, 0.5, 1, 1.0, 2, 4),
    "q": (0.3, 0.5, 1, 1.0, 2, 4),
}
HEAVY = ("metric", "kernel", "renyi", "tsallis", "nsb")


def levels(rec, m, a):
    """Each argument at many values, small and large, alone and with one other argument."""
    kind = {"hj": "h", "mi3": "mi"}.get(m, m)
    n = 45 if a in HEAVY else 120
    series = tuple(tuple(lcg(s, n, 4)) for s in (5, 6, 7))
    cols = cases.columns(a, series)
    if m == "hj":
        data, cond = (tuple(cols[:2]),), {}
    elif m in ("cmi", "cte"):
        data, cond = tuple(cols[:2]), {"cond": cols[2]}
    else:
        data, cond = tuple(cols[: cases.WIDTH[m]]), {}
    cls = im.get_estimator_class("h" if kind == "hx" else kind, a)
    todo = []
    for name in arguments(m, a):
        if name == "alpha" and a == "bayes":
            todo += [{name: v} for v in (0.0, 0.5, 1, 2.5, "jeffrey", "laplace", "sch-grass", "min-max")]
        elif name == "K":
            todo += [{name: v} for v in (16 if kind == "h" else 4096, 5000)]
        elif name in LEVELS:
            todo += [{name: v} for v in LEVELS[name]]
    if kind in ("te", "cte"):
        hist = [h for h in arguments(m, a) if h.endswith("_len")]
        todo += [{h: v, g: w} for h, g in itertools.permutations(hist, 2) for v, w in ((2, 5), (7, 3))]
        todo += [{h: 3, "step_size": v} for h in hist for v in (2, 4)]
        if kind == "te":
            todo += [{"prop_time": v, "step_size": s} for v in (-4, 3) for s in (2, 5)]
    for more in todo:
        kw = {**base_kw(m, a), **more}
        case = {"measure": m, "approach": a, "arguments": more, "samples": n}
        try:
            exp = cls(*data, **cond, **kw).result()
        except Exception as exc:  # noqa: BLE001 - every interface has to refuse then
            exp = type(exc).__name__
        calls = [(f, lambda f=f: getattr(im, f)(*data, approach=a, **cond, **kw)) for f in FUNCS[kind]]
        calls += [
            (f"estimator({f!r})", lambda f=f: im.estimator(*data, measure=f, approach=a, **cond, **kw).result())
            for f in FACTORY[kind]
        ]
        if cond:
            plain = {"cmi": "mi", "cte": "te"}[kind]
            calls += [(f + " with cond", lambda f=f: getattr(im, f)(*data, approach=a, **cond, **kw)) for f in FUNCS[plain]]
        for name, call in calls if a not in HEAVY else calls[:1] + calls[len(FUNCS[kind]):][:1] + calls[-1:]:
            rec.ev()
            rec.node("levels", m, a, sorted(more.items(), key=str), name)
            try:
                got = call()
            except Exception as exc:  # noqa: BLE001
                got = type(exc).__name__
            rec.traces += 1
            rec.true(agree(exp, got), {**case, "interface": name}, exp, got, "interface and class disagree")
        rec.outcome(exp)
    rec.sample({"measure": m, "approach": a, "arguments": len(todo)})


INTEGERS = (np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint64)


def numbers(rec, m, a):
    """An argument given as an equal number of another type gives the same value."""
    kind = {"hj": "h", "mi3": "mi"}.get(m, m)
    n = 45 if a in HEAVY else 300
    series = tuple(tuple(lcg(s, n, 4)) for s in (5, 6, 7))
    cols = cases.columns(a, series)
    if m == "hj":
        data, cond = (tuple(cols[:2]),), {}
    elif m in ("cmi", "cte"):
        data, cond = tuple(cols[:2]), {"cond": cols[2]}
    else:
        data, cond = tuple(cols[: cases.WIDTH[m]]), {}
    cls = im.get_estimator_class("h" if kind == "hx" else kind, a)
    todo = [(k, v) for k in arguments(m, a) for v in LEVELS.get(k, ()) if not isinstance(v, str)]
    if "K" in arguments(m, a):
        todo += [("K", v) for v in ((16, 100) if kind == "h" else (4096, 5000))]
    if a in ("renyi", "tsallis") and kind in ("te", "cte"):
        todo += [("noise_level", v) for v in (0, 0.5)]
    if kind == "te":
        todo += [("prop_time", 100), ("prop_time", -100)]
    for name, v in todo:
        if isinstance(v, bool):
            types = (int, np.bool_)
        elif isinstance(v, int):
            types = [t for t in INTEGERS if np.iinfo(t).min <= v <= np.iinfo(t).max]
            if name in ("base", "alpha", "q", "bandwidth", "minkowski_p"):
                types += [float, np.float64, np.float32]
        else:
            types = [np.float64] + [t for t in (np.float32, np.float16) if float(t(v)) == v]
        for step in (1, 2) if kind in ("te", "cte") and abs(v) < 20 or name == "prop_time" else (None,):
            kw = {**base_kw(m, a), name: v}
            if step and name != "step_size":
                kw["step_size"] = step
            case = {"measure": m, "approach": a, "samples": n, **kw}

            def value(arg):
                est = cls(*data, **cond, **{**kw, name: arg})
                if kw.get("noise_level"):
                    est.rng = np.random.default_rng(7)
                try:
                    return est.result()
                except Exception as exc:  # noqa: BLE001 - refused for every type then
                    return type(exc).__name__

            try:
                exp = value(v)
            except Exception as exc:  # noqa: BLE001
                exp = type(exc).__name__
            for t in types:
                rec.ev()
                rec.node("numbers", m, a, name, v, step, t.__name__)
                try:
                    got = value(t(v))
                except Exception as exc:  # noqa: BLE001
                    got = type(exc).__name__
                rec.traces += 1
                rec.true(
                    agree(exp, got),
                    {**case, "number type": t.__name__},
                    exp,
                    got,
                    f"{name} of an equal number of another type gives another value",
                )
            rec.outcome(exp)
    rec.sample({"measure": m, "approach": a, "arguments": len(todo)})


def composite(rec, m, a):
    for d in range(3):
        cols = cases.columns(a, DATA[d])[:2]
        kw0 = base_kw("h", a)
        args = {k: v for k, v in arguments("hx" if m == "kld" else "h", a).items()}
        if m == "jsd" and a == "ordinal":
            args["step_size"] = (2, True)
        for sub in subsets(args, False):
            if "workers" in sub:
                continue
            kw = {**kw0, **{k: args[k][0] for k in sub}}
            case = {"measure": m, "approach": a, "data": d, "arguments": {k: args[k][0] for k in sub}}
            vals = []
            for f in FUNCS[m]:
                for s in [s for n in names("h", a) for s in spell(n)][: 3 if sub else None]:
                    rec.ev(bool(sub))
                    rec.node(m, a, sub, f, s)
                    ok, got = rec.call({**case, "interface": f, "name": s}, f, getattr(im, f), *cols, approach=s, **kw)
                    if ok:
                        rec.traces += 1
                        vals.append(got)
                        rec.close({**case, "interface": f, "name": s}, vals[0], got, "interfaces disagree",
                                  rtol=1e-11, atol=1e-12)
            if m == "kld" and vals:
                exp = im.cross_entropy(*cols, approach=a, **kw) - im.entropy(cols[0], approach=a, **kw)
                rec.close(case, exp, vals[0], "KLD drops an argument", rtol=1e-11, atol=1e-12)
                got = im.kld(data_p=cols[0], data_q=cols[1], approach=a, **kw)
                rec.close(case, exp, got, "KLD by keyword", rtol=1e-11, atol=1e-12)


def single(rec):
    """A mutual information of one variable is its entropy, by every name."""
    for a in APPROACHES:
        col = cases.column(a, DATA[0][0], 0)
        kw = base_kw("h", a)
        if a in ("renyi", "tsallis"):
            kw.pop("noise_level", None)
        exp = im.entropy(col, approach=a, **kw)
        for n in names("mi", a):
            for s in spell(n):
                for f in FACTORY["mi"]:
                    case = {"measure": f, "approach": s, "variables": 1}
                    rec.ev(s != a)
                    rec.node("single", f, s)
                    ok, est = rec.call(case, "MI of one variable", im.estimator, col, measure=f, approach=s, **kw)
                    if ok:
                        rec.traces += 1
                        rec.close(case, exp, est.result(), "MI of one variable is not its entropy",
                                  rtol=1e-11, atol=1e-12)
        if a == "ordinal":
            est = im.estimator(col, measure="mi", approach=a, **{**kw, "step_size": 2})
            rec.close({"approach": a, "step_size": 2}, im.entropy(col, approach=a, **{**kw, "step_size": 2}),
                      est.result(), "step size of a single-variable MI")


def dispatch(rec):
    """A request with a condition is conditional, whichever measure was named."""
    for a in APPROACHES:
        for plain, m in (("mi", "cmi"), ("te", "cte")):
            data, cond = build(m, a, 0)
            kw = base_kw(m, a)
            par = {"dest_hist_len": 2, "cond_hist_len": 3} if m == "cte" else {}
            exp = im.get_estimator_class(m, a)(*data, **cond, **kw, **par).result()
            unc = im.get_estimator_class(plain, a)(*data, **kw, **{k: v for k, v in par.items() if "cond" not in k}).result()
            case = {"measure": m, "approach": a}
            rec.true(math.isnan(exp) or not same(exp, unc, 1e-9, 1e-9), case, "different values", (exp, unc),
                     "the condition has no effect")
            for f in FUNCS[plain] + FUNCS[m]:
                rec.ev()
                rec.node("dispatch", a, f)
                ok, got = rec.call({**case, "interface": f}, f, getattr(im, f), *data, approach=a, **cond, **kw, **par)
                if ok:
                    rec.traces += 1
                    rec.close({**case, "interface": f}, exp, got, "conditional request", rtol=1e-11, atol=1e-12)
            for f in FACTORY[plain] + FACTORY[m]:
                rec.ev()
                rec.node("dispatch", a, "factory", f)
                ok, est = rec.call({**case, "factory": f}, f, im.estimator, *data, measure=f, approach=a,
                                   **cond, **kw, **par)
                if ok:
                    rec.traces += 1
                    rec.close({**case, "factory": f}, exp, est.result(), "conditional request", rtol=1e-11, atol=1e-12)
            # without a condition (or with None) the plain measure
            for f in FUNCS[plain]:
                for extra in ({}, {"cond": None}):
                    k = {**kw, **{k: v for k, v in par.items() if "cond" not in k}, **extra}
                    ok, got = rec.call({**case, "interface": f, "cond": "none"}, f, getattr(im, f), *data, approach=a, **k)
                    if ok:
                        rec.close({**case, "interface": f, "cond": "none"}, unc, got, "request without condition",
                                  rtol=1e-11, atol=1e-12)
        # cross-entropy: two data arguments of the entropy
        if a in cases.HX:
            data, _ = build("hx", a, 0)
            kw = base_kw("hx", a)
            ok, got = rec.call({"approach": a}, "cross-entropy", im.cross_entropy, *data, approach=a, **kw)
            if ok:
                rec.close({"approach": a}, got, im.entropy(*data, approach=a, **kw), "entropy of two data",
                          rtol=1e-11, atol=1e-12)


def classes(rec):
    """Every alias names the class of its approach; names differ between approaches."""
    for kind in ("h", "mi", "cmi", "te", "cte"):
        seen = {}
        for a in APPROACHES:
            cls = im.get_estimator_class(kind, a)
            rec.ev(False)
            rec.true(cls not in seen, (kind, a), "a class of its own", cls.__name__,
                     "two approaches share a class")
            seen[cls] = a
            for n in names(kind, a):
                for s in spell(n):
                    for c in CLASS[kind]:
                        rec.ev()
                        rec.node("class", kind, s, c)
                        ok, got = rec.call((c, s), "class by name", im.get_estimator_class, c, s)
                        if ok:
                            rec.true(got is cls, (c, s), cls.__name__, got.__name__, "alias names another class")
                        ok, got = rec.call((c, s), "class by keyword", im.get_estimator_class, measure=c, approach=s)
                        if ok:
                            rec.true(got is cls, (c, s), cls.__name__, got.__name__, "alias names another class")
