"""Measures of many variables, decided from the definitions (shared by several checks)."""

import math
from collections import Counter

import infomeasure as im
import numpy as np

from mc import cases, model, ref
from mc.lib import lcg


def joint(approach, kw, cols):
    pts = model.cat(*cols)
    if approach == "metric":
        return ref.h_kl(pts, k=kw.get("k", 4), p=kw.get("minkowski_p", math.inf), ksg_id=kw.get("ksg_id", 1))
    if approach == "kernel":
        d = ref.density(kw["kernel"], pts, kw["bandwidth"])
        return -math.fsum(math.log(v) for v in d) / len(d)
    if approach == "shrink":
        return ref.entropy_of(approach, pts)
    return model.entropy_fn(approach, kw)(pts)


def streams(m, n, mod, kind):
    s = [lcg(7 * q + m + n, n, mod) for q in range(m)]
    if kind == "driven":  # later variables follow earlier ones
        s = [v if q % 3 == 0 else [(a + b * (i % 4 == 0)) % mod for i, (a, b) in enumerate(zip(s[q - 1], v))]
             for q, v in enumerate(s)]
    if kind == "last":  # only the last two variables depend on each other
        s = [[0] * (n - 1) + [1] for _ in range(m - 2)] + [s[-1], s[-1]]
    return s


def tasks(approach, measures, th=False):
    for n in (7, 40, 150) if approach not in ("nsb",) else (7,):
        for kind in ("indep", "driven", "last"):
            yield approach, measures, n, kind, th


def run(rec, approach, measures, n, kind, th):
    """Joint entropy, MI and CMI of five to twelve variables."""
    cont = approach in cases.CONT
    for m in (5, 6, 7, 8, 9, 10, 12, 16) if th else (5, 6, 8, 9, 12):
        if approach == "nsb" and m > 6:
            continue
        mod = 12 if approach == "ordinal" else 3
        st = streams(m + 1, n + (3 if approach == "ordinal" else 0), mod, kind)
        z, st = st[-1] if kind != "last" else st[0], st[:-1] if kind != "last" else st[1:]
        if kind == "last" and cont and approach != "kernel":
            st = [[a + i * (q % 2) for i, a in enumerate(v)] for q, v in enumerate(st)]
        arr = cases.columns(approach, st)
        cond = cases.column(approach, z, m)
        for j, kw in enumerate(variants(approach, n)):
            syms = [model.symbols(approach, kw, a) for a in arr]
            csym = model.symbols(approach, kw, cond)
            for base in ("e", 2) if j == 0 else (2,):
                b = ref.lnb(base) if approach != "tsallis" or kw["q"] == 1 else 1.0
                k = dict(approach=approach, base=base, **kw)
                case = {"approach": approach, "variables": m, "n": n, "kind": kind, "base": base, **kw}
                for me in measures:
                    rec.ev()
                    rec.node("many", me, approach, m, n, kind, j, base)
                    kk = dict(k)
                    if approach in ("renyi", "tsallis") and me == "h":
                        kk.pop("noise_level", None)
                    if me == "h":
                        exp = joint(approach, kw, syms)
                        ok, got = rec.call(case, "joint entropy", im.entropy, tuple(arr), **kk)
                    elif me == "mi":
                        exp = model.mi(approach, kw, syms)
                        ok, got = rec.call(case, "MI", im.mi, *arr, **kk)
                        if ok and not cont and approach not in ("shrink", "chao_wang_jost", "bonachela"):
                            loc(rec, case, exp / b, n, lambda: im.estimator(*arr, measure="mi", **kk))
                    else:
                        exp = model.cmi(approach, kw, syms, csym)
                        ok, got = rec.call(case, "CMI", im.cmi, *arr, cond=cond, **kk)
                    if ok:
                        rec.traces += 1
                        rec.outcome(got)
                        rec.close({**case, "measure": me}, exp / b, float(got), f"{me} of many variables", **tol(approach))
                        if approach in ("discrete", "miller_madow", "bayes") and me == "mi" and base == 2:
                            encoded(rec, case, exp / b, arr, kk)
                        if approach in ("metric", "kernel") and me != "h":
                            ok, lv = rec.call(case, "local values", lambda: im.estimator(
                                *arr, measure=me, **kk, **({"cond": cond} if me == "cmi" else {})).local_vals())
                            if ok:
                                e = (model.l_mi(approach, kw, syms) if me == "mi"
                                     else model.l_cmi(approach, kw, syms, csym))
                                rec.close({**case, "measure": me}, [v / b for v in e], lv,
                                          f"local {me} of many variables", rtol=1e-7, atol=1e-8)


def encoded(rec, case, exp, arr, kk):
    """The same samples as fractions, as strings, as pairs and mixed."""
    names = {
        "fractions": lambda v: v * 0.3 - 0.1,
        "strings": lambda v: np.array([f"s{x}" for x in v]),
        "pairs": lambda v: np.stack([v // 2, v % 2], axis=1),
        "pairs of fractions": lambda v: np.stack([v // 2, v % 2], axis=1) * 0.7,
    }
    table = [(name, [f(v) for v in arr]) for name, f in names.items()]
    table.append(("one fraction", [v * 0.3 if i == len(arr) - 1 else v for i, v in enumerate(arr)]))
    for name, new in table:
        ok, got = rec.call({**case, "samples": name}, "MI", im.mi, *new, **kk)
        if ok:
            rec.ev()
            rec.traces += 1
            rec.close({**case, "samples": name}, exp, float(got), "MI of many variables", rtol=1e-9, atol=1e-10)


def loc(rec, case, exp, n, mk):
    """Local values, where offered, average to the value."""
    try:
        lv = mk().local_vals()
    except Exception:  # noqa: BLE001 - refused (decided by P22)
        return
    rec.close(case, exp, float(np.mean(lv)), "mean local MI of many variables", **tol(case["approach"]))


def tol(approach):
    loose = approach in cases.CONT or approach == "nsb"
    return dict(rtol=1e-7, atol=1e-8) if loose else dict(rtol=1e-9, atol=1e-10)


def variants(approach, n):
    kw = cases.kwargs("mi", approach, n)
    yield kw
    if approach == "metric":
        yield {**kw, "k": 1, "ksg_id": 2}
        yield {**kw, "minkowski_p": 2.0}
    if approach == "kernel":
        yield {**kw, "bandwidth": 0.9}
        if n >= 40:
            yield {**kw, "kernel": "gaussian", "bandwidth": 0.6}
    if approach == "bayes":
        yield {**kw, "alpha": "jeffrey"}
    if approach in ("renyi", "tsallis"):
        o = "alpha" if approach == "renyi" else "q"
        yield {**kw, o: 1}
    if approach == "ordinal":
        yield {**kw, "embedding_dim": 3}


# ---------------------------------------------------------------- every history length
def past_variants(approach):
    if approach == "metric":
        yield dict(k=3, noise_level=0)
        yield dict(k=2, noise_level=0, ksg_id=2)
        yield dict(k=4, noise_level=0, minkowski_p=2.0)
    elif approach == "kernel":
        yield dict(kernel="box", bandwidth=1.25)
        yield dict(kernel="gaussian", bandwidth=0.7)
    elif approach in ("renyi", "tsallis"):
        o = "alpha" if approach == "renyi" else "q"
        yield dict(k=3, noise_level=0, **{o: 1.5})
        yield dict(k=2, noise_level=0, **{o: 1})


def past_tasks(approach, th=False):
    for src in range(1, 6 if th else 5):
        for v in range(len(list(past_variants(approach)))):
            yield approach, src, v, th


def pasts(rec, approach, src, v, th):
    """Every combination of history lengths, step and propagation time."""
    kw = list(past_variants(approach))[v]
    par_o = {"renyi": "alpha", "tsallis": "q"}.get(approach)
    n = 48
    x, y, z = (lcg(n * q + src, n, 64) for q in (1, 2, 3))
    y = [x[t - 2] + y[t] / 4 if t % 3 else y[t] for t in range(n)]
    cols = [np.array([a / 16 + i * 2.0**-20 for i, a in enumerate(c)]) for c in (x, y, z)]
    rec.node("past", approach, src, v)
    for i, (dest, cond, step) in enumerate(
        (d, c, s) for d in range(1, 5) for c in range(0, 5) for s in ((1, 2, 3, 5) if th else (1, 3))
    ):
        base = ("e", 2, 10)[i % 3]
        b = ref.lnb(base) if approach != "tsallis" or kw[par_o] == 1 else 1.0
        for prop in (0, 2, -3) if cond == 0 else (0,):
            p = dict(src_hist_len=src, dest_hist_len=dest, step_size=step)
            if cond:
                p["cond_hist_len"] = cond
            else:
                p["prop_time"] = prop
            if n - abs(prop) * step - max(src, dest, cond) * step < 6 * step:
                continue
            parts = model.te_parts(approach, {**kw, **p}, cols[0], cols[1], cols[2] if cond else None)
            exp = model.te_rows(approach, kw, *parts) / b
            rec.ev()
            case = {"approach": approach, **kw, **p, "base": base}
            more = {"cond": cols[2]} if cond else {}
            ok, got = rec.call(case, "TE", im.te, cols[0], cols[1], approach=approach, base=base, **kw, **p, **more)
            if ok:
                rec.traces += 1
                rec.outcome(got)
                rec.close(case, exp, float(got), "transfer entropy of these histories", rtol=1e-7, atol=1e-8)


# ---------------------------------------------------------------- variables of many columns
WIDTHS = ((3, 1, 4), (1, 4, 3), (5, 2, 1), (2, 2, 6), (1, 1, 5), (4, 4, 4))


def wide_tasks(approach, th=False):
    for w in WIDTHS:
        for n in (9, 40, 130) if not th else (9, 40, 130, 400):
            yield approach, w, n


def wide(rec, approach, widths, n):
    """MI, CMI, TE and CTE of variables with several columns, every one of which matters."""
    x, y, z = (
        [[v / 8 + i * 2.0**-18 for i, v in enumerate(lcg(n + 10 * j + c, n, 40))] for c in range(w)]
        for j, w in enumerate(widths)
    )
    for c, col in enumerate(y):  # the last columns carry the dependence
        src = x[-1] if c == len(y) - 1 else z[-1]
        y[c] = [(a + b) / 2 if i % 3 else a for i, (a, b) in enumerate(zip(col, src[-1:] + src[:-1]))]
    cont = approach in cases.CONT
    if not cont:
        x, y, z = ([[int(a * 8) % 2 for a in c] for c in v] for v in (x, y, z))
    X, Y, Z = (np.array(v).T if len(v) > 1 else np.array(v[0]) for v in (x, y, z))
    rec.node("wide", approach, widths, n)
    P = [model.as_points(v) for v in (X, Y, Z)]
    par_o = {"renyi": "alpha", "tsallis": "q"}.get(approach)
    for i, kw in enumerate(past_variants(approach) if cont else [cases.kwargs("mi", approach, n)]):
        if n < 20 and kw.get("k", 0) > 2:
            kw["k"] = 2
        if approach == "kernel":
            kw["bandwidth"] *= 2
        base = ("e", 2)[i % 2]
        b = ref.lnb(base) if approach != "tsallis" or kw[par_o] == 1 else 1.0
        k = dict(approach=approach, base=base, **kw)
        te = dict(src_hist_len=2, dest_hist_len=1)
        cte = dict(src_hist_len=1, dest_hist_len=2, cond_hist_len=2)
        for me, fun, more, exp in (
            ("mi", im.mi, {}, lambda: model.mi(approach, kw, P[:2])),
            ("cmi", im.cmi, {"cond": Z}, lambda: model.cmi(approach, kw, P[:2], P[2])),
            ("te", im.te, te, lambda: model.te_rows(
                approach, kw, *model.te_parts(approach, {**kw, **te}, X, Y))),
            ("cte", im.cte, {"cond": Z, **cte}, lambda: model.te_rows(
                approach, kw, *model.te_parts(approach, {**kw, **cte}, X, Y, Z))),
        ):
            case = {"measure": me, "widths": widths, "n": n, **k}
            if approach == "miller_madow" and me == "cmi" and Z.ndim > 1:
                more = {"cond": Z @ (1 << np.arange(Z.shape[1]))}  # takes one column only
            ok, got = rec.call(case, me, fun, X, Y, **k, **more)
            if ok:
                rec.ev()
                rec.traces += 1
                rec.outcome(got)
                rec.close(case, exp() / b, float(got), f"{me} of variables with several columns",
                          **tol(approach))


# ---------------------------------------------------------------- values close to zero
def faint_tasks():
    for n in (240, 2400, 24000):
        for d in (1, 2, 3, 7):
            yield n, d


def tight(xs, ys, zs=None):
    """I(X;Y|Z) in nats from the counts, accurate where it is close to zero."""
    zs = zs or [0] * len(xs)
    n = len(xs)
    c3, cx, cy, cz = Counter(zip(xs, ys, zs)), Counter(zip(xs, zs)), Counter(zip(ys, zs)), Counter(zs)
    return math.fsum(
        c / n * math.log1p((c * cz[z] - cx[x, z] * cy[y, z]) / (cx[x, z] * cy[y, z])) for (x, y, z), c in c3.items()
    )


def faint(rec, n, d):
    """All but independent, all but constant: the value is tiny, but no error and no zero."""
    x = [i % 2 for i in range(n)]
    y = [i // 2 % 3 for i in range(n)]
    z = [i // 6 % 2 for i in range(n)]
    for i in range(d):  # few samples differ
        j = (i * 12 + 2 * (i % 3)) % n
        y[j] = (y[j] + 1) % 3
        z[j] = i % 2
    cyc = (0, 0, 0, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 1, 0, 1)  # x, y over every transition
    src = [cyc[i * 7 % 16] for i in range(n)]
    dst = [(i * 5 // 3 + i // 7) % 2 for i in range(n)]
    for i in range(d):
        dst[(17 * i + 3) % n] ^= src[(17 * i + 2) % n]
    near = [0] * n
    for i in range(d):
        near[(i * 31 + 5) % n] = 1 + i % 2
    A = np.array
    rec.node("faint", n, d)
    one = lambda s: tight(s, s)  # noqa: E731
    te = list(zip(dst[1:], src[:-1], dst[:-1]))
    cte = list(zip(dst[1:], src[:-1], zip(dst[:-1], near[:-1])))
    todo = [
        ("h of an almost constant sample", one(near), lambda b: im.entropy(A(near), approach="discrete", base=b)),
        ("joint entropy", one(list(zip(near, near[::-1]))), lambda b: im.entropy((A(near), A(near[::-1])), approach="discrete", base=b)),
        ("mi", tight(x, y), lambda b: im.mi(A(x), A(y), approach="discrete", base=b)),
        ("mi, strings", tight(x, y), lambda b: im.mi(A(x).astype(str), A(y).astype(str), approach="discrete", base=b)),
        ("mi of almost constant variables", tight(near, x), lambda b: im.mi(A(near), A(x), approach="discrete", base=b)),
        ("mi of three", tight(x, y) + tight(list(zip(x, y)), z), lambda b: im.mi(A(x), A(y), A(z), approach="discrete", base=b)),
        ("mi with an offset", tight(x[3:], y[:-3]), lambda b: im.mi(A(x), A(y), approach="discrete", base=b, offset=-3)),
        ("cmi", tight(x, y, z), lambda b: im.cmi(A(x), A(y), cond=A(z), approach="discrete", base=b)),
        ("cmi of almost constant variables", tight(x, near, y), lambda b: im.cmi(A(x), A(near), cond=A(y), approach="discrete", base=b)),
        ("te", tight(*zip(*te)), lambda b: im.te(A(src), A(dst), approach="discrete", base=b)),
        ("cte", tight(*zip(*cte)), lambda b: im.cte(A(src), A(dst), cond=A(near), approach="discrete", base=b)),
    ]
    for b in ("e", 2, 10):
        for name, exp, f in todo:
            case = {"measure": name, "n": n, "differing": d, "base": b}
            ok, got = rec.call(case, name, f, b)
            if ok:
                rec.ev(exp > 0)
                rec.traces += 1
                rec.outcome(got)
                rec.close(case, exp / ref.lnb(b), float(got), "a value close to zero", rtol=1e-6, atol=3e-13)
    for name, exp, mk in (
        ("mi", tight(x, y), lambda: im.estimator(A(x), A(y), measure="mi", approach="discrete", base=2)),
        ("cmi", tight(x, y, z), lambda: im.estimator(A(x), A(y), cond=A(z), measure="cmi", approach="discrete", base=2)),
        ("te", tight(*zip(*te)), lambda: im.estimator(A(src), A(dst), measure="te", approach="discrete", base=2)),
    ):
        ok, lv = rec.call({"measure": name, "n": n, "differing": d}, "local values", lambda: mk().local_vals())
        if ok:
            rec.ev()
            rec.close({"measure": name, "n": n, "differing": d}, exp / math.log(2), math.fsum(lv) / len(lv),
                      "mean of the local values", rtol=1e-6, atol=3e-13)


# ---------------------------------------------------------------- very many symbols
def crowd_data(n):
    """Columns with few, hundreds and tens of thousands of values, partly dependent."""
    a = [i % 301 for i in range(n)]
    b = [i // 301 + (i % 7 == 3) for i in range(n)]
    c = [(i * i + i // 5) % 257 for i in range(n)]
    u = [i if i % 11 else i // 2 for i in range(n)]  # most values are unique
    return a, b, c, u


def crowd(rec, me, approach, n):
    """More symbols and joint symbols than fit into eight or sixteen bits."""
    a, b, c, u = crowd_data(n)
    A, B, C, U = (np.array(v) for v in (a, b, c, u))
    text = np.array([f"id{v}" for v in u])
    h = lambda *cols: joint_h(approach, cols)  # noqa: E731
    e = {}

    def H(*names):
        if names not in e:
            e[names] = h(*({"a": a, "b": b, "c": c, "u": u}[q] for q in names))
        return e[names]

    k = dict(approach=approach, base=2, **cases.kwargs("mi", approach, n))
    est = lambda *d, **kw: im.estimator(*d, measure=me, **k, **kw)  # noqa: E731
    todo = {
        "h": [("unique", H("u"), (U,), {}), ("unique names", H("u"), (text,), {}), ("unique fractions", H("u"), (U / 8,), {}),
              ("pairs", H("a", "b"), ((A, B),), {}), ("triples", H("a", "c", "b"), ((A, C, B),), {}),
              ("matrix", H("a", "b"), (np.stack([A, B], axis=1),), {}), ("with unique", H("u", "c"), ((U, C),), {})],
        "mi": [("hundreds", H("a") + H("b") - H("a", "b"), (A, B), {}), ("unique", H("u") + H("c") - H("u", "c"), (U, C), {}),
               ("names", H("u") + H("c") - H("u", "c"), (text, C), {}),
               ("three", H("a") + H("b") + H("c") - H("a", "b", "c"), (A, B, C), {}),
               ("matrix", H("a", "b") + H("u") - H("a", "b", "u"), (np.stack([A, B], axis=1), U), {})],
        "cmi": [("hundreds", H("a", "c") + H("b", "c") - H("a", "b", "c") - H("c"), (A, B), {"cond": C}),
                ("unique condition", H("a", "u") + H("b", "u") - H("a", "b", "u") - H("u"), (A, B), {"cond": U}),
                ("unique", H("u", "a") + H("b", "a") - H("u", "b", "a") - H("a"), (U, B), {"cond": A})],
    }[me]
    for name, exp, args, more in todo:
        case = {"measure": me, "approach": approach, "n": n, "data": name}
        rec.ev()
        rec.node("crowd", me, approach, n, name)
        ok, o = rec.call(case, me, lambda: est(*args, **more))
        if not ok:
            continue
        ok, got = rec.call(case, me, o.result)
        if ok:
            rec.traces += 1
            rec.outcome(got)
            rec.close(case, exp / math.log(2), float(got), f"{me} of very many symbols", rtol=1e-8, atol=1e-8)
        if approach == "discrete":
            ok, lv = rec.call(case, "local values", o.local_vals)
            if ok:
                rec.true(len(lv) == n, case, n, len(lv), "one local value per sample")
                rec.close(case, exp / math.log(2), math.fsum(lv) / n, "mean of the local values", rtol=1e-8, atol=1e-8)


def joint_h(approach, cols):
    kw = cases.kwargs("mi", approach, 9) if approach == "bayes" else {}
    return ref.entropy_of(approach, list(zip(*cols)), **kw)
