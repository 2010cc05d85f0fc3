"""P14 - logarithm base and configured default base."""

import itertools
import math
import os
import pickle
import sys

import infomeasure as im
import numpy as np

from mc import cases, rng
from mc.lib import lcg, rgs

LEVEL = "model_checking"
RULE = (
    "scale: every measure x approach x small data set x base is compared with the value in "
    "nats over ln b (local values, cross-entropies, divergences, test surrogates and effective "
    "values included). hist: every sequence of {set base, set unit, rejected set, reset, create, "
    "value, local values, functional call, drop} up to a depth on the real library, against the model "
    "'an estimator has the base configured at its creation'. lazy: the same with the library "
    "imported afresh in a child process, so that the order of first imports matters. "
    "Non-trivial: the base is not e and the value not zero."
)
ASSUMPTIONS = [
    "bases above 1 (the library clips discrete mutual information at 0, which is not a "
    "rescaling below base 1)",
    "Tsallis entropies contain no logarithm and must not depend on the base, except for q = 1, "
    "where they are Shannon entropies",
]
BOUNDS = {
    "quick": "scale: all streams of 5 symbols (entropy), 96 pairs/48 triples of length 6-7 x 9 "
    "bases x 16 approaches; hist: depth 4 (12 operations) for 5 combinations, depth 3 for "
    "all; lazy: 5 histories x all measure x approach; large: 1500 samples x 5 bases",
    "thorough": "scale: all streams of 6 symbols, 700 pairs, 300 triples; hist: depth 5 for 5 "
    "combinations, 4 for all",
}
BASES = (2, 10, 3, 2.0, 10.0, math.e, 1.25, 1000, np.float64(7), 5)


def ln(b):
    return 1.0 if b == "e" else math.log(b)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for m, a in sorted(cases.combos(), key=lambda c: c[1] != "nsb"):
        out.append(("scale", m, a, th))
    for m, a in cases.combos():
        out.append(("anybase", m, a, th))
    for m, a in cases.combos():
        if a != "nsb":
            out.append(("large", m, a, 5000 if th and a not in cases.CONT else 1500))
    for a in cases.JSD:
        out.append(("composite", "jsd", a, th))
    for a in cases.HX:
        out.append(("composite", "kld", a, th))
    out += [("orders", q) for q in ("renyi", "tsallis")]
    deep = [("h", "discrete"), ("mi", "metric"), ("te", "kernel"), ("cmi", "ordinal"), ("te", "bayes")]
    for m, a in deep:
        for i in range(8 if th else 4):
            out.append(("hist", m, a, 5 if th else 4, i, 8 if th else 4))
    for m, a in cases.combos():
        if (m, a) not in deep:
            out.append(("hist", m, a, 4 if th and a != "nsb" else 3, 0, 1))
    for m in ("h", "mi", "cmi", "te", "cte", "hx", "jsd", "kld"):
        out.append(("lazy", m))
    return out


def streams_for(m, a, th):
    w = cases.WIDTH[m]
    if w == 1:
        n = 6 if th else 5
        return [(s,) for s in rgs(n, 4)]
    n = 6
    xs = [s for s in itertools.product((0, 1), repeat=n) if s[0] == 0]  # 32
    xs3 = [(0, 1, 2, 0, 1, 2), (0, 1, 1, 2, 2, 2), (2, 0, 2, 1, 0, 0)]
    if w == 2:
        step = 3 if th else 21
        prod = [(x, y) for x in xs for y in xs][:: 1 if th and a != "nsb" else step]
        prod += [(x, y) for x in xs3 for y in xs3 + xs[5::9]]
    else:
        prod = [(x, y, z) for x in xs for y in xs for z in xs[3::7]]
        prod = prod[:: 17 if th else 151] + [(x, y, z) for x in xs3 for y in xs3 for z in xs3]
    if a == "nsb" and not th:
        prod = prod[::4]
    return prod


def scale(rec, m, a, th):
    dep = a not in cases.NO_LOG
    for st in streams_for(m, a, th):
        args, kw = cases.request(m, a, st)
        case = {"measure": m, "approach": a, "streams": st}
        ok, est = rec.call(case, "nats", cases.create, m, a, args, kw, base="e")
        if not ok:
            continue
        ok, nat = rec.call(case, "value in nats", est.result)
        if not ok:
            continue
        loc = None
        try:
            loc = est.local_vals()
        except Exception:  # noqa: BLE001 - refused: nothing to rescale
            pass
        for b in BASES:
            k = ln(b) if dep else 1.0
            c = {**case, "base": repr(b)}
            rec.ev(abs(nat) > 1e-9)
            rec.node(m, a, st, repr(b))
            ok, e2 = rec.call(c, "base", cases.create, m, a, args, kw, base=b)
            if not ok:
                continue
            ok, got = rec.call(c, "value in a base", e2.result)
            if ok:
                rec.traces += 1
                rec.outcome(got)
                rec.close(c, nat / k, got, "value in base b is not the value in nats over ln b",
                          rtol=1e-7, atol=1e-8)
            if loc is not None:
                ok, l2 = rec.call(c, "local values in a base", e2.local_vals)
                if ok:
                    rec.close(c, loc / k, l2, "local values do not rescale with the base",
                              rtol=1e-7, atol=1e-8)
    rec.sample({"measure": m, "approach": a})
    if m in ("mi", "cmi", "te"):
        surrogates(rec, m, a)


# every eighth up to 13, the integers up to 40, powers, and bases below one
MANY = [k / 8 for k in range(9, 105)] + list(range(14, 41)) + [2.4999, 2.0001, 1.9999999, 2.718, 2.71828183, 9.9999, 10.00001, 1.0000001, 9.501, 10.499, 2**6, 100, 2**8, 10**4, 2.0**40, 1e300]
BELOW = [0.1, 0.25, 0.5, 0.75, 0.999]


def anybase(rec, m, a, th):
    """The same on a few data sets for very many bases."""
    dep = a not in cases.NO_LOG
    sts = streams_for(m, a, th)
    sts = sts[:: max(1, len(sts) // (7 if th else 2))][-2:]
    bases = MANY[::4] + MANY[-7:] if a == "nsb" and not th else MANY
    if not (m == "mi" and a in ("discrete", "miller_madow", "ordinal")):
        bases = bases + BELOW  # discrete mutual information is clipped at 0
    for st in sts:
        args, kw = cases.request(m, a, st)
        case = {"measure": m, "approach": a, "streams": st}
        ok, nat = rec.call(case, "value in nats", lambda: cases.create(m, a, args, kw, base="e").result())
        if not ok:
            continue
        for b in bases:
            k = ln(b) if dep else 1.0
            c = {**case, "base": repr(b)}
            rec.ev(abs(nat) > 1e-9)
            rec.node("anybase", m, a, st, repr(b))
            ok, got = rec.call(c, "value in a base", lambda: cases.create(m, a, args, kw, base=b).result())
            if ok:
                rec.traces += 1
                rec.outcome(got)
                rec.close(c, nat / k, got, "value in base b is not the value in nats over ln b", rtol=1e-7, atol=1e-8)


def large(rec, m, a, n):
    """Long series, estimators and functional interface, global and local values."""
    dep = a not in cases.NO_LOG
    if a in ("kernel", "renyi", "tsallis"):
        n = 600
    for sym in (7, 300):
        st = tuple(tuple(lcg(s, n, 1000 if a == "ordinal" else sym)) for s in (2, 9, 33))
        args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
        variants = [{}]
        if m in ("te", "cte"):
            variants.append({"src_hist_len": 2, "step_size": 2, **({"prop_time": 1} if m == "te" else {})})
        if a == "kernel":
            variants.append({"kernel": "gaussian"})
        for more in variants:
            ref = loc = None
            for b in ("e", 2, 10, 3, 1.5, 1000):
                case = {"measure": m, "approach": a, "n": n, "symbols": sym, "arguments": more, "base": b}
                rec.node("large", m, a, sym, more, b)
                rec.ev(b != "e")
                rec.traces += 1
                ok, est = rec.call(case, "long series", lambda: cases.create(m, a, args, kw, base=b, **more))
                if not ok:
                    return
                ok, got = rec.call(case, "value", est.result)
                if not ok:
                    return
                try:
                    lv = est.local_vals()
                except Exception:  # noqa: BLE001 - refused: nothing to rescale
                    lv = None
                if ref is None:
                    ref, loc = got, lv
                    continue
                k = ln(b) if dep else 1.0
                rec.outcome(got)
                rec.close(case, ref / k, got, "value in base b is not the value in nats over ln b", rtol=1e-8, atol=1e-9)
                rec.true((lv is None) == (loc is None), case, loc is None, lv is None, "local values depend on the base")
                if lv is not None and loc is not None:
                    rec.close(case, loc / k, lv, "local values do not rescale with the base", rtol=1e-8, atol=1e-9)
        if a in cases.CONT or a == "ordinal":
            break
    rec.sample({"measure": m, "approach": a, "n": n})


def surrogates(rec, m, a):
    """Surrogate values rescale as the value does."""
    st = ((0, 1, 1, 0, 1, 0, 2), (1, 1, 0, 2, 1, 0, 1), (0, 1, 0, 1, 1, 0, 0))[: cases.WIDTH[m]]
    args, kw = cases.request(m, a, st)
    k0 = 1.0 if a in cases.NO_LOG else None
    for method in ("permutation_test", "bootstrap"):
        ref = None
        for b in ("e",) + BASES[:4]:
            case = {"measure": m, "approach": a, "test": method, "base": repr(b)}
            ok, est = rec.call(case, "test", cases.create, m, a, args, kw, base=b)
            if not ok:
                continue
            est.rng = np.random.default_rng(5)
            ok, res = rec.call(case, "statistical test", est.statistical_test, 4, method)
            if not ok:
                continue
            rec.ev(b != "e")
            rec.node(m, a, method, repr(b))
            rec.traces += 1
            vals = np.asarray(res.test_values, dtype=float)
            if b == "e":
                ref = vals
                continue
            k = k0 or ln(b)
            if ref is not None:
                rec.close(case, ref / k, vals, "surrogate values do not rescale with the base",
                          rtol=1e-7, atol=1e-8)
        eff = {}
        for b in ("e", 2, 10):
            if m != "te":
                break
            est = cases.create(m, a, args, kw, base=b)
            est.rng = np.random.default_rng(5)
            ok, v = rec.call({"m": m, "a": a, "base": b}, "effective value", est.effective_val, method)
            if ok:
                eff[b] = v
                rec.ev()
                rec.close({"measure": m, "approach": a, "base": b}, eff["e"] / (k0 or ln(b)), v,
                          "effective value does not rescale with the base", rtol=1e-7, atol=1e-8)


def composite(rec, m, a, th):
    sts = [(0, 1, 1, 0, 2, 0), (1, 1, 0, 2, 1, 1), (2, 2, 0, 1, 1, 0), (0, 0, 0, 1, 1, 1),
           (0, 1, 2, 1, 2, 2)]
    prod = list(itertools.permutations(sts, 2))
    if m == "jsd":
        prod += list(itertools.permutations(sts, 3))[:: 1 if th else 4]
    for st in prod:
        args = tuple(cases.columns(a, st))
        kw = cases.kwargs("hx" if m == "kld" else "h", a, len(st[0]))
        case = {"measure": m, "approach": a, "streams": st}
        ok, nat = rec.call(case, m, cases.FUNC[m], *args, approach=a, base="e", **kw)
        if not ok:
            continue
        dep = a not in cases.NO_LOG
        for b in BASES:
            k = ln(b) if dep else 1.0
            rec.ev(abs(nat) > 1e-9)
            rec.node(m, a, st, repr(b))
            ok, got = rec.call({**case, "base": repr(b)}, m, cases.FUNC[m], *args, approach=a, base=b, **kw)
            if ok:
                rec.traces += 1
                rec.outcome(got)
                rec.close({**case, "base": repr(b)}, nat / k, got,
                          f"{m} in base b is not its value in nats over ln b", rtol=1e-7, atol=1e-8)
            if b in (2, 10, 3):
                im.Config.set("base", b)
                ok, got = rec.call({**case, "configured": repr(b)}, m, cases.FUNC[m], *args, approach=a, **kw)
                im.Config.reset()
                if ok:
                    rec.close({**case, "configured": repr(b)}, nat / k, got,
                              f"{m} ignores the configured base", rtol=1e-7, atol=1e-8)


def orders(rec, a):
    """The order parameter and the base: Shannon limit included."""
    name = "alpha" if a == "renyi" else "q"
    for m in ("h", "hj", "hx", "mi", "mi3", "cmi", "te", "cte"):
        st = ((0, 1, 1, 0, 1, 0, 2, 1), (1, 1, 0, 2, 1, 0, 1, 0), (0, 1, 0, 1, 1, 0, 0, 2))[: cases.WIDTH[m]]
        args, kw = cases.request(m, a, st)
        for q in (0.5, 1, 1.0, 1.5, 2, 2.5):
            kw[name] = q
            case = {"measure": m, "approach": a, name: q}
            ok, nat = rec.call(case, "nats", lambda: cases.create(m, a, args, kw, base="e").result())
            if not ok:
                continue
            for b in BASES:
                k = ln(b) if a == "renyi" or q == 1 else 1.0
                rec.ev()
                rec.node(m, a, q, repr(b))
                c = {**case, "base": repr(b)}
                ok, got = rec.call(c, "base", lambda: cases.create(m, a, args, kw, base=b).result())
                if ok:
                    rec.traces += 1
                    rec.close(c, nat / k, got, "value in base b", rtol=1e-7, atol=1e-8)


# ------------------------------------------------------------------------- histories
SETS = (2, 10, "e", 3.5)
UNITS = {"bits": 2, "NATS": "e", "hartley": 10}
OPS = (
    [("set", b) for b in SETS]
    + [("unit", u) for u in ("bits", "hartley")]
    + [("badset",), ("reset",), ("create",), ("value",), ("local",), ("func",)]
)


def hist(rec, m, a, depth, i, k):
    st = ((0, 1, 1, 0, 1, 2), (1, 1, 0, 2, 0, 1), (0, 1, 0, 1, 1, 2))[: cases.WIDTH[m]]
    args, kw = cases.request(m, a, st)
    est = cases.create(m, a, args, kw, base="e")
    nat = est.result()
    try:
        loc = est.local_vals()
    except Exception:  # noqa: BLE001
        loc = None
    dep = a not in cases.NO_LOG
    ops = OPS if depth > 3 else [o for o in OPS if o not in (("set", 3.5), ("unit", "hartley"), ("badset",))]
    for j, seq in enumerate(itertools.product(range(len(ops)), repeat=depth)):
        if j % k != i:
            continue
        seq = [ops[s] for s in seq]
        if seq[-1][0] not in ("value", "local", "func"):
            continue  # its last observation is covered by a shorter history
        im.Config.reset()
        conf, slot, done = "e", None, False
        case = {"measure": m, "approach": a, "history": seq}
        for op in seq:
            before = (conf, slot, done)
            if op[0] == "set":
                im.Config.set("base", op[1])
                conf = op[1]
            elif op[0] == "unit":
                im.Config.set_logarithmic_unit(op[1])
                conf = UNITS[op[1]]
            elif op[0] == "badset":
                for bad in (lambda: im.Config.set("base", "2"), lambda: im.Config.set("bas", 2),
                            lambda: im.Config.set_logarithmic_unit("bogus")):
                    try:
                        bad()
                    except (KeyError, TypeError, ValueError):
                        pass
            elif op[0] == "reset":
                im.Config.reset()
                conf = "e"
            elif op[0] == "create":
                ok, est = rec.call(case, "creation", cases.create, m, a, args, kw)
                if not ok:
                    break
                slot, done = conf, False
            elif op[0] == "func":
                ok, got = rec.call(case, "functional call", cases.FUNC[m], *args, approach=a, **kw)
                if ok:
                    rec.close(case, nat / (ln(conf) if dep else 1), got,
                              "functional call does not use the configured base", rtol=1e-7, atol=1e-8)
            elif slot is not None:
                if op[0] == "value":
                    ok, got = rec.call(case, "value", est.result)
                    if ok:
                        rec.close(case, nat / (ln(slot) if dep else 1), got,
                                  "value is not in the base configured at creation", rtol=1e-7, atol=1e-8)
                        done = True
                elif loc is not None:
                    ok, got = rec.call(case, "local values", est.local_vals)
                    if ok:
                        rec.close(case, loc / (ln(slot) if dep else 1), got,
                                  "local values are not in the base configured at creation",
                                  rtol=1e-7, atol=1e-8)
                        done = True
            rec.edge((m, a) + before, op, (m, a, conf, slot, done))
        rec.ev(slot not in (None, "e") or conf != "e")
        rec.traces += 1
    im.Config.reset()
    rec.sample({"measure": m, "approach": a, "depth": depth})


# ----------------------------------------------------------------------- lazy imports
def lazy_child(m, a, history):
    """Fresh import of the library, then the history; returns the values."""
    for name in [n for n in sys.modules if n == "infomeasure" or n.startswith("infomeasure.")]:
        del sys.modules[name]
    try:
        import numba

        numba.config.DISABLE_JIT = True
    except Exception:  # noqa: BLE001
        pass
    import infomeasure as fresh

    st = ((0, 1, 1, 0, 1, 2), (1, 1, 0, 2, 0, 1), (0, 1, 0, 1, 1, 2))
    fn = {
        "h": fresh.entropy, "hx": fresh.cross_entropy, "mi": fresh.mutual_information,
        "cmi": fresh.conditional_mutual_information, "te": fresh.transfer_entropy,
        "cte": fresh.conditional_transfer_entropy, "jsd": fresh.jsd, "kld": fresh.kld,
    }[m]
    w = cases.WIDTH.get(m, 2)
    kind = {"jsd": "h", "kld": "hx"}.get(m, m)
    args = tuple(cases.columns(a, st[:w]))
    kw = cases.kwargs(kind, a, 6)
    if m in ("cmi", "cte"):
        kw["cond"] = args[2]
        args = args[:2]
    out = []
    for op in history:
        if op == "call":
            out.append(float(fn(*args, approach=a, **kw)))
        elif op == "reset":
            fresh.Config.reset()
        elif op == "nats":
            out.append(float(fn(*args, approach=a, base="e", **kw)))
        else:
            fresh.Config.set("base", op)
    return out


HISTORIES = [
    (2, "call", "reset", "call", "nats"),
    ("call", 2, "call", "nats"),
    (10, "call", 2, "call", "reset", "call", "nats"),
    (3, "nats", "call", "reset", "call"),
]


def lazy(rec, m):
    for a in cases.APPROACHES:
        if not cases.offers(m, a):
            continue
        for history in HISTORIES:
            case = {"measure": m, "approach": a, "fresh import, then": history}
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    out = lazy_child(m, a, history)
                except BaseException as exc:  # noqa: BLE001
                    out = repr(exc)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                out = pickle.load(f)
            os.waitpid(pid, 0)
            rec.ev()
            rec.traces += 1
            if isinstance(out, str):
                rec.violation(case, "values", out, "raised in a fresh process")
                continue
            rec.outcome(out[0])
            conf, vals, nat = "e", iter(out), None
            obs = []
            for op in history:
                rec.edge(("lazy", m, a, conf), op, (m, a, op))
                if op == "call":
                    obs.append((conf, next(vals)))
                elif op == "nats":
                    nat = next(vals)
                else:
                    conf = "e" if op == "reset" else op
            dep = a not in cases.NO_LOG
            for b, v in obs:
                rec.close({**case, "base": b}, nat / (ln(b) if dep else 1), v,
                          "value does not use the base configured at the time of the call",
                          rtol=1e-7, atol=1e-8)
