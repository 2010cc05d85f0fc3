"""P24 - threads and interleaved estimators do not interfere."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, sched
from mc.lib import APPROACHES

LEVEL = "model_checking"
RULE = (
    "schedules: real threads run library calls under a controlled scheduler which may switch at every "
    "executed line of the library (or at every call and return); all schedules up to the preemption bound "
    "are run and every thread must return bit for bit what it returns alone. interleavings: all orders of "
    "the operations on two estimators in one thread. configuration: one thread changes the default base at "
    "every point of another; the outcome must be that of one base, the old one up to some point and the new "
    "one from there. Non-trivial: at least one switch happened inside a call."
)
ASSUMPTIONS = [
    "threads do not share an estimator or change data the other one uses",
    "compiled code (numpy, scipy, numba) runs between switch points",
    "compositions of several estimators (divergences) read the default base once per part and are not covered by the configuration clause",
]
BOUNDS = {
    "quick": "one preemption at the first and last execution of every line for every measure and approach against another estimator of "
    "the same class (same shape; other shape: every call and return) and at calls and returns against another class; two preemptions "
    "at 14x14 calls and returns for a selection; base changed at the first and last execution of every line; all interleavings of 4+4 operations",
    "thorough": "one preemption at every execution of every line, also inside statistical tests, against the same and 6 other classes "
    "(NSB: first and last execution); two preemptions at 60x60 calls and returns for every measure and approach; three threads; all "
    "interleavings of 5+5 operations",
}
SEEDED = ("mi", "mi3", "cmi", "te", "cte")
PAIRS = 2_000  # schedules per task


def warm():
    """Compile what numba compiles before the workers are forked."""
    for v in (0, 1, 2):
        for m in ("mi", "mi3", "cmi", "te", "cte"):
            for a in ("discrete", "miller_madow", "ordinal", "shrink"):
                life(m, a, v)()


def tasks(tier, seed):
    warm()
    th = tier == "thorough"
    all_ = list(cases.combos())
    out = []
    for m, a in all_:
        for v in (1, 2):
            out.append(("same_class", m, a, v, "life+test" if th and m in SEEDED and a != "nsb" else "life",
                        1 if a == "nsb" or not th else 0, "line" if th or v == 2 else "calls"))
        out.append(("configuration", m, a, 1 if a == "nsb" or not th else 0))
        out.append(("interleave", m, a, th))
    for i, c in enumerate(all_):
        for off in (1, 7, 23, 40, 58, 77) if th else (7,):
            d = all_[(i + off) % len(all_)]
            out.append(("other_class", *c, *d, "line" if th else "calls", 1 if not th or "nsb" in (c[1], d[1]) else 0))
    for m, a in all_:
        if a == "nsb" and m != "h":
            continue
        if th or a in ("discrete", "miller_madow", "kernel", "metric", "ordinal", "renyi") and m in ("h", "mi", "te", "hx"):
            out.append(("two_preemptions", m, a, 60 if th else 14))
    for m in ("h", "mi", "te", "cmi", "cte"):
        for v in ("test", "function"):
            out.append(("same_class", m, "discrete", 1, v, 0 if th else 1, "line"))
            out.append(("same_class", m, "metric", 1, v, 0 if th else 1, "line"))
    for name in COMPOSITES:
        for other in COMPOSITES:
            out.append(("composites", name, other))
    for a in ("discrete", "kernel", "metric", "ordinal", "renyi", "shrink") if th else ("discrete", "kernel"):
        out.append(("three_threads", a, 40 if th else 10))
    for s in range(1, 60 if th else 8):
        out.append(("pairs_interleaved", s))
    return sorted(out, key=lambda t: (t[0] not in ("same_class", "two_preemptions"), "nsb" not in t))


# ------------------------------------------------------------------- what a thread does
ST = (
    ((0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0), (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2), (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0)),
    ((1, 0, 0, 1, 1, 1, 0, 0, 1), (0, 0, 1, 0, 1, 1, 1, 0, 1), (1, 1, 0, 1, 0, 0, 1, 1, 0)),
    ((2, 2, 0, 1, 1, 1, 0, 2, 0, 0, 0, 1), (0, 2, 1, 1, 0, 2, 2, 2, 1, 0, 0, 1), (1, 2, 0, 1, 0, 0, 2, 1, 1, 1, 2, 0)),
)


def request(m, a, v):
    """Variant 0, one with another shape and other parameters, one with the same shape."""
    args, kw = cases.request(m, a, ST[v][: cases.WIDTH[m]])
    if a == "metric":
        kw["noise_level"] = 0
    if v == 1:
        kw["base"] = 2 if a != "tsallis" else 10
        if a == "kernel":
            kw["bandwidth"] = 0.75
        if a == "bayes":
            kw["alpha"] = 1.25
        if a == "renyi":
            kw["alpha"] = 2.5
        if a == "tsallis":
            kw["q"] = 2.5
        if a == "metric":
            kw["ksg_id"] = 2
            kw["minkowski_p"] = 2
        if a == "ordinal":
            kw["embedding_dim"] = 3
        if m in ("te", "cte") and a not in ("metric", "renyi", "tsallis"):
            kw["src_hist_len"] = 2
    return args, kw


def canon(x):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tobytes())
    if isinstance(x, (float, np.floating)):
        return float(x).hex() if x == x else "nan"
    if isinstance(x, (tuple, list)):
        return tuple(canon(v) for v in x)
    return repr(x)


def attempt(fn):
    try:
        return canon(fn())
    except Exception as exc:  # noqa: BLE001
        return ("raised", type(exc).__name__)


def tested(est, method):
    r = est.statistical_test(2, method)
    return (np.asarray(r.test_values), float(r.observed_value), float(r.p_value))


def life(m, a, v, kind="life"):
    args, kw = request(m, a, v)
    seed = {"seed": 7 + v} if m in SEEDED else {}

    def body():
        out = []
        if kind == "function":
            out.append(attempt(lambda: cases.FUNC[m](*args, approach=a, **kw)))
            return tuple(out)
        est = cases.create(m, a, args, kw, **seed)
        if kind != "test":
            out.append(attempt(est.result))
            out.append(attempt(est.local_vals))
        if kind in ("test", "life+test"):
            out.append(attempt(lambda: tested(est, "permutation_test")))
            out.append(attempt(lambda: tested(est, "bootstrap")))
            out.append(attempt(est.result))
        return tuple(out)

    return body


X, Y, Z = (np.array(s) for s in ST[0])
COMPOSITES = {
    "jsd discrete": lambda: im.jsd(X, Y, Z[:9], approach="discrete", base=2),
    "jsd kernel": lambda: im.jsd(X * 0.5, Y * 0.3, approach="kernel", bandwidth=1.0, kernel="gaussian"),
    "jsd shrink": lambda: im.jsd(X, Z, approach="shrink"),
    "kld discrete": lambda: im.kld(X, Y, approach="discrete"),
    "kld metric": lambda: im.kld(X + 0.013 * np.arange(12), Y + 0.017 * np.arange(12), approach="metric", noise_level=0, k=2),
    "kld ordinal": lambda: im.kld(X, Y, approach="ordinal", embedding_dim=2, stable=True, base=10),
}


# ------------------------------------------------------------------- running schedules
def where(pts, visits):
    """Event numbers at which to switch: all, or the first and last `visits` of every line."""
    if not visits:
        return range(1, len(pts) + 1)
    seen = {}
    for i, p in enumerate(pts, 1):
        seen.setdefault(p, []).append(i)
    return sorted({i for v in seen.values() for i in v[:visits] + v[-visits:]})


def explore_pair(rec, names, bodies, events, bound=1, most=None, visits=0):
    """All schedules of two bodies with at most `bound` preemptions."""
    solo, n, places = [], [], []
    for b in bodies:
        alone = b()
        out, k, pts = sched.count(b, events)
        again = b()
        if not rec.true(out == alone == again, {"bodies": names}, alone, out, "a thread on its own is not reproducible"):
            return
        solo.append(out)
        n.append(k)
        places.append(where(pts, visits))
    config = dict(im.Config._config) if hasattr(im.Config, "_config") else None
    err = np.geterr()

    def one(segments):
        out, r = sched.run(bodies, segments, events)
        rec.ev(r.switches > 0)
        rec.traces += 1
        rec.transitions += r.switches
        case = {"threads": names, "schedule": [list(s) for s in segments], "events": events}
        for i, (e, g) in enumerate(zip(solo, out)):
            if e != g:
                rec.violation({**case, "thread": names[i]}, e, g, "a thread returns something else than alone")
                return False
        if config is not None and dict(im.Config._config) != config:
            rec.violation(case, config, dict(im.Config._config), "the configuration was changed")
            return False
        if np.geterr() != err:
            rec.violation(case, err, np.geterr(), "numpy's error handling was changed")
            return False
        rec.outcome(hash(out[0]))
        return True

    bad = 0
    for a, b in ((0, 1), (1, 0)):
        for i in places[a]:
            rec.states += 1
            bad += not one([(a, i), (b, None), (a, None)])
            if bad > 3:
                return
        if bound < 2:
            continue
        # spread evenly when there are more points than `most`
        pa, pb = points(n[a], most), points(n[b], most)
        for i, j in itertools.product(pa, pb):
            rec.states += 1
            bad += not one([(a, i), (b, j), (a, None), (b, None)])
            if bad > 3:
                return
    rec.extra["switch points"] = rec.extra.get("switch points", 0) + sum(n)


def points(n, most):
    if most is None or n <= most:
        return range(1, n + 1)
    return sorted({1 + (i * (n - 1)) // (most - 1) for i in range(most)})


def same_class(rec, m, a, v, kind, visits, events):
    explore_pair(rec, (f"{m}/{a} 0", f"{m}/{a} {v} {kind}"), (life(m, a, 0, kind), life(m, a, v, kind)), events, visits=visits)
    rec.sample({"measure": m, "approach": a, "variant": v, "body": kind})


def other_class(rec, m, a, m2, a2, events, visits):
    explore_pair(rec, (f"{m}/{a}", f"{m2}/{a2}"), (life(m, a, 0), life(m2, a2, 2)), events, visits=visits)
    rec.sample({"threads": [(m, a), (m2, a2)]})


def two_preemptions(rec, m, a, most):
    explore_pair(rec, (f"{m}/{a} 0", f"{m}/{a} 1"), (life(m, a, 0), life(m, a, 1)), "calls", 2, most)


def composites(rec, name, other):
    wrap = lambda f: lambda: attempt(f)  # noqa: E731
    explore_pair(rec, (name, other), (wrap(COMPOSITES[name]), wrap(COMPOSITES[other])), "line" if name <= other else "calls", visits=2)


def three_threads(rec, a, most):
    ms = ("h", "mi", "te")
    bodies = [life(m, a, v) for v, m in enumerate(ms)]
    solo = [b() for b in bodies]
    n = [sched.count(b, "calls")[1] for b in bodies]
    for order in itertools.permutations(range(3)):
        p, q, r = order
        for i, j in itertools.product(points(n[p], most), points(n[q], most)):
            segs = [(p, i), (q, j), (r, None), (p, None), (q, None)]
            out, run = sched.run(bodies, segs, "calls")
            rec.ev(run.switches > 1)
            rec.traces += 1
            rec.states += 1
            rec.transitions += run.switches
            for k in range(3):
                if out[k] != solo[k]:
                    rec.violation({"approach": a, "schedule": segs, "thread": ms[k]}, solo[k], out[k],
                                  "a thread returns something else than alone")
                    return


# ------------------------------------------------------------------- configuration
def configuration(rec, m, a, visits):
    """The default base is the one in force when the estimator is created."""
    args, kw = request(m, a, 0)
    kw = {k: v for k, v in kw.items() if k != "base"}
    seed = {"seed": 7} if m in SEEDED else {}
    res = {}
    for b in ("e", 2):
        im.Config.set("base", b)
        res[b] = (attempt(cases.create(m, a, args, kw, **seed).result), attempt(cases.create(m, a, args, kw, **seed).local_vals))
    im.Config.reset()
    state = {}

    def whole():
        est = cases.create(m, a, args, kw, **seed)
        return attempt(est.result), attempt(est.local_vals)

    def evaluate():
        est = state["est"]
        return attempt(est.result), attempt(est.local_vals)

    def change():
        im.Config.set("base", 2)
        return ("set",)

    for name, body in (("created and evaluated", whole), ("created before", evaluate)):
        def fresh():
            im.Config.reset()
            state["est"] = cases.create(m, a, args, kw, **seed)

        fresh()
        out, n, pts = sched.count(body, "line")
        rec.true(out == res["e"], (m, a, name), res["e"], out, "a thread on its own is not reproducible")
        seen = []
        for i in where(pts, visits):
            fresh()
            out, r = sched.run((body, change), [(0, i), (1, None), (0, None)], "line")
            rec.ev(r.switches > 0)
            rec.traces += 1
            rec.states += 1
            rec.transitions += r.switches
            case = {"measure": m, "approach": a, "estimator": name, "base changed at line": i, "lines": n}
            which = "old" if out[0] == res["e"] else "new" if out[0] == res[2] else "mixed"
            rec.outcome(which)
            if which == "mixed":
                rec.violation(case, res, out[0], "part of the result uses another base than the rest")
                break
            if res["e"] == res[2]:
                continue
            seen.append(which)
            if name == "created before" and which == "new":
                rec.violation(case, res["e"], out[0], "the base was read after the estimator was created")
                break
        else:
            # changes before the default is read give the new base, later ones the old
            k = seen.count("new")
            rec.true(seen == ["new"] * k + ["old"] * (len(seen) - k), {"measure": m, "approach": a, "estimator": name},
                     "new up to one point, old afterwards", seen, "the default base is read more than once")
    im.Config.reset()
    rec.sample({"measure": m, "approach": a})


# ------------------------------------------------------------------- one thread
class Subject:
    def __init__(self, m, a, v):
        self.m, self.a, self.v = m, a, v
        self.est = None

    def do(self, op):
        if op == "create":
            args, kw = request(self.m, self.a, self.v)
            self.est = cases.create(self.m, self.a, args, kw, **({"seed": 7 + self.v} if self.m in SEEDED else {}))
            return ("created",)
        if op == "value":
            return attempt(self.est.result)
        if op == "local":
            return attempt(self.est.local_vals)
        if op == "function":
            args, kw = request(self.m, self.a, self.v)
            return attempt(lambda: cases.FUNC[self.m](*args, approach=self.a, **kw))
        if op == "test":
            return attempt(lambda: tested(self.est, "permutation_test"))
        raise ValueError(op)


def merges(n, k):
    for pos in itertools.combinations(range(n + k), n):
        yield [0 if i in pos else 1 for i in range(n + k)]


def interleave(rec, m, a, th):
    ops = ["create", "value", "local"]
    if m in SEEDED:
        ops.append("test")
    ops.append("function") if th or m not in SEEDED else None
    orders = [ops, ["create", *ops[:0:-1]]]
    if a == "nsb":
        ops = orders[0] = ["create", "value", "local"]
        orders = [ops]
    for left in orders:
        for v in (1, 2):
            solo = []
            for s, o in ((Subject(m, a, 0), left), (Subject(m, a, v), ops)):
                solo.append([s.do(x) for x in o])
            for merge in merges(len(left), len(ops)):
                subj = (Subject(m, a, 0), Subject(m, a, v))
                todo = (list(left), list(ops))
                got = ([], [])
                hist = ()
                for w in merge:
                    op = todo[w].pop(0)
                    got[w].append(subj[w].do(op))
                    rec.edge((m, a, v, left[1], hist), (w, op), (m, a, v, left[1], hist + (w,)))
                    hist += (w,)
                rec.ev()
                rec.traces += 1
                for w in (0, 1):
                    if got[w] != solo[w]:
                        i = next(i for i, (x, y) in enumerate(zip(got[w], solo[w])) if x != y)
                        rec.violation({"measure": m, "approach": a, "variant": v, "order": merge, "operations": (left, ops),
                                       "estimator": w, "operation": i}, solo[w][i], got[w][i],
                                      "interleaving two estimators changes a result")
                        return


ORDERS = (
    (0, 1, 0, 1), (0, 1, 1, 0), (0, 0, 1, 1),
)


def pairs_interleaved(rec, s):
    """Every estimator together with the s-th next one: create, create, evaluate, evaluate."""
    all_ = list(cases.combos())
    solo = {}

    def alone(c, v):
        if (c, v) not in solo:
            x = Subject(*c, v)
            solo[c, v] = [x.do("create"), x.do("value")]
        return solo[c, v]

    for i, c in enumerate(all_):
        d = all_[(i + s) % len(all_)]
        if "nsb" in (c[1], d[1]) and s % 4 != 1:
            continue
        for order in ORDERS:
            subj = (Subject(*c, 0), Subject(*d, 2))
            got = ([], [])
            for w in order:
                got[w].append(subj[w].do(("create", "value")[len(got[w])]))
            rec.ev()
            rec.traces += 1
            rec.node("pair", c, d, order)
            for w, (x, v) in enumerate(((c, 0), (d, 2))):
                if got[w] != alone(x, v):
                    rec.violation({"estimators": (c, d), "order": order, "estimator": w}, alone(x, v), got[w],
                                  "another estimator changes a result")
                    return
