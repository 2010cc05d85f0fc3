"""P16 - estimator objects under any order of operations, with failures."""

import itertools
import sys

import infomeasure as im
import numpy as np

from mc import cases
from mc.lib import lcg
from mc.rng import Scripted

LEVEL = "fault_enumeration"
RULE = (
    "seq: all sequences of {value, local values, recalculation, permutation test, bootstrap "
    "test, refused test, test failing at a draw, effective value} up to a depth on one "
    "estimator object; every operation must give what it gives on a fresh object. crash: for "
    "every operation, every call that a library function makes is made to fail once (all fault "
    "points are enumerated by a tracer), then all operations must again give the fresh answer. inputs: the "
    "user's arrays are compared byte by byte and passed read-only. Non-trivial: at least two "
    "operations, or a fault."
)
ASSUMPTIONS = [
    "a failure arises in a call made by a library function (or in the random generator); an "
    "asynchronous signal between two bytecodes of a finally block is not modelled",
    "random draws are dictated, noise is off (P19 treats noise and seeds)",
]
BOUNDS = {
    "quick": "all sequences of 3 operations out of 10 for 119 measure x approach combinations (2 for NSB); all fault "
    "points of 7 operations, from a fresh and a used object",
    "thorough": "sequences of 4 operations; all pairs of faults in two successive operations for 6 combinations",
}
ST = ((0, 1, 1, 2, 0, 1), (1, 1, 0, 2, 0, 1), (0, 1, 0, 1, 1, 2))
PERM = [(1, 0, 2, 3, 4, 5), (2, 3, 4, 5, 0, 1), (5, 4, 3, 2, 1, 0)]
SWAP = [(1, 1, 2, 3, 0, 5), (0, 1, 2, 3, 4, 4)]


class Injected(BaseException):
    """An interruption; numerical estimators may absorb ordinary exceptions by design."""


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for m, a in sorted(cases.combos(), key=lambda c: (c[1] != "nsb", c[0] not in ("te", "cte"))):
        depth = (3 if th else 2) if a in ("nsb",) else (4 if th else 3)
        for i in range(4 if th else 1):
            out.append(("seq", m, a, depth, i, 4 if th else 1))
        out.append(("crash", m, a, th))
    for m, a in cases.combos():
        out.append(("inputs", m, a))
        if a != "nsb":
            out.append(("options", m, a))
            for n in (1200, 3000) if th else (1200,):
                out.append(("large", m, a, n))
    if th:
        for m, a in (("te", "discrete"), ("mi", "ordinal"), ("cmi", "bayes"), ("te", "metric"),
                     ("mi", "kernel"), ("h", "bayes")):
            out.append(("crash2", m, a))
    return out


def make(m, a, st=ST):
    args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
    if a == "ordinal":
        kw["embedding_dim"] = 2
    return args, kw


def generator(m, a, kind, fail_at=None):
    n = len(ST[0])
    if a == "ordinal":
        n -= 1
    if m in ("te", "cte"):
        n -= 1
    script = PERM if kind == "perm" else SWAP
    script = [[i if i < n else 0 for i in s][:n] for s in script]
    if kind == "perm":
        script = [sorted(range(n), key=lambda i: (s[i], i)) for s in script]
    return Scripted(script, fail_at=fail_at, exc=Injected)


def ops_for(m):
    ops = ["value", "local", "calc"]
    if m in ("mi", "mi3", "cmi", "te", "cte"):
        ops += ["perm", "boot", "bad", "fail1", "fail2"]
    if m in ("te", "cte"):
        ops += ["eff", "efffail"]
    return ops


def canon(x):
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, tuple(float(v) for v in x.ravel()))
    if x is None:
        return ("none",)
    return ("num", float(x))


class AnyLength(Scripted):
    """Draws that follow from the number of rows."""

    def __init__(self, kind, fail_at=None):
        super().__init__([], fail_at=fail_at, exc=Injected, kind=kind)

    def _next(self, n, kind="perm"):
        self.script = [[(i + 1 + self.used) % n for i in range(n)] if self.kind == "perm"
                       else [(i - (i % 2) + self.used) % n for i in range(n)]]
        return super()._next(n, kind)


def perform(est, m, a, op, gen=generator):
    """Canonical outcome of one operation."""
    try:
        if op == "value":
            return canon(est.result())
        if op == "local":
            return canon(est.local_vals())
        if op == "calc":
            est.calculate()
            return canon(est.global_val())
        kind = "boot" if op == "boot" else "perm"
        fail = {"fail1": 1, "fail2": 2, "efffail": 1}.get(op)
        est.rng = gen(m, a, kind, fail)
        if op in ("eff", "efffail"):
            return canon(est.effective_val("permutation_test"))
        if op == "bad":
            return canon(est.statistical_test(2, "bogus").p_value)
        method = "bootstrap" if kind == "boot" else "permutation_test"
        r = est.statistical_test(2 if op != "fail2" else 3, method)
        return ("test", tuple(float(v) for v in r.test_values), float(r.observed_value), r.n_tests, r.method)
    except (Exception, Injected) as exc:  # noqa: BLE001 - the refusal is the outcome
        return ("exc", type(exc).__name__)


def agree(e, g):
    if e[0] != g[0]:
        return False
    if e[0] == "num":
        return near(e[1], g[1])
    if e[0] == "arr":
        return e[1] == g[1] and all(near(x, y) for x, y in zip(e[2], g[2]))
    if e[0] == "test":
        return (len(e[1]) == len(g[1]) and all(near(x, y) for x, y in zip(e[1], g[1]))
                and near(e[2], g[2]) and e[3:] == g[3:])
    return e == g


def near(x, y):
    if x != x or y != y:
        return x != x and y != y
    return x == y or abs(x - y) <= 1e-11 + 1e-11 * abs(x)


def fresh_outcomes(m, a, args, kw):
    return {op: perform(cases.create(m, a, args, kw, base="e"), m, a, op) for op in ops_for(m)}


def flags(est):
    return (est.res_global is not None, est.res_local is not None)


def seq(rec, m, a, depth, i, k):
    args, kw = make(m, a)
    before = cases.copy_tree((args, kw))
    exp = fresh_outcomes(m, a, args, kw)
    rec.outcomes.update(str(v)[:60] for v in exp.values())
    ops = ops_for(m)
    for d in range(1, depth + 1):
        for j, s in enumerate(itertools.product(ops, repeat=d)):
            if j % k != i:
                continue
            est = cases.create(m, a, args, kw, base="e")
            prev = (m, a) + flags(est)
            for op in s[:-1]:
                perform(est, m, a, op)
                now = (m, a) + flags(est)
                rec.edge(prev, op, now)
                prev = now
            got = perform(est, m, a, s[-1])
            rec.edge(prev, s[-1], (m, a) + flags(est))
            rec.ev(d > 1)
            rec.traces += 1
            case = {"measure": m, "approach": a, "operations": s}
            if not rec.true(agree(exp[s[-1]], got), case, exp[s[-1]], got,
                            "operation differs from the same operation on a fresh object"):
                return
    rec.true(cases.same_tree(before, (args, kw)), {"measure": m, "approach": a}, "unchanged", "changed",
             "the user's data were modified")
    rec.sample({"measure": m, "approach": a, "depth": depth})


def sequences(rec, m, a, what, mk, ops, depth, keep=lambda s: True):
    """All sequences of operations on objects made by mk, against fresh ones."""
    gen = lambda m_, a_, kind, fail: AnyLength(kind, fail)  # noqa: E731
    exp = {op: perform(mk(), m, a, op, gen) for op in ops}
    if all(v[0] == "exc" for v in exp.values()):
        rec.skipped += 1
        return
    rec.outcomes.update(str(v)[:60] for v in exp.values())
    for d in range(2, depth + 1):
        for s in itertools.product(ops, repeat=d):
            if not keep(s):
                continue
            est = mk()
            prev = (m, a, what) + flags(est)
            got = None
            for op in s:
                got = perform(est, m, a, op, gen)
                now = (m, a, what) + flags(est)
                rec.edge(prev, op, now)
                prev = now
            rec.ev()
            rec.traces += 1
            if not rec.true(agree(exp[s[-1]], got), {"measure": m, "approach": a, "options": what, "operations": s},
                            exp[s[-1]], got, "operation differs from the same operation on a fresh object"):
                return


def variants(m, a):
    """Parameters beyond the plain request, alone and combined."""
    yield {"base": 10}
    if m == "mi":
        yield {"offset": 1}
        yield {"offset": -2}
    if m in ("mi", "mi3", "cmi") and a in cases.CONT:
        yield {"normalize": True}
        if m == "mi":
            yield {"normalize": True, "offset": 1, "base": 2}
    if m in ("te", "cte"):
        yield {"src_hist_len": 2}
        yield {"dest_hist_len": 2, "step_size": 2}
        if m == "te":
            yield {"prop_time": 1}
            yield {"prop_time": -2, "src_hist_len": 2, "base": 2}
            yield {"offset": 2}
        else:
            yield {"cond_hist_len": 2, "base": 2}
    if a == "kernel":
        yield {"kernel": "gaussian", "bandwidth": 0.7}
        yield {"bandwidth": 2, "workers": 2}
    if a == "metric" and m not in ("h", "hj", "hx"):
        yield {"ksg_id": 2}
    if a in ("metric", "renyi", "tsallis"):
        yield {"k": 3}
    if a == "renyi":
        yield {"alpha": 1}
        yield {"alpha": 0.5}
    if a == "tsallis":
        yield {"q": 1}
        yield {"q": 0.5}
    if a == "bayes":
        yield {"alpha": "jeffrey", "K": 30}
        yield {"alpha": "min-max"}
    if a == "ordinal":
        yield {"embedding_dim": 3}
        yield {"embedding_dim": 3, "stable": True}
    if a == "ansb":
        yield {"undersampled": 0.9}


LONG = ((0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0), (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2),
        (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0))


def options(rec, m, a):
    """Every pair of operations with every variant of the parameters, and with several columns."""
    args, kw = cases.request(m, a, LONG[: cases.WIDTH[m]])
    before = cases.copy_tree((args, kw))
    ops = [o for o in ops_for(m) if o not in ("bad", "fail2", "efffail")]
    for var in variants(m, a):
        k = {**kw, **var}
        sequences(rec, m, a, var, lambda: cases.create(m, a, args, k), ops, 2)  # noqa: B023
    if a != "ordinal" and m != "hj":
        wide = tuple(np.stack([c, c[::-1]], axis=1) for c in args)
        w0 = cases.copy_tree(wide)
        sequences(rec, m, a, "two columns", lambda: cases.create(m, a, wide, kw, base="e"), ops, 2)
        rec.true(cases.same_tree(w0, wide), {"measure": m, "approach": a}, "unchanged", "changed",
                 "the user's data were modified")
    rec.true(cases.same_tree(before, (args, kw)), {"measure": m, "approach": a}, "unchanged", "changed",
             "the user's data were modified")


def large(rec, m, a, n):
    """Long series: pairs of operations."""
    n = n if a not in ("kernel", "renyi", "tsallis", "metric") or m in ("mi", "te", "h") else 300
    st = tuple(tuple(lcg(s, n, 7 if a != "ordinal" else 40)) for s in (2, 9, 33))
    args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
    before = cases.copy_tree((args, kw))
    ops = [o for o in ops_for(m) if o in ("value", "local", "calc", "perm", "fail1", "eff")]
    sequences(rec, m, a, n, lambda: cases.create(m, a, args, kw, base="e"), ops, 2)
    rec.true(cases.same_tree(before, (args, kw)), {"measure": m, "approach": a, "n": n}, "unchanged", "changed",
             "the user's data were modified")


# ---------------------------------------------------------------------- fault points
class Faults:
    """Fails the n-th call made from a library frame."""

    def __init__(self, at=None, skip=None):
        self.at = at
        self.skip = skip
        self.count = 0
        self.where = None

    def __call__(self, frame, event, arg):
        if event == "call":
            back = frame.f_back
            if back is not None and "/infomeasure/" in back.f_code.co_filename:
                if self.skip and back.f_code.co_filename.endswith(self.skip):
                    return None
                self.count += 1
                if self.count == self.at:
                    self.where = f"{back.f_code.co_name}:{back.f_lineno}->{frame.f_code.co_name}"
                    raise Injected("fault")
        return None


def with_faults(skip, at, thunk):
    fl = Faults(at, skip)
    old = sys.gettrace()
    sys.settrace(fl)
    try:
        out = thunk()
    finally:
        sys.settrace(old)
    return fl, out


def crash(rec, m, a, th):
    args, kw = make(m, a)
    exp = fresh_outcomes(m, a, args, kw)
    skip = "entropy/nsb.py" if a == "nsb" and not th else None
    total = 0
    if th:
        plan = [(u, o) for u in (False, True) for o in ("value", "local", "calc", "perm", "boot", "eff")]
    else:
        plan = [(False, "value"), (False, "local"), (False, "perm"), (False, "eff"), (True, "calc"),
                (True, "boot"), (True, "local")]
    for used, op in plan:
        if op not in exp:
            continue
        est = cases.create(m, a, args, kw, base="e")
        if used:
            est.result()
        fl, _ = with_faults(skip, None, lambda: perform(est, m, a, op))
        total = fl.count
        for at in range(1, total + 1):
            est = cases.create(m, a, args, kw, base="e")
            if used:
                est.result()
            fl, got = with_faults(skip, at, lambda: perform(est, m, a, op))
            case = {"measure": m, "approach": a, "used": used, "operation": op, "fault": at, "where": fl.where}
            rec.ev()
            rec.traces += 1
            rec.edge((m, a, used, op), at, (m, a) + flags(est))
            if got != ("exc", "Injected"):
                # the fault was absorbed: then the answer has to be right
                rec.true(agree(exp[op], got), case, exp[op], got, "wrong answer after an absorbed failure")
            first = ("local", "value", "boot", "eff", "calc")[at % 5]
            follow = ["value", "local", first] if not th else ["local", "value", "boot", "eff", "calc"]
            if first in ("boot", "eff", "calc"):
                follow = [first] + follow[:2]
            for o in follow:
                if o not in exp:
                    continue
                g = perform(est, m, a, o)
                if not rec.true(agree(exp[o], g), {**case, "then": o}, exp[o], g,
                                "after a failed operation the estimator gives another answer"):
                    return
    rec.sample({"measure": m, "approach": a, "fault points of last operation": total})


def crash2(rec, m, a):
    """Two faults in successive operations."""
    args, kw = make(m, a)
    exp = fresh_outcomes(m, a, args, kw)
    ops = [o for o in ("local", "perm", "calc") if o in ops_for(m)]
    for o1, o2 in itertools.product(ops, repeat=2):
        n1 = with_faults(None, None, lambda: perform(cases.create(m, a, args, kw, base="e"), m, a, o1))[0].count
        n2 = with_faults(None, None, lambda: perform(cases.create(m, a, args, kw, base="e"), m, a, o2))[0].count
        for x, y in itertools.product(range(1, n1 + 1), range(1, n2 + 1)):
            est = cases.create(m, a, args, kw, base="e")
            with_faults(None, x, lambda: perform(est, m, a, o1))
            with_faults(None, y, lambda: perform(est, m, a, o2))
            rec.ev()
            rec.traces += 1
            o = ("local", "value", "boot", "calc")[(x + y) % 4]
            if o not in exp:
                o = "value"
            g = perform(est, m, a, o)
            case = {"measure": m, "approach": a, "operations": (o1, o2), "faults": (x, y), "then": o}
            if not rec.true(agree(exp[o], g), case, exp[o], g, "wrong answer after two failures"):
                return


# ----------------------------------------------------------------------------- inputs
def inputs(rec, m, a):
    """Data handed in: read-only accepted, never modified, whatever is called."""
    w = cases.WIDTH[m]
    base_args, base_kw = make(m, a)
    exp = fresh_outcomes(m, a, base_args, base_kw)
    forms = {
        "readonly": lambda c: _ro(np.array(c)),
        "float": lambda c: np.array(c, dtype=float),
        "list": lambda c: np.asarray(c).tolist(),
        "strided": lambda c: np.repeat(np.asarray(c), 2)[::2],
        "reversed": lambda c: np.array(np.asarray(c)[::-1])[::-1],
        "fortran column": lambda c: np.asfortranarray(np.array(c)),
    }
    cols = [base_args[0][i] for i in range(2)] if m == "hj" else list(base_args) + (
        [base_kw["cond"]] if "cond" in base_kw else [])
    for name, f in forms.items():
        made = [f(c) for c in cols]
        keep = [cases.copy_tree(c) for c in made]
        kw = dict(base_kw)
        if m == "hj":
            args = (tuple(made),)
        elif "cond" in kw:
            kw["cond"] = made[-1]
            args = tuple(made[:-1])
        else:
            args = tuple(made)
        keep_kw = {k: v for k, v in kw.items() if k != "cond"}
        for extra in ({}, {"normalize": True} if m in ("mi", "cmi") and a in cases.CONT else None):
            if extra is None:
                continue
            case = {"measure": m, "approach": a, "form": name, **extra}
            ok, est = rec.call(case, "creation", cases.create, m, a, args, kw, base="e", **extra)
            if not ok:
                continue
            rec.ev()
            rec.traces += 1
            rec.node("inputs", m, a, name, bool(extra))
            for op in ops_for(m):
                got = perform(est, m, a, op)
                if not extra:
                    rec.true(agree(exp[op], got), {**case, "operation": op}, exp[op], got,
                             "the form of the data changes the answer")
            rec.true(all(cases.same_tree(x, y) for x, y in zip(keep, made)), case, "unchanged data", "modified",
                     "the user's data were modified")
            rec.true({k: v for k, v in kw.items() if k != "cond"} == keep_kw, case, keep_kw, kw,
                     "the user's arguments were modified")
    # unequal handling of noise: the data stay untouched
    if a in ("metric", "renyi", "tsallis"):
        made = [np.array(c, dtype=float) for c in cols]
        keep = [c.copy() for c in made]
        kw = dict(base_kw, noise_level=1e-3)
        if m in ("h", "hj", "hx") and a != "metric":
            return
        if m == "hj":
            args = (tuple(made),)
        elif "cond" in kw:
            kw["cond"] = made[-1]
            args = tuple(made[:-1])
        else:
            args = tuple(made)
        case = {"measure": m, "approach": a, "noise": 1e-3}
        rec.ev()
        ok, est = rec.call(case, "creation", cases.create, m, a, args, kw, base="e")
        if ok:
            for op in ops_for(m):
                est.rng = np.random.default_rng(3)
                perform(est, m, a, op)
            rec.true(all(cases.same_tree(x, y) for x, y in zip(keep, made)), case, "unchanged data", "modified",
                     "noise was added to the user's data")


def _ro(c):
    c.setflags(write=False)
    return c
