"""P26 - copies and pickles of estimators and results."""

import copy
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile

import infomeasure as im
import numpy as np

from mc import cases
from mc.core import REPO, VERIF
from mc.lib import lcg

LEVEL = "model_checking"
RULE = (
    "states are the histories of operations {value, local values, recalculation, seeded test, effective "
    "value} on an estimator; in every state the estimator is forked (deep copy, pickle of every protocol, "
    "shallow copy), then operations run on the original and the copy in every interleaving. Each must "
    "answer like an estimator of its own with the same history, seeds included. Pickles are also revived in "
    "another interpreter with another configuration. Non-trivial: an operation precedes the fork or follows on both sides."
)
ASSUMPTIONS = [
    "a shallow copy shares the random generator by definition and is only asked for values and local values",
]
BOUNDS = {
    "quick": "histories up to 2 operations before the fork, 1 + 1 operations after it in both orders (after 2 operations: in one of them; NSB: 1 before), "
    "for 119 measure x approach combinations; 4 pickle protocols; one other interpreter"
        "; deep copies of test results; estimators on 300 to 1500 samples",
    "thorough": "2 operations before the fork, 2 + 2 after it in all interleavings",
}
ST = ((0, 1, 1, 2, 0, 1, 2, 2), (1, 1, 0, 2, 0, 1, 1, 0), (0, 1, 0, 1, 1, 2, 0, 1))


def tasks(tier, seed):
    th = tier == "thorough"
    out = [("fork", m, a, th) for m, a in sorted(cases.combos(), key=lambda c: (c[1] != "nsb", c[0] not in ("te", "cte")))]
    out += [("large", m, a) for m, a in cases.combos() if a != "nsb"]
    out += [("elsewhere", i, 4) for i in range(4)]
    out += [("results", m, a) for m, a in cases.combos(("mi", "cmi", "te", "cte"))]
    return out


FORKS = {
    "deepcopy": copy.deepcopy,
    "shallow": copy.copy,
    **{f"pickle {p}": (lambda p: lambda e: pickle.loads(pickle.dumps(e, protocol=p)))(p) for p in (2, 3, 4, 5)},
}


def new(m, a, **kw):
    args, k = cases.request(m, a, ST[: cases.WIDTH[m]])
    if m in ("mi", "mi3", "cmi", "te", "cte"):
        k["seed"] = 77
    return cases.create(m, a, args, {**k, **kw})


def ops_for(m):
    ops = ["value", "local", "calc"]
    if m in ("mi", "mi3", "cmi", "te", "cte"):
        ops += ["perm", "boot"]
    if m in ("te", "cte"):
        ops += ["eff"]
    return ops


def perform(est, op):
    try:
        if op == "value":
            return float(est.result())
        if op == "local":
            return tuple(map(float, np.asarray(est.local_vals())))
        if op == "calc":
            est.calculate()
            return float(est.global_val())
        if op == "eff":
            return float(est.effective_val("permutation_test"))
        r = est.statistical_test(3, "bootstrap" if op == "boot" else "permutation_test")
        return tuple(map(float, r.test_values)) + (float(r.p_value), float(r.t_score), float(r.observed_value))
    except Exception as exc:  # noqa: BLE001 - the refusal is the outcome
        return type(exc).__name__


def agree(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(map(agree, x, y))
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (x != x and y != y) or abs(x - y) <= 1e-11 * (1 + abs(x))
    return x == y


SLOW = ("kernel", "ordinal", "metric", "renyi", "tsallis")


class Model:
    """Outcomes of histories on an estimator that is never copied."""

    def __init__(self, m, a):
        self.m, self.a, self.memo = m, a, {}

    def __call__(self, history):
        if history not in self.memo:
            est = new(self.m, self.a)
            for op in history[:-1]:
                perform(est, op)
            self.memo[history] = perform(est, history[-1])
        return self.memo[history]


def interleavings(x, y):
    """All merges of two sequences, as lists of (side, operation)."""
    if not x or not y:
        yield [("original", o) for o in x] + [("copy", o) for o in y]
        return
    for rest in interleavings(x[1:], y):
        yield [("original", x[0])] + rest
    for rest in interleavings(x, y[1:]):
        yield [("copy", y[0])] + rest


def fork(rec, m, a, th):
    model = Model(m, a)
    ops = ops_for(m)
    rec.outcomes.update(str(model((o,)))[:60] for o in ops)
    depth = 1 if a == "nsb" else 2
    j = 0
    for d in range(depth + 1):
        for prefix in itertools.product(ops, repeat=d):
            if d == 2 and a in SLOW and not th and len(set(prefix)) == 1:
                continue
            after = 2 if th and d < 2 and a != "nsb" else 1
            for name, f in FORKS.items():
                mine = [o for o in ops if o in ("value", "local")] if name == "shallow" else ops
                for xs, ys in itertools.product(itertools.product(mine, repeat=after), repeat=2):
                    j += 1
                    if name.startswith("pickle") and j % 4 != int(name[-1]) - 2:
                        continue  # each protocol takes its turn
                    if d == 2 and not th and name in ("deepcopy", "shallow") and j % 4:
                        continue
                    for i, order in enumerate(interleavings(list(xs), list(ys))):
                        if d == 2 and not th and i != j // 4 % 2:
                            continue
                        est = new(m, a)
                        for op in prefix:
                            perform(est, op)
                        case = {"measure": m, "approach": a, "before": prefix, "fork": name, "after": order}
                        ok, twin = rec.call(case, "copying an estimator", f, est)
                        if not ok:
                            return
                        rec.ev(bool(prefix) or after > 1)
                        rec.traces += 1
                        side = {"original": est, "copy": twin}
                        done = {"original": prefix, "copy": prefix}
                        for who, op in order:
                            prev = (m, a, done["original"], done["copy"])
                            done[who] += (op,)
                            rec.edge(prev, (who, op), (m, a, done["original"], done["copy"]))
                            got, exp = perform(side[who], op), model(done[who])
                            if not rec.true(agree(exp, got), {**case, "at": [who, op]}, exp, got,
                                            "an estimator and its copy are not independent equals"):
                                return
    rec.sample({"measure": m, "approach": a})


def large(rec, m, a):
    """Forks of estimators on long series, after each operation, with other options."""
    n = 300 if a in ("kernel", "renyi", "tsallis") else 700 if a == "metric" else 1500
    st = tuple(tuple(lcg(s, n, 1000 if a == "ordinal" else 60)) for s in (4, 11, 35))
    args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
    if m in ("mi", "mi3", "cmi", "te", "cte"):
        kw["seed"] = 5
    if m in ("te", "cte"):
        kw.update(src_hist_len=2, step_size=2, **({"prop_time": 1} if m == "te" else {}))
    if m == "mi":
        kw["offset"] = 3
    if a == "kernel":
        kw["kernel"] = "gaussian"
    ops = [o for o in ops_for(m) if o not in ("calc",)]

    def fresh():
        return cases.create(m, a, args, kw, base=3)

    memo = {}

    def model(history):
        if history not in memo:
            est = fresh()
            for op in history[:-1]:
                perform(est, op)
            memo[history] = perform(est, history[-1])
        return memo[history]

    before = cases.copy_tree((args, kw))
    for prefix in [()] + [(o,) for o in ops]:
        for name, f in FORKS.items():
            if name in ("pickle 3", "pickle 4"):
                continue
            est = fresh()
            for op in prefix:
                perform(est, op)
            case = {"measure": m, "approach": a, "n": n, "before": prefix, "fork": name}
            ok, twin = rec.call(case, "copying an estimator", f, est)
            if not ok:
                return
            todo = ("value", "local") if name == "shallow" else ops
            done = {"original": prefix, "copy": prefix}
            for i, op in enumerate(todo):
                for who in ("copy", "original") if i % 2 else ("original", "copy"):
                    prev = ("large", m, a, done["original"], done["copy"])
                    done[who] += (op,)
                    rec.ev()
                    rec.traces += 1
                    rec.edge(prev, (who, op), ("large", m, a, done["original"], done["copy"]))
                    got, exp = perform(est if who == "original" else twin, op), model(done[who])
                    rec.outcome(str(exp)[:40])
                    if not rec.true(agree(exp, got), {**case, "at": [who, op]}, str(exp)[:200], str(got)[:200],
                                    "an estimator and its copy are not independent equals"):
                        return
    rec.true(cases.same_tree(before, (args, kw)), {"measure": m, "approach": a}, "unchanged", "changed", "the user's data were modified")
    rec.sample({"measure": m, "approach": a, "n": n})


CHILD = """
import sys
sys.path.insert(0, {verif!r})
from mc import core
core.setup_library()
import json, pickle
import infomeasure as im
im.Config.set("base", 10)
from checks import p26
out = []
for blob in pickle.load(open({path!r}, "rb")):
    est = pickle.loads(blob)
    out.append([p26.plain(p26.perform(est, op)) for op in ("value", "local", "perm")])
print("RESULT" + json.dumps(out))
"""


def plain(x):
    return [plain(v) for v in x] if isinstance(x, (tuple, list)) else repr(x)


def elsewhere(rec, i, k):
    """Revived in another interpreter, under another configured base."""
    todo = [c for j, c in enumerate(cases.combos()) if j % k == i]
    blobs, exps, names = [], [], []
    for m, a in todo:
        for prefix in ((), ("value",), ("local",)) + ((("perm",),) if len(ops_for(m)) > 3 else ()):
            if a == "nsb" and prefix:
                continue
            est = new(m, a)
            for op in prefix:
                perform(est, op)
            blobs.append(pickle.dumps(est))
            exps.append([perform(est, op) for op in ("value", "local", "perm")])
            names.append((m, a, prefix))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "blobs")
        with open(path, "wb") as f:
            pickle.dump(blobs, f)
        env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
        run = subprocess.run([sys.executable, "-c", CHILD.format(verif=VERIF, path=path)], capture_output=True,
                             text=True, env=env, timeout=600)
    line = [ln for ln in run.stdout.splitlines() if ln.startswith("RESULT")]
    if not rec.true(bool(line), {"combinations": todo}, "results", run.stderr[-800:], "reviving pickles in another process"):
        return
    for name, exp, got in zip(names, exps, json.loads(line[0][6:])):
        rec.ev()
        rec.traces += 1
        rec.node("elsewhere", *name)
        case = {"measure": name[0], "approach": name[1], "before": name[2]}
        ok = all(agree_plain(x, y) for x, y in zip(map(plain, exp), got))
        rec.true(ok, case, exp, got, "a pickled estimator answers differently in another process")


def agree_plain(x, y):
    if isinstance(x, list):
        return isinstance(y, list) and len(x) == len(y) and all(map(agree_plain, x, y))
    try:
        return agree(float(x), float(y))
    except ValueError:
        return x == y


def results(rec, m, a):
    """Copies of a test result answer alike."""
    if a == "nsb":
        return
    est = new(m, a)
    r = est.statistical_test(7, "permutation_test")
    for name, f in FORKS.items():
        case = {"measure": m, "approach": a, "copy": name}
        ok, c = rec.call(case, "copying a result", f, r)
        if not ok:
            continue
        rec.ev()
        rec.node("result", m, a, name)
        for field in ("p_value", "t_score", "observed_value", "null_mean", "null_std", "n_tests", "method"):
            x, y = getattr(r, field), getattr(c, field)
            rec.true(x == y or (x != x and y != y), {**case, "field": field}, x, y, "a copied result differs")
        rec.true(np.array_equal(r.test_values, c.test_values, equal_nan=True), case, r.test_values, c.test_values, "copied surrogates differ")
        if name != "shallow":
            rec.true(c is not r and not np.shares_memory(c.test_values, r.test_values), case, "surrogates of its own",
                     "shared", "a copied result shares its surrogates")
            ok, before = rec.call(case, "interval", r.confidence_interval, 90)
            if c is not r and c.test_values.flags.writeable:
                c.test_values[:] = 0  # the copy's owner does what he likes with it
                rec.true(np.array_equal(r.confidence_interval(90), before, equal_nan=True), case, before,
                         r.confidence_interval(90), "changing a copied result changes the original")
                c = f(r)
        for level in (5, 50, 95, 99.9):
            rec.true(np.array_equal(r.confidence_interval(level), c.confidence_interval(level), equal_nan=True),
                     {**case, "level": level}, r.confidence_interval(level), c.confidence_interval(level), "intervals differ")
