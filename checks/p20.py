"""P20 - the configuration is a typed key-value store with reset."""

import itertools
import json
import logging
import math
import os
import subprocess
import sys

import infomeasure as im
import numpy as np
from infomeasure.utils.config import Config

from mc import cases
from mc.core import REPO
from mc.lib import lcg

LEVEL = "model_checking"
RULE = (
    "breadth-first search over all configuration states reachable with the stated values "
    "(base, test method, number of tests, log level); in every state every operation, accepted "
    "and rejected, is applied to the real Config and compared with a dictionary model, through "
    "all getters and through measures and tests that use the defaults. Every sequence of a "
    "reduced operation set is also run in one go, so that hidden state would show. Non-trivial: "
    "the operation is rejected or changes the state."
)
ASSUMPTIONS = ["single process; concurrent use of the configuration is P24's subject"]
BOUNDS = {
    "quick": "8 bases x 2 methods x 3 test numbers x 3 log levels, ~120 operations per state; "
    "all sequences of 20 operations to depth 3; every measure x approach under 6 log levels",
    "thorough": "the same state space, all sequences of 20 operations to depth 4",
}

DEFAULT = {"base": "e", "statistical_test_method": "permutation_test", "statistical_test_n_tests": 200}
UNITS = {
    2: ["bits", "bit", "shannons", "shannon"],
    "e": ["nats", "nat", "nit", "nepit"],
    10: ["hartleys", "hartley", "bans", "ban", "dits", "dit"],
}
NAMES = {2: "bit/shannon", "e": "nat/nit/nepit", 10: "hartley/ban/dit"}
BASES = ["e", 2, 10, 3, 2.5, 0.5, 1000, 2.0]
METHODS = ["permutation_test", "bootstrap"]
TESTS = [200, 2, 5]
LEVELS = {"debug": 10, "Warning": 30, "ERROR": 40}

BAD = (
    [("set", k, v, "KeyError") for k in ("bases", "Base", "", "unit", None, 3, "base ", "_settings")
     for v in (2, "e", "bootstrap")]
    + [("set", "base", v, "TypeError") for v in ("2", None, [2], (2,), b"e", "E", 1j, {"e": 1}, "nats", "")]
    + [("set", "statistical_test_method", v, "TypeError")
       for v in ("boot", "Bootstrap", "", None, 1, 2.5, "permutation", ["bootstrap"])]
    + [("set", "statistical_test_n_tests", v, "TypeError") for v in (2.5, "10", None, [5], "e", 5.0)]
    + [("unit", u, None, "ValueError") for u in ("bitss", "", "e", "2", " bit", "log", "nats/nit", "base", "Bit s")]
    + [("level", v, None, "ValueError") for v in ("loud", "", "debugs", "handlers")]
    + [("get", k, None, "KeyError") for k in ("bases", "Base", "", None, 3)]
)
GOOD = (
    [("set", "base", v) for v in BASES]
    + [("set", "statistical_test_method", v) for v in METHODS]
    + [("set", "statistical_test_n_tests", v) for v in TESTS]
    + [("unit", s(u)) for us in UNITS.values() for u in us for s in (str, str.upper, str.title)]
    + [("level", v) for v in LEVELS]
    + [("level", v) for v in LEVELS.values()]
    + [("reset",)]
    + [("use", v) for v in range(9)]
)


def tasks(tier, seed):
    out = [("closure", i, 16) for i in range(16)]
    for i in range(len(SHORT)):
        out.append(("sequences", i, 4 if tier == "thorough" else 3))
    out.append(("fresh",))
    for m, a in cases.combos():
        out.append(("levels", m, a))
    for m in ("jsd", "kld"):
        for a in cases.JSD if m == "jsd" else cases.HX:
            out.append(("levels", m, a))
    return out


def unit_of(base):
    for b, us in UNITS.items():
        if base == b:
            return b
    return None


def step(model, op):
    """The dictionary model."""
    m = dict(model)
    if op[0] == "set" and len(op) == 3:
        m[op[1]] = op[2]
    elif op[0] == "unit" and len(op) == 2:
        for b, us in UNITS.items():
            if op[1].lower() in us:
                m["base"] = b
    elif op[0] == "level" and len(op) == 2:
        m["level"] = op[1] if isinstance(op[1], int) else LEVELS[op[1]]
    elif op[0] == "reset":
        m.update(DEFAULT)
    return m


X = np.array([0, 1, 1, 2, 0, 2, 1, 0])
Y = np.array([0, 1, 0, 2, 1, 2, 1, 1])


def use(i):
    if i == 0:
        im.entropy(X, approach="discrete", base=7)
    elif i == 1:
        im.estimator(X, measure="h", approach="miller_madow", base=10).result()
    elif i == 2:
        im.jsd(X, Y, approach="discrete", base=3)
    elif i == 3:
        im.kld(X, X, approach="bayes", alpha=1.0, base=2)
    elif i == 4:
        im.estimator(X * 1.0, Y * 1.0, measure="mi", approach="kernel", bandwidth=1.0, kernel="box", base=5).statistical_test(
            n_tests=3, method="bootstrap"
        )
    elif i == 5:
        im.estimator(X, Y, measure="te", approach="shrink", base=4).statistical_test(
            n_tests=2, method="permutation_test"
        )
    elif i == 6:  # failing requests
        for kw in ({"approach": "nope"}, {"approach": "discrete", "bandwidth": 1}, {}):
            try:
                im.entropy(X, **kw)
            except Exception:  # noqa: BLE001
                pass
    elif i == 7:
        est = im.estimator(X, Y, measure="mi", approach="shrink", base=2)
        for kw in ({"n_tests": 0}, {"method": "x"}, {"n_tests": 2.5}):
            try:
                est.statistical_test(**kw)
            except Exception:  # noqa: BLE001
                pass
    else:
        try:
            im.get_estimator_class(measure="nope", approach="discrete")
        except ValueError:
            pass


def do(op):
    """Apply an operation to the real configuration; returns the exception's name or None."""
    try:
        if op[0] == "set":
            Config.set(op[1], op[2])
        elif op[0] == "unit":
            Config.set_logarithmic_unit(op[1])
        elif op[0] == "level":
            Config.set_log_level(op[1])
        elif op[0] == "reset":
            Config.reset()
        elif op[0] == "get":
            Config.get(op[1])
        elif op[0] == "use":
            use(op[1])
    except Exception as exc:  # noqa: BLE001
        for c in type(exc).__mro__:
            if c.__name__ in ("KeyError", "TypeError", "ValueError"):
                return c.__name__
        return type(exc).__name__
    return None


def typed(v):
    return (type(v).__name__, v)


def observe(rec, case, model, deep=False):
    """All getters agree with the model."""
    for k in DEFAULT:
        got = Config.get(k)
        rec.true(typed(got) == typed(model[k]), {**case, "key": k}, model[k], got, "value read from the configuration")
    u = unit_of(model["base"])
    exp = NAMES[u] if u is not None else f"unknown (base {model['base']})"
    rec.true(Config.get_logarithmic_unit() == exp, case, exp, Config.get_logarithmic_unit(), "unit name")
    try:
        d = Config.get_logarithmic_unit_description()
    except ValueError:
        d = None
    rec.true((d is None) == (u is None) and (d is None or isinstance(d, str) and d != ""), case,
             "a description" if u is not None else "ValueError", d, "unit description")
    if u is not None:
        rec.true(DESC.setdefault(u, d) == d and len(set(DESC.values())) == len(DESC), case, DESC, d, "unit description")
    lev = logging.getLogger("infomeasure").level
    rec.true(lev == model["level"], case, model["level"], lev, "log level")
    if deep:
        b = model["base"]
        h = 1.0821955300387673  # entropy of X (3, 3, 2 of 8) in nats
        exp = h / (1.0 if b == "e" else math.log(b))
        got = im.entropy(X, approach="discrete")
        rec.close(case, exp, got, "default base used by a measure")
        est = im.estimator(X * 1.0, Y * 1.0, measure="mi", approach="kernel", bandwidth=1.0, kernel="box")
        rec.true(typed(est.base) == typed(b), case, b, est.base, "default base of an estimator")
        if model["statistical_test_n_tests"] < 50:
            res = est.statistical_test()
            got = (res.n_tests, len(res.test_values), res.method)
            exp = (model["statistical_test_n_tests"], model["statistical_test_n_tests"], model["statistical_test_method"])
            rec.true(got == exp, case, exp, got, "defaults used by a statistical test")


DESC = {}


def key(m):
    return tuple(typed(m[k]) for k in sorted(m))


def start():
    Config.reset()
    Config.set_log_level(20)
    return {**DEFAULT, "level": 20}


def closure(rec, part, parts):
    init = start()
    frontier, seen, order = [(init, ())], {key(init)}, []
    edges = []
    while frontier:
        nxt = []
        for m, hist in frontier:
            order.append((m, hist))
            for op in GOOD:
                n = step(m, op)
                rec.edge(key(m), op, key(n))
                if key(n) not in seen:
                    seen.add(key(n))
                    nxt.append((n, hist + (op,)))
            for op in BAD:
                rec.edge(key(m), op, key(m))
        frontier = nxt
    for i, (m, hist) in enumerate(order):
        if i % parts != part:
            continue
        for op in GOOD + BAD:
            start()
            for o in hist:
                do(o)
            case = {"history": hist, "operation": op}
            if op is GOOD[0]:
                observe(rec, {"history": hist}, m, deep=True)
            exc = do(op)
            bad = len(op) == 4
            n = m if bad else step(m, op)
            rec.ev(bad or key(n) != key(m))
            rec.traces += 1
            rec.outcome(str(n.get("base")) + str(exc))
            rec.true(exc == (op[3] if bad else None), case, op[3] if bad else "accepted", exc, "acceptance of an operation")
            observe(rec, case, n, deep=(op[0] in ("reset", "unit", "use") and m["statistical_test_n_tests"] == 2))
        rec.sample({"state": m, "history": hist})
    start()


def outcomes(m, a, n):
    """Value, local values, surrogates and effective value of one request."""
    st = tuple(tuple(lcg(s, n, 4 if a != "ordinal" else 40)) for s in (3, 14, 36))
    out = []

    def put(f):
        try:
            out.append(np.asarray(f(), dtype=float))
        except Exception as exc:  # noqa: BLE001 - the refusal is the outcome
            out.append(type(exc).__name__)

    if m in ("jsd", "kld"):
        args, kw = cases.request("hx" if a in cases.HX else "mi", a, st[:2])
        for k in ("k", "noise_level"):
            if a not in ("metric", "renyi", "tsallis"):
                kw.pop(k, None)
        put(lambda: cases.FUNC[m](*args, approach=a, **kw))
        return out
    args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
    if m in ("mi", "mi3", "cmi", "te", "cte"):
        kw["seed"] = 3
    est = cases.create(m, a, args, kw)
    put(est.result)
    put(est.local_vals)
    if m in ("mi", "mi3", "cmi", "te", "cte"):
        put(lambda: est.statistical_test(3).test_values)
        put(lambda: est.statistical_test(3, "bootstrap").confidence_interval(80))
    if m in ("te", "cte"):
        put(est.effective_val)
    return out


def levels(rec, m, a):
    """The log level never changes an answer, nor does it bring one about."""
    root = logging.getLogger("infomeasure")
    quiet = logging.NullHandler()
    saved = root.handlers[:], root.propagate, logging.root.manager.disable
    try:
        for n in (9, 60) if a != "nsb" else (9,):
            start()
            exp = outcomes(m, a, n)
            root.handlers, root.propagate = [quiet], False
            logging.disable(logging.NOTSET)
            for level in (1, 10, 20, 30, 40, 50):
                Config.set_log_level(level)
                case = {"measure": m, "approach": a, "n": n, "level": level}
                got = outcomes(m, a, n)
                rec.ev(level < 20)
                rec.traces += 1
                rec.node("level", m, a, n, level)
                rec.outcome(str(got[0])[:30])
                ok = len(exp) == len(got) and all(
                    x == y if isinstance(x, str) or isinstance(y, str)
                    else x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-12, equal_nan=True)
                    for x, y in zip(exp, got)
                )
                rec.true(ok, case, str(exp)[:300], str(got)[:300], "the log level changes an answer")
                rec.true(root.level == level, case, level, root.level, "a measure changes the log level")
                rec.true(Config.get("base") == "e", case, "e", Config.get("base"), "a measure changes the configuration")
    finally:
        root.handlers, root.propagate = saved[:2]
        logging.disable(saved[2])
        start()


SHORT = [
    ("set", "base", 2), ("set", "base", "e"), ("set", "base", 2.5), ("set", "base", "2", "TypeError"),
    ("set", "statistical_test_method", "bootstrap"), ("set", "statistical_test_method", "boot", "TypeError"),
    ("set", "statistical_test_n_tests", 5), ("set", "statistical_test_n_tests", "5", "TypeError"),
    ("set", "nokey", 2, "KeyError"), ("unit", "Bits"), ("unit", "HARTLEY"), ("unit", "nats"),
    ("unit", "bogus", None, "ValueError"), ("reset",), ("level", "ERROR"), ("level", "loud", None, "ValueError"),
    ("get", "nokey", None, "KeyError"), ("use", 0), ("use", 5), ("use", 6),
]


def sequences(rec, first, depth):
    for rest in itertools.product(SHORT, repeat=depth - 1):
        m = start()
        hist = ()
        for op in (SHORT[first],) + rest:
            hist += (op,)
            exc = do(op)
            if len(op) < 4:
                m = step(m, op)
            rec.true(exc == (op[3] if len(op) == 4 else None), {"history": hist}, op[3] if len(op) == 4 else "accepted",
                     exc, "acceptance of an operation")
            observe(rec, {"history": hist}, m)
        rec.ev()
        rec.traces += 1
        rec.node("sequence", hist)
    start()


def fresh(rec):
    """A new interpreter starts with the documented defaults."""
    code = (
        "import json, logging, infomeasure as im\n"
        "from infomeasure.utils.config import Config\n"
        "a = [Config.get(k) for k in %r] + [Config.get_logarithmic_unit()]\n"
        "v = [im.entropy([0, 1, 1, 0], approach='discrete')]\n"
        "Config.reset()\n"
        "print(json.dumps([a, [Config.get(k) for k in %r] + [Config.get_logarithmic_unit()], v, im.Config is Config]))\n"
        % (list(DEFAULT), list(DEFAULT))
    )
    env = {**os.environ, "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1"}
    out = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=300)
    rec.ev()
    rec.traces += 1
    rec.node("fresh")
    exp = [*DEFAULT.values(), "nat/nit/nepit"]
    try:
        a, b, v, shared = json.loads(out.stdout.strip().splitlines()[-1])
    except Exception:  # noqa: BLE001
        rec.violation("new interpreter", exp, out.stderr[-500:], "defaults in a new interpreter")
        return
    rec.true(a == exp and b == exp, "new interpreter", exp, (a, b), "defaults in a new interpreter")
    rec.close("new interpreter", math.log(2), v[0], "default unit in a new interpreter")
    rec.true(shared, "new interpreter", "one configuration", "two", "im.Config is another configuration")
