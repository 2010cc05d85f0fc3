"""P19 - seeds, noise and global random state."""

import itertools
import json
import os
import random
import subprocess
import sys

import infomeasure as im
import numpy as np

from mc import cases
from mc.core import REPO, VERIF
from mc.lib import lcg

LEVEL = "model_checking"
RULE = (
    "histories: all sequences of operations on a seeded estimator mixed with disturbances "
    "(global reseeding and drawing, an equally seeded twin, an unseeded estimator, other "
    "seeds) are run on the library; the subject must give exactly what it gives undisturbed, "
    "and no library call may touch numpy's or Python's global generators. noise: every single "
    "value the generator hands out is perturbed in turn; the results must be those of "
    "perturbing every single data value in turn. seeds: all documented forms of a seed. "
    "processes: new interpreters with other hash seeds. Non-trivial: at least one disturbance."
)
ASSUMPTIONS = [
    "entropies take no seed; their noise (metric approach) is examined through the estimator's generator",
    "a seed is whatever numpy.random.default_rng accepts",
]
BOUNDS = {
    "quick": "all histories of 3 of 7 operations for all MI/CMI/TE/CTE approaches (2 for NSB and the "
    "slow continuous ones); every noise value of 6-sample data; long series (150-700 samples) with options: all pairs of "
    "operations x 4 disturbances",
    "thorough": "all histories of 4 of 7 operations (3 for the slow ones); every noise value of 9-sample data",
}
ST = (
    (0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0),
    (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2),
    (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0),
)
SEEDED = ("mi", "cmi", "te", "cte")
OPS = ("value", "perm", "boot")
DISTURB = ("gseed", "gdraw", "twin", "unseeded")
SLOW = ("nsb", "renyi", "tsallis")


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for m, a in sorted(cases.combos(SEEDED), key=lambda c: c[1] not in SLOW):
        depth = (4 if th else 3) - (a in SLOW)
        for first in OPS + DISTURB:
            out.append(("histories", m, a, depth, first))
        out.append(("seeds", m, a))
    for m, a in cases.combos():
        if a == "metric" or (a in ("renyi", "tsallis") and m in SEEDED):
            out.append(("noise", m, a, th))
        out.append(("globals_untouched", m, a))
    for m, a in cases.combos(SEEDED):
        if a != "nsb":
            out.append(("large", m, a, 2000 if th else 700))
    for hs in (0, 1, 77):
        out.append(("process", hs))
    return out


def request(m, a, n=12, noise=None):
    args, kw = cases.request(m, a, [s[:n] for s in ST[: cases.WIDTH[m]]])
    if noise is not None:
        kw["noise_level"] = noise
    elif a in ("metric", "renyi", "tsallis") and m in SEEDED:
        kw["noise_level"] = 0.05
    return args, kw


def canon(x):
    return tuple(float(v) for v in np.ravel(x))


def perform(est, op):
    try:
        if op == "value":
            return canon(est.result())
        r = est.statistical_test(2, "permutation_test" if op == "perm" else "bootstrap")
        return canon(r.test_values) + (float(r.observed_value),)
    except Exception as exc:  # noqa: BLE001
        return (type(exc).__name__,)


def equal(x, y):
    return len(x) == len(y) and all(
        u == v if isinstance(u, str) or isinstance(v, str) else (u == v or (u != u and v != v)) for u, v in zip(x, y)
    )


def snapshot():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def histories(rec, m, a, depth, first):
    args, kw = request(m, a)
    keep = cases.copy_tree((args, kw))
    solo = {}

    def alone(ops):
        if ops not in solo:
            est = cases.create(m, a, args, kw, seed=7)
            solo[ops] = tuple(perform(est, o) for o in ops)
        return solo[ops]

    for d in range(1, depth + 1):
        for rest in itertools.product(OPS + DISTURB, repeat=d - 1):
            seq = (first,) + rest
            mine = tuple(o for o in seq if o in OPS)
            if not mine:
                continue
            np.random.seed(3)
            random.seed(3)
            est = cases.create(m, a, args, kw, seed=7)
            got = []
            case = {"measure": m, "approach": a, "history": seq}
            hist = ()
            for o in seq:
                before = snapshot()
                if o == "gseed":
                    np.random.seed(11)
                    random.seed(11)
                elif o == "gdraw":
                    np.random.rand(3)
                    random.random()
                elif o == "twin":
                    perform(cases.create(m, a, args, kw, seed=7), "perm")
                elif o == "unseeded":
                    perform(cases.create(m, a, args, kw), "boot")
                    perform(cases.create(m, a, args, kw, seed=8), "perm")
                else:
                    got.append(perform(est, o))
                if o not in ("gseed", "gdraw"):
                    rec.true(snapshot() == before, case, "untouched", "changed", "the global random state was changed")
                rec.edge((m, a, hist), o, (m, a, hist + (o,)))
                hist += (o,)
            exp = alone(mine)
            rec.ev(len(mine) < len(seq))
            rec.traces += 1
            rec.outcome(got[-1][0])
            for i, (e, g) in enumerate(zip(exp, got)):
                if not equal(e, g):
                    rec.violation({**case, "operation": i}, e, g, "a seeded result is not reproduced")
    rec.true(cases.same_tree(keep, (args, kw)), (m, a), "untouched data", "changed", "the data were changed")
    rec.sample({"measure": m, "approach": a, "first": first})


def large(rec, m, a, n):
    """Long series and options: what happens between the requests changes nothing."""
    n = n if a not in ("kernel", "renyi", "tsallis", "metric") else 150
    st = [tuple(lcg(s, n, 4 if a != "ordinal" else 30)) for s in (4, 6, 17)]
    args, kw = cases.request(m, a, st[: cases.WIDTH[m]])
    if a in ("metric", "renyi", "tsallis"):
        kw["noise_level"] = 0.05
    variants = [{}]
    if m == "mi":
        variants += [{"offset": 3}, {"base": 2}]
    if m == "te":
        variants += [{"prop_time": 2}, {"src_hist_len": 2, "dest_hist_len": 2, "step_size": 2}]
    if m == "cte":
        variants += [{"cond_hist_len": 2}]
    for var in variants:
        k = {**kw, **var}
        for seq in itertools.product(OPS, repeat=2):
            solo = cases.create(m, a, args, k, seed=7)
            exp = tuple(perform(solo, o) for o in seq)
            for dis in DISTURB:
                np.random.seed(3)
                random.seed(3)
                est = cases.create(m, a, args, k, seed=7)
                got = []
                for o in seq:
                    if dis == "gseed":
                        np.random.seed(11)
                        random.seed(11)
                    elif dis == "gdraw":
                        np.random.rand(3)
                        random.random()
                    elif dis == "twin":
                        perform(cases.create(m, a, args, k, seed=7), "perm")
                    else:
                        perform(cases.create(m, a, args, k), "boot")
                    before = snapshot()
                    got.append(perform(est, o))
                    rec.true(snapshot() == before, (m, a, n, seq), "untouched", "changed",
                             "the global random state was changed")
                rec.ev()
                rec.edge((m, a, n, str(var)), (dis, seq[0]), (m, a, n, str(var), seq))
                rec.traces += 1
                rec.outcome(exp[-1][0])
                for i, (e, g) in enumerate(zip(exp, got)):
                    if not equal(e, g):
                        rec.violation({"measure": m, "approach": a, "n": n, **var, "operations": seq, "between": dis,
                                       "operation": i}, e, g, "a seeded result is not reproduced")


def seeds(rec, m, a):
    """All forms of a seed; the seed is what decides."""
    args, kw = request(m, a)

    def outcome(seed):
        est = cases.create(m, a, args, kw, seed=seed)
        return perform(est, "value") + perform(est, "perm") + perform(est, "boot")

    seen = set()
    for s in (0, 1, 2, 12345, 2**40):
        exp = outcome(np.random.default_rng(s))
        seen.add(exp)
        forms = [s, np.int64(s), np.uint64(s), np.random.SeedSequence(s), np.random.default_rng(s), [s], np.array([s])]
        for f in forms:
            rec.ev()
            rec.node(m, a, s, type(f).__name__)
            e = exp if not isinstance(f, (list, np.ndarray)) else outcome(np.random.default_rng(f))
            got = outcome(f)
            rec.traces += 1
            if not equal(e, got):
                rec.violation({"measure": m, "approach": a, "seed": str(f)}, e, got, "a form of the seed gives other results")
        # through the functional interface
        ok, got = rec.call((m, a, s), "functional interface with a seed", cases.FUNC[m], *args, approach=a, **kw, seed=s)
        if ok:
            rec.true(equal((float(got),), exp[:1]), {"measure": m, "approach": a, "seed": s}, exp[0], got,
                     "the functional interface drops the seed")
    finite = [s for s in seen if all(isinstance(v, str) or v == v for v in s)]
    # (tests of conditional transfer entropies draw nothing: known finding F-CTE-TEST of P15)
    if a != "ansb" and finite and (m != "cte" or kw.get("noise_level")):
        rec.true(len(seen) > 1, (m, a), "results differing between seeds", seen, "the seed does not matter")
    if a not in ("metric", "renyi", "tsallis"):
        values = {s[0] for s in seen}
        rec.true(len(values) == 1 or all(v != v for v in values), (m, a), "one value", values,
                 "a deterministic value depends on the seed")


class OneBump(np.random.Generator):
    """Normal draws are zero, except the `at`-th value, which is `scale * by`."""

    def __init__(self, at, by=4):
        super().__init__(np.random.PCG64(1))
        self.at = at
        self.by = by
        self.n = 0

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = () if size is None else size
        out = np.zeros(shape)
        flat = out.reshape(-1)
        i = self.at - self.n
        if 0 <= i < flat.size:
            flat[i] = scale * self.by
        self.n += flat.size
        return out + loc if shape != () else float(flat[0]) + loc

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self.normal(0.0, 1.0, size)


def bump(args, kw, at, by):
    """A copy of the request with one data value increased."""
    args, kw = cases.copy_tree((args, kw))
    flat = []

    def walk(x):
        if isinstance(x, tuple):
            for v in x:
                walk(v)
        elif isinstance(x, np.ndarray):
            flat.append(x)

    walk(args)
    if "cond" in kw:
        walk(kw["cond"])
    total = sum(x.size for x in flat)
    i = at
    for x in flat:
        if 0 <= i < x.size:
            x.reshape(-1)[i] += by
        i -= x.size
    return args, kw, total


def noise(rec, m, a, th):
    for n in (6, 9) if th else (6,):
        for wide in (False, True):
            if wide and m in ("hj", "mi3"):
                continue
            args, kw = request(m, a, n, noise=0)
            kw["k"] = 1
            if wide:
                args = tuple(np.stack([x, x[::-1] * 0.5], axis=1) for x in args)
                if "cond" in kw:
                    kw["cond"] = np.stack([kw["cond"], kw["cond"][::-1] * 0.5], axis=1)
            keep = cases.copy_tree((args, kw))
            base = {"measure": m, "approach": a, "n": n, "two-dimensional": wide}
            # switched off: nothing is drawn
            for off in (0, 0.0, *((None, False) if a == "metric" and m in SEEDED else ())):
                est = cases.create(m, a, args, {**kw, "noise_level": off})
                est.rng = OneBump(0)
                ok, got = rec.call({**base, "noise_level": off}, "without noise", est.result)
                rec.ev()
                rec.true(est.rng.n == 0, {**base, "noise_level": off}, 0, est.rng.n, "noise drawn although switched off")
            _, _, total = bump(args, kw, 0, 0)
            for level, by in ((0.125, 4), (0.5, 4), (0.25, -4)):
                exp, got = [], []
                for at in range(total):
                    a2, k2, _ = bump(args, kw, at, by * level)
                    exp.append(float(cases.create(m, a, a2, k2).result()))
                    est = cases.create(m, a, args, {**kw, "noise_level": level})
                    est.rng = OneBump(at, by)
                    ok, v = rec.call({**base, "noise_level": level, "draw": at}, "with noise", est.result)
                    if not ok:
                        return
                    got.append(float(v))
                    rec.ev()
                    rec.traces += 1
                    rec.outcome(v)
                    rec.node(m, a, n, wide, level, at)
                    rec.true(est.rng.n == total, {**base, "noise_level": level}, total, est.rng.n, "number of noise values")
                key = lambda v: (v != v, v)  # noqa: E731
                rec.close({**base, "noise_level": level}, sorted(exp, key=key), sorted(got, key=key),
                          "each value gets its own noise: single perturbed draws against single perturbed data",
                          rtol=1e-9, atol=1e-9)
            rec.true(cases.same_tree(keep, (args, kw)), base, "untouched data", "changed", "noise was added to the user's data")
    rec.sample({"measure": m, "approach": a})


def globals_untouched(rec, m, a):
    args, kw = request(m, a)
    keep = cases.copy_tree((args, kw))
    random_element = (a == "metric" and kw.get("noise_level")) or kw.get("noise_level")
    results = []
    for s in (5, 5, 6):
        np.random.seed(s)
        random.seed(s)
        before = snapshot()
        est = cases.create(m, a, args, kw)
        v = est.result()
        try:
            est.local_vals()
        except Exception:  # noqa: BLE001
            pass
        f = cases.FUNC[m](*args, approach=a, **kw)
        rec.ev()
        rec.traces += 1
        rec.node("globals", m, a, s)
        rec.true(snapshot() == before, (m, a), "untouched", "changed", "the global random state was changed")
        results += [float(v), float(f)]
    if not random_element:
        rec.true(all(equal((results[0],), (r,)) for r in results), (m, a), "one value", results,
                 "a deterministic measure is not reproducible")
        if hasattr(est, "rng"):
            est = cases.create(m, a, args, {**kw, **({"seed": 4} if m in SEEDED else {})})
            st = json.dumps(est.rng.bit_generator.state, default=str)
            est.result()
            rec.true(json.dumps(est.rng.bit_generator.state, default=str) == st, (m, a), "nothing drawn", "drawn",
                     "a deterministic measure draws random numbers")
    # the metric entropies add noise, but default noise must not matter beyond its size
    if a == "metric" and m in ("h", "hj", "hx"):
        vals = [float(cases.FUNC[m](*args, approach=a, k=2)) for _ in range(3)]
        ref = float(cases.FUNC[m](*args, approach=a, k=2, noise_level=0))
        for v in vals:
            rec.close((m, a, "default noise"), ref, v, "the default noise is not negligible", rtol=1e-6, atol=1e-6)
    rec.true(cases.same_tree(keep, (args, kw)), (m, a), "untouched data", "changed", "the data were changed")


CHILD = """
import sys, json
sys.path.insert(0, {verif!r})
from mc.core import setup_library
setup_library()
from checks import p19
print("DIGEST" + json.dumps(p19.digest()))
"""


def digest():
    out = {}
    for m, a in cases.combos():
        args, kw = request(m, a)
        if a == "nsb" and m not in ("h", "mi", "te"):
            continue
        if a == "metric" and m not in SEEDED:
            kw["noise_level"] = 0
        if m in SEEDED:
            est = cases.create(m, a, args, kw, seed=9)
            out[f"{m}/{a}"] = [repr(v) for v in perform(est, "value") + perform(est, "perm") + perform(est, "boot")]
        else:
            out[f"{m}/{a}"] = [repr(float(cases.create(m, a, args, kw).result()))]
    words = [w for w in ("pear", "fig", "apple", "kiwi", "lime", "plum", "fig", "pear", "lime")]
    other = words[3:] + words[:3]
    for a in ("discrete", "miller_madow", "grassberger", "chao_shen", "shrink", "bayes"):
        kw = {"alpha": 0.5} if a == "bayes" else {}
        out["words/" + a] = [
            repr(float(im.entropy(words, approach=a, **kw))),
            repr(float(im.mutual_information(words, other, approach=a, **kw))),
            repr(float(im.transfer_entropy(words, other, approach=a, **kw))),
        ]
    for a in ("discrete", "shrink", "bayes"):
        kw = {"alpha": 0.5} if a == "bayes" else {}
        out["words jsd/" + a] = [repr(float(im.jsd(words, other[:5], words[2:], approach=a, **kw)))]
        if a != "shrink":
            out["words kld/" + a] = [repr(float(im.kld(words, other, approach=a, **kw)))]
    return out


def process(rec, hash_seed):
    env = {**os.environ, "PYTHONHASHSEED": str(hash_seed), "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1"}
    out = subprocess.run([sys.executable, "-c", CHILD.format(verif=VERIF)], env=env, capture_output=True, text=True,
                         timeout=600)
    lines = [x for x in out.stdout.splitlines() if x.startswith("DIGEST")]
    if not lines:
        rec.violation({"hash seed": hash_seed}, "a digest of results", out.stderr[-600:], "new interpreter")
        return
    got = json.loads(lines[-1][6:])
    exp = digest()
    for k in exp:
        rec.ev()
        rec.traces += 1
        rec.node("process", hash_seed, k)
        x, y = [float(v) if v[0] not in "'\"" else v for v in exp[k]], [float(v) if v[0] not in "'\"" else v for v in got.get(k, [])]
        ok = len(x) == len(y) and all(u == v if isinstance(u, str) or isinstance(v, str) else
                                      (u != u and v != v) or abs(u - v) <= 1e-12 * max(1, abs(u)) for u, v in zip(x, y))
        rec.true(ok, {"hash seed": hash_seed, "request": k}, x, y, "another process gives another result")
