"""P23 - invariance under what must not matter."""

import array
import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, model
from mc.lib import H_KW, lcg, rgs

LEVEL = "model_checking"
RULE = (
    "group: the states are all sample streams over a small alphabet; the transitions are the "
    "generators of the symmetry group (swap of two neighbouring samples, of two variables, of "
    "two symbols). The library evaluates every state and the value must agree across every "
    "transition, which settles every element of the group. moves: on every stream injective "
    "renamings, translations, reflections, coordinate swaps and scalings. forms: every container, "
    "dtype and memory layout of the same values, at every argument position. Non-trivial: the "
    "transition leads to another stream."
)
ASSUMPTIONS = [
    "continuous coordinates are dyadic, so distances and ties are exact in every arrangement",
    "an undefined value (nan) has to stay undefined",
]
BOUNDS = {
    "quick": "one variable: 3-4 symbols, n <= 5; two: 2x3 symbols, n <= 4; three: 2x2x2, n <= 4 (3 for slow approaches)"
        "; every assignment of 12 types to the variables; moves on dependent series of 300, 1100 and 2500 samples",
    "thorough": "one variable n <= 7; two n <= 5; three n <= 5",
}
inf = math.inf
GRID = (0.0, 0.25, 1.0, 1.75, 4.0)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for m, a in cases.combos(("h", "hj", "hx", "mi", "mi3", "cmi")):
        out.append(("group", m, a, th))
    for m, a in cases.combos():
        parts = 4 if a in (*cases.CONT, "ordinal") else 1
        for i in range(parts):
            out.append(("moves", m, a, i, parts, th))
        out.append(("forms", m, a))
        out.append(("aliases", m, a))
        if a not in (*cases.CONT, "ordinal", "nsb"):
            out.append(("boundaries", m, a))
        if a not in cases.CONT and a != "ordinal" and m not in ("h", "hx"):
            out.append(("types", m, a))
    for m in ("jsd", "kld"):
        for a in cases.JSD if m == "jsd" else cases.HX:
            out.append(("forms", m, a))
            out.append(("aliases", m, a))
    for m, a in cases.combos():
        for n in (300, 1100) + ((2500,) if th or a not in cases.CONT else ()):
            if a != "nsb" or n == 300:
                out.append(("large", m, a, n))
    out.sort(key=lambda t: t[0] == "forms")
    return out


def kw_for(m, a):
    kw = dict(H_KW[a])
    if a in ("metric", "renyi", "tsallis"):
        kw["k"] = 1
    if a == "kernel":
        kw["bandwidth"] = 1.5
    if a in ("renyi", "tsallis") and m not in ("h", "hj", "hx"):
        kw["noise_level"] = 0
    return kw


def arr(a, s):
    if a in cases.CONT:
        return np.array([GRID[v] for v in s])
    return np.array(s, dtype=np.int64)


def value(rec, m, a, cols, kw, case):
    """The library's value; an exception is an outcome to be compared, too."""
    kw = dict(kw)
    if m == "hj":
        args = (tuple(cols),)
    elif m in ("cmi", "cte"):
        args, kw["cond"] = tuple(cols[:2]), cols[2]
    else:
        args = tuple(cols)
    try:
        if m in ("jsd", "kld"):
            v = cases.FUNC[m](*args, approach=a, **kw)
        else:
            v = cases.create(m, a, args, kw).result()
    except Exception as exc:  # noqa: BLE001
        return type(exc).__name__
    rec.traces += 1
    return float(v)


def agree(x, y, tol=1e-9):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if x != x or y != y:
        return x != x and y != y
    return x == y or abs(x - y) <= tol + tol * abs(x)


# --------------------------------------------------------------------------- group
def domain(m, a, th):
    """(alphabet sizes, lengths) explored for a measure and approach."""
    slow = a in ("nsb",)
    if m == "h":
        return (4 if a in cases.CONT else 3,), range(2, (8 if th else 6) - slow)
    if m in ("hj", "mi"):
        sizes = (3, 3) if a in cases.CONT else (2, 3)
        return sizes, range(2, (6 if th else 5) - slow - (a in cases.CONT and th))
    if m == "hx":
        return (3, 3), range(2, (6 if th else 5))
    return (2, 2, 2), range(2, (6 if th else 5) - slow)


def group(rec, m, a, th):
    kw = kw_for(m, a)
    sizes, lengths = domain(m, a, th)
    tol = 1e-6 if a == "nsb" else 1e-9
    for n in lengths:
        values = {}
        joint = list(itertools.product(*(range(k) for k in sizes)))
        if m == "hx":
            states = itertools.product(itertools.product(range(sizes[0]), repeat=n),
                                       itertools.product(range(sizes[1]), repeat=max(2, n - 1)))
        else:
            states = (tuple(zip(*rows)) for rows in itertools.product(joint, repeat=n))
        for st in states:
            if a in ("kernel", "metric", "renyi", "tsallis") and m != "hx" and len(set(zip(*st))) < 2:
                continue
            values[st] = value(rec, m, a, [arr(a, s) for s in st], kw, st)
        for st, v in values.items():
            rec.outcome(v)
            for label, to in generators(m, a, sizes, st):
                if to not in values:
                    continue
                rec.ev(to != st)
                rec.edge((n, st), label, (n, to))
                w = values[to]
                if not agree(v, w, tol):
                    rec.violation({"measure": m, "approach": a, "streams": st, "move": label, "to": to}, v, w,
                                  "the value changes under " + label[0])
        rec.sample({"measure": m, "approach": a, "n": n, "states": len(values)})


def swap(t, i, j):
    t = list(t)
    t[i], t[j] = t[j], t[i]
    return tuple(t)


def generators(m, a, sizes, st):
    ordered = a == "ordinal"
    if not ordered:
        if m == "hx":
            for v in range(2):
                for i in range(len(st[v]) - 1):
                    yield ("reordering of one sample", v, i), tuple(swap(s, i, i + 1) if w == v else s for w, s in enumerate(st))
        else:
            for i in range(len(st[0]) - 1):
                yield ("reordering of the samples", i), tuple(swap(s, i, i + 1) for s in st)
    if m in ("hj", "mi", "mi3"):
        for i in range(len(st) - 1):
            yield ("exchange of variables", i), swap(st, i, i + 1)
    elif m == "cmi":
        yield ("exchange of variables", 0), (st[1], st[0], st[2])
    if a not in cases.CONT and not ordered:
        for v in range(len(st)):
            if m == "hx" and v:
                break
            for x in range(sizes[v] - 1):
                ren = {x: x + 1, x + 1: x}
                yield ("exchange of two symbols", v, x), tuple(
                    tuple(ren.get(y, y) for y in s) if w == v or m == "hx" else s for w, s in enumerate(st)
                )


# --------------------------------------------------------------------------- moves
RENAME = {
    "negative": lambda v: -7 * v - 3,
    "huge": lambda v: (2**62 + 5 * v) * (-1) ** v,
    "reversed": lambda v: 90 - v,
    "permuted": lambda v: (4, 0, 9)[v],
    "fraction": lambda v: 0.1 * v - 0.3,
    "text": lambda v: ("pear", "Apple", "fig")[v],
    "float boundary": lambda v: 1.0 + v * 2.0**-52,
    "equal modulo 2^8": lambda v: 256 * v + 3,
    "equal modulo 2^32": lambda v: 2**32 * v - 5,
    "above 2^53": lambda v: 2**53 + v,
    "equal as integers": lambda v: (0.25, 0.5, -0.75)[v],
    "tiny": lambda v: v * 1e-300,
    "long text": lambda v: "a name with a long common prefix " + "xyz"[v],
    "alike when joined": lambda v: "a" * v,
    "alike with separators": lambda v: ("x", "x,x", "x,x,x")[v],
    "alike when weighted": lambda v: (499, 500, -500)[v],
    "alike when printed": lambda v: (1, 11, 111)[v],
}
TOGETHER = ("huge", "text", "alike when joined", "alike with separators", "alike when weighted", "alike when printed")


def few_streams(m, a, th):
    """Streams for the moves: all short ones, and two longer."""
    k = 4 if a in cases.CONT and m == "h" else 3 if m in ("h", "hj", "hx", "mi") else 2
    w = cases.WIDTH[m]
    if m in ("te", "cte"):
        n = 4 if w == 3 else 5
    else:
        n = {1: 5, 2: 3, 3: 3}[w] + (1 if th else 0)
    if a == "nsb":
        n = min(n, 4 if w == 1 else 3)
        if m in ("te", "cte"):
            n = 3
    one = list(itertools.product(range(k), repeat=n))
    if a not in cases.CONT and a != "ordinal":
        one = list(rgs(n, k))  # one stream of each renaming class
    for st in itertools.product(one, repeat=w):
        yield st
    long = ((0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0, 0, 1), (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2, 1, 0),
            (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0, 1, 1))
    yield long[:w]
    yield tuple(s[3:] for s in long[:w])


TYPES = {
    "int": lambda v: np.array(v),
    "int8": lambda v: np.array([5 - 3 * x for x in v], dtype=np.int8),
    "uint64": lambda v: np.array([2**63 + x for x in v], dtype=np.uint64),
    "int64 huge": lambda v: np.array([2**60 + x for x in v], dtype=np.int64),
    "int64 negative": lambda v: np.array([-(2**53) - x for x in v], dtype=np.int64),
    "float": lambda v: np.array([1.0 + x * 2.0**-52 for x in v]),
    "float32": lambda v: np.array([x / 3 for x in v], dtype=np.float32),
    "text": lambda v: np.array([("10", "9", "1")[x] for x in v]),
    "list": lambda v: [2**53 + x for x in v],
}


def types(rec, m, a):
    """Every assignment of types to the variables: joining them must not merge symbols."""
    kw = kw_for(m, a)
    w = cases.WIDTH[m]
    long = ((0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0, 0, 1), (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2, 1, 0),
            (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0, 1, 1))
    names = list(TYPES) if w < 3 else [t for t in TYPES if t not in ("int64 negative", "float32", "int8")]
    if a == "nsb":
        names = ["uint64", "int64 huge", "text"][: 4 - w + 1]
    for st in (long[:w], tuple(s[2:9] for s in long[:w])):
        hist = [{}]
        if m in ("te", "cte"):
            hist += [{"src_hist_len": 2, "dest_hist_len": 2}] if a != "nsb" else []
        for more in hist:
            v = value(rec, m, a, [np.array(s) for s in st], {**kw, **more}, None)
            rec.outcome(v)
            for kinds in itertools.product(names, repeat=w):
                rec.ev(len(set(kinds)) > 1)
                rec.edge((m, a, st), kinds, (m, a, st, kinds))
                got = value(rec, m, a, [TYPES[k](s) for k, s in zip(kinds, st)], {**kw, **more}, None)
                if not agree(v, got, 1e-6 if a == "nsb" else 1e-9):
                    rec.violation({"measure": m, "approach": a, "streams": st, "types": kinds, **more}, v, got,
                                  "the value depends on the types of the symbols")
    rec.sample({"measure": m, "approach": a, "types": len(names)})


def moves(rec, m, a, part, parts, th):
    kw = kw_for(m, a)
    tol = 1e-6 if a == "nsb" else 1e-9
    for j, st in enumerate(few_streams(m, a, th)):
        if j % parts != part:
            continue
        cols = [arr(a, s) for s in st]
        case = {"measure": m, "approach": a, "streams": st}
        if a in cases.CONT:
            if len(set(zip(*st))) < 2:
                continue
            continuous(rec, m, a, cols, kw, case)
        elif a == "ordinal":
            monotone(rec, m, a, cols, kw, case)
        else:
            v = value(rec, m, a, cols, kw, case)
            rec.node(m, a, st)
            for name, f in RENAME.items():
                maps = [range(len(st))]
                if m != "hx" and len(st) > 1:
                    maps = maps if name[:5] == "alike" else [[w] for w in range(len(st))] + (maps if name in TOGETHER else [])
                for which in maps:
                    new = [np.array([f(int(x)) for x in c]) if w in which else c for w, c in enumerate(cols)]
                    rec.ev()
                    got = value(rec, m, a, new, kw, case)
                    if not agree(v, got, tol):
                        rec.violation({**case, "renaming": name, "variables": list(which)}, v, got,
                                      "the value changes under an injective renaming")
            rec.outcome(v)
    rec.sample({"measure": m, "approach": a})


def monotone(rec, m, a, cols, kw, case):
    v = value(rec, m, a, cols, kw, case)
    rec.node(m, a, case["streams"])
    maps = (("exp", lambda x: np.exp(x * 1.0)), ("cube", lambda x: (x - 1.0) ** 3), ("huge", lambda x: x * 2**60),
            ("shift", lambda x: x - 100))
    for j, (name, f) in enumerate(maps):
        for which in [[w] for w in range(len(cols))] if len(cols) < 3 else [[j % 3]]:
            rec.ev()
            got = value(rec, m, a, [f(c) if w in which else c for w, c in enumerate(cols)], kw, case)
            if not agree(v, got):
                rec.violation({**case, "map": name, "variables": which}, v, got, "the value changes under a monotone map")


def continuous(rec, m, a, cols, kw, case):
    configs = [kw]
    if a == "metric":
        configs += [{**kw, "minkowski_p": 2.0}, {**kw, "k": 2}]
    if a == "kernel":
        configs += [{**kw, "kernel": "gaussian", "bandwidth": 0.75}]
    n = len(cols[0])
    for kw in configs:
        if a in ("metric", "renyi", "tsallis") and kw["k"] > n - 2 - (m in ("te", "cte")):
            continue
        if kw.get("kernel") == "gaussian" and not regular(m, a, cols):
            continue  # a density of rank-deficient data is decided by rounding
        c = {**case, "arguments": {k: kw[k] for k in kw if k in ("k", "minkowski_p", "kernel")}}
        v = value(rec, m, a, cols, kw, c)
        rec.node(m, a, case["streams"], c["arguments"])
        rec.outcome(v)
        euclid = a in ("renyi", "tsallis") or kw.get("minkowski_p") == 2.0 or kw.get("kernel") == "gaussian"
        tol = 1e-7 if euclid else 1e-9

        def expect(move, new, exp, kw2=kw):
            rec.ev()
            got = value(rec, m, a, new, kw2, c)
            if not agree(exp, got, tol):
                rec.violation({**c, "move": move}, exp, got, "the value changes under a " + move[0])

        sets = [range(len(cols))] if m == "hx" else [[w] for w in range(len(cols))]
        for which in sets:
            which = list(which)
            for t in (8.0, -16.5):
                expect(("translation", t, which), [x + t if w in which else x for w, x in enumerate(cols)], v)
            expect(("reflection", which), [-x if w in which else x for w, x in enumerate(cols)], v)
        # scaling of all variables (and of the box) by a power of two; distinct values, as
        # the zero distances of repeated points have no logarithm to shift
        if a != "kernel":
            here = [x + np.array([((5 + 2 * j) * i + 3 * j) % 17 for i in range(n)]) / 128 + j / 1024 for j, x in enumerate(cols)]
            c = {**c, "jitter": True}
            v = value(rec, m, a, here, kw, c)
        else:
            here = cols
        dims = {"h": 1, "hj": len(cols), "hx": 1}.get(m)
        for f in (2.0, 0.25, 2.0**-30, 2.0**40) if len(case["streams"][0]) > 5 or self_scaled(case) else (2.0, 0.25):
            kw2 = dict(kw)
            if a == "kernel" and kw["kernel"] == "box":
                kw2["bandwidth"] = kw["bandwidth"] * f
            new = [x * f for x in here]
            if dims is None:
                if a != "tsallis":
                    expect(("common scaling", f), new, v, kw2)
            elif a in ("metric", "renyi", "kernel") and not isinstance(v, str):
                if m == "hx" and kw.get("kernel") == "box" and any(
                    min(abs(y - x) for y in cols[1]) > kw["bandwidth"] / 2 for x in cols[0]
                ):
                    continue  # a zero density has no logarithm to shift
                expect(("scaling", f), new, v + dims * math.log(f), kw2)
        if m == "h":  # coordinates of one two-dimensional variable
            other = np.array([(3 * i % n) * 0.5 for i in range(n)])
            for new in ([np.stack([cols[0], other], axis=1)], ):
                w = value(rec, m, a, new, kw, c)
                rec.ev()
                got = value(rec, m, a, [new[0][:, ::-1]], kw, c)
                if not agree(w, got, tol):
                    rec.violation({**c, "move": "coordinate swap"}, w, got, "the value changes under a swap of coordinates")


def self_scaled(case):
    """One stream of many gets the far scales, too."""
    return sum((i + 1) * v for s in case["streams"] for i, v in enumerate(s)) % 7 == 0


def regular(m, a, cols):
    """Do the samples span the joint space?"""
    if m in ("h", "hx"):
        return all(len(set(c.tolist())) > 1 for c in cols)
    if m in ("te", "cte"):
        parts = model.te_parts(a, {}, *cols)
        cols = [np.array(p)[:, i] for p in parts if p is not None for i in range(len(p[0]))]
    mat = np.cov(np.stack([np.asarray(c, dtype=float) for c in cols]))
    return abs(np.linalg.det(np.atleast_2d(mat))) > 1e-6


# --------------------------------------------------------------------------- large
BIG = {
    "negative": lambda x: -7 * x - 3,
    "huge": lambda x: (x + 1) * 2**50 * (1 - 2 * (x % 2)),
    "scattered": lambda x: (x * 37 + 11) % 257,
    "fraction": lambda x: 0.1 * x - 0.3,
    "text": lambda x: np.array([f"name {v}" for v in x]),
    "float boundary": lambda x: 1.0 + x * 2.0**-52,
    "equal modulo 2^8": lambda x: 256 * x + 3,
    "equal modulo 2^32": lambda x: 2**32 * x - 5,
    "equal as integers": lambda x: x / 256.0,
    "tiny": lambda x: x * 1e-300,
    "alike when joined": lambda x: np.array(["a" * v for v in x]),
    "int16": lambda x: x.astype(np.int16),
}


def big(m, a, n):
    """Dependent long series: symbols, or distinct dyadic coordinates."""
    cols = []
    for j in range(cases.WIDTH[m]):
        if a in cases.CONT:
            u = np.array(lcg(5 + 3 * j, n, 2**20)) + (cols[0] * 2**14 if j else 0)
            cols.append(np.argsort(np.argsort(u, kind="stable"), kind="stable") / 64.0 + 0.0)
        elif a == "ordinal":
            cols.append(np.array(lcg(5 + 3 * j, n, 1000)) + (cols[0] // 2 if j else 0))
        else:
            k = {300: 6, 1100: 90, 2500: 12}[n]
            x = np.array(lcg(5 + 3 * j, n, k)) * np.array(lcg(50 + 3 * j, n, 2))
            cols.append((x + cols[0] * (x % 3 > 0)) % k if j else x)
    return cols


def large(rec, m, a, n):
    """The same moves on long series."""
    slow = a in ("kernel", "renyi", "tsallis", "nsb")
    tol = 1e-6 if a == "nsb" else 1e-7 if a in cases.CONT else 1e-9
    configs = [{}]
    if m in ("te", "cte") and a != "nsb":
        configs.append({"src_hist_len": 2, "dest_hist_len": 2, **({"cond_hist_len": 2} if m == "cte" else {})})
    if a == "kernel":
        configs.append({"kernel": "gaussian", "bandwidth": 0.75})
    if a == "metric" and m not in ("te", "cte"):
        configs.append({"k": 7, "minkowski_p": 2.0})
    cols = big(m, a, n)
    for more in configs:
        kw = {**kw_for(m, a), **more}
        if a in ("metric", "renyi", "tsallis") and "k" not in more:
            kw["k"] = 4
        case = {"measure": m, "approach": a, "n": n, "arguments": more}
        v = value(rec, m, a, cols, kw, case)
        rec.node("large", m, a, n, more)
        rec.outcome(v)
        if not rec.true(not isinstance(v, str), case, "a value", v, "a long series is refused"):
            continue

        def expect(move, new, exp=None, kw2=kw, case=case, v=v):
            rec.ev()
            got = value(rec, m, a, new, kw2, case)
            if not agree(v if exp is None else exp, got, tol):
                rec.violation({**case, "move": move}, v if exp is None else exp, got, "the value changes under " + str(move))

        if m not in ("te", "cte") and a != "ordinal":
            orders = {"reversal": np.arange(n)[::-1], "sorting": np.argsort(cols[0], kind="stable"),
                      "a shuffle": np.arange(n) * 7 % n if n % 7 else np.arange(n) * 9 % n}
            for name, o in list(orders.items())[: 1 if a == "nsb" else None]:
                assert len(set(o.tolist())) == n
                for which in ([[0], [1]] if m == "hx" else [range(len(cols))]):
                    expect((name, list(which)), [c[o] if w in which else c for w, c in enumerate(cols)])
        if m in ("mi", "hj", "cmi", "mi3"):
            expect("exchange of the first two variables", [cols[1], cols[0], *cols[2:]])
        if m in ("hj", "mi3") and len(cols) > 2:
            expect("exchange of the last two variables", [cols[0], cols[2], cols[1]])
        if a in cases.CONT:
            for w in range(len(cols)):
                which = range(len(cols)) if m == "hx" else [w]
                if m == "hx" and w:
                    break
                expect(("translation", w), [c + 1024.0 if i in which else c for i, c in enumerate(cols)])
                expect(("reflection", w), [-c if i in which else c for i, c in enumerate(cols)])
            if m not in ("h", "hj", "hx") and a != "tsallis" and not slow:
                expect("common scaling", [c * 8.0 for c in cols])
            if m in ("h", "hj", "hx") and a in ("metric", "renyi"):
                expect("scaling", [c * 8.0 for c in cols], v + (len(cols) if m == "hj" else 1) * math.log(8.0))
            if a == "kernel" and kw.get("kernel") == "box":
                kw2 = {**kw, "bandwidth": kw["bandwidth"] * 8}
                exp = v + (len(cols) if m == "hj" else 1) * math.log(8.0) if m in ("h", "hj", "hx") else None
                expect("scaling with the bandwidth", [c * 8.0 for c in cols], exp, kw2)
        elif a == "ordinal":
            for w in range(len(cols)):
                expect(("a monotone map", w), [c**3 if i == w else c for i, c in enumerate(cols)])
                expect(("a shift", w), [c - 5000 if i == w else c for i, c in enumerate(cols)])
                expect(("a rational map", w), [-1.0 / (c + 1) if i == w else c for i, c in enumerate(cols)])
        else:
            for j, (name, f) in enumerate(BIG.items()):
                for w in range(len(cols)):
                    if m == "hx" and w or a == "nsb" and j % len(cols) != w:
                        continue
                    which = range(len(cols)) if m == "hx" else [w]
                    expect((name, list(which)), [f(c) if i in which else c for i, c in enumerate(cols)])
                if m != "hx" and name in ("huge", "text", "alike when joined") and len(cols) > 1 and a != "nsb":
                    expect((name, "all"), [f(c) for c in cols])
    rec.sample({"measure": m, "approach": a, "n": n})


# --------------------------------------------------------------------------- forms
ST = (
    (0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0, 0, 1),
    (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2, 1, 0),
    (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0, 1, 1),
)


def ro(x):
    x = np.array(x)
    x.setflags(write=False)
    return x


def padded(x):
    buf = np.full(3 * len(x) + 2, 77, dtype=x.dtype)
    buf[1 : 1 + 3 * len(x) : 3] = x
    return buf[1 : 1 + 3 * len(x) : 3]


def offset_bytes(x):
    """A view that is not aligned to its item size."""
    raw = np.zeros(x.nbytes + 1, dtype=np.uint8)
    v = raw[1:].view(x.dtype)
    v[:] = x
    return v


FORMS = {
    "list": lambda x: x.tolist(),
    "list of numpy scalars": lambda x: list(x),
    "read-only": ro,
    "every third item of a buffer": padded,
    "reversed twice": lambda x: np.array(x[::-1])[::-1],
    "unaligned": offset_bytes,
    "big endian": lambda x: x.astype(x.dtype.newbyteorder(">")),
    "little endian": lambda x: x.astype(x.dtype.newbyteorder("<")),
    "float64": lambda x: x.astype(np.float64),
    "float32": lambda x: x.astype(np.float32),
    "column of a matrix": lambda x: np.stack([x + 1, x, x * 2], axis=1)[:, 1],
    "row of a Fortran matrix": lambda x: np.asfortranarray(np.stack([x + 1, x, x * 2]))[1],
    "subclass": lambda x: x.view(Sub),
}
INT_FORMS = {
    "int8": lambda x: x.astype(np.int8),
    "uint8": lambda x: x.astype(np.uint8),
    "uint64": lambda x: x.astype(np.uint64),
    "int32": lambda x: x.astype(np.int32),
    "list of floats": lambda x: [float(v) for v in x],
    "int16 big endian": lambda x: x.astype(">i2"),
}
FLOAT_FORMS = {
    "float16": lambda x: x.astype(np.float16),
}


class Sub(np.ndarray):
    pass


def boundaries(rec, m, a):
    """Symbols at and beyond the limits of every integer type."""
    kw = kw_for(m, a)
    w = cases.WIDTH[m]
    long = ((0, 1, 1, 2, 0, 2, 1, 0, 2, 2, 1, 0, 0, 1), (1, 2, 0, 0, 1, 1, 2, 0, 1, 0, 2, 2, 1, 0),
            (0, 0, 1, 2, 1, 0, 2, 1, 1, 0, 2, 0, 1, 1))
    v = value(rec, m, a, [np.array(s) for s in long[:w]], kw, None)
    rec.outcome(v)
    for e in (*range(1, 64),):
        for name, sym in (
            ("zero and the power", (0, 2**e, 1)), ("around the power", (2**e - 1, 2**e, 2**e + 1)),
            ("zero and one below", (0, 2**e - 1, 2 ** (e - 1))), ("both signs", (-(2**e), 2**e, 0)),
            ("negative power", (-(2**e), -(2**e) - 1, 0)), ("two powers", (2**e, 2 ** (e - 1), 2 ** max(e - 2, 0) - 1)),
        ):
            if len(set(sym)) < 3 or any(abs(x) > 2**63 - 1 for x in sym) and min(sym) < 0 or max(sym) > 2**64 - 1:
                continue
            dt = np.uint64 if max(sym) > 2**63 - 1 else np.int64
            for which in ([list(range(w))] if m == "hx" else [[0], list(range(w))] if w > 1 else [[0]]):
                if len(which) > 1 and m != "hx" and e % 8 > 1 and e < 62:
                    continue
                new = [np.array([sym[x] for x in s], dtype=dt) if j in which else np.array(s) for j, s in enumerate(long[:w])]
                rec.ev()
                rec.edge((m, a), (name, e, which), (m, a, name, e, which))
                got = value(rec, m, a, new, kw, None)
                if not agree(v, got):
                    rec.violation({"measure": m, "approach": a, "symbols": sym, "variables": which}, v, got,
                                  "the value depends on the size of the symbols")
    rec.sample({"measure": m, "approach": a})


def aliases(rec, m, a):
    """One object or overlapping memory in several arguments counts for its values."""
    width = {"jsd": 2, "kld": 2}.get(m) or cases.WIDTH[m]
    kw = kw_for("h" if m in ("jsd", "kld") else m, a)
    tol = 1e-6 if a == "nsb" else 1e-9
    for n in (8, 16, 30, 42) if a != "nsb" else (8,):
        buf = np.array(lcg(n, n + 3, 3 if a not in (*cases.CONT, "ordinal") else 30))
        if a in cases.CONT:
            buf = buf * 1.0 + np.arange(n + 3) / 128
        if a in ("metric", "renyi", "tsallis"):
            kw["k"] = 2
        one, other = buf[:n], np.roll(buf, 5)[:n].copy()
        variants = {"two arguments are one object": [one] * min(width, 2) + [other] * (width - 2)}
        if width == 3:
            variants["all arguments are one object"] = [one] * 3
            variants["the first and the last are one object"] = [one, other, one]
            variants["the last two are one object"] = [other, one, one]
        if width > 1:
            variants["overlapping windows"] = [buf[i : i + n] for i in range(width)]
            variants["opposite directions"] = [buf[:n], buf[:n][::-1], buf[1 : n + 1]][:width]
            variants["columns of one matrix"] = list(np.stack([one, other, one[::-1]], axis=1).T)[:width]
        if a in cases.CONT or a not in ("ordinal",):
            z = one * 1.0
            z[z == z[0]] = 0.0
            s = z.copy()
            s[1::2][s[1::2] == 0] = -0.0
            s[0] = -0.0
            variants["zeros of both signs"] = [s] + [other] * (width - 1)
            if a != "ordinal" and m != "jsd":
                pair = np.stack([s, other], axis=1)
                variants["zeros of both signs, pairs"] = [pair] + [other] * (width - 1)
                variants["zeros of both signs, all pairs"] = [pair] * width
        hist = [{}] + ([{"src_hist_len": 2, "step_size": 2}] if m in ("te", "cte") and a != "nsb" else [])
        # equal bytes of different types are different values
        flt = (one - 10.5) * (1.0 if a in cases.CONT else 0.25) if a != "nsb" else one + 0.5
        views = [flt, flt.view(np.int64), flt.view(np.uint64)]
        for order in ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
            variants[f"equal bytes {order}"] = [views[i] for i in order][:width]
        small = np.array(lcg(n + 1, n, 3), dtype=np.int8) - np.int8(1)
        if a in cases.CONT:
            small = (small * 40 + np.arange(n)).astype(np.int8)
        views = [small, small.view(np.uint8), np.stack([small, small[::-1]], axis=1)[:, 0]]
        variants["equal small bytes"] = views[:width]
        variants["equal small bytes, reversed"] = views[:width][::-1]
        if a != "ordinal" and m not in ("jsd", "te", "cte"):
            sq = np.array(lcg(n + 2, n * 2, 3)).reshape(n, 2) * (1.0 if a in cases.CONT else 1)
            if a in cases.CONT:
                sq = sq + np.arange(2 * n).reshape(n, 2) / 64
            variants["one memory, two layouts"] = [sq, sq.ravel().reshape(2, n).T, sq[::-1]][:width]
        for more in hist:
            for name, cols in variants.items():
                case = {"measure": m, "approach": a, "n": n, "arguments": name, **more}
                # separate arrays; adding zero drops the sign of a zero
                copies = [np.array(c, copy=True) + (0.0 if name[:5] == "zeros" and c.dtype.kind == "f" else 0) for c in cols]
                if name[:5] == "equal":
                    copies = [c.astype(float) for c in copies]
                keep = cases.copy_tree(tuple(cols))
                exp = value(rec, m, a, copies, {**kw, **more}, case)
                got = value(rec, m, a, cols, {**kw, **more}, case)
                rec.ev()
                rec.node("alias", m, a, n, name, more)
                rec.outcome(exp)
                if not agree(exp, got, tol):
                    rec.violation(case, exp, got, "the identity of the argument matters")
                rec.true(cases.same_tree(keep, tuple(cols)), case, "unchanged", "changed", "the data were modified")
    rec.sample({"measure": m, "approach": a})


def forms(rec, m, a):
    width = {"jsd": 2, "kld": 2}.get(m) or cases.WIDTH[m]
    cont = a in cases.CONT
    kw = kw_for("h" if m in ("jsd", "kld") else m, a)
    if a in ("metric", "renyi", "tsallis"):
        kw["k"] = 2
    if cont:  # dyadic, distinct, exact also in float16
        cols = [np.array([s + (((5 + 2 * j) * i + j) % 16) / 32 for i, s in enumerate(ST[j])]) for j in range(width)]
    else:
        cols = [np.array(s, dtype=np.int64) for s in ST[:width]]
    case = {"measure": m, "approach": a}
    exp = value(rec, m, a, cols, kw, case)
    rec.true(not isinstance(exp, str), case, "a value", exp, "reference request")
    table = {**FORMS, **(FLOAT_FORMS if cont else INT_FORMS)}
    many = [[w] for w in range(width)] + ([list(range(width))] if width > 1 else [])
    for name, f in table.items():
        for which in many:
            rec.ev()
            rec.node(m, a, name, which)
            new = [f(c) if w in which else c for w, c in enumerate(cols)]
            got = value(rec, m, a, new, kw, case)
            if not agree(exp, got, 1e-6 if a == "nsb" else 1e-9):
                rec.violation({**case, "form": name, "variables": which}, exp, got, "the container or dtype matters")
    # two different forms at once
    names = list(table)
    if width > 1:
        for i, f in enumerate(names):
            g = names[(i + 3) % len(names)]
            rec.ev()
            new = [table[f](cols[0]), table[g](cols[1])] + cols[2:]
            got = value(rec, m, a, new, kw, case)
            if not agree(exp, got, 1e-6 if a == "nsb" else 1e-9):
                rec.violation({**case, "forms": [f, g]}, exp, got, "the container or dtype matters")
    if a == "ordinal" or m in ("hj", "hx", "jsd", "kld") or (m, a) == ("cmi", "miller_madow"):
        return
    # matrices: samples with two coordinates
    wide = [np.stack([c, np.roll(c, 3)], axis=1) for c in cols]
    exp = value(rec, m, a, wide, kw, case)
    rec.true(not isinstance(exp, str), {**case, "samples": "pairs"}, "a value", exp, "reference request")
    shapes = {
        "Fortran": np.asfortranarray,
        "nested list": lambda x: x.tolist(),
        "list of rows": lambda x: list(x),
        "transposed": lambda x: np.ascontiguousarray(x.T).T,
        "read-only": ro,
        "columns of a wider matrix": lambda x: np.concatenate([x + 1, x, x], axis=1)[:, 2:4],
        "every second row": lambda x: np.repeat(x, 2, axis=0)[::2],
        "reversed twice": lambda x: np.array(x[::-1, ::-1])[::-1, ::-1],
        "big endian": lambda x: x.astype(x.dtype.newbyteorder(">")),
    }
    for name, f in shapes.items():
        for which in many:
            if (m, a) == ("cmi", "discrete") and "list" in name and 2 in which:
                continue  # a joint condition is documented as a tuple or a matrix
            rec.ev()
            rec.node(m, a, name, which, 2)
            new = [f(c) if w in which else c for w, c in enumerate(wide)]
            got = value(rec, m, a, new, kw, case)
            if not agree(exp, got, 1e-6 if a == "nsb" else 1e-9):
                rec.violation({**case, "matrix": name, "variables": which}, exp, got, "the container or dtype matters")
