"""P05 - discrete mutual information of two or more variables."""

import itertools
import math
from collections import Counter

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.lib import ENCODINGS, lcg, lnb, long_streams, rgs, sequences

LEVEL = "model_checking"
RULE = (
    "breadth-first exploration of paired sample streams (up to renaming of the first "
    "variable's symbols): a state is the paired stream, a transition appends one sample "
    "of every variable, the model is the joint histogram, each trace is replayed on the "
    "real estimators (plug-in and Miller-Madow). Non-trivial: two non-constant variables."
)
ASSUMPTIONS = ["floating point agreement within 1e-9"]
BOUNDS = {
    "quick": "2 variables: <=3x3 symbols to length 5; 3 variables: binary to length 4 and "
    "one ternary to 3; 4 variables binary to 3; offsets -4..4; encodings; larger grids; 2x2 tables with cells 0, 1, 20000, 70000 and 2x2x2 tables with cells 0, 70000"
        "; offsets on long series"
    "; MI of 5 to 12 variables"
        "; symbols at every type limit, aliased arguments",
    "thorough": "2 variables: <=4x3 symbols to length 6; 3 binary to 5; 4 binary to 4; "
    "5 binary to 3; larger grids",
}


MANYVARS = (('discrete', ('mi',)), ('miller_madow', ('mi',)))

# moves of P23 that must not matter here either
SHARED = [(kind, m, a) for kind in ("boundaries", "aliases", "types") for m, a in cases.combos(("mi", "mi3"), ("discrete", "miller_madow"))]


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for n in range(1, 7 if th else 6):
        for x in rgs(n, 4 if th else 3):
            out.append(("pairs", x, 3))
    for n in range(1, 6 if th else 5):
        for x in rgs(n, 3):
            out.append(("multi", x, (2, 2)))
    for n in range(1, 5 if th else 4):
        for x in rgs(n, 3):
            out.append(("multi", x, (2, 2, 2)))
            out.append(("multi", x, (3, 2)))
    if th:
        for n in range(1, 4):
            for x in rgs(n, 2):
                out.append(("multi", x, (2, 2, 2, 2)))
    for enc in ENCODINGS:
        out.append(("encodings", enc, 5 if th else 4))
    for n in range(2, 7 if th else 6):
        out.append(("offsets", n))
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        out.append(("multidim", n))
    for n in (50, 127, 128, 200, 255, 256, 257, 1000, 4000) + ((20000,) if th else ()):
        for nv in (2, 3, 4, 6, 8):
            if n > 1000 and nv > 4 and n != 4000:
                continue
            out.append(("large", n, nv))
    out.append(("bases",))
    for o in (0, 1, -1, 1000, -70001):
        out.append(("longoffset", o))
    for a in CELLS:
        out.append(("tables", a, (2, 2)))
    for a in itertools.product((0, 70000), repeat=2):
        out.append(("tables", a, (2, 2, 2)))
    out += [("crowd", "mi", a, n) for a in ("discrete", "miller_madow") for n in ((40000, 90001, 200001) if th else (90001,))]
    for a, ms in MANYVARS:
        out += [("manyvars", *t) for t in many.tasks(a, ms, tier == "thorough")]
    return chunk(out)


def crowd(rec, *task):
    many.crowd(rec, *task)


def manyvars(rec, *task):
    many.run(rec, *task)


CELLS = (0, 1, 20000, 70000)


def tables(rec, first, shape):
    """Contingency tables with cells beyond 16 bits, whose products are beyond 32 bits."""
    cells = list(itertools.product(*map(range, shape)))
    first = first if isinstance(first, tuple) else (first,)
    values = CELLS if len(shape) == 2 else (0, 70000)
    for j, rest in enumerate(itertools.product(values, repeat=len(cells) - len(first))):
        counts = first + rest
        n = sum(counts)
        if not n:
            continue
        rec.hist_state(counts, shape)
        joint = {c: v for c, v in zip(cells, counts) if v}
        marg = [Counter() for _ in shape]
        for c, v in joint.items():
            for m, x in zip(marg, c):
                m[x] += v
        plug = sum(map(ref.h_discrete, marg)) - ref.h_discrete(joint)
        corr = (sum(map(len, marg)) - len(shape) - len(joint) + 1) / (2 * n)
        data = [np.repeat([c[i] for c in cells], counts) for i in range(len(shape))]
        firsts = [sum(counts[:i]) for i, v in enumerate(counts) if v]
        local = [math.log(v / n) - sum(math.log(m[x] / n) for m, x in zip(marg, c)) for c, v in joint.items()]
        for approach, add in (("discrete", 0.0), ("miller_madow", corr)):
            case = {"table": counts, "shape": shape, "approach": approach}
            ok, est = rec.call(case, "MI", im.estimator, *data, measure="mi", approach=approach)
            if not ok:
                continue
            ok, got = rec.call(case, "MI", est.result)
            if ok:
                rec.ev(plug > 1e-9)
                rec.traces += 1
                rec.outcome(got)
                rec.close(case, plug + add, got, "MI of a large table differs from the entropies")
            if len(joint) > 3 and j % 4:
                continue
            ok, loc = rec.call(case, "local MI", est.local_vals)
            if ok:
                rec.close(case, [v + add for v in local], np.asarray(loc)[firsts], "local MI of a large table")
    rec.sample({"first": first, "shape": shape})


def chunk(tasks, n=64):
    """Bundle small tasks so that the pool is evenly loaded."""
    small = [t for t in tasks if t[0] in ("pairs", "multi")]
    return [("bundle", small[i::n]) for i in range(n)] + [
        t for t in tasks if t not in small
    ]


def bundle(rec, items):
    for t in items:
        globals()[t[0]](rec, *t[1:])


def expected(approach, cols):
    return ref.mi_of(approach, cols)


def exp_local(approach, cols):
    n = len(cols[0])
    joint = ref.rows(*cols)
    hj = ref.hist(joint)
    marg = [ref.hist(ref.rows(c)) for c in cols]
    out = []
    for i in range(n):
        v = math.log(hj[joint[i]] / n)
        for c, m in zip(cols, marg):
            v -= math.log(m[ref.rows(c)[i]] / n)
        out.append(v)
    if approach == "miller_madow":
        corr = (sum(len(m) for m in marg) - len(cols) - len(hj) + 1) / (2 * n)
        out = [v + corr for v in out]
    return out


def one(
    rec,
    cols,
    data,
    case,
    base="e",
    approaches=("discrete", "miller_madow"),
    local=True,
    rtol=1e-9,
    **kw,
):
    nontriv = sum(len(set(map(str, c))) > 1 for c in cols) > 1
    for approach in approaches:
        c = {**case, "approach": approach}
        ok, est = rec.call(
            c,
            "MI",
            im.estimator,
            *data,
            measure="mi",
            approach=approach,
            base=base,
            **kw,
        )
        if not ok:
            continue
        ok, got = rec.call(c, "MI", est.result)
        if not ok:
            continue
        exp = expected(approach, cols) / lnb(base)
        rec.ev(nontriv)
        rec.outcome(got)
        rec.traces += 1
        rec.close(
            c, exp, got, f"{approach} MI differs from sum of H(Xi) - H(joint)", rtol
        )
        if approach == "discrete":
            hs = sorted(ref.h_discrete(ref.hist(ref.rows(v))) / lnb(base) for v in cols)
            rec.true(
                -1e-9 <= got <= sum(hs[:-1]) + 1e-9,
                c,
                ["0 <= MI <= sum of all but the largest entropy", sum(hs[:-1])],
                got,
                "MI out of bounds",
            )
        if local:
            ok, loc = rec.call(c, "MI local values", est.local_vals)
            if ok:
                rec.close(
                    c,
                    [v / lnb(base) for v in exp_local(approach, cols)],
                    loc,
                    f"{approach} local MI differs",
                    rtol,
                )


def pairs(rec, x, ky):
    n = len(x)
    for y in sequences(ky, n):
        rec.hist_state(x, y)
        one(rec, [x, y], [list(x), np.array(y)], {"x": x, "y": y}, local=n <= 4)
        if n > 4:
            continue
        ok, a = rec.call({"x": x, "y": y}, "MI", im.mi, y, x, approach="discrete")
        if ok:
            rec.close(
                {"x": y, "y": x}, expected("discrete", [x, y]), a, "MI is not symmetric"
            )
    rec.sample({"x": x})


def multi(rec, x, alph):
    n = len(x)
    for rest in itertools.product(*[sequences(a, n) for a in alph]):
        cols = [x, *rest]
        rec.hist_state(*cols)
        one(
            rec,
            cols,
            [np.array(c) for c in cols],
            {"vars": cols},
            local=n <= 2 or n == 3 and len(alph) == 2,
            approaches=("discrete", "miller_madow") if n <= 3 else ("discrete",),
        )
    rec.sample({"x": x, "alphabets": alph})


def encodings(rec, enc, nmax):
    f = ENCODINGS[enc]
    for n in range(1, nmax + 1):
        for x in rgs(n):
            for y in rgs(n):
                rec.hist_state(x, y)
                case = {"x": x, "y": y, "enc": enc}
                one(rec, [x, y], [f(x), f(y)], case)
                one(rec, [x, y], [f(x), list(y)], {**case, "mixed": 1}, local=False)
                if n <= 3:
                    z = tuple(reversed(x))
                    one(rec, [x, y, z], [f(x), f(y), f(z)], {**case, "z": z})
    for n, k, (x, y, z) in long_streams(3):
        case = {"lcg": (n, k), "enc": enc}
        rec.hist_state(x, y)
        one(rec, [x, y], [f(x), f(y)], case, local=n < 70)
        one(rec, [x, y, z], [f(x), np.array(y), f(z)], {**case, "three": 1}, local=n < 70)
        if isinstance(f(x), np.ndarray):
            one(rec, [list(zip(x, z)), y], [np.column_stack([f(x), f(z)]), f(y)], {**case, "pairs": 1}, local=n < 70)
    rec.sample({"enc": enc})


def offsets(rec, n):
    """A positive offset o pairs x[i] with y[i+o]; a negative one the reverse."""
    for o in range(-(n - 1), n):
        for x in rgs(n, 3):
            for y in sequences(2, n):
                xs = x[: n - o] if o >= 0 else x[-o:]
                ys = y[o:] if o >= 0 else y[: n + o]
                rec.hist_state(xs, ys)
                one(
                    rec,
                    [xs, ys],
                    [np.array(x), list(y)],
                    {"x": x, "y": y, "offset": o},
                    offset=o,
                    local=n <= 3,
                    approaches=("discrete", "miller_madow")
                    if n <= 4
                    else ("discrete",),
                )
    rec.sample({"n": n, "offsets": [-(n - 1), n - 1]})


def multidim(rec, n):
    """Two-dimensional variables count as joint symbols."""
    cells = list(itertools.product(range(2), repeat=2))
    for x in itertools.product(cells, repeat=n):
        for y in sequences(2, n):
            rec.hist_state(x, y)
            X, Y = np.array(x).reshape(n, 2), np.array(y)
            case = {"x": x, "y": y}
            one(rec, [x, y], [X, Y], case)
            one(rec, [y, x], [Y, X], {**case, "swap": 1}, local=False)
            if n <= 3:
                yy = tuple(zip(y, reversed(y)))
                one(rec, [x, yy], [X, np.array(yy)], {**case, "2d": 1})
                one(rec, [x, y, yy], [X, Y, np.array(yy)], {**case, "3": 1})
    # strings in one variable, numbers in the other
    rec.sample({"n": n})


def large(rec, n, nv):
    for k in (2, 3, 7, 40, 200, n):
        if k > n or (nv > 4 and k > 40):
            continue
        for kind in ("indep", "copy", "lag", "const", "xor"):
            cols = [lcg(11 * v + n + k, n, k) for v in range(nv)]
            if kind == "copy":
                cols[-1] = [3 - 2 * v for v in cols[0]]
            if kind == "lag":
                cols[-1] = cols[0][1:] + cols[0][:1]
            if kind == "const":
                cols[0] = [5] * n
            if kind == "xor":
                cols[-1] = [sum(c[i] for c in cols[:-1]) % k for i in range(n)]
            rec.hist_state(*cols)
            one(
                rec,
                cols,
                [np.array(c) for c in cols],
                {"n": n, "nv": nv, "k": k, "kind": kind},
                local=n <= 300,
                rtol=1e-8,
            )


def longoffset(rec, o, n=140003):
    """Offsets of series longer than any power of ten or two below them."""
    for k in (2, 300):
        x = lcg(k + 5, n, k)
        y = [x[t - 3] if t % 3 else v for t, v in enumerate(lcg(k + 6, n, k))]
        xs = x[: n - o] if o >= 0 else x[-o:]
        ys = y[o:] if o >= 0 else y[: n + o]
        rec.hist_state(xs, ys)
        one(rec, [xs, ys], [np.array(x), np.array(y)], {"n": n, "k": k, "offset": o}, local=False, rtol=1e-8, offset=o)
        if not o:
            z = x[7:] + x[:7]
            one(rec, [x, y, z], [x, y, z], {"n": n, "k": k, "three": 1}, local=False, rtol=1e-8)
    rec.sample({"offset": o, "n": n})


def bases(rec):
    for n in (1, 2, 3, 4):
        for x in rgs(n):
            for y in rgs(n):
                for base in (2, 10, 3, 2.5):
                    rec.hist_state(x, y)
                    one(rec, [x, y], [x, y], {"x": x, "y": y, "base": base}, base)
                    z = tuple(reversed(x))
                    one(
                        rec,
                        [x, y, z],
                        [x, y, z],
                        {"x": x, "y": y, "z": z, "base": base},
                        base,
                    )
