"""P01 - discrete (plug-in) entropy, joint entropy and their local values."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.lib import (
    ENCODINGS,
    expand,
    lcg,
    lnb,
    long_streams,
    partitions,
    rgs,
    sequences,
    shape_counts,
)

LEVEL = "model_checking"
RULE = (
    "breadth-first exploration of sample streams: a state is the stream read so far, a "
    "transition appends one symbol; the model keeps the symbol histogram incrementally, "
    "and every trace is replayed on the real estimator. Non-trivial: at least two "
    "distinct symbols."
)
ASSUMPTIONS = ["floating point agreement within 1e-9"]
BOUNDS = {
    "quick": "streams: 3 symbols to length 8, 4 to 6, 5 to 5; joint streams over "
    "2x2 / 2x3 / 2x2x2 symbols to length 4; all partitions to N=6 in 36 encodings; "
    "structured N up to 3000"
    "; joint entropy of 5 to 12 variables"
        "; symbols at every type limit, aliased arguments",
    "thorough": "streams: 3 symbols to length 10, 4 to 8, 5 to 7; joint to length 5; "
    "partitions to N=8; structured N up to 20000",
}


MANYVARS = (('discrete', ('h',)),)

# moves of P23 that must not matter here either
SHARED = [(kind, m, a) for kind in ("boundaries", "aliases") for m, a in cases.combos(("h", "hj"), ("discrete",))]


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for a, n in ((3, 10), (4, 8), (5, 7)) if th else ((3, 8), (4, 6), (5, 5)):
        for first in itertools.product(range(a), repeat=2):
            out.append(("streams", a, n, first))
    for alph, n in (
        (((2, 2), 6), ((2, 3), 5), ((2, 2, 2), 4), ((3, 3), 4), ((2, 2, 3), 4))
        if th
        else (((2, 2), 5), ((2, 3), 4), ((2, 2, 2), 4))
    ):
        out.append(("joint", alph, n))
    for enc in ENCODINGS:
        out.append(("encodings", enc, 8 if th else 6))
    out.append(("bools",))
    for n in (1, 2, 60, 127, 128, 129, 255, 256, 257, 1000, 3000) + (
        (10000, 20000) if th else ()
    ):
        out.append(("large", n))
    out.append(("bases",))
    out.append(("bigjoint",))
    out += [("huge", first) for first in CELLS]
    out += [("crowd", "h", a, n) for a in ("discrete",) for n in ((40000, 90001, 200001) if th else (90001,))]
    for a, ms in MANYVARS:
        out += [("manyvars", *t) for t in many.tasks(a, ms, tier == "thorough")]
    return out


def crowd(rec, *task):
    many.crowd(rec, *task)


def manyvars(rec, *task):
    many.run(rec, *task)


def check_stream(rec, data, seq, counts, base="e", measure_case=None):
    case = measure_case or {"data": seq, "base": base}
    ok, est = rec.call(
        case,
        "entropy estimator",
        im.estimator,
        data,
        measure="h",
        approach="discrete",
        base=base,
    )
    if not ok:
        return
    ok, got = rec.call(case, "entropy", est.result)
    if not ok:
        return
    n, k = len(seq), len(counts)
    exp = ref.h_discrete(counts) / lnb(base)
    rec.ev(k > 1)
    rec.outcome(got)
    rec.close(case, exp, got, "entropy differs from -sum p log p of the data")
    if lnb(base) > 0:
        rec.true(
            -1e-9
            <= got * lnb(base)
            <= math.log(max(k, 1)) + 1e-9
            <= math.log(n) + 2e-9,
            case,
            "0 <= H <= log K <= log N",
            got,
            "entropy out of bounds",
        )
    ok, loc = rec.call(case, "local values", est.local_vals)
    if ok:
        rec.close(
            case,
            [v / lnb(base) for v in ref.l_discrete(seq, counts)],
            loc,
            "local values differ from -log p of each sample, in order",
        )
        rec.traces += 1


def streams(rec, alphabet, depth, first):
    """DFS over streams; the model state (histogram) is updated per transition."""
    counts = {}
    prefix = []

    def push(s):
        prefix.append(s)
        counts[s] = counts.get(s, 0) + 1

    def pop():
        s = prefix.pop()
        counts[s] -= 1
        if not counts[s]:
            del counts[s]

    def visit():
        rec.hist_state(prefix)
        check_stream(rec, list(prefix), list(prefix), dict(counts))
        if len(prefix) < depth:
            for s in range(alphabet):
                push(s)
                visit()
                pop()

    if first == (0, 0):
        push(0)
        rec.hist_state(prefix)
        check_stream(rec, list(prefix), list(prefix), dict(counts))
        pop()
    for s in first:
        push(s)
    visit()
    rec.sample({"first": first, "alphabet": alphabet, "depth": depth})


def joint(rec, alph, depth):
    """All joint streams; passed as tuple of arrays, and as one 2-D array."""
    cells = list(itertools.product(*[range(a) for a in alph]))
    enc = [
        lambda s: list(s),
        lambda s: np.array([10 - 3 * v for v in s]),
        lambda s: np.array(["ab"[v % 2] * (v + 1) for v in s]),
    ]
    for n in range(1, depth + 1):
        for stream in itertools.product(cells, repeat=n):
            cols = list(zip(*stream))
            rec.hist_state(*cols)
            counts = ref.hist(stream)
            exp = ref.h_discrete(counts)
            case = {"joint": stream}
            forms = {
                "tuple": tuple(np.array(c) for c in cols),
                "array": np.array(stream),
                "mixed": tuple(enc[i](c) for i, c in enumerate(cols)),
            }
            for name, data in forms.items():
                c = {**case, "form": name}
                ok, est = rec.call(
                    c,
                    "joint entropy",
                    im.estimator,
                    data,
                    measure="h",
                    approach="discrete",
                )
                if not ok:
                    continue
                ok, got = rec.call(c, "joint entropy", est.result)
                if not ok:
                    continue
                rec.ev(len(counts) > 1)
                rec.outcome(got)
                rec.traces += 1
                rec.close(
                    c, exp, got, "joint entropy differs from plug-in of joint cells"
                )
                if name == "tuple":
                    ok, loc = rec.call(c, "joint local values", est.local_vals)
                    if ok:
                        rec.close(
                            c,
                            ref.l_discrete(stream, counts),
                            loc,
                            "joint local values differ",
                        )
    rec.sample({"alphabets": alph, "depth": depth})


def encodings(rec, enc, nmax):
    """Renaming symbols / other dtypes / memory layouts never change the value."""
    f = ENCODINGS[enc]
    for n in range(1, nmax + 1):
        for seq in rgs(n):
            data = f(seq)
            rec.hist_state(seq)
            check_stream(
                rec,
                data,
                seq,
                ref.hist(seq),
                measure_case={"pattern": seq, "encoding": enc},
            )
            # the same symbols as a joint variable with a constant and with itself
            for name, tup in (
                ("dup", (f(seq), f(seq))),
                ("const", (f(seq), f((0,) * n))),
            ):
                c = {"pattern": seq, "encoding": enc, "joint": name}
                ok, got = rec.call(
                    c, "joint entropy", im.entropy, tup, approach="discrete"
                )
                if ok:
                    rec.ev(len(set(seq)) > 1)
                    rec.close(
                        c,
                        ref.h_discrete(ref.hist(seq)),
                        got,
                        "joint with a copy/constant",
                    )
    for n, k, (x, y) in long_streams(2):
        case = {"lcg": (n, k), "encoding": enc}
        rec.hist_state(x)
        check_stream(rec, f(x), x, ref.hist(x), measure_case=case)
        rows = list(zip(x, y))
        a = f(x), f(y)
        forms = {"tuple": a, "half": (a[0], np.array(y))}
        if isinstance(a[0], np.ndarray):
            forms["matrix"] = np.column_stack(a)
        for name, data in forms.items():
            c = {**case, "joint": name}
            ok, got = rec.call(c, "joint entropy", im.entropy, data, approach="discrete")
            if ok:
                rec.ev()
                rec.close(c, ref.h_discrete(ref.hist(rows)), got, "joint entropy of encoded symbols")
    rec.sample({"encoding": enc, "n": nmax})


def bools(rec):
    for n in range(1, 9):
        for seq in sequences(2, n):
            rec.hist_state(seq)
            for name, data in (
                ("bool array", np.array(seq, dtype=bool)),
                ("bool list", [bool(v) for v in seq]),
                ("float list", [float(v) for v in seq]),
            ):
                check_stream(
                    rec,
                    data,
                    seq,
                    ref.hist(seq),
                    measure_case={"bits": seq, "form": name},
                )


def large(rec, n):
    for k in sorted(
        {1, 2, 3, 7, 16, 100, 127, 128, 255, 256, 257, 1000, n // 2, n - 1, n}
    ):
        if not 1 <= k <= n:
            continue
        for shape in ("uniform", "onebig", "geometric", "pairs", "linear"):
            counts = shape_counts(n, k, shape)
            for order in (0, 1, 2):
                seq = expand(counts, order)
                data = np.array(seq)
                rec.hist_state(seq)
                check_stream(
                    rec,
                    data * 37 - 1000,
                    seq,
                    ref.hist(seq),
                    measure_case={"n": n, "k": k, "shape": shape, "order": order},
                )
    for k in (2, 5, 50, 300):
        seq = lcg(n + k, n, k)
        check_stream(
            rec, np.array(seq), seq, ref.hist(seq), measure_case={"lcg": (n + k, n, k)}
        )
        rec.hist_state(seq)


CELLS = (1, 2, 300, 32768, 65536, 70000)


def huge(rec, first):
    """Few symbols with counts beyond 16 bits; two variables with such a joint space."""
    for k in (1, 2, 3):
        for rest in itertools.product(CELLS, repeat=k - 1):
            part = (first, *rest)
            data = np.repeat(np.arange(k) * 5 - 1, part)
            exp = ref.h_discrete(dict(enumerate(part)))
            firsts = [sum(part[:i]) for i in range(k)]
            rec.hist_state(part)
            for name, d in (("one", data), ("joint", (data, np.flip(data)[::-1]))):
                if name == "joint" and k < 3:
                    continue
                case = {"counts": part, "form": name}
                ok, est = rec.call(case, "entropy", im.estimator, d, measure="h", approach="discrete")
                if not ok:
                    continue
                ok, got = rec.call(case, "entropy", est.result)
                if ok:
                    rec.ev(k > 1)
                    rec.outcome(got)
                    rec.close(case, exp, got, "entropy differs from -sum p log p of the data")
                ok, loc = rec.call(case, "local values", est.local_vals)
                if ok:
                    rec.close(case, [-math.log(v / len(data)) for v in part], np.asarray(loc)[firsts], "local values")


def bases(rec):
    for base in (2, "e", 10, 3, 2.5, 0.5, 1000, 1.0001):
        for n in range(1, 13):
            for counts in partitions(n):
                seq = expand(counts, 2)
                rec.hist_state(seq)
                check_stream(rec, seq, seq, ref.hist(seq), base=base)


def _wide(c, span):
    c = np.array(c, dtype=np.int64)
    return np.where(c == 1, span - 1, c)


def bigjoint(rec):
    """Joint spaces of many variables / of wide arrays."""
    for nv in (2, 3, 4, 5, 8, 12, 30, 70):
        for n in (1, 7, 50, 400):
            for k in (2, 3, 40):
                cols = [lcg(7 * v + n + k, n, k) for v in range(nv)]
                rows = list(zip(*cols))
                exp = ref.h_discrete(ref.hist(rows))
                half = nv // 2
                forms = {
                    "tuple": tuple(np.array(c) for c in cols),
                    "array": np.array(rows),
                    "tuple2d": (np.array(rows)[:, :half], np.array(rows)[:, half:]),
                    "neg": tuple(np.array(c) * -7 for c in cols),
                    # the values span 2^8, 2^16 and 2^32: joint codes beyond 64 bits
                    **{f"range 2^{j}": tuple(_wide(c, 2**j) for c in cols) for j in (8, 16, 32)},
                    "array of range 2^16": np.stack([_wide(c, 2**16) for c in cols], axis=1),
                }
                for name, data in forms.items():
                    case = {"lcg joint": (nv, n, k), "form": name}
                    ok, got = rec.call(
                        case, "joint entropy", im.entropy, data, approach="discrete"
                    )
                    rec.hist_state(*cols)
                    if ok:
                        rec.ev(n > 1)
                        rec.traces += 1
                        rec.outcome(got)
                        rec.close(case, exp, got, "joint entropy of a larger space")
