"""P06 - discrete conditional mutual information."""

import itertools
import math
from collections import Counter

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.lib import ENCODINGS, lcg, lnb, long_streams, rgs, sequences

LEVEL = "model_checking"
RULE = (
    "exploration of triple sample streams (first variable up to renaming): a state is the "
    "stream, a transition appends one sample of every variable, the model is the joint "
    "histogram; each trace is replayed on the real estimators (plug-in, Miller-Madow). "
    "Non-trivial: both variables vary."
)
ASSUMPTIONS = ["floating point agreement within 1e-9"]
BOUNDS = {
    "quick": "x,y,z over <=3x2x2 symbols to length 4, 2x2x3 to 3; joint conditions of two "
    "variables to length 3; 3 variables to length 3; encodings; larger grids; 2x2x2 tables with cells 0 and 70000"
    "; CMI of 5 to 12 variables"
        "; symbols at every type limit, aliased arguments",
    "thorough": "to length 5; joint conditions to 4; 3 variables to 4; larger grids",
}


MANYVARS = (('discrete', ('cmi',)), ('miller_madow', ('cmi',)))

# moves of P23 that must not matter here either
SHARED = [(kind, m, a) for kind in ("boundaries", "aliases", "types") for m, a in cases.combos(("cmi",), ("discrete", "miller_madow"))]


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for n in range(1, 6 if th else 5):
        for x in rgs(n, 3):
            out.append(("triples", x, 2, 2))
    for n in range(1, 5 if th else 4):
        for x in rgs(n, 3):
            out.append(("triples", x, 3, 3))
            out.append(("jointcond", x))
            out.append(("nvar", x))
    small = [("bundle", out[i::48]) for i in range(48)]
    rest = [("encodings", enc, 4 if th else 3) for enc in ENCODINGS]
    rest += [("multidim", n) for n in ((1, 2, 3) if th else (1, 2))]
    for n in (50, 127, 128, 255, 256, 1000, 3000) + ((20000,) if th else ()):
        for nv in (2, 3, 4):
            rest.append(("large", n, nv))
    rest.append(("bases",))
    rest.append(("widecond",))
    for a in itertools.product((0, 1, 70000) if th else (0, 70000), repeat=3):
        rest.append(("tables", a))
    rest += [("crowd", "cmi", a, n) for a in ("discrete", "miller_madow") for n in ((40000, 90001, 200001) if th else (90001,))]
    for a, ms in MANYVARS:
        rest += [("manyvars", *t) for t in many.tasks(a, ms, tier == "thorough")]
    return small + rest


def crowd(rec, *task):
    many.crowd(rec, *task)


def manyvars(rec, *task):
    many.run(rec, *task)


def tables(rec, first):
    """2x2x2 tables with cells beyond 16 bits, whose products are beyond 32 bits."""
    cells = list(itertools.product(range(2), repeat=3))
    for j, rest in enumerate(itertools.product((0, 70000), repeat=5)):
        counts = first + rest
        n = sum(counts)
        if not n:
            continue
        rec.hist_state(counts)
        joint = {c: v for c, v in zip(cells, counts) if v}
        xz, yz, z_ = Counter(), Counter(), Counter()
        for (x, y, z), v in joint.items():
            xz[x, z] += v
            yz[y, z] += v
            z_[z] += v
        plug = ref.h_discrete(xz) + ref.h_discrete(yz) - ref.h_discrete(joint) - ref.h_discrete(z_)
        corr = (len(xz) - 1 + len(yz) - 1 - (len(joint) - 1) - (len(z_) - 1)) / (2 * n)
        data = [np.repeat([c[i] for c in cells], counts) for i in range(3)]
        firsts = [sum(counts[:i]) for i, v in enumerate(counts) if v]
        local = [math.log(v * z_[z] / (xz[x, z] * yz[y, z])) for (x, y, z), v in joint.items()]
        for approach, add in (("discrete", 0.0), ("miller_madow", corr)):
            case = {"table": counts, "approach": approach}
            ok, est = rec.call(case, "CMI", im.estimator, *data[:2], cond=data[2], measure="cmi", approach=approach)
            if not ok:
                continue
            ok, got = rec.call(case, "CMI", est.result)
            if ok:
                rec.ev(plug > 1e-9)
                rec.traces += 1
                rec.outcome(got)
                if len(set(data[0])) > 1 and len(set(data[1])) > 1 or approach == "discrete":
                    rec.close(case, plug + add, got, "CMI of a large table differs from the entropies")
            if len(joint) > 4 and j % 4:
                continue
            ok, loc = rec.call(case, "local CMI", est.local_vals)
            if ok and (len(set(data[0])) > 1 and len(set(data[1])) > 1 or approach == "discrete"):
                rec.close(case, [v + add for v in local], np.asarray(loc)[firsts], "local CMI of a large table")
    rec.sample({"first": first})


def bundle(rec, items):
    for t in items:
        globals()[t[0]](rec, *t[1:])


def exp_local(approach, cols, cond):
    n = len(cond)
    j, z = ref.rows(*cols, cond), ref.rows(cond)
    hj, hz = ref.hist(j), ref.hist(z)
    mz = [ref.rows(c, cond) for c in cols]
    hm = [ref.hist(m) for m in mz]
    out = []
    for i in range(n):
        v = math.log(hj[j[i]] / n) + math.log(hz[z[i]] / n)
        for m, h in zip(mz, hm):
            v -= math.log(h[m[i]] / n)
        out.append(v)
    if approach == "miller_madow":
        corr = (sum(len(h) for h in hm) - len(cols) - len(hj) + 1 - (len(hz) - 1)) / (
            2 * n
        )
        out = [v + corr for v in out]
    return out


def one(
    rec,
    cols,
    cond,
    data,
    dcond,
    case,
    base="e",
    approaches=("discrete", "miller_madow"),
    local=True,
    rtol=1e-9,
):
    nontriv = sum(len(set(map(str, c))) > 1 for c in cols) > 1
    for approach in approaches:
        c = {**case, "approach": approach}
        ok, est = rec.call(
            c,
            "CMI",
            im.estimator,
            *data,
            cond=dcond,
            measure="cmi",
            approach=approach,
            base=base,
        )
        if not ok:
            continue
        ok, got = rec.call(c, "CMI", est.result)
        if not ok:
            continue
        loc_exp = exp_local(approach, cols, cond)
        exp = math.fsum(loc_exp) / len(loc_exp) / lnb(base)
        rec.ev(nontriv)
        rec.outcome(got)
        rec.traces += 1
        rec.close(c, exp, got, f"{approach} CMI differs from its entropy form", rtol)
        if approach == "discrete" and len(cols) == 2:
            hx = [
                ref.h_discrete(ref.hist(ref.rows(v, cond)))
                - ref.h_discrete(ref.hist(ref.rows(cond)))
                for v in cols
            ]
            rec.true(
                -1e-9 <= got <= min(hx) / lnb(base) + 1e-9,
                c,
                ["0 <= CMI <= min H(Xi|Z)", min(hx) / lnb(base)],
                got,
                "CMI out of bounds",
            )
        if local:
            ok, loc = rec.call(c, "CMI local values", est.local_vals)
            if ok:
                rec.close(
                    c,
                    [v / lnb(base) for v in loc_exp],
                    loc,
                    f"{approach} local CMI differs",
                    rtol,
                )


def triples(rec, x, ky, kz):
    n = len(x)
    for y in sequences(ky, n):
        for z in sequences(kz, n):
            rec.hist_state(x, y, z)
            case = {"x": x, "y": y, "z": z}
            one(rec, [x, y], z, [list(x), np.array(y)], np.array(z), case)
            ok, a = rec.call(
                case,
                "CMI",
                im.cmi,
                np.array(y),
                np.array(x),
                cond=np.array(z),
                approach="discrete",
            )
            if ok:
                rec.close(
                    {**case, "swapped": 1},
                    ref.cmi_of("discrete", [x, y], z),
                    a,
                    "CMI is not symmetric",
                )
    rec.sample({"x": x})


def jointcond(rec, x):
    """A tuple or 2-D condition is the joint variable of its columns."""
    n = len(x)
    for y in sequences(2, n):
        for z in sequences(2, n):
            for w in sequences(2, n):
                cond = tuple(zip(z, w))
                rec.hist_state(x, y, cond)
                case = {"x": x, "y": y, "cond": cond}
                for name, d in (
                    ("tuple", (np.array(z), np.array(w))),
                    ("array", np.array(cond)),
                ):
                    one(
                        rec,
                        [x, y],
                        cond,
                        [np.array(x), np.array(y)],
                        d,
                        {**case, "form": name},
                        approaches=("discrete",),
                        local=n <= 2,
                    )


def nvar(rec, x):
    n = len(x)
    for y in sequences(2, n):
        for w in sequences(2, n):
            for z in sequences(2, n):
                rec.hist_state(x, y, w, z)
                cols = [x, y, w]
                one(
                    rec,
                    cols,
                    z,
                    [np.array(c) for c in cols],
                    np.array(z),
                    {"vars": cols, "z": z},
                    local=n <= 3,
                )


def encodings(rec, enc, nmax):
    f = ENCODINGS[enc]
    for n in range(1, nmax + 1):
        for x in rgs(n):
            for y in rgs(n):
                for z in rgs(n):
                    rec.hist_state(x, y, z)
                    case = {"x": x, "y": y, "z": z, "enc": enc}
                    one(rec, [x, y], z, [f(x), f(y)], f(z), case)
                    one(
                        rec,
                        [x, y],
                        z,
                        [np.array(x), f(y)],
                        np.array(z),
                        {**case, "m": 1},
                        local=False,
                    )
    for n, k, (x, y, z) in long_streams(3):
        case = {"lcg": (n, k), "enc": enc}
        rec.hist_state(x, y, z)
        one(rec, [x, y], z, [f(x), f(y)], f(z), case, local=n < 70)
        if isinstance(f(x), np.ndarray):
            w = z[1:] + z[:1]
            one(rec, [x, y], list(zip(z, w)), [f(x), f(y)], (f(z), f(w)), {**case, "jointcond": 1},
                approaches=("discrete",), local=n < 70)
            one(rec, [x, y], list(zip(z, w)), [f(x), f(y)], (f(z), np.array(w)), {**case, "jointcond": 2},
                approaches=("discrete",), local=n < 70)
    rec.sample({"enc": enc})


def multidim(rec, n):
    cells = list(itertools.product(range(2), repeat=2))
    for x in itertools.product(cells, repeat=n):
        for y in sequences(2, n):
            for z in sequences(2, n):
                rec.hist_state(x, y, z)
                X = np.array(x).reshape(n, 2)
                case = {"x": x, "y": y, "z": z}
                one(rec, [x, y], z, [X, np.array(y)], np.array(z), case)
                one(rec, [y, x], z, [np.array(y), X], np.array(z), {**case, "swap": 1})
                if n <= 2:
                    one(
                        rec,
                        [x, y],
                        list(zip(z, y)),
                        [X, np.array(y)],
                        (np.array(z), np.array(y)),
                        {**case, "cond": "z,y"},
                        approaches=("discrete",),
                    )


def large(rec, n, nv):
    for k in (2, 3, 7, 40, 200):
        if k > n or (nv > 2 and k > 40):
            continue
        for kind in ("indep", "copy", "xor", "constz", "zcopy", "chain"):
            cols = [lcg(13 * v + n + k, n, k) for v in range(nv)]
            z = lcg(777 + n + k, n, max(2, k // 2))
            if kind == "copy":
                cols[-1] = [3 - 2 * v for v in cols[0]]
            if kind == "xor":
                cols[-1] = [(a + b) % k for a, b in zip(cols[0], z)]
            if kind == "constz":
                z = [4] * n
            if kind == "zcopy":
                z = list(cols[0])
            if kind == "chain":
                cols[-1] = [v // 2 for v in z]
            rec.hist_state(*cols, z)
            case = {"n": n, "nv": nv, "k": k, "kind": kind}
            one(
                rec,
                cols,
                z,
                [np.array(c) for c in cols],
                np.array(z),
                case,
                local=n <= 300,
                rtol=1e-8,
            )
            if nv == 2:
                w = lcg(99 + n, n, 3)
                one(
                    rec,
                    cols,
                    list(zip(z, w)),
                    [np.array(c) for c in cols],
                    (np.array(z), np.array(w)),
                    {**case, "jointcond": 1},
                    approaches=("discrete",),
                    local=False,
                    rtol=1e-8,
                )


def widecond(rec):
    """Conditions (and variables) of many columns whose values span a wide range."""
    for span in (2, 2**8, 2**16, 2**32, 2**62):
        for width in (2, 3, 5, 8, 9, 33, 70):
            for n in (6, 40):
                x, y = lcg(n + width, n, 3), lcg(n + width + 1, n, 2)
                cols = [[(span - 1 if v else 0) - (span // 2) * (j % 2) for v in lcg(5 * j + n, n, 2)] for j in range(width)]
                z = list(zip(*cols))
                rec.hist_state(x, y, z)
                case = {"span": span, "columns": width, "n": n}
                A = np.array(x), np.array(y)
                for form, c in (("tuple", tuple(map(np.array, cols))), ("matrix", np.array(z))):
                    one(rec, [x, y], z, A, c, {**case, "form": form}, approaches=("discrete",))
                one(rec, [z, y], x, (np.array(z), A[1]), A[0], {**case, "form": "variable"}, approaches=("discrete",))
    rec.sample({"widecond": True})


def bases(rec):
    for n in (1, 2, 3):
        for x in rgs(n):
            for y in rgs(n):
                for z in rgs(n):
                    for base in (2, 10, 3, 2.5):
                        rec.hist_state(x, y, z)
                        one(
                            rec,
                            [x, y],
                            z,
                            [np.array(x), np.array(y)],
                            np.array(z),
                            {"x": x, "y": y, "z": z, "base": base},
                            base,
                        )
