"""P08 - discrete (conditional) transfer entropy: values, locals, bounds, corrections."""

import itertools
import math

import infomeasure as im
import numpy as np

from mc import cases, many, ref
from mc.lib import ENCODINGS, lcg, lnb, long_streams, rgs, sequences

LEVEL = "model_checking"
RULE = (
    "breadth-first exploration of pairs/triples of symbol streams (up to renaming of the "
    "source's symbols): a state is the stream so far, a transition appends one sample to "
    "every stream; the reference model keeps the histograms of (future, past, source past"
    "[, condition past]). Each trace is replayed on the plug-in and Miller-Madow "
    "estimators with every embedding that fits. Non-trivial: source and destination vary."
)
ASSUMPTIONS = ["floating point agreement within 1e-9"]
BOUNDS = {
    "quick": "TE binary source/dest to length 4 with every embedding (histories 1..3, step "
    "1..2, propagation -2..2) and to length 6 with 6 core embeddings; ternary to length 4; "
    "CTE binary to length 3 with every embedding, 4 with 4, 5 with 1; ternary to 3; joint "
    "conditions to length 3; encodings; grids to n=2000; streams of 70001 and 140003 samples; histories up to 70 samples over ranges up to 2^62"
        "; all histories 1..5 x 1..4 x 1..4, steps 1..4, 5 propagation times on 37 and 90 samples"
        "; symbols at every type limit, aliased arguments; 90001 samples of hundreds to thousands of symbols",
    "thorough": "TE binary to length 6 with every embedding, 8 with core ones; ternary to 6; "
    "CTE binary to length 6, ternary to 4; joint conditions to 4",
}

# moves of P23 that must not matter here either
SHARED = [(kind, m, a) for kind in ("boundaries", "aliases", "types") for m, a in cases.combos(("te", "cte"), ("discrete", "miller_madow"))]


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    small = []
    for n in range(2, 9 if th else 7):
        for x in rgs(n, 2):
            small.append(("te", x, 2, n <= (6 if th else 4)))
    for n in range(2, 7 if th else 5):
        for x in rgs(n, 3):
            small.append(("te", x, 3, th and n <= 4))
    for n in range(2, 7 if th else 6):
        for x in rgs(n, 2):
            small.append(
                ("cte", x, 2, 2, 2 if n <= 3 or (th and n <= 4) else int(n <= 4 or th))
            )
    for n in range(2, 5 if th else 4):
        for x in rgs(n, 3):
            small.append(("cte", x, 3, 3, int(n <= 3)))
    k = 96 if th else 64
    out += [("bundle", small[i::k]) for i in range(k)]
    for enc in ENCODINGS:
        out.append(("encodings", enc, 5 if th else 4))
    for n in (2, 3, 4) if th else (2, 3):
        for x in rgs(n, 2):
            out.append(("joint_cond", x))
    for n in (50, 100, 128, 300, 1000, 2000) + ((10000,) if th else ()):
        for k in (2, 3, 10, 50, 300):
            if k <= n:
                out.append(("large", n, k))
    for k in WIDE:
        out.append(("wide", k))
    for a in ("discrete", "miller_madow"):
        out += [("crowd", a, n) for n in ((20000, 90001) if th else (90001,))]
    for n in (70001, 140003):
        for i in range(8):
            out.append(("tiled", n, i))
    for sh in range(1, 7 if th else 6):
        for dh in range(1, 5):
            out.append(("histories", sh, dh))
    return out


def histories(rec, sh, dh):
    """Every combination of history lengths, step, propagation time and base."""
    for n, k in ((37, 2), (90, 4)):
        x, y, z = (lcg(n * q + sh, n, m) for q, m in ((1, k), (2, k), (3, 3)))
        y = [x[t - 2] if t % 3 else y[t] for t in range(n)]
        rec.time_state(x, y, z)
        for i, (ch, st) in enumerate(itertools.product(range(1, 5), range(1, 5))):
            base = ("e", 2, 10, 3, 0.5)[i % 5]
            par = dict(src_hist=sh, dest_hist=dh, step=st)
            for pt in (0, 2, 5, -1, -6) if ch == 1 else ():
                if n - abs(pt) * st > max(sh, dh) * st:
                    one(rec, (x, y), None, dict(par, prop_time=pt), {"n": n, "k": k}, base=base)
            if n > max(sh, dh, ch) * st:
                one(rec, (x, y), z, dict(par, cond_hist=ch), {"n": n, "k": k}, base=base)
    rec.sample({"src_hist": sh, "dest_hist": dh})


WIDE = (2, 4, 16, 256, 1000, 2**16, 2**20, 2**31, 2**32, 2**40, 2**62)


def wide(rec, k):
    """Long histories of samples spread over a wide range: joint spaces beyond 64 bits."""
    n = 90
    for lo in (0, -(k // 2)):
        x, y, z = ([lo + (k - 1) * v if j % 3 else lo + (k // 3 if v else 0) for j, v in enumerate(lcg(13 + i, n, 2))] for i in range(3))
        rec.time_state(x, y, z)
        for h in (2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 70):
            case = {"range": k, "low": lo, "history": h}
            one(rec, (x, y), None, dict(dest_hist=h), case, local=False)
            one(rec, (x, y), None, dict(src_hist=h), case, local=False)
            one(rec, (x, y), z, dict(cond_hist=h), case, local=False)
            if h < 10:
                one(rec, (x, y), z, dict(dest_hist=h, cond_hist=h, src_hist=2), case, local=False)
                one(rec, (x, y), None, dict(dest_hist=h, src_hist=h, prop_time=1), case, local=False)
    rec.sample({"range": k})


def crowd(rec, approach, n):
    """Histories with thousands of different values."""
    a, b, c, u = many.crowd_data(n)
    u = [v // 40 for v in u]  # the code lays out a dense table of (value, history) pairs
    for name, (x, y, z) in {"hundreds": (c, a, b), "crowded source": (u, c, a), "crowded destination": (a, u, c)}.items():
        for par, lib in (({}, {}), ({"src_hist": 2, "dest_hist": 2, "step": 3}, {"src_hist_len": 2, "dest_hist_len": 2, "step_size": 3})):
            for cond in (None, z):
                cols = ref.te_columns(x, y, cond, **par)
                fut, dh, sh, ch = cols
                bs = ref.rows(dh, ch) if ch is not None else dh
                h = lambda *v: ref.entropy_of(approach, ref.rows(*v))  # noqa: E731
                exp = h(fut, bs) + h(sh, bs) - h(fut, sh, bs) - h(bs)
                case = {"approach": approach, "n": n, "data": name, "cond": cond is not None, **lib}
                more = {} if cond is None else {"cond": np.array(cond)}
                ok, got = rec.call(case, "TE", im.te, np.array(x), np.array(y), approach=approach, base=2, **lib, **more)
                if ok:
                    rec.ev()
                    rec.traces += 1
                    rec.node("crowd", approach, n, name, lib, cond is None)
                    rec.outcome(got)
                    rec.close(case, exp / math.log(2), float(got), "transfer entropy of very many symbols", 1e-8, 1e-8)


def tiled(rec, n, i):
    """Long streams with few symbols: counts beyond 16 bits and products beyond 32 bits."""
    p = 5 + 2 * i
    x, y, z = (lcg(11 * i + j, p + j, 2 + (i + j) % 2) for j in range(3))
    x, y, z = ([c[t % len(c)] if t % 9 or t < 60000 else 1 for t in range(n)] for c in (x, y, z))
    rec.time_state(x[:200], y[:200], [i, n])
    e = (dict(), dict(src_hist=2), dict(dest_hist=2, prop_time=1), dict(src_hist=2, dest_hist=2, step=2))[i % 4]
    one(rec, (x, y), None, e, {"tiled": i, "n": n}, local=False, rtol=1e-8)
    e = (dict(), dict(cond_hist=2), dict(dest_hist=2), dict(src_hist=2, step=2))[i % 4]
    one(rec, (x, y), z, e, {"tiled": i, "n": n, "cond": 1}, local=i < 2, rtol=1e-8)
    rec.sample({"tiled": i, "n": n})


def bundle(rec, items):
    for t in items:
        globals()[t[0]](rec, *t[1:])


def exp_te(approach, cols):
    fut, dh, sh, ch = cols
    base = [d + c for d, c in zip(dh, ch)] if ch is not None else dh
    j = [f + s + b for f, s, b in zip(fut, sh, base)]
    fb = [f + b for f, b in zip(fut, base)]
    sb = [s + b for s, b in zip(sh, base)]
    n = len(j)
    hj, hf, hs, hb = (ref.hist(v) for v in (j, fb, sb, base))
    loc = [
        math.log(hj[a] * hb[d] / (hf[b] * hs[c])) for a, b, c, d in zip(j, fb, sb, base)
    ]
    if approach == "miller_madow":
        corr = (len(hf) + len(hs) - len(hj) - len(hb)) / (2 * n)
        loc = [v + corr for v in loc]
    # bounds: 0 <= TE <= H(future | past)
    up = ref.h_discrete(hf) - ref.h_discrete(hb)
    return math.fsum(loc) / n, loc, up


def one(rec, data, cond, par, case, local=True, base="e", rtol=1e-9, raw=None):
    """data: reference symbols (source, dest), raw: what is passed to the library."""
    cols = ref.te_columns(*data, cond, **par)
    raw = raw or (
        np.array(data[0]),
        np.array(data[1]),
        None if cond is None else np.array(cond),
    )
    kw = {
        "src_hist_len": par.get("src_hist", 1),
        "dest_hist_len": par.get("dest_hist", 1),
        "step_size": par.get("step", 1),
    }
    if cond is None:
        kw["prop_time"] = par.get("prop_time", 0)
    else:
        kw["cond"] = raw[2]
        kw["cond_hist_len"] = par.get("cond_hist", 1)
    nontriv = len(set(data[0])) > 1 and len(set(data[1])) > 1
    for approach in ("discrete", "miller_madow"):
        c = {**case, **par, "approach": approach}
        exp, loc, up = exp_te(approach, cols)
        b = lnb(base)
        ok, est = rec.call(
            c,
            "TE",
            im.estimator,
            raw[0],
            raw[1],
            measure="te" if cond is None else "cte",
            approach=approach,
            base=base,
            **kw,
        )
        if not ok:
            continue
        ok, got = rec.call(c, "TE", est.result)
        if not ok:
            continue
        rec.ev(nontriv)
        rec.traces += 1
        rec.outcome(got)
        rec.close(
            c,
            exp / b,
            got,
            f"{approach} {'C' if cond is not None else ''}TE value",
            rtol,
        )
        if approach == "discrete":
            rec.true(
                -1e-9 <= got * b <= up + 1e-9,
                c,
                ["0 <= TE <= H(future|past)", up],
                got,
                "TE out of bounds",
            )
        if local:
            ok, lv = rec.call(c, "TE local values", est.local_vals)
            if ok:
                rec.close(
                    c, [v / b for v in loc], lv, f"{approach} local TE values", rtol
                )


CORE_TE = (
    (1, 1, 1, 0),
    (2, 1, 1, 0),
    (1, 2, 1, 0),
    (3, 2, 1, 0),
    (1, 1, 1, 1),
    (1, 1, 2, -1),
)
CORE_CTE = ((1, 1, 1, 1), (2, 1, 2, 1), (1, 2, 1, 1), (1, 1, 1, 2))


def te(rec, x, ky, deep):
    n = len(x)
    every = itertools.product((1, 2, 3), (1, 2, 3), (1, 2), (-2, -1, 0, 1, 2))
    embeds = [
        dict(src_hist=sh, dest_hist=dh, step=st, prop_time=pt)
        for sh, dh, st, pt in (every if deep else CORE_TE)
        if max(sh, dh) * st < n - abs(pt) * st
    ]
    for y in sequences(ky, n):
        rec.time_state(x, y)
        for e in embeds:
            one(rec, (x, y), None, e, {"x": x, "y": y}, local=n <= 4 and ky == 2)
    rec.sample({"x": x, "dest alphabet": ky, "embeddings": len(embeds)})


def cte(rec, x, ky, kz, deep):
    n = len(x)
    every = itertools.product((1, 2), (1, 2), (1, 2, 3), (1, 2))
    embeds = [
        dict(src_hist=sh, dest_hist=dh, step=st, cond_hist=ch)
        for sh, dh, ch, st in (every if deep == 2 else CORE_CTE[: 4 if deep else 1])
        if max(sh, dh, ch) * st < n
    ]
    for y in sequences(ky, n):
        for z in sequences(kz, n):
            rec.time_state(x, y, z)
            for e in embeds:
                one(rec, (x, y), z, e, {"x": x, "y": y, "z": z}, local=n <= 3)
    rec.sample({"x": x, "embeddings": len(embeds)})


def encodings(rec, enc, nmax):
    f = ENCODINGS[enc]
    for n in range(2, nmax + 1):
        for x in rgs(n):
            for y in rgs(n):
                rec.time_state(x, y)
                case = {"x": x, "y": y, "enc": enc}
                one(
                    rec,
                    (x, y),
                    None,
                    dict(src_hist=1, dest_hist=1),
                    case,
                    raw=(f(x), f(y), None),
                )
                if n > 2:
                    one(
                        rec,
                        (x, y),
                        None,
                        dict(src_hist=2, dest_hist=1),
                        case,
                        raw=(f(x), list(y), None),
                        local=False,
                    )
                z = tuple(reversed(x))
                one(
                    rec,
                    (x, y),
                    z,
                    dict(dest_hist=1),
                    {**case, "z": z},
                    raw=(f(x), f(y), f(z)),
                    local=False,
                )
                for base in (2, 10, 3.5):
                    one(
                        rec,
                        (x, y),
                        None,
                        {},
                        {**case, "base": base},
                        base=base,
                        raw=(f(x), f(y), None),
                    )
    for n, k, (x, y, z) in long_streams(3):
        if n > 40 and n % 2 == 0:
            continue
        case = {"lcg": (n, k), "enc": enc}
        rec.time_state(x, y, z)
        one(rec, (x, y), None, dict(src_hist=2, dest_hist=2), case, raw=(f(x), f(y), None), local=n < 70)
        one(rec, (x, y), z, dict(dest_hist=2, cond_hist=2), {**case, "z": 1}, raw=(f(x), f(y), f(z)), local=n < 70)
        one(rec, (x, y), z, dict(dest_hist=1, cond_hist=1), {**case, "z": 2}, raw=(np.array(x), f(y), np.array(z)), local=n < 70)
    rec.sample({"enc": enc})


def joint_cond(rec, x):
    """A condition of several variables (tuple or 2-D array) is their joint variable."""
    n = len(x)
    if True:
        for y in sequences(2, n):
            for z1 in rgs(n, 2):
                for z2 in sequences(2, n):
                    zz = tuple(zip(z1, z2))
                    rec.time_state(x, y, zz)
                    case = {"x": x, "y": y, "z": zz}
                    for e in (dict(), dict(cond_hist=2, src_hist=2)):
                        if max(e.values(), default=1) >= n:
                            continue
                        cols = ref.te_columns(x, y, zz, **e)
                        exp = exp_te("discrete", cols)[0]
                        kw = {k + "_len": v for k, v in e.items()}
                        for form, cond in (
                            ("tuple", (np.array(z1), np.array(z2))),
                            ("array", np.array(zz)),
                            ("listtuple", (list(z1), list(z2))),
                        ):
                            ok, got = rec.call(
                                {**case, "form": form, **e},
                                "CTE",
                                im.cte,
                                np.array(x),
                                np.array(y),
                                cond=cond,
                                approach="discrete",
                                **kw,
                            )
                            if ok:
                                rec.ev(len(set(zz)) > 1)
                                rec.traces += 1
                                rec.outcome(got)
                                rec.close(
                                    {**case, "form": form, **e},
                                    exp,
                                    got,
                                    "CTE with a joint condition",
                                )
                        ok, got = rec.call(
                            {**case, **e},
                            "MM CTE",
                            im.cte,
                            np.array(x),
                            np.array(y),
                            cond=np.array(zz),
                            approach="miller_madow",
                            **kw,
                        )
                        if ok:
                            rec.close(
                                {**case, **e},
                                exp_te("miller_madow", cols)[0],
                                got,
                                "MM CTE with a 2-D condition",
                            )


def large(rec, n, k):
    for kind in ("indep", "driven", "lag3", "const", "identical"):
        x = lcg(3 + n + k, n, k)
        y = lcg(7 + n * k, n, k)
        z = lcg(n + 5 * k, n, min(k, 4))
        if kind == "driven":
            y = [x[t - 1] if t % 3 else y[t] for t in range(n)]
        if kind == "lag3":
            y = [x[t - 3] for t in range(n)]
        if kind == "const":
            x = [9] * n
        if kind == "identical":
            y = list(x)
        rec.time_state(x, y, z)
        for e in (
            dict(),
            dict(src_hist=3, dest_hist=2),
            dict(src_hist=5, dest_hist=5, step=2),
            dict(prop_time=2),
            dict(prop_time=-3, src_hist=2),
            dict(step=7, dest_hist=4, prop_time=1),
            dict(src_hist=12, dest_hist=9),
        ):
            if (
                max(e.get("src_hist", 1), e.get("dest_hist", 1)) * e.get("step", 1)
                >= n - 10
            ):
                continue
            one(
                rec,
                (x, y),
                None,
                e,
                {"n": n, "k": k, "kind": kind},
                local=n <= 300,
                rtol=1e-8,
            )
        for e in (
            dict(),
            dict(src_hist=2, dest_hist=3, cond_hist=4),
            dict(cond_hist=8, step=3),
        ):
            one(
                rec,
                (x, y),
                z,
                e,
                {"n": n, "k": k, "kind": kind},
                local=n <= 300,
                rtol=1e-8,
            )
