"""P07 - state-space reconstruction behind transfer entropy."""

import itertools

import infomeasure as im
import numpy as np

from mc import ref
from mc.lib import lcg
from mc.rng import Scripted, permutations, resamplings

try:
    from infomeasure.estimators.utils.te_slicing import (
        cte_observations,
        te_observations,
    )
except ImportError:  # the public interface below still decides
    te_observations = cte_observations = None

LEVEL = "model_checking"
RULE = (
    "all embedding parameters (series length, source/destination/condition history, step "
    "size, dimensionality, permutation or resampling of the source) are enumerated; the "
    "model steps a window through the series, one state per time point, and each trace of "
    "the model is compared row by row with the reconstruction the library builds from a "
    "series of distinct labels. The public interface is then driven with streams in which "
    "only one past sample can carry information, for every lag. Non-trivial: >= 2 rows."
)
ASSUMPTIONS = [
    "column order inside a row is free (entropies do not depend on it), row order is time"
]
BOUNDS = {
    "quick": "length 1..12, histories 1..4, step 1..4, condition history 1..3, 1-3 columns; "
    "all permutations/resamplings of <=4 rows; public interface: lag x history x step x "
    "propagation time",
    "thorough": "length 1..24, histories 1..6, step 1..6, condition history 1..5; all "
    "permutations of <=6 rows",
}


def tasks(tier, seed):
    th = tier == "thorough"
    nm, h, s, c = (24, 6, 6, 5) if th else (12, 4, 4, 3)
    out = []
    for n in range(1, nm + 1):
        out.append(("slices", n, h, s, c))
    out.append(("surrogates", 5 if th else 4))
    out.append(("invalid",))
    for n in (45, 130, 300) if th else (45, 130):
        out.append(("wideslices", n))
    for step in (1, 2, 4, 5, 6, 7, 9, 12, 16, 25) if th else (1, 4, 5, 7, 12):
        out.append(("far", step, th))
    for lag in range(-3, 7 if th else 5):
        for step in (1, 2, 3):
            out.append(("planted", lag, step, th))
    return out


def labels(n, cols, tag):
    a = np.arange(n * max(cols, 1)).reshape((n, cols) if cols else (n,))
    return a + 1000 * tag


def flat(x):
    return [int(v) for v in np.ravel(x)]


def model_rows(series, idx):
    return [v for i in idx for v in flat(series[i])]


def compare(rec, case, got, exp, what):
    """exp: list of rows (lists); got: 2-D array, compared as multisets per row."""
    ok = (
        isinstance(got, np.ndarray)
        and got.ndim == 2
        and len(got) == len(exp)
        and all(sorted(flat(g)) == sorted(e) for g, e in zip(got, exp))
    )
    if not ok:
        rec.violation(case, exp, got, what)
    return ok


def wideslices(rec, n):
    """Histories, steps and series beyond the small grid, a sparse lattice of them."""
    hist = (1, 2, 5, 6, 9, 17)
    slices(rec, n, hist, (1, 3, 5, 7, 10), (1, 4, 9, 16))


def far(rec, step, th):
    """Long steps, propagation times and condition histories through the public interface."""
    n = 600
    x, z = lcg(step, n, 2), lcg(step + 50, n, 3)
    times = (-30, -17, -9, -5, -1, 0, 1, 4, 5, 6, 8, 11, 16, 23)
    for d in (1, step, 3 * step + 1):
        y = [x[(t - d) % n] ^ (z[(t - 2 * d) % n] == 2) for t in range(n)]
        for sh, dh, pt in itertools.product((1, 2, 5), (1, 3), times):
            par = dict(prop_time=pt, src_hist=sh, dest_hist=dh, step=step)
            case = {"lag": d, "samples": n, **par}
            rec.node("far", d, step, sh, dh, pt)
            kw = dict(approach="discrete", src_hist_len=sh, dest_hist_len=dh, step_size=step)
            ok, got = rec.call(case, "TE", im.te, np.array(x), y, prop_time=pt, **kw)
            if ok:
                exp = ref.te_of("discrete", x, y, **par)
                rec.ev(exp > 1e-6)
                rec.traces += 1
                rec.outcome(got)
                rec.close(case, float(exp), got, "TE with this embedding/propagation time")
            if pt not in (0, 5, 8):
                continue
            ch = {0: 1, 5: 4, 8: 7}[pt]
            c = {**case, "prop_time": 0, "cond_hist": ch}
            ok, got = rec.call(c, "CTE", im.cte, x, np.array(y), cond=z, cond_hist_len=ch, **kw)
            if ok:
                exp = ref.te_of("discrete", x, y, z, src_hist=sh, dest_hist=dh, step=step, cond_hist=ch)
                rec.ev(exp > 1e-6)
                rec.traces += 1
                rec.close(c, float(exp), got, "CTE with this embedding")


def upto(m):
    return range(1, m + 1) if isinstance(m, int) else m


def slices(rec, n, hmax, smax, cmax):
    if te_observations is None:
        rec.skipped += 1
        return
    for cols, dcols in ((0, 0), (1, 1), (2, 2), (3, 1), (0, 2)):
        src, dst, cnd = labels(n, cols, 1), labels(n, dcols, 2), labels(n, cols, 3)
        if (cols == 0) != (dcols == 0) and (cols, dcols) != (0, 2):
            continue
        for sh, dh, st in itertools.product(
            upto(hmax), upto(hmax), upto(smax)
        ):
            for ch in [None, *upto(cmax)]:
                case = {
                    "n": n,
                    "src_hist": sh,
                    "dest_hist": dh,
                    "step": st,
                    "cond_hist": ch,
                    "cols": [cols, dcols],
                }
                maxd = max(sh, dh, ch or 1) * st
                valid = maxd < n
                kw = dict(src_hist_len=sh, dest_hist_len=dh, step_size=st)
                if cols == 0 and dcols:
                    continue
                if ch is None:
                    f, args = te_observations, (src, dst)
                else:
                    f, args = cte_observations, (src, dst, cnd)
                    kw["cond_hist_len"] = ch
                if not valid:
                    rec.ev(False)
                    try:
                        got = f(*args, **kw)
                        rec.violation(
                            case, "ValueError", got, "too long a history is not refused"
                        )
                    except ValueError:
                        pass
                    continue
                sl = ref.te_slices(n, sh, dh, st, ch)
                rec.states += len(sl)
                rec.transitions += max(0, len(sl) - 1)
                rec.ev(len(sl) > 1)
                rec.outcome(len(sl))
                F = [model_rows(dst, (t,)) for t, _, _, _ in sl]
                D = [model_rows(dst, d) for _, d, _, _ in sl]
                S = [model_rows(src, s) for _, _, s, _ in sl]
                C = (
                    [model_rows(cnd, c) for _, _, _, c in sl]
                    if ch
                    else [[] for _ in sl]
                )
                ok, got = rec.call(case, "reconstruction", f, *args, **kw)
                if not ok:
                    continue
                rec.traces += 1
                add = lambda *ps: [sum((list(x) for x in r), []) for r in zip(*ps)]  # noqa: E731
                compare(rec, case, got[0], add(S, D, F, C), "joint space rows")
                compare(rec, case, got[1], add(D, C), "destination past rows")
                compare(rec, case, got[2], add(S, D, C), "source+destination past rows")
                compare(rec, case, got[3], add(D, F, C), "destination past+future rows")
                ok, got = rec.call(
                    case, "slices", f, *args, **kw, construct_joint_spaces=False
                )
                if not ok:
                    continue
                # here histories are separate, oldest first
                want = [S, D, F] + ([C] if ch else [])
                for g, w, name in zip(
                    got, want, ("source", "destination", "future", "condition")
                ):
                    rec.true(
                        len(g) == len(w)
                        and [flat(r) for r in g] == [list(r) for r in w],
                        case,
                        w,
                        g,
                        f"{name} history is not the documented window",
                    )
    rec.sample({"n": n, "hmax": hmax, "smax": smax})


def surrogates(rec, nrows_max):
    """Permuting / resampling moves whole source windows and nothing else."""
    if te_observations is None:
        rec.skipped += 1
        return
    for n in range(2, 9):
        for sh, dh, st in itertools.product((1, 2, 3), (1, 2), (1, 2)):
            for ch in (None, 1, 2):
                if max(sh, dh, ch or 1) * st >= n:
                    continue
                sl = ref.te_slices(n, sh, dh, st, ch)
                m = len(sl)
                if m > nrows_max:
                    continue
                src, dst, cnd = labels(n, 0, 1), labels(n, 0, 2), labels(n, 0, 3)
                S = [model_rows(src, s) for _, _, s, _ in sl]
                for mode, scripts in (
                    ("permute_src", permutations(m)),
                    ("resample_src", resamplings(m)),
                ):
                    for sc in scripts:
                        g = Scripted([sc], kind="perm" if mode == "permute_src" else "boot")
                        kw = {
                            mode: g,
                            "src_hist_len": sh,
                            "dest_hist_len": dh,
                            "step_size": st,
                        }
                        f, args = (
                            (te_observations, (src, dst))
                            if ch is None
                            else (cte_observations, (src, dst, cnd))
                        )
                        if ch:
                            kw["cond_hist_len"] = ch
                        case = {
                            "n": n,
                            "sh": sh,
                            "dh": dh,
                            "step": st,
                            "ch": ch,
                            mode: sc,
                        }
                        before = [src.copy(), dst.copy(), cnd.copy()]
                        ok, got = rec.call(
                            case, mode, f, *args, **kw, construct_joint_spaces=False
                        )
                        if not ok:
                            continue
                        rec.node("surrogate", n, sh, dh, st, ch, mode, sc)
                        rec.traces += 1
                        rec.ev(m > 1)
                        rows = [flat(r) for r in got[0]]
                        if g.draws:
                            rec.true(
                                rows == [S[i] for i in sc],
                                case,
                                [S[i] for i in sc],
                                rows,
                                "surrogate source windows are not the chosen whole windows",
                            )
                        if mode == "permute_src":
                            rec.true(
                                sorted(rows) == sorted(S),
                                case,
                                sorted(S),
                                rows,
                                "permutation loses or alters source windows",
                            )
                        else:
                            rec.true(
                                all(r in S for r in rows),
                                case,
                                S,
                                rows,
                                "resampling invents source windows",
                            )
                        rec.true(
                            [flat(r) for r in got[1]]
                            == [model_rows(dst, d) for _, d, _, _ in sl]
                            and [flat(r) for r in got[2]]
                            == [model_rows(dst, (t,)) for t, _, _, _ in sl],
                            case,
                            "unchanged destination",
                            got[1:],
                            "surrogate changes the destination",
                        )
                        if ch:
                            rec.true(
                                [flat(r) for r in got[3]]
                                == [model_rows(cnd, c) for _, _, _, c in sl],
                                case,
                                "unchanged condition",
                                got[3],
                                "surrogate changes the condition",
                            )
                        rec.true(
                            all(
                                np.array_equal(a, b)
                                for a, b in zip(before, (src, dst, cnd))
                            ),
                            case,
                            "inputs unmodified",
                            "modified",
                            "surrogate modifies the caller's data",
                        )
                # without a generator (fresh randomness): still whole windows
                for mode in ("permute_src", "resample_src"):
                    case = {"n": n, "sh": sh, "dh": dh, "step": st, mode: True}
                    ok, got = rec.call(
                        case,
                        mode,
                        te_observations,
                        src,
                        dst,
                        sh,
                        dh,
                        st,
                        **{mode: True},
                        construct_joint_spaces=False,
                    )
                    if ok and ch is None:
                        rows = [flat(r) for r in got[0]]
                        rec.ev()
                        rec.true(
                            all(r in S for r in rows),
                            case,
                            S,
                            rows,
                            "surrogate invents source windows",
                        )
                        if mode == "permute_src":
                            rec.true(
                                sorted(rows) == sorted(S),
                                case,
                                S,
                                rows,
                                "permutation loses windows",
                            )


def invalid(rec):
    """Non-positive or non-integer embedding parameters are refused, publicly too."""
    x, y, z = (
        [0, 1, 0, 1, 1, 0, 0, 1],
        [1, 0, 0, 1, 0, 1, 1, 0],
        [0, 0, 1, 1, 0, 1, 0, 1],
    )
    for bad in (0, -1, -2, 1.5, 2.0, "1", None):
        for name in ("src_hist_len", "dest_hist_len", "step_size", "cond_hist_len"):
            for ap in ("discrete", "miller_madow", "kernel", "metric", "grassberger"):
                kw = {
                    "kernel": {"bandwidth": 1.0, "kernel": "box"},
                    "metric": {"noise_level": 0, "k": 1},
                }.get(ap, {})
                for cte in (False, True):
                    if name == "cond_hist_len" and not cte:
                        continue
                    case = {"approach": ap, name: bad, "cte": cte}
                    rec.ev()
                    rec.node("invalid", ap, name, bad, cte)
                    try:
                        f = im.cte if cte else im.te
                        k = {"cond": z} if cte else {}
                        got = f(x, y, approach=ap, **k, **kw, **{name: bad})
                        rec.violation(
                            case,
                            "an error",
                            got,
                            "invalid embedding parameter accepted",
                        )
                    except (ValueError, TypeError):
                        pass
    for n in range(2, 7):
        for h, s in itertools.product((1, 2, 3, 6), (1, 2, 3, 6)):
            for name in ("src_hist_len", "dest_hist_len"):
                if h * s < n:
                    continue
                rec.ev()
                case = {"n": n, name: h, "step": s}
                try:
                    got = im.te(
                        x[:n], y[:n], approach="discrete", step_size=s, **{name: h}
                    )
                    rec.violation(
                        case,
                        "ValueError",
                        got,
                        "history longer than the series accepted",
                    )
                except ValueError:
                    pass


# binary de Bruijn-like driver: every window of 6 differs enough for MI to be positive
DRIVE = (
    "0000010000110001010001110010010110011010011110101011101101111110000010000110001010"
)


def planted(rec, lag, step, th):
    """Y(t) = X(t - d): only a window that contains the right sample sees the transfer.

    For every lag d, source history, step and propagation time the reference model decides
    which value the public interface must give; the sample layout is fixed and complete
    (all 6-windows of a de Bruijn sequence).
    """
    x = [int(c) for c in DRIVE[: 82 if th else 60]]
    n = len(x)
    for d in (lag,):
        y = [x[(t - d) % n] for t in range(n)]
        z = [x[(t - 2 * d - 1) % n] ^ x[(t + 3) % n] for t in range(n)]
        for sh, dh, pt in itertools.product((1, 2, 3, 4), (1, 2), (-2, -1, 0, 1, 2, 3)):
            par = dict(prop_time=pt, src_hist=sh, dest_hist=dh, step=step)
            case = {"lag": d, **par}
            rec.node("planted", lag, step, sh, dh, pt)
            ok, got = rec.call(
                case,
                "TE",
                im.te,
                np.array(x),
                list(y),
                approach="discrete",
                prop_time=pt,
                src_hist_len=sh,
                dest_hist_len=dh,
                step_size=step,
                base=2,
            )
            if ok:
                exp = ref.te_of("discrete", x, y, **par) / np.log(2)
                rec.ev(exp > 1e-6)
                rec.traces += 1
                rec.outcome(got)
                rec.close(
                    case, float(exp), got, "TE with this embedding/propagation time"
                )
            # offset is the documented alternative name of the propagation time
            if sh == 1 and pt:
                ok, g2 = rec.call(
                    case,
                    "TE",
                    im.te,
                    x,
                    y,
                    approach="discrete",
                    offset=pt,
                    src_hist_len=sh,
                    dest_hist_len=dh,
                    step_size=step,
                    base=2,
                )
                if ok:
                    rec.close(case, got, g2, "offset differs from prop_time")
            if pt == 0:
                for ch in (1, 2, 3):
                    c = {**case, "cond_hist": ch}
                    ok, got = rec.call(
                        c,
                        "CTE",
                        im.cte,
                        x,
                        np.array(y),
                        cond=z,
                        approach="discrete",
                        src_hist_len=sh,
                        dest_hist_len=dh,
                        cond_hist_len=ch,
                        step_size=step,
                    )
                    if ok:
                        exp = ref.te_of(
                            "discrete",
                            x,
                            y,
                            z,
                            src_hist=sh,
                            dest_hist=dh,
                            step=step,
                            cond_hist=ch,
                        )
                        rec.ev(exp > 1e-6)
                        rec.traces += 1
                        rec.close(c, float(exp), got, "CTE with this embedding")
    rec.sample({"lag": lag, "step": step})
