"""Reference model: every measure re-stated in plain Python from the documentation.

Nothing here imports the library under test.  All values in nats unless `base` is given.
"""

import decimal
import math
from collections import Counter

import numpy as np

EULER = 0.57721566490153286060651209008240243


# ---------------------------------------------------------------- special functions
def lnb(base):
    """Natural logarithm of the logarithm base."""
    return 1.0 if base == "e" else math.log(base)


_dig = [None, -EULER]


def digamma_int(n):
    while len(_dig) <= n:
        k = len(_dig) - 1
        _dig.append(_dig[-1] + 1.0 / k)
    return _dig[n]


def digamma(x):
    """psi(x) for x > 0."""
    if float(x).is_integer() and 0 < x < 200000:
        return digamma_int(int(x))
    r = 0.0
    while x < 12:
        r -= 1.0 / x
        x += 1.0
    f = 1.0 / (x * x)
    t = f * (
        -1.0 / 12
        + f
        * (
            1.0 / 120
            + f
            * (
                -1.0 / 252
                + f * (1.0 / 240 + f * (-1.0 / 132 + f * (691.0 / 32760 - f / 12)))
            )
        )
    )
    return r + math.log(x) - 0.5 / x + t


def trigamma(x):
    r = 0.0
    while x < 12:
        r += 1.0 / (x * x)
        x += 1.0
    f = 1.0 / (x * x)
    return (
        r
        + 1.0 / x
        + f / 2
        + f
        / x
        * (
            1.0 / 6
            + f * (-1.0 / 30 + f * (1.0 / 42 + f * (-1.0 / 30 + f * (5.0 / 66))))
        )
    )


# ---------------------------------------------------------------- discrete: symbols
def rows(*cols):
    """Joint symbols of several variables: one tuple per sample.

    A variable is a sequence of scalars or of rows.
    """
    out = []
    for i in range(len(cols[0])):
        r = []
        for c in cols:
            v = c[i]
            if isinstance(v, (list, tuple)):
                r.extend(v)
            elif hasattr(v, "shape") and getattr(v, "shape", ()) != ():
                r.extend(v.tolist())
            else:
                r.append(v.item() if hasattr(v, "item") else v)
        out.append(tuple(r))
    return out


def hist(seq):
    return Counter(seq)


def plogp(ps):
    return -math.fsum(p * math.log(p) for p in ps if p > 0)


# ---------------------------------------------------------------- discrete: entropies
def h_discrete(c, **kw):
    n = sum(c.values())
    return plogp([v / n for v in c.values()])


def l_discrete(seq, c, **kw):
    n = len(seq)
    return [-math.log(c[s] / n) for s in seq]


def h_miller_madow(c, **kw):
    n = sum(c.values())
    return h_discrete(c) + (len(c) - 1) / (2.0 * n)


def l_miller_madow(seq, c, **kw):
    n = len(seq)
    return [-math.log(c[s] / n) + (len(c) - 1) / (2.0 * n) for s in seq]


def h_ansb(c, K=None, **kw):
    n = sum(c.values())
    k = len(c) if K is None else K
    if n - k == 0:
        return float("nan")
    if n - k < 0:
        return float("nan")
    return (EULER - math.log(2)) + 2 * math.log(n) - digamma(n - k)


def bayes_alpha(alpha, n, k):
    if isinstance(alpha, str):
        return {
            "jeffrey": 0.5,
            "laplace": 1.0,
            "sch-grass": 1.0 / k,
            "min-max": math.sqrt(n) / k,
        }[alpha.lower()]
    return float(alpha)


def p_bayes(c, alpha, K=None):
    n = sum(c.values())
    k = len(c) if K is None else K
    a = bayes_alpha(alpha, n, k)
    return {s: (v + a) / (n + k * a) for s, v in c.items()}


def h_bayes(c, alpha=1.0, K=None, **kw):
    return plogp(p_bayes(c, alpha, K).values())


def h_bonachela(c, **kw):
    n = sum(c.values())
    out = []
    for v in c.values():
        out.append((v + 1) * math.fsum(1.0 / j for j in range(v + 2, n + 3)))
    return math.fsum(out) / (n + 2)


def h_chao_shen(c, **kw):
    n = sum(c.values())
    f1 = sum(1 for v in c.values() if v == 1)
    if f1 == n:
        f1 -= 1
    cov = 1 - f1 / n
    out = []
    for v in c.values():
        pa = cov * v / n
        if pa <= 0:
            continue
        la = 1 - (1 - pa) ** n
        out.append(pa * math.log(pa) / la)
    return -math.fsum(out)


def h_chao_wang_jost(c, **kw):
    n = sum(c.values())
    out = []
    for v in c.values():
        if v < n:
            out.append(v / n * math.fsum(1.0 / k for k in range(v, n)))
    h = math.fsum(out)
    f1 = sum(1 for v in c.values() if v == 1)
    f2 = sum(1 for v in c.values() if v == 2)
    if f1 == 0:
        return h
    if f2 > 0:
        a = 2 * f2 / ((n - 1) * f1 + 2 * f2)
    else:
        a = 2 / ((n - 1) * (f1 - 1) + 2)
    if a >= 1:
        return h
    # (1-a)^{1-n} (-ln a - sum_{r<n} (1-a)^r/r) = sum_{r>=n} (1-a)^{r-n+1}/r
    return h + f1 / n * _cwj_tail(f1, f2, n)


_tail = {}


def _cwj_tail(f1, f2, n):
    """(1-a)^(1-n) * (-ln a - sum_{r<n} (1-a)^r / r), in enough decimal digits."""
    key = (f1, f2, n)
    if key in _tail:
        return _tail[key]
    num, den = (2 * f2, (n - 1) * f1 + 2 * f2) if f2 else (2, (n - 1) * (f1 - 1) + 2)
    q = 1 - num / den
    with decimal.localcontext() as ctx:
        ctx.prec = 40 + int(n * -math.log10(q))
        qd = 1 - decimal.Decimal(num) / decimal.Decimal(den)
        s, power = decimal.Decimal(0), decimal.Decimal(1)
        for r in range(1, n):
            power *= qd
            s += power / r
        out = float((-(1 - qd).ln() - s) / power)
    _tail[key] = out
    return out



def g_grassberger(v):
    """Grassberger's G(n) = psi(n) + (-1)^n/2 (psi((n+1)/2) - psi(n/2))."""
    return digamma(v) + 0.5 * (-1) ** v * (digamma((v + 1) / 2) - digamma(v / 2))


def h_grassberger(c, **kw):
    n = sum(c.values())
    return math.fsum(v / n * lg_grassberger(n, v) for v in c.values())


def lg_grassberger(n, v):
    return math.log(n) - digamma(v) - (-1) ** v / (v + 1)


def l_grassberger(seq, c, **kw):
    n = len(seq)
    return [lg_grassberger(n, c[s]) for s in seq]


def shrink_probs(c):
    n = sum(c.values())
    k = len(c)
    t = 1.0 / k
    p = {s: v / n for s, v in c.items()}
    msp = math.fsum((x - t) ** 2 for x in p.values())
    if n <= 1 or len(set(c.values())) == 1:
        lam = 1.0
    else:
        lam = math.fsum(x * (1 - x) / (n - 1) for x in p.values()) / msp
        lam = min(1.0, max(0.0, lam))
    return {s: lam * t + (1 - lam) * x for s, x in p.items()}


def h_shrink(c, **kw):
    return plogp(shrink_probs(c).values())


def l_shrink(seq, c, **kw):
    p = shrink_probs(c)
    return [-math.log(p[s]) for s in seq]


def zhang_term(n, v):
    out, prod = [], 1.0
    for k in range(1, n - v + 1):
        prod *= 1.0 + (1 - v) / (n - k)
        out.append(prod / k)
    return math.fsum(out)


def h_zhang(c, **kw):
    n = sum(c.values())
    return math.fsum(v / n * zhang_term(n, v) for v in c.values())


def l_zhang(seq, c, **kw):
    n = len(seq)
    t = {s: zhang_term(n, v) for s, v in c.items()}
    return [t[s] for s in seq]


# NSB -------------------------------------------------------------------------------
_gl = None


def _gauss():
    global _gl
    if _gl is None:
        import numpy as np

        _gl = np.polynomial.legendre.leggauss(64)
    return _gl


def _xi(beta, k):
    return digamma(k * beta + 1) - digamma(beta + 1)


def _h_beta(counts, k, beta):
    """Posterior mean entropy for a Dirichlet prior with concentration beta."""
    kb = k * beta
    n = sum(counts)
    tot = n + kb
    s = math.fsum((v + beta) * digamma(v + beta + 1) for v in counts)
    s += (k - len(counts)) * beta * digamma(beta + 1)
    return digamma(tot + 1) - s / tot


def _log_rho(counts, k, beta):
    n = sum(counts)
    out = math.lgamma(k * beta) - math.lgamma(k * beta + n)
    return out + math.fsum(math.lgamma(v + beta) - math.lgamma(beta) for v in counts)


def h_nsb(c, K=None, **kw):
    """Nemenman-Shafee-Bialek: posterior mean over xi(beta) uniform in [0, ln K]."""
    counts = list(c.values())
    n = sum(counts)
    k = len(counts) if K is None else K
    if n == k:
        return float("nan")
    if k == 1:
        return 0.0
    # integrate over u = ln(beta) with weight dxi/dbeta * beta
    xs, ws = _gauss()
    pts = []
    lo, hi, panels = -30.0, 30.0, 40
    for i in range(panels):
        a = lo + (hi - lo) * i / panels
        b = lo + (hi - lo) * (i + 1) / panels
        for x, w in zip(xs, ws):
            u = (a + b) / 2 + (b - a) / 2 * x
            beta = math.exp(u)
            wt = (k * trigamma(k * beta + 1) - trigamma(beta + 1)) * beta
            if wt <= 0:
                continue
            pts.append(
                (_log_rho(counts, k, beta) + math.log(wt * w), beta)
            )
    m = max(p[0] for p in pts)
    num = math.fsum(math.exp(l - m) * _h_beta(counts, k, b) for l, b in pts)
    den = math.fsum(math.exp(l - m) for l, b in pts)
    return num / den


def h_nsb_recorded(c, K=None, **kw):
    """The deviating value recorded as known finding F-NSB (see DESIGN.md).

    Two deviations from the published estimator: the log-Gamma terms of the posterior
    are multiplied by the counts, and beta (not xi) runs over [0, ln K].
    """
    import numpy as np
    from scipy.integrate import quad
    from scipy.optimize import minimize_scalar, root_scalar
    from scipy.special import digamma as dg
    from scipy.special import loggamma, polygamma

    cnt = np.array(sorted(c.values()), dtype=float)
    n = float(cnt.sum())
    k = float(len(cnt) if K is None else K)
    if n == k:
        return float("nan")

    def neg(beta):
        r = -(loggamma(k * beta) - loggamma(n + k * beta))
        return r - (cnt * (loggamma(cnt + beta) - loggamma(beta))).sum()

    def d(k0):
        return k / k0 - dg(k0 + n) + dg(k0)

    try:
        k0 = root_scalar(d, bracket=[0.1, k], method="brentq").root
    except ValueError:
        k0 = minimize_scalar(lambda q: abs(d(q)), bounds=(0.1, k), method="bounded").x
    l0 = neg(k0 / k)

    def w(beta):
        return np.exp(-neg(beta) + l0) * (
            k * polygamma(1, 1 + k * beta) - polygamma(1, 1 + beta)
        )

    def hb(beta):
        tot = n + len(cnt) * beta
        return dg(tot + 1) - ((cnt + beta) / tot * dg(cnt + beta + 1)).sum()

    try:
        num, _ = quad(lambda b: w(b) * hb(b), 0, math.log(k), limit=100)
        den, _ = quad(w, 0, math.log(k), limit=100)
    except Exception:  # noqa: BLE001
        return float("nan")
    if den == 0:
        return float("nan")
    return num / den


DISCRETE = {
    "discrete": (h_discrete, l_discrete),
    "miller_madow": (h_miller_madow, l_miller_madow),
    "ansb": (h_ansb, None),
    "bayes": (h_bayes, None),
    "bonachela": (h_bonachela, None),
    "chao_shen": (h_chao_shen, None),
    "chao_wang_jost": (h_chao_wang_jost, None),
    "grassberger": (h_grassberger, l_grassberger),
    "shrink": (h_shrink, l_shrink),
    "zhang": (h_zhang, l_zhang),
    "nsb": (h_nsb, None),
}


# ------------------------------------------------------- entropies of joint variables
def entropy_of(approach, seq, **kw):
    """Entropy (nats) of a sequence of hashable symbols."""
    return DISCRETE[approach][0](hist(seq), **kw)


def combine_entropy(approach, seq, **kw):
    """The entropy used when entropies are combined into other measures.

    All estimators combine their entropies; the shrinkage estimator combines the means
    of its local values (documented: they differ from its global entropy by design).
    """
    if approach == "shrink":
        p = shrink_probs(hist(seq))
        return -math.fsum(math.log(p[s]) for s in seq) / len(seq)
    return entropy_of(approach, seq, **kw)


def mi_of(approach, cols, **kw):
    h = lambda *v: combine_entropy(approach, rows(*v), **kw)  # noqa: E731
    return math.fsum(h(c) for c in cols) - h(*cols)


def cmi_of(approach, cols, cond, **kw):
    h = lambda *v: combine_entropy(approach, rows(*v), **kw)  # noqa: E731
    return math.fsum(h(c, cond) for c in cols) - h(*cols, cond) - h(cond)


def cmi_plugin(cols, cond):
    """I(X1;...;Xm|Z) = sum H(Xi,Z) - H(X..,Z) - (m-1) H(Z)."""
    h = lambda *v: h_discrete(hist(rows(*v)))  # noqa: E731
    return math.fsum(h(c, cond) for c in cols) - h(*cols, cond) - (len(cols) - 1) * h(cond)


# ----------------------------------------------------------------- transfer entropy
def te_slices(n, src_hist=1, dest_hist=1, step=1, cond_hist=None):
    """Index model of the state-space reconstruction.

    Returns, per time point, (future, dest history, source history, cond history)
    as indices into the (already shifted) series; histories are oldest first.
    """
    lens = [src_hist, dest_hist] + ([cond_hist] if cond_hist else [])
    maxd = max(lens) * step
    out = []
    for t in range(maxd, n, step):
        out.append(
            (
                t,
                tuple(t - j * step for j in range(dest_hist, 0, -1)),
                tuple(t - j * step for j in range(src_hist, 0, -1)),
                tuple(t - j * step for j in range(cond_hist, 0, -1))
                if cond_hist
                else (),
            )
        )
    return out


def shift_te(source, dest, prop_time, step):
    s = prop_time * step
    if s > 0:
        return source[:-s], dest[s:]
    if s < 0:
        return source[-s:], dest[:s]
    return source, dest


def te_columns(source, dest, cond=None, prop_time=0, src_hist=1, dest_hist=1, step=1, cond_hist=1):
    """Symbol sequences (future, dest history, source history[, cond history])."""
    source, dest = shift_te(source, dest, prop_time, step)
    sl = te_slices(len(dest), src_hist, dest_hist, step, cond_hist if cond is not None else None)
    fut = [(dest[t],) for t, _, _, _ in sl]
    dh = [tuple(dest[i] for i in d) for _, d, _, _ in sl]
    sh = [tuple(source[i] for i in s) for _, _, s, _ in sl]
    ch = [tuple(cond[i] for i in c) for _, _, _, c in sl] if cond is not None else None
    return fut, dh, sh, ch


def te_of(approach, source, dest, cond=None, hkw=None, **par):
    """TE = H(future, dh[, ch]) + H(sh, dh[, ch]) - H(all) - H(dh[, ch])."""
    hkw = hkw or {}
    fut, dh, sh, ch = te_columns(source, dest, cond, **par)
    base = [d + c for d, c in zip(dh, ch)] if ch is not None else dh
    e = lambda seq: combine_entropy(approach, seq, **hkw)  # noqa: E731
    return (
        e([f + b for f, b in zip(fut, base)])
        + e([s + b for s, b in zip(sh, base)])
        - e([f + s + b for f, s, b in zip(fut, sh, base)])
        - e(base)
    )


# ----------------------------------------------------------------- two distributions
def hx_discrete(cp, cq):
    n, m = sum(cp.values()), sum(cq.values())
    common = [s for s in cp if s in cq]
    if not common:
        return 0.0
    return -math.fsum(cp[s] / n * math.log(cq[s] / m) for s in common)


def hx_miller_madow(cp, cq):
    n, m = sum(cp.values()), sum(cq.values())
    if not any(s in cq for s in cp):
        return 0.0
    return hx_discrete(cp, cq) + ((len(cp) + len(cq)) / 2.0 - 1) / (n + m)


def hx_bayes(cp, cq, alpha, K=None):
    pp, pq = p_bayes(cp, alpha, K), p_bayes(cq, alpha, K)
    return -math.fsum(pp[s] * math.log(pq[s]) for s in pp if s in pq)


def jsd_of(dists):
    """JSD from a list of {symbol: probability}."""
    keys = set().union(*dists)
    mix = [math.fsum(d.get(k, 0.0) for d in dists) / len(dists) for k in keys]
    return plogp(mix) - math.fsum(plogp(d.values()) for d in dists) / len(dists)


def probs(c):
    n = sum(c.values())
    return {s: v / n for s, v in c.items()}


# --------------------------------------------------------------------------- ordinal
def ordinal_patterns(series, dim, step=1):
    """Rank patterns of all windows, stable in ties (earlier sample is smaller)."""
    out = []
    for i in range(len(series) - (dim - 1) * step):
        w = [series[i + j * step] for j in range(dim)]
        out.append(tuple(sorted(range(dim), key=lambda j: (w[j], j))))
    return out


# ----------------------------------------------------------------------- continuous
def minkowski(a, b, p):
    d = [abs(x - y) for x, y in zip(a, b)]
    if p == math.inf:
        return max(d) if d else 0.0
    if p == 1:
        return math.fsum(d)
    if p == 2:
        return math.sqrt(math.fsum(x * x for x in d))
    return math.fsum(x**p for x in d) ** (1.0 / p)


def ball_volume(d, r, p):
    """Volume of the d-ball of radius r in the p-norm."""
    if p == math.inf:
        return (2 * r) ** d
    return (2 * r * math.gamma(1 / p + 1)) ** d / math.gamma(d / p + 1)


def points(*cols):
    out = []
    for r in rows(*cols):
        out.append(tuple(float(v) for v in r))
    return out


MANY = 40000  # pairs of points from which on distances are computed as arrays


def _blocks(at, data, p):
    """Blocks (first index, all distances to `data`) of consecutive points of `at`."""
    a, b = np.array(at, dtype=float), np.array(data, dtype=float)
    step = max(1, 2**21 // (len(b) * b.shape[1]))
    for i in range(0, len(a), step):
        d = np.abs(a[i : i + step, None, :] - b[None, :, :])
        if p == math.inf:
            d = d.max(axis=2)
        elif p == 1:
            d = d.sum(axis=2)
        elif p == 2:
            d = np.sqrt((d * d).sum(axis=2))
        else:
            d = (d**p).sum(axis=2) ** (1.0 / p)
        yield i, d


def knn(at, data, k, p, own):
    """Distance of every point of `at` to its k-th neighbour in `data` (own point apart)."""
    out = []
    if len(at) * len(data) > MANY:
        for i, d in _blocks(at, data, p):
            if own:
                for j in range(len(d)):
                    d[j, i + j] = math.inf
            out += np.partition(d, k - 1, axis=1)[:, k - 1].tolist()
        return out
    for i, a in enumerate(at):
        ds = sorted(
            minkowski(a, b, p) for j, b in enumerate(data) if not (own and i == j)
        )
        out.append(ds[k - 1])
    return out


def l_kl(pts, k=4, p=math.inf, ksg_id=1):
    """Local Kozachenko-Leonenko entropies (nats)."""
    n, d = len(pts), len(pts[0])
    psi_k = digamma(k) - (1.0 / k if ksg_id == 2 else 0.0)
    out = []
    for rho in knn(pts, pts, k, p, True):
        if rho == 0:
            out.append(0.0)
        else:
            out.append(
                -psi_k
                + digamma(n)
                + math.log(ball_volume(d, 0.5, p))
                + d * math.log(2 * rho)
            )
    return out


def h_kl(pts, **kw):
    loc = l_kl(pts, **kw)
    return math.fsum(loc) / len(loc)


def hx_kl(p_pts, q_pts, k=4, p=math.inf, ksg_id=1):
    d = len(q_pts[0])
    psi_k = digamma(k) - (1.0 / k if ksg_id == 2 else 0.0)
    s = math.fsum(
        math.log(2 * r) for r in knn(p_pts, q_pts, k, p, False) if r > 0
    ) / len(p_pts)
    return -psi_k + digamma(len(q_pts)) + math.log(ball_volume(d, 0.5, p)) + d * s


def _iq(rho, n, k, q, m):
    """Estimate of the integral of f^q from k-th neighbour distances."""
    if q == k + 1:
        return 0.0
    vm = ball_volume(m, 1.0, 2)
    # (n C_k V_m)^(1-q) with C_k = (Gamma(k)/Gamma(k+1-q))^(1/(1-q))
    gam = math.exp(math.lgamma(k) - math.lgamma(k + 1 - q)) if q < k + 1 else math.gamma(k) / math.gamma(k + 1 - q)
    pref = (n * vm) ** (1 - q) * gam
    return pref * math.fsum(r ** (m * (1 - q)) for r in rho if r > 0) / len(rho)


def _i1(rho, n, k, m):
    vm = ball_volume(m, 1.0, 2)
    return math.fsum(
        math.log(n * vm) - digamma(k) + m * math.log(r) for r in rho if r > 0
    ) / len(rho)


def h_renyi(pts, k=4, alpha=1.0, q_pts=None):
    """Renyi entropy, or with q_pts the cross-entropy of pts against q_pts."""
    m = len(pts[0])
    if q_pts is None:
        rho, n = knn(pts, pts, k, 2, True), len(pts) - 1
    else:
        rho, n = knn(pts, q_pts, k, 2, False), len(q_pts)
    if alpha == 1:
        return _i1(rho, n, k, m)
    i = _iq(rho, n, k, alpha, m)
    return 0.0 if i == 0 else math.log(i) / (1 - alpha)


def h_tsallis(pts, k=4, q=1.0, q_pts=None, base="e"):
    m = len(pts[0])
    if q_pts is None:
        rho, n = knn(pts, pts, k, 2, True), len(pts) - 1
    else:
        rho, n = knn(pts, q_pts, k, 2, False), len(q_pts)
    if q == 1:
        return _i1(rho, n, k, m) / lnb(base)
    i = _iq(rho, n, k, q, m)
    return 0.0 if i == 0 else (1 - i) / (q - 1)


def ksg_counts(space, radii, p, strict):
    """Neighbours within the radius: type I excludes the point itself and the boundary."""
    out = []
    if len(space) ** 2 > MANY:
        for i, d in _blocks(space, space, p):
            r = np.array(radii[i : i + len(d)])[:, None]
            if strict:
                for j in range(len(d)):
                    d[j, i + j] = math.inf
            out += ((d < r) if strict else (d <= r)).sum(axis=1).tolist()
        return out
    for i, a in enumerate(space):
        c = 0
        for j, b in enumerate(space):
            d = minkowski(a, b, p)
            if strict:
                c += i != j and d < radii[i]
            else:
                c += d <= radii[i]
        out.append(c)
    return out


def l_ksg_mi(variables, k=4, p=math.inf, ksg_id=1):
    """Local KSG mutual information of lists of points, one list per variable."""
    n, m = len(variables[0]), len(variables)
    joint = [sum((tuple(v[i]) for v in variables), ()) for i in range(n)]
    eps = knn(joint, joint, k, p, True)
    cs = [ksg_counts(v, eps, p, ksg_id == 1) for v in variables]
    out = []
    for i in range(n):
        v = digamma(k) + (m - 1) * digamma(n)
        if ksg_id == 1:
            v -= sum(digamma(c[i] + 1) for c in cs)
        else:
            v -= 1.0 / k + sum(digamma(c[i]) for c in cs)
        out.append(v)
    return out


def l_ksg_cmi(variables, cond, k=4, p=math.inf, ksg_id=1):
    n = len(cond)
    joint = [sum((tuple(v[i]) for v in variables), ()) + tuple(cond[i]) for i in range(n)]
    eps = knn(joint, joint, k, p, True)
    s = ksg_id == 1
    add = 1 if s else 0
    cs = [
        ksg_counts([tuple(v[i]) + tuple(cond[i]) for i in range(n)], eps, p, s)
        for v in variables
    ]
    cz = ksg_counts(cond, eps, p, s)
    return [
        digamma(k)
        - (0 if s else 1.0 / k)
        + digamma(cz[i] + add)
        - sum(digamma(c[i] + add) for c in cs)
        for i in range(n)
    ]


# ------------------------------------------------------------------------- densities
def box_density(pts, bw, at=None):
    """Share of points within half a bandwidth (Chebyshev) per volume bw^d."""
    at = pts if at is None else at
    vol = len(pts) * float(bw) ** len(pts[0])
    if len(at) * len(pts) > MANY:
        counts = (c for _, d in _blocks(at, pts, math.inf) for c in (d <= bw / 2).sum(axis=1).tolist())
        return [c / vol for c in counts]
    return [sum(minkowski(a, b, math.inf) <= bw / 2 for b in pts) / vol for a in at]


def _sym_eig(a):
    """Eigenvalues and vectors (columns) of a symmetric matrix by Jacobi rotations."""
    d = len(a)
    a = [list(r) for r in a]
    v = [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)]
    for _ in range(100):
        off = sum(a[i][j] ** 2 for i in range(d) for j in range(d) if i != j)
        if off < 1e-300:
            break
        for p in range(d):
            for q in range(p + 1, d):
                if abs(a[p][q]) < 1e-300:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(d):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(d):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
                for k in range(d):
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * x - s * y, s * x + c * y
    return [a[i][i] for i in range(d)], v


THIN = [1e-7]  # directions thinner than that are not told apart


def gauss_density(pts, bw, at=None):
    """Gaussian KDE with covariance bw^2 * sample covariance; degenerate directions dropped.

    Returns None if no direction has any variance.
    """
    at = pts if at is None else at
    n, d = len(pts), len(pts[0])
    mean = [math.fsum(p[i] for p in pts) / n for i in range(d)]
    cov = [
        [
            math.fsum((p[i] - mean[i]) * (p[j] - mean[j]) for p in pts) / (n - 1)
            for j in range(d)
        ]
        for i in range(d)
    ]
    lam, vec = _sym_eig(cov)
    sd = [math.sqrt(cov[i][i]) if len({p[i] for p in pts}) > 1 else math.inf for i in range(d)]
    if 0.0 in sd:
        return None
    cor, _ = _sym_eig([[cov[i][j] / sd[i] / sd[j] for j in range(d)] for i in range(d)])
    if any(1e-13 < abs(v) < THIN[0] for v in cor):
        return None  # too close to a degenerate direction to be told apart
    rank = sum(v > 1e-10 for v in cor)
    keep = sorted(range(d), key=lambda i: lam[i])[d - rank :]
    if not keep or any(lam[i] <= 0 for i in keep):
        return None
    var = [lam[i] * bw * bw for i in keep]
    norm = math.prod(math.sqrt(2 * math.pi * v) for v in var) * n
    prj = lambda p: [sum(p[r] * vec[r][i] for r in range(d)) for i in keep]  # noqa: E731
    own = [prj(p) for p in pts]
    out = []
    if len(at) * len(pts) > MANY:
        sds = np.sqrt(var)
        for _, d in _blocks([prj(a) / sds for a in at], own / sds, 2):
            out += (np.exp(-0.5 * d * d).sum(axis=1) / norm).tolist()
        return out
    for a in at:
        pa = prj(a)
        out.append(
            math.fsum(
                math.exp(-0.5 * sum((x - y) ** 2 / v for x, y, v in zip(pa, o, var)))
                for o in own
            )
            / norm
        )
    return out


def density(kernel, pts, bw, at=None):
    return box_density(pts, bw, at) if kernel == "box" else gauss_density(pts, bw, at)
