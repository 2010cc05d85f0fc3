"""Small vocabulary of the library's public interface, shared by the checks."""

import itertools
import math

import infomeasure as im
import numpy as np

inf = math.inf

# every approach name the library documents, with the arguments it needs
H_KW = {
    "ansb": {},
    "bayes": {"alpha": 0.5},
    "bonachela": {},
    "chao_shen": {},
    "chao_wang_jost": {},
    "discrete": {},
    "grassberger": {},
    "kernel": {"bandwidth": 1.5, "kernel": "box"},
    "metric": {"noise_level": 0},
    "miller_madow": {},
    "nsb": {},
    "ordinal": {"embedding_dim": 2, "stable": True},
    "renyi": {"alpha": 1.5},
    "shrink": {},
    "tsallis": {"q": 1.5},
    "zhang": {},
}
ALIASES = {
    "h": {
        "cs": "chao_shen",
        "cwj": "chao_wang_jost",
        "kl": "metric",
        "mm": "miller_madow",
        "js": "shrink",
        "symbolic": "ordinal",
        "permutation": "ordinal",
    },
    "mi": {
        "ksg": "metric",
        "mm": "miller_madow",
        "symbolic": "ordinal",
        "permutation": "ordinal",
    },
}
ALIASES["cmi"] = ALIASES["te"] = ALIASES["cte"] = ALIASES["mi"]

APPROACHES = sorted(H_KW)
PLUGIN_LIKE = [
    "ansb",
    "bayes",
    "bonachela",
    "chao_shen",
    "chao_wang_jost",
    "discrete",
    "grassberger",
    "miller_madow",
    "nsb",
    "shrink",
    "zhang",
]


def m_kw(approach, measure):
    """Arguments for MI/CMI/TE/CTE of an approach."""
    kw = dict(H_KW[approach])
    if measure != "h" and approach in ("renyi", "tsallis"):
        kw["noise_level"] = 0
    return kw


MEASURE_FN = {
    "h": im.entropy,
    "hx": im.cross_entropy,
    "mi": im.mutual_information,
    "cmi": im.conditional_mutual_information,
    "te": im.transfer_entropy,
    "cte": im.conditional_transfer_entropy,
}


def value(measure, approach, data, **kw):
    return MEASURE_FN[measure](*data, approach=approach, **kw)


def lnb(base):
    return 1.0 if base == "e" else math.log(base)


# ------------------------------------------------------------------- enumerations
def sequences(alphabet, n):
    return itertools.product(range(alphabet), repeat=n)


def rgs(n, kmax=None):
    """Restricted growth strings: sequences up to renaming of the symbols."""

    def rec(prefix, m):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for s in range(min(m + 1, (kmax or n))):
            prefix.append(s)
            yield from rec(prefix, max(m, s + 1))
            prefix.pop()

    yield from rec([], 0)


def partitions(n, maxpart=None):
    """Integer partitions of n: the count vectors of n samples."""
    maxpart = maxpart or n
    if n == 0:
        yield ()
        return
    for p in range(min(n, maxpart), 0, -1):
        for rest in partitions(n - p, p):
            yield (p,) + rest


def expand(counts, order=0):
    """A sample sequence with the given counts, in one of several orders."""
    if order == 0:  # sorted
        return [s for s, c in enumerate(counts) for _ in range(c)]
    if order == 1:  # reversed, symbols descending
        return [s for s, c in reversed(list(enumerate(counts))) for _ in range(c)]
    out, left = [], list(counts)  # round robin
    while any(left):
        for s in range(len(left)):
            if left[s]:
                out.append(s)
                left[s] -= 1
    return out


def shape_counts(n, k, shape):
    """Deterministic count vectors for larger structured samples."""
    if shape == "uniform":
        return [n // k + (1 if i < n % k else 0) for i in range(k)]
    if shape == "onebig":
        return [n - (k - 1)] + [1] * (k - 1)
    if shape == "geometric":
        left, out = n, []
        for i in range(k):
            c = max(1, left // 2) if i < k - 1 else left
            c = min(c, left - (k - 1 - i))
            out.append(c)
            left -= c
        return out
    if shape == "pairs":  # many singletons and doubletons
        out = []
        left = n
        for i in range(k):
            c = 1 if i % 2 else 2
            c = min(c, left - (k - 1 - i))
            out.append(c)
            left -= c
        out[0] += left
        return out
    if shape == "linear":
        w = [i + 1 for i in range(k)]
        out = [max(1, n * v // sum(w)) for v in w]
        out[-1] += n - sum(out)
        if out[-1] < 1:
            return shape_counts(n, k, "uniform")
        return out
    raise ValueError(shape)


def lcg(seed, n, mod):
    """Fixed pseudo-random integers (a deterministic larger case, not a sample)."""
    s, out = seed * 2654435761 % 2**32, []
    for _ in range(n):
        s = (s * 1664525 + 1013904223) % 2**32
        out.append((s >> 8) % mod)
    return out


ENCODINGS = {
    "int": lambda s: np.array(s, dtype=int),
    "int8neg": lambda s: np.array([-v - 1 for v in s], dtype=np.int8),
    "uint8hi": lambda s: np.array([255 - v for v in s], dtype=np.uint8),
    "int64huge": lambda s: np.array([(-1) ** v * (2**62 + v) for v in s], dtype=np.int64),
    "uint64huge": lambda s: np.array([2**64 - 1 - v for v in s], dtype=np.uint64),
    "int32gap": lambda s: np.array([v * v * 1000003 for v in s], dtype=np.int32),
    "float": lambda s: np.array([v / 2 - 0.25 for v in s], dtype=float),
    "floatclose": lambda s: np.array([1.0 + v * 2.0**-52 for v in s], dtype=float),
    "float32": lambda s: np.array([0.1 * v for v in s], dtype=np.float32),
    "list": lambda s: list(s),
    "listneg": lambda s: [5 - 3 * v for v in s],
    "str": lambda s: np.array(["s" + "ab"[v % 2] * (v + 1) for v in s]),
    "strlist": lambda s: ["xyzuvwabc"[v] for v in s],
    "strcase": lambda s: ["aA bB"[v % 5] + str(v // 5) for v in s],
    "noncontig": lambda s: np.array([w for v in s for w in (v, 99)], dtype=int)[::2],
    "revview": lambda s: np.array(list(reversed(s)), dtype=int)[::-1],
    # values that collide or change order under narrowing, hashing or mixed-radix codes
    "mixedsign": lambda s: np.array([(v + 1) // 2 * (-1) ** v for v in s], dtype=np.int64),
    "mod256": lambda s: np.array([256 * v + 3 for v in s], dtype=np.int64),
    "mod2^16": lambda s: np.array([65536 * v - 1 for v in s], dtype=np.int64),
    "mod2^32": lambda s: np.array([2**32 * v + 7 for v in s], dtype=np.int64),
    "above2^53": lambda s: np.array([2**53 + v for v in s], dtype=np.int64),
    "below-2^53": lambda s: [-(2**53) - v for v in s],
    "uint64mixed": lambda s: np.array([2**63 * (v % 2) + v // 2 for v in s], dtype=np.uint64),
    "float32close": lambda s: np.array([1.0 + v * 2.0**-30 for v in s], dtype=float),
    "floatscales": lambda s: np.array([(-1.0) ** v * 10.0 ** (37 * (v % 7) - 111) * (1 + v // 7) for v in s]),
    "strprefix": lambda s: np.array(["a symbol with a rather long common prefix " + str(v) for v in s]),
    "bytes": lambda s: np.array([b"b" * (v + 1) for v in s]),
    # pairs of symbols that look the same once joined, printed or weighted with a radix
    "strconcat": lambda s: np.array(["a" * v for v in s]),
    "strcomma": lambda s: np.array([",".join("x" * (v + 1)) for v in s]),
    "strunder": lambda s: np.array(["_".join("x" * (v + 1)) for v in s]),
    "strspace": lambda s: np.array([" ".join("x" * (v + 1)) for v in s]),
    "digits": lambda s: np.array([(10 ** (v + 1) - 1) // 9 for v in s], dtype=np.int64),
    "radix1000": lambda s: np.array([(499, 500, -500, -499, 0, 501, -501)[v % 7] + v // 7 * 7919 for v in s]),
    "radix256": lambda s: np.array([(127, 128, -128, 0, -127, 255, 1)[v % 7] + v // 7 * 7919 for v in s]),
    "complex": lambda s: np.array([complex((1, 1, -1, -1, 0)[v % 5], (1, -1, 1, -1, 0)[v % 5] + v // 5 * 3) for v in s]),
    "datetime": lambda s: np.array([946684799 + v for v in s], dtype="datetime64[s]"),
}


def long_streams(width):
    """Deterministic groups of `width` streams with lengths that cross size thresholds."""
    for n in (*range(7, 34), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300):
        for k in (2, 5) if n > 12 else (3,):
            yield n, k, [[min(v, k - 1) for v in lcg(5 * n + 3 * j + k, n, k)] for j in range(width)]


def readonly(a):
    a = np.array(a)
    a.setflags(write=False)
    return a


NUMERIC = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "float16", "float32", "float64")


def _ruler(seed, n, top):
    """Marks 0..top in a fixed shuffled order whose pairwise differences are all different."""
    marks, used, v = [0, top], {top}, seed
    while len(marks) < n:
        v = (v * 171 + 11213) % 53125
        w = v % top
        d = [abs(w - m) for m in marks]
        if 0 not in d and len(set(d)) == len(d) and not used & set(d):
            marks.append(w)
            used |= set(d)
    return sorted(marks, key=lambda m: (m * 7919 + seed) % 104729)


def ranged(kind):
    """Three tie-free series over the whole range of a numeric type: ([ints], [arrays])."""
    info = np.iinfo(kind) if "int" in kind else None
    lo, hi = (int(info.min), int(info.max)) if info else {"float16": (-1020, 1020)}.get(kind, (-10**6, 10**6))
    if kind == "int64":
        lo, hi = -(2**53), 2**53
    out = []
    for seed, top in ((3, 255), (5, 254), (11, 251)):
        unit = (hi - lo) // 255
        out.append([lo + unit * m for m in _ruler(seed, 9, top)])
    return out, [np.array(v, dtype=kind) for v in out]


def scaled(v):
    """The series scaled to [0, 1], in exact arithmetic up to the last division."""
    lo, hi = min(v), max(v)
    return [(x - lo) / (hi - lo) for x in v]
