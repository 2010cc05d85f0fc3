"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""

import importlib.util
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
E = "infomeasure/estimators/"
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, technique, note, state=None):
    PROPS.append(locals().copy())


P(
    "P01",
    "Discrete entropy is the plug-in entropy of the data",
    "For every finite sample of symbols (numbers, strings, booleans, any dtype or memory layout) and every logarithm base, the discrete entropy equals -sum p log p over the observed relative frequencies, and for base > 1 lies between 0 and the log of the number of distinct symbols. The joint entropy of a tuple of variables, or of a two-dimensional array, is that of the distinct joint samples. The local values are -log p of each sample, in sample order.",
    ["inputs"],
    "all symbol sequences / joint sequences up to a length and alphabet, all encodings of the symbols, all bases",
    "The tests compare a few hand-made samples; the statement is about every histogram, symbol encoding and joint space, including overflow-prone dtypes and large alphabets.",
    [E + "entropy/discrete.py", "infomeasure/utils/data.py", E + "utils/array.py", E + "base.py"],
    [
        {"name": "counting distinct (joint) samples", "where": "infomeasure/utils/data.py"},
        {"name": "plug-in sum and local values", "where": E + "entropy/discrete.py"},
        {"name": "joint samples to symbols", "where": E + "utils/array.py"},
    ],
    "explicit-state exploration of all symbol streams, each trace replayed on the real estimator against an incremental histogram model",
    "Complete for the stated alphabets and lengths; larger samples only as fixed structured cases.",
)
P(
    "P02",
    "Bias-corrected, shrinkage and Bayesian entropies match their formulas",
    "For every sample, each corrected entropy estimator (Miller-Madow, Grassberger, Shrink, Chao-Shen, Chao-Wang-Jost, Bonachela, Zhang, Bayes with each prior, ANSB, NSB) returns the value of its published formula applied to the observed counts, in the requested base. The value does not depend on sample order, symbol names or on whether the symbols are joint samples. Where local values are offered they follow the documented local formula.",
    ["inputs", "configurations"],
    "all count vectors of N samples up to a bound, all parameter choices (priors, alphabet sizes, bases)",
    "Tests pin a few samples per estimator; the published formulas must hold for every count vector, including those with no or only singletons and doubletons.",
    [E + "entropy/" + n + ".py" for n in ("miller_madow", "grassberger", "shrink", "chao_shen", "chao_wang_jost", "bonachela", "zhang", "bayes", "ansb", "nsb")],
    [{"name": "per-estimator formula on counts", "where": E + "entropy/"}],
    "exhaustive enumeration of all integer partitions (count vectors) against reference formulas",
    "Every count vector up to the bound; NSB deviates from its formula (known finding F-NSB).",
)
P(
    "P03",
    "Discrete cross-entropy and KL divergence follow their definitions",
    "The cross-entropy of two samples P and Q is -sum over the common symbols of p log q with each estimator's probability estimates, and P and Q are never exchanged. The Kullback-Leibler divergence is the cross-entropy of (P,Q) minus the entropy of P with the same approach and arguments. Estimators without a cross-entropy refuse the request.",
    ["inputs", "configurations"],
    "all pairs of count vectors over a common alphabet with unequal sizes and partially disjoint supports; all offering estimators and parameters",
    "Tests use a handful of samples where argument order, missing symbols and unequal sizes rarely matter together.",
    [E + "entropy/discrete.py", E + "entropy/miller_madow.py", E + "entropy/bayes.py", "infomeasure/composite_measures/kld.py", E + "functional.py"],
    [
        {"name": "matching of the two supports", "where": E + "utils/discrete_interaction_information.py"},
        {"name": "KLD composition", "where": "infomeasure/composite_measures/kld.py"},
    ],
    "exhaustive enumeration of all pairs of count vectors against reference formulas",
    "Complete for the stated alphabets and sizes; floating point to 1e-9.",
)
P(
    "P04",
    "Jensen-Shannon divergence is the entropy excess of the mixture",
    "The Jensen-Shannon divergence of any number of samples equals the entropy of the equally weighted mixture of the estimated distributions minus the mean of their entropies, for each approach offering it. It is symmetric in its arguments, zero for identical distributions and for the plug-in estimate at most the log of the number of distributions. Approaches that do not offer it refuse.",
    ["inputs", "configurations"],
    "all pairs and triples of count vectors, all argument orders; ordinal and kernel variants over all small series",
    "Tests check a few pairs; asymmetry, unequal sample sizes, symbols missing in one sample and three or more arguments are only spot-checked.",
    ["infomeasure/composite_measures/jsd.py", E + "entropy/discrete.py", E + "entropy/shrink.py", E + "entropy/bayes.py", E + "entropy/ordinal.py"],
    [{"name": "mixture of distributions", "where": "infomeasure/composite_measures/jsd.py"}],
    "exhaustive enumeration of all tuples of count vectors and argument orders",
    "Complete for the stated alphabets and sizes.",
)
P(
    "P05",
    "Discrete mutual information follows from the joint histogram",
    "The discrete mutual information of two or more variables equals the sum of the marginal entropies minus the joint entropy of the samples (Miller-Madow adds its correction to each entropy), for every encoding of the symbols. It is symmetric, zero for a constant variable and equals the entropy for a copy. An offset pairs sample i of the first variable with sample i+offset of the second, and local values are the pointwise log-ratios whose mean is the value.",
    ["inputs", "configurations"],
    "all paired sample streams of 2-5 variables up to a length, all offsets, all encodings",
    "Tests have a few sequences; more than two variables, mixed dimensionality, constant variables and huge symbol products occur rarely or not at all.",
    [E + "mutual_information/discrete.py", E + "mutual_information/miller_madow.py", E + "utils/discrete_interaction_information.py", E + "base.py"],
    [
        {"name": "joint histogram and interaction information", "where": E + "utils/discrete_interaction_information.py"},
        {"name": "offset slicing", "where": E + "base.py"},
    ],
    "explicit-state exploration of all paired symbol streams, traces replayed on the real estimators",
    "Complete for the stated alphabets and lengths; larger samples only as fixed structured cases.",
)
P(
    "P06",
    "Discrete conditional mutual information follows from the joint histogram",
    "The discrete conditional mutual information equals H(X,Z)+H(Y,Z)-H(X,Y,Z)-H(Z) of the samples (with the documented generalisation for more variables, and the corrected entropies for Miller-Madow), is symmetric in its variables, and reduces to the mutual information for a constant condition and to zero for a condition that determines a variable. Joint conditions act as the joint variable. Local values are the pointwise terms.",
    ["inputs"],
    "all triple (and quadruple) sample streams up to a length, joint conditions, encodings",
    "Tests sample a few triples; conditions that are constant, joint, or that coincide with a variable are not covered systematically.",
    [E + "mutual_information/discrete.py", E + "mutual_information/miller_madow.py", E + "utils/discrete_interaction_information.py"],
    [{"name": "conditional interaction information", "where": E + "utils/discrete_interaction_information.py"}],
    "explicit-state exploration of all triple symbol streams, traces replayed on the real estimators",
    "Complete for the stated alphabets and lengths.",
)
P(
    "P07",
    "Transfer entropy reads exactly the samples its parameters name",
    "For every source and destination history length, step size, propagation time and (for conditional transfer entropy) condition history, transfer entropy relates each future sample of the destination to exactly the named past samples of destination, source and condition, starts at the first time point at which all of them exist and uses every step-th time point from there to the end once, and nothing else. A permuted or resampled source reorders whole source histories and leaves destination and condition alone. Impossible parameters are refused.",
    ["inputs", "configurations"],
    "all series lengths, histories, step sizes, propagation times, dimensionalities, and all permutations/resamplings of the source rows up to a bound",
    "Off-by-one errors in the window show only for particular combinations of parameters; tests check a few combinations.",
    [E + "utils/te_slicing.py", E + "base.py"],
    [
        {"name": "index windows", "where": E + "utils/te_slicing.py"},
        {"name": "propagation time and offset", "where": E + "base.py"},
    ],
    "explicit-state exploration of the sliding-window model over all parameters, traces replayed on the library's reconstruction",
    "Complete for the stated parameter ranges.",
)
P(
    "P08",
    "Discrete transfer entropies equal the CMI of the reconstructed histories",
    "Discrete (and Miller-Madow) transfer entropy equals the conditional mutual information of the destination's next sample and the source history given the destination history, and conditional transfer entropy adds the condition history to the condition. Plug-in values are non-negative and bounded by the entropy of the next sample; the local values are the pointwise terms, whose mean is the value.",
    ["inputs", "configurations"],
    "all pairs/triples of symbol streams up to a length with all embeddings that fit",
    "Tests cover a few series; the value must be right for every stream and every embedding.",
    [E + "transfer_entropy/discrete.py", E + "transfer_entropy/miller_madow.py", E + "utils/discrete_transfer_entropy.py"],
    [{"name": "joint histogram of histories", "where": E + "utils/discrete_transfer_entropy.py"}],
    "explicit-state exploration of all pairs/triples of symbol streams, traces replayed on the real estimators",
    "Complete for the stated alphabets, lengths and embeddings.",
)
P(
    "P09",
    "MI, CMI, TE, CTE of an approach combine that approach's entropies",
    "For every count-based, Renyi and Tsallis approach, mutual information, conditional mutual information and the transfer entropies equal the corresponding sum and difference of that approach's entropies of the marginal and joint samples (for the shrinkage approach: of its mean local values), with the same parameters used for every term. Parameters given by the user (priors, alphabet sizes, orders, bases, neighbours) reach every term.",
    ["inputs", "configurations"],
    "all paired/triple streams up to a length, every approach and parameter choice",
    "Tests pin single values; a parameter dropped in one of four terms or a sign error in one term shows only on other data.",
    [E + "mutual_information/", E + "transfer_entropy/", E + "mixins.py"],
    [{"name": "slicing plus entropy combination", "where": E + "utils/exponential_family.py"}],
    "explicit-state exploration of all paired/triple streams; each trace replayed against combined reference entropies",
    "Complete for the stated alphabets and lengths.",
)
P(
    "P10",
    "Ordinal measures are discrete measures of the rank patterns",
    "Every ordinal measure equals the discrete measure of the stream of rank patterns of consecutive windows with the chosen dimension and delay, ties ranked by position when stable ordering is requested. It depends only on the order of the values; monotone transformations leave it unchanged. Too short series and invalid dimensions are refused.",
    ["inputs", "configurations"],
    "all weak orderings of series up to a length, all dimensions and delays, all measures",
    "Tests use a few series, mostly without ties and with delay one.",
    [E + "utils/ordinal.py", E + "entropy/ordinal.py", E + "mutual_information/ordinal.py", E + "transfer_entropy/ordinal.py"],
    [
        {"name": "pattern to integer symbol", "where": E + "utils/ordinal.py"},
        {"name": "symbol-based measures", "where": E + "entropy/ordinal.py"},
    ],
    "explicit-state exploration of the sliding rank-pattern automaton over all weak orderings, traces replayed on the real estimators",
    "Complete for the stated lengths; long series only as fixed cases.",
)
P(
    "P11",
    "Nearest-neighbour entropies equal their formulas",
    "The Kozachenko-Leonenko, Renyi and Tsallis entropies and cross-entropies equal their documented formulas evaluated with the true k-th nearest neighbour distances of the points in the chosen norm, in any dimension, also with repeated points. A joint variable is the stacked space of its parts, and the divergence of two samples is cross-entropy minus entropy.",
    ["inputs", "configurations"],
    "all point sets on a small grid up to a size in one and two dimensions, all k, norms and orders",
    "Tests pin a few values; ties, repeated points, small samples and the role of k, dimension and order are not settled by them.",
    [E + "entropy/kozachenko_leonenko.py", E + "entropy/renyi.py", E + "entropy/tsallis.py", E + "utils/exponential_family.py", E + "utils/unit_ball_volume.py"],
    [
        {"name": "neighbour distances", "where": E + "utils/exponential_family.py"},
        {"name": "unit ball volumes", "where": E + "utils/unit_ball_volume.py"},
    ],
    "exhaustive enumeration of all point multisets on a grid against brute-force neighbour search",
    "Complete for the stated grids; larger structured point sets as fixed cases.",
)
P(
    "P12",
    "KSG mutual information and transfer entropies equal their formulas",
    "The nearest-neighbour mutual information, conditional mutual information and transfer entropies equal the KSG (type I and II) formulas evaluated with exact neighbour counts in the marginal spaces, for any number of variables, dimensions, k, norm and offset. Added noise is the only random element and vanishes when switched off.",
    ["inputs", "configurations"],
    "all paired/triple point sequences on a small grid up to a length, all k, types, norms and offsets",
    "Strict versus non-strict neighbour counts differ only where points coincide or tie, which random test data never has.",
    [E + "mutual_information/kraskov_stoegbauer_grassberger.py", E + "transfer_entropy/kraskov_stoegbauer_grassberger.py"],
    [{"name": "neighbour counts in marginal spaces", "where": E + "mutual_information/kraskov_stoegbauer_grassberger.py"}],
    "exhaustive enumeration of all small grid point sequences against brute-force neighbour counting",
    "Complete for the stated grids.",
)
P(
    "P13",
    "Kernel measures equal the kernel density formulas",
    "Kernel entropies, cross-entropies, mutual informations and transfer entropies equal the documented combination of box- or Gaussian-kernel densities evaluated at the sample points, for any bandwidth, dimension and number of variables. The result does not depend on the number of workers. Unknown kernels and non-positive bandwidths are refused.",
    ["inputs", "configurations"],
    "all grid point sequences up to a length, bandwidths on and off the grid, all numbers of workers",
    "Tests pin a few values; box boundaries, multi-dimensional variables and the parallel path for large samples are rarely reached.",
    [E + "utils/array.py", E + "utils/kde.py", E + "entropy/kernel.py", E + "mutual_information/kernel.py", E + "transfer_entropy/kernel.py"],
    [
        {"name": "density at points", "where": E + "utils/kde.py"},
        {"name": "chunking over workers", "where": E + "mixins.py"},
    ],
    "exhaustive enumeration of all small grid point sequences against a direct density sum",
    "Complete for the stated grids; the parallel path on fixed large samples for every worker count.",
)
P(
    "P14",
    "The logarithm base only rescales, and the default base is honoured",
    "For every measure and approach and every base b > 1 the value (and local values) in base b equals the value in nats divided by ln b; Tsallis measures, which contain no logarithm except at order one, do not depend on the base. Without an explicit base, the base configured when the estimator is created is used, throughout that estimator's life, for every measure and in every order of configuration changes and calls; the default is nats.",
    ["inputs", "configurations", "histories"],
    "all measures x approaches x bases, and all sequences of base changes, estimator creations and evaluations up to a depth",
    "Tests call each measure with one or two bases and do not interleave configuration changes with estimator creation and evaluation.",
    ["infomeasure/utils/config.py", E + "base.py", "infomeasure/utils/types.py"],
    [
        {"name": "base resolution at creation", "where": E + "base.py"},
        {"name": "default base", "where": "infomeasure/utils/config.py"},
    ],
    "explicit-state exploration of configuration/creation/evaluation histories on the real library, plus full enumeration of measure x approach x base",
    "All histories to the stated depth.",
)
P(
    "P15",
    "Statistical tests summarise the surrogate values correctly",
    "A permutation or bootstrap test returns the p-value as the fraction of surrogate values exceeding the observed value, the t-score as the distance from the surrogate mean in sample standard deviations, and percentiles and confidence intervals of exactly those surrogates. Each surrogate is the measure of the data with the first variable (or the source histories) permuted or resampled and everything else untouched; the requested number of surrogates and method is used, else the configured defaults.",
    ["inputs", "configurations", "schedules"],
    "all permutations and all resamplings of small data sets as the random choices, all measures offering a test",
    "Tests run with random generators; that every draw is the right kind of surrogate and that ties, zero spread and the defaults are handled needs all draws.",
    [E + "mixins.py", E + "base.py", "infomeasure/utils/data.py"],
    [
        {"name": "surrogate generation", "where": E + "mixins.py"},
        {"name": "summary statistics", "where": "infomeasure/utils/data.py"},
    ],
    "exhaustive enumeration of the random generator's choices (all permutations/resamplings) through a scripted generator driving the real tests",
    "All single draws and all pairs of draws of the stated sizes; the conditional transfer entropy test is a known finding (F-CTE-TEST).",
)
P(
    "P16",
    "An estimator object is stable under any order of operations",
    "Whatever sequence of result, local values, recalculation, effective value and statistical test is called on an estimator, and whichever of them fails because something it calls fails, each later one returns what a fresh estimator would return. The user's data are never modified. Unsupported operations are refused without side effects.",
    ["histories", "fault_sequences"],
    "all operation sequences up to a depth on every estimator class, with a failure injected at every call that library functions make",
    "Tests call one or two operations per object, in the usual order, and never interrupt one.",
    [E + "base.py", E + "mixins.py"],
    [
        {"name": "cached result and local values", "where": E + "base.py"},
        {"name": "temporary change for surrogates", "where": E + "mixins.py"},
    ],
    "explicit-state breadth-first search over operation sequences on real estimator objects with fault injection, states compared with fresh objects",
    "All sequences to the stated depth over the stated operations.",
)
P(
    "P17",
    "All ways to request a measure give the same value",
    "The functional interface, the generic estimator factory, the class found by name and every documented alias, spelling and letter case of measure and approach return the same value for the same data and arguments. Arguments are passed on unchanged, none is dropped or given another default; an argument given as an equal number of another (Python or NumPy) type gives the same value. Conditional requests go to the conditional estimator.",
    ["inputs", "configurations"],
    "all measures x approaches x aliases x interfaces x argument subsets x number types of the arguments",
    "Tests do not compare all interfaces over all argument combinations; a dropped argument is invisible when it equals the default.",
    [E + "functional.py"],
    [{"name": "dispatch and argument forwarding", "where": E + "functional.py"}],
    "exhaustive enumeration of interface x measure x approach x alias x argument combinations, compared pairwise",
    "Complete for the stated arguments.",
)
P(
    "P18",
    "Invalid requests are refused with an error, never answered",
    "Unknown approaches and measures, missing or superfluous data and parameters, samples of different length, empty data, impossible embeddings and histories, more neighbours than other points, non-positive numbers of neighbours, bandwidths and orders, and unknown kernels and priors raise an error and no number is returned; negative bases and offsets beyond the data give no finite number. Valid requests next to the boundary are accepted, and a refused request changes nothing.",
    ["inputs", "configurations"],
    "all measures x approaches x a catalogue of malformed inputs at every argument position",
    "Tests check selected errors of selected estimators, not every position and estimator.",
    [E + "base.py", E + "functional.py", E + "utils/"],
    [{"name": "input validation", "where": E + "base.py"}],
    "exhaustive enumeration of the malformed-input catalogue over all measures and approaches",
    "Complete for the stated catalogue.",
)
P(
    "P19",
    "Seeded results are reproducible and independent of global random state",
    "Two estimators of mutual information or transfer entropy (conditional or not) created with the same seed, in any of its forms, return exactly the same results for the same sequence of values and statistical tests, whatever other library calls, estimators or global reseeding happen in between, in this or another process. The library never changes numpy's or Python's global random state. Deterministic measures draw nothing. Noise is Gaussian with mean zero and the requested level, drawn once for every data value and added to a copy, never to the user's data.",
    ["histories", "configurations"],
    "all sequences up to a depth of seeded calls, unseeded calls and global reseeding, for every measure with a random element",
    "Tests compare two equal calls; interference between calls, estimators and the global generator needs histories.",
    [E + "base.py", E + "mixins.py", E + "entropy/kozachenko_leonenko.py", E + "mutual_information/kraskov_stoegbauer_grassberger.py"],
    [{"name": "per-estimator generator", "where": E + "mixins.py"}],
    "explicit-state exploration of call histories on the real library, observing global random state",
    "All histories to the stated depth.",
)
P(
    "P20",
    "The configuration behaves as a typed key-value store with reset",
    "After any sequence of set, reset, unit changes and rejected operations, reading a key returns the last value successfully set since the last reset, otherwise its default. Unknown keys, units and log levels and ill-typed values are rejected and change nothing. Setting the logarithmic unit is the same as setting its base. Measures and statistical tests use exactly these defaults and never change them, and the log level never changes an answer.",
    ["histories", "configurations"],
    "all sequences of configuration operations up to a depth",
    "Tests cover single operations, not sequences in which failed operations and resets interleave.",
    ["infomeasure/utils/config.py"],
    [{"name": "settings dictionary", "where": "infomeasure/utils/config.py"}],
    "explicit-state breadth-first search over operation sequences against a dictionary model",
    "Closed state space: every reachable configuration over the stated values, every operation in each.",
    [{"name": "settings", "meaning": "current value of each key", "where": "infomeasure/utils/config.py"}],
)
P(
    "P21",
    "Test results answer percentile and interval queries consistently",
    "A statistical test result returns, for every confidence level or percentile in range, the corresponding percentile of its surrogate values; the interval is symmetric in probability, ordered and nested in the level. Out of range or ill-typed queries are refused. Results are immutable value objects.",
    ["inputs"],
    "all small multisets of surrogate values, all query levels and forms",
    "Tests query a few levels on a few results.",
    ["infomeasure/utils/data.py"],
    [{"name": "percentile computation", "where": "infomeasure/utils/data.py"}],
    "exhaustive enumeration of surrogate multisets and queries against an independent percentile definition",
    "Complete for the stated sizes.",
)
P(
    "P22",
    "Local values average to the value, or are refused",
    "For every measure and approach that offers local values, there is one local value per (reconstructed) sample and their mean equals the value of the measure (the shrinkage estimator, documented otherwise, excepted). Measures and approaches for which local values are undefined refuse them. Asking for local values first, or for the value first, makes no difference.",
    ["inputs", "histories"],
    "all small data sets x measures x approaches, both orders of request",
    "Tests check selected approaches with selected data; the identity must hold for each.",
    [E + "base.py", E + "mixins.py"],
    [{"name": "local values and their mean", "where": E + "base.py"}],
    "explicit-state exploration of all small streams for every measure and approach, both request orders",
    "Complete for the stated alphabets and lengths.",
)
P(
    "P23",
    "Measures are invariant under what must not matter",
    "Reordering the samples consistently over all variables never changes entropy, cross-entropy, mutual or conditional mutual information; exchanging the variables never changes (conditional) mutual information; renaming symbols injectively, or translating, reflecting and jointly reordering coordinates of continuous data does not matter either. Scaling a continuous variable shifts its differential entropy by the log of the factor. Container type, dtype, memory layout and byte order of the same values never matter.",
    ["inputs", "configurations"],
    "all permutations of small samples and variables, all approaches, all container forms",
    "Tests compare single examples; invariance is a statement over all permutations and containers for each approach.",
    [E + "entropy/", E + "mutual_information/", E + "transfer_entropy/", E + "base.py"],
    [{"name": "data normalisation", "where": E + "base.py"}],
    "exhaustive enumeration of all permutations/renamings/containers of small samples for every approach",
    "Complete for the stated sizes.",
)
P(
    "P24",
    "Concurrent and interleaved use of estimators does not interfere",
    "Estimators created and evaluated in different threads, in any interleaving, return exactly what they return when used alone, including local values and seeded statistical tests. The same holds for interleaved use of several estimators in one thread, and for functional calls. The configuration default read by an estimator is the one in force when it was created.",
    ["schedules", "histories"],
    "all interleavings up to a preemption bound of two threads, and all interleavings of operations on two estimators",
    "Tests never run two estimators concurrently and never interleave them.",
    [E + "base.py", E + "mixins.py", E + "functional.py", "infomeasure/utils/config.py"],
    [{"name": "no shared mutable state besides the configuration", "where": E + "functional.py"}],
    "stateless exploration of real threads under a controlled line-level scheduler with a preemption bound",
    "All schedules with at most the stated number of preemptions over the stated thread bodies.",
)


P(
    "P25",
    "Entropies from counts equal those of samples with these counts",
    "An entropy estimator built from symbols and their counts (from_counts) gives, for every count vector with positive counts, in any order, with any symbol names and any integer type or container, the value the same estimator gives for samples with these counts, in the requested or configured base. The container of counted samples reports exactly the distinct symbols, their counts, the number of samples and of symbols, and probabilities that sum to one; it refuses inconsistent symbols, counts and samples, cannot be changed afterwards, and never changes the arrays it was given.",
    ["inputs", "configurations"],
    "all count vectors up to a size in all orders; all integer types; counts to 2^40; all small consistent and inconsistent combinations of symbols, counts and samples",
    "The tests build a few containers and never compare an estimator made from counts with one made from samples.",
    ["infomeasure/utils/data.py", E + "base.py"] + [E + "entropy/" + n + ".py" for n in ("discrete", "miller_madow", "grassberger", "bonachela", "zhang", "bayes", "shrink")],
    [{"name": "counted container", "where": "infomeasure/utils/data.py"}, {"name": "construction from counts", "where": E + "base.py"}],
    "explicit-state exploration of all count vectors, each built from counts and from samples on the real estimators",
    "Complete for the stated numbers of samples; zero counts are outside the property.",
)
P(
    "P26",
    "Copies and pickles of estimators and results are independent equals",
    "An estimator that is deep-copied or pickled and revived, after whatever operations, in this or another process and under whatever configured base, answers every later request (value, local values, recalculation, seeded statistical tests, effective value) exactly as an estimator with the same history would, and so does the original: neither influences the other. Copied test results answer every query like the original.",
    ["histories", "schedules"],
    "all histories up to a length before the copy, all interleavings of operations on original and copy, all kinds of copy",
    "The tests never copy or pickle an estimator.",
    [E + "base.py", E + "mixins.py", "infomeasure/utils/data.py"],
    [{"name": "state of an estimator object", "where": E + "base.py"}, {"name": "random generator state", "where": E + "mixins.py"}],
    "explicit-state exploration of histories with a fork in every state, all interleavings replayed on the real objects against never-copied ones",
    "All histories and interleavings within the bounds.",
)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": p["mech"]}
            if p["state"]:
                anchors["state"] = p["state"]
            f.write(
                json.dumps(
                    {
                        "id": p["pid"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": anchors,
                    }
                )
                + "\n"
            )
            assert len(p["title"]) <= 80, p["title"]
            for x in p["files"] + [m["where"] for m in p["mech"]]:
                if not os.path.exists(os.path.join("/repo", x)):
                    print("no such file", p["pid"], x)
    checks, na = [], []
    for p in PROPS:
        mod = p["pid"].lower()
        src = os.path.join(V, "checks", mod + ".py")
        if not os.path.exists(src):
            na.append({"property": p["pid"], "reason": "its check is not built yet"})
            continue
        level = [
            l.split('"')[1] for l in open(src) if l.startswith("LEVEL =")
        ][0]
        checks.append(
            {
                "property": p["pid"],
                "quick_cmd": f"/opt/venv/bin/python check.py {p['pid']}",
                "thorough_cmd": f"/opt/venv/bin/python check.py {p['pid']} --thorough",
                "technique": "model checking: " + p["technique"],
                "level": level,
                "level_note": p["note"],
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy\"",
        "checks": checks,
        "not_applicable": na,
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
