"""Runner shared by all checks: enumerate, compare, account, report.

A check module (checks/pNN.py) defines

    LEVEL      "exploration" | "model_checking" | "fault_enumeration"
    RULE       text: how cases are made, what is non-trivial
    tasks(tier, seed)   -> list of picklable (function_name, args...) tuples
    <function_name>(rec, *args)   explores its part of the space and reports to `rec`

Every task is deterministic, so a violation is replayed by re-running its task with the
index of the failing case.
"""

import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_library():
    """Import the library from the working tree, silence its logging."""
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(var, "1")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    logging.disable(logging.CRITICAL)
    import infomeasure

    if os.environ.get("VERIF_COVER"):
        from mc import cover

        cover.install()
    root = os.path.dirname(os.path.dirname(os.path.abspath(infomeasure.__file__)))
    if os.path.realpath(root) != os.path.realpath(REPO):
        raise RuntimeError(f"infomeasure comes from {root}, not from {REPO}")
    return infomeasure


class TaskTimeout(Exception):
    pass


def jsonable(x, depth=0):
    import numpy as np

    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return f"<array shape={x.shape} dtype={x.dtype} head={x.ravel()[:12].tolist()}>"
        return {"array": jsonable(x.tolist(), depth + 1), "dtype": str(x.dtype)}
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if len(x) > 80:
            return [jsonable(v, depth + 1) for v in x[:40]] + [f"... {len(x)} items"]
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:300]


class Rec:
    """What one task covered and found."""

    MAX_VIOL = 5

    def __init__(self, task, known):
        self.task = task
        self.known = known
        self.evaluations = 0
        self.nontrivial = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.samples = []
        self.violations = []
        self.n_violations = 0
        self.findings = {}
        self.outcomes = set()
        self.extra = {}
        self.state_set = set()
        self.edge_set = set()

    # -- the explored model
    def hist_state(self, *cols):
        """Replay one stream on the histogram model: its last state and transition.

        A state is the multiset of joint samples seen so far, so streams that differ only
        in order meet; prefixes are traces of their own in a breadth-first exploration.
        """
        stream = list(zip(*cols))
        last = hash(frozenset(Counter(map(repr, stream)).items()))
        self.state_set.add(last)
        if len(stream) > 1:
            prev = hash(frozenset(Counter(map(repr, stream[:-1])).items()))
            self.edge_set.add(hash((prev, last)))

    def time_state(self, *cols):
        """As hist_state for order-sensitive models: the state is the stream itself."""
        last = hash(repr(cols))
        self.state_set.add(last)
        if len(cols[0]) > 1:
            self.edge_set.add(hash((hash(repr([c[:-1] for c in cols])), last)))

    def node(self, *key):
        """One explored point of a parameter space (a state without transitions)."""
        self.state_set.add(hash(repr(key)))

    def edge(self, a, label, b):
        """A transition a --label--> b of an explicit state graph."""
        ha, hb = hash(repr(a)), hash(repr(b))
        self.state_set.add(ha)
        self.state_set.add(hb)
        self.edge_set.add(hash((ha, repr(label), hb)))

    # -- accounting
    def ev(self, nontrivial=True, n=1):
        self.evaluations += n
        if nontrivial:
            self.nontrivial += n

    def sample(self, case, k=2):
        if len(self.samples) < k:
            self.samples.append(jsonable(case))

    def outcome(self, value):
        """Remember distinct observed outcomes (vacuity guard)."""
        if len(self.outcomes) < 5000:
            try:
                self.outcomes.add(round(float(value), 9))
            except (TypeError, ValueError, OverflowError):
                self.outcomes.add(str(value))

    # -- reporting
    def violation(self, case, expected, got, why):
        self.n_violations += 1
        if len(self.violations) < self.MAX_VIOL:
            self.violations.append(
                {
                    "task": jsonable(self.task),
                    "case": jsonable(case),
                    "expected": jsonable(expected),
                    "got": jsonable(got),
                    "why": why,
                }
            )

    def finding(self, fid, case, got):
        """A deviation which a listed known finding describes exactly."""
        if fid not in self.known:
            self.violation(case, "listed known finding " + fid, got, "not listed")
            return
        n, first = self.findings.get(fid, (0, jsonable({"case": case, "got": got})))
        self.findings[fid] = (n + 1, first)

    # -- comparisons
    def close(self, case, expected, got, why, rtol=1e-9, atol=1e-9):
        if same(expected, got, rtol, atol):
            return True
        self.violation(case, expected, got, why)
        return False

    def true(self, cond, case, expected, got, why):
        if not cond:
            self.violation(case, expected, got, why)
        return bool(cond)

    def call(self, case, why, fn, *a, **k):
        """Call the library; an exception on valid input is a violation."""
        try:
            return True, fn(*a, **k)
        except TaskTimeout:
            raise
        except Exception as exc:  # noqa: BLE001
            self.violation(
                case,
                "a value",
                f"{type(exc).__name__}: {exc}",
                why + " (raised on valid input)",
            )
            return False, None


def same(expected, got, rtol=1e-9, atol=1e-9):
    """Scalar/array closeness in which nan equals nan."""
    import numpy as np

    if isinstance(expected, (float, int)) and isinstance(got, (float, int, np.generic)):
        e, g = float(expected), float(got)
        if e != e or g != g:
            return e != e and g != g
        if math.isinf(e) or math.isinf(g):
            return e == g
        return abs(e - g) <= atol + rtol * abs(e)
    if got is None or expected is None:
        return got is expected
    try:
        e, g = np.asarray(expected, dtype=float), np.asarray(got, dtype=float)
    except (TypeError, ValueError):
        return False
    if e.shape != g.shape:
        return False
    return bool(np.allclose(g, e, rtol=rtol, atol=atol, equal_nan=True))


def _alarm(signum, frame):
    raise TaskTimeout()


def _run_task(payload):
    modname, task, known, limit = payload
    import importlib

    mod = importlib.import_module("checks." + modname)
    rec = Rec(task, known)
    err = None
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        if task[0] == "shared":
            mod, task = importlib.import_module("checks.p23"), task[1:]
        getattr(mod, task[0])(rec, *task[1:])
    except TaskTimeout:
        err = f"task {task!r} exceeded {limit} s"
    except BaseException:  # noqa: BLE001
        err = f"task {task!r}\n" + traceback.format_exc()
    finally:
        signal.alarm(0)
    try:  # a task must not leave the configuration changed
        import infomeasure

        infomeasure.Config.reset()
    except Exception:  # noqa: BLE001
        pass
    if os.environ.get("VERIF_COVER"):
        from mc import cover

        cover.dump(os.environ["VERIF_COVER"])
    d = rec.__dict__.copy()
    d["outcomes"] = list(d["outcomes"])
    return d, err, time.time() - t0


def load_known(prop):
    """Ids of the findings listed for this property (fixed entries suppress nothing)."""
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("status") == "known" and prop in e["properties"]:
                    out[e["id"]] = e["what"]
    return out


def main(prop, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
    modname = prop.lower()
    sys.path.insert(0, VERIF)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    import importlib

    known = load_known(prop)
    try:
        setup_library()
        mod = importlib.import_module("checks." + modname)
        import_error = None
    except Exception:  # noqa: BLE001
        import_error = traceback.format_exc()
    if import_error:
        print(import_error)
        print(f"ERROR property={prop}: the check could not start")
        return 2

    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1]))
        task = _untuple(replay["task"])
        d, err, _ = _run_task((modname, task, known, 3600))
        for v in d["violations"]:
            print(json.dumps(v, indent=1))
        if err:
            print(err)
        return 1 if d["n_violations"] else 0

    tasks = [tuple(t) for t in mod.tasks(tier, seed)]
    tasks += [("shared", *t) for t in getattr(mod, "SHARED", ())]  # moves of P23 on this property's measures
    limit = 3600 * 3 if tier == "thorough" else 800
    only = [a.split("=", 1)[1] for a in argv if a.startswith("--only=")]
    if only:
        tasks = [t for t in tasks if t[0] in only]
    payloads = [(modname, t, known, limit) for t in tasks]
    results, errors, slow = [], [], []
    ctx = mp.get_context("fork")
    if jobs > 1 and len(tasks) > 1:
        # a task may itself start worker processes, so the pool is not daemonic
        import concurrent.futures as cf

        with cf.ProcessPoolExecutor(
            max_workers=min(jobs, len(tasks)), mp_context=ctx
        ) as ex:
            futs = [ex.submit(_run_task, p) for p in payloads]
            for t, f in zip(tasks, futs):
                try:
                    d, err, dt = f.result()
                    results.append(d)
                    slow.append((dt, t))
                    if err:
                        errors.append(err)
                except Exception as exc:  # noqa: BLE001
                    errors.append(f"worker failed on {t!r}: {exc!r}")
    else:
        for p in payloads:
            d, err, dt = _run_task(p)
            results.append(d)
            slow.append((dt, p[1]))
            if err:
                errors.append(err)

    tot = {
        k: sum(r[k] for r in results)
        for k in (
            "evaluations",
            "nontrivial",
            "states",
            "transitions",
            "traces",
            "skipped",
            "n_violations",
        )
    }
    state_set, edge_set = set(), set()
    for r in results:
        state_set |= r.pop("state_set")
        edge_set |= r.pop("edge_set")
    tot["states"] += len(state_set)
    tot["transitions"] += len(edge_set)
    outcomes = set()
    per_family = {}
    findings = {}
    samples, violations = [], []
    for r in results:
        outcomes.update(map(str, r["outcomes"]))
        fam = per_family.setdefault(
            r["task"][0], {"tasks": 0, "evaluations": 0, "traces": 0}
        )
        fam["tasks"] += 1
        for k in ("evaluations", "traces"):
            fam[k] += r[k]
        if r["samples"] and fam["tasks"] <= 2:
            samples.extend({"family": r["task"][0], "case": s} for s in r["samples"])
        violations.extend(r["violations"])
        for fid, (n, first) in r["findings"].items():
            m, f0 = findings.get(fid, (0, first))
            findings[fid] = (m + n, f0)
    if not samples:
        samples = [{"task": jsonable(t)} for t in tasks[:3]]
    cov = {
        "evaluations": tot["evaluations"],
        "distinct_nontrivial": tot["nontrivial"],
        "rule": mod.RULE,
        "samples": samples[:24],
        "exhaustive": not errors and not only,
        "distinct_outcomes": len(outcomes),
        "families": per_family,
        "bounds": mod.BOUNDS[tier] if hasattr(mod, "BOUNDS") else "",
    }
    if mod.LEVEL == "model_checking":
        cov["states"] = tot["states"]
        cov["transitions"] = tot["transitions"]
        cov["traces_validated_against_impl"] = tot["traces"]
    elif tot["states"]:
        cov["states"] = tot["states"]
        cov["transitions"] = tot["transitions"]
    if tot["skipped"]:
        cov["skipped"] = tot["skipped"]
    for r in results:
        for k, v in r["extra"].items():
            cov.setdefault("extra", {}).setdefault(k, 0)
            cov["extra"][k] += v
    if findings:
        cov["known_findings_seen"] = {
            fid: {"cases": n, "first": f} for fid, (n, f) in findings.items()
        }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": tot["n_violations"],
    }
    tmp = os.path.join(evdir, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, f"{prop}.json"))

    for fid, (n, first) in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={prop} {fid}: {known[fid]} ({n} cases)")
    print(
        f"{prop} tier={tier} seed={seed} tasks={len(tasks)} "
        f"evaluations={tot['evaluations']} nontrivial={tot['nontrivial']} "
        f"states={tot['states']} transitions={tot['transitions']} "
        f"traces={tot['traces']} outcomes={len(outcomes)} wall={time.time() - t0:.1f}s"
    )
    if os.environ.get("VERIF_SLOW"):
        for dt, t in sorted(slow, reverse=True, key=lambda x: x[0])[:8]:
            print(f"  {dt:6.1f}s {t!r}"[:160])
    if os.environ.get("VERIF_ALL"):  # while writing a check: one line per task and reason
        seen = set()
        for v in violations:
            if (str(v["task"]), v["why"]) not in seen:
                seen.add((str(v["task"]), v["why"]))
                print("  *", v["task"], v["why"], json.dumps(v["case"])[:300], json.dumps(v["expected"])[:80],
                      json.dumps(v["got"])[:120])
    if tot["n_violations"]:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, **v}, f, indent=1)
            print("  why:", v["why"])
            print("  case:", json.dumps(v["case"])[:600])
            print("  expected:", json.dumps(v["expected"])[:300])
            print("  got:", json.dumps(v["got"])[:300])
            print(f"VIOLATION property={prop} replay={path}")
        print(f"{tot['n_violations']} violating cases in all")
        for e in errors[:3]:
            print("also:", e)
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR", e)
        return 2
    return 0


def _untuple(x):
    if isinstance(x, list):
        return tuple(_untuple(v) for v in x)
    return x
