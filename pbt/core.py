"""
Small property-based testing harness around Hypothesis.

A property module (pbt/props/cXX.py) defines a list ``SUBS`` of :class:`Sub`.
Each sub-check couples a generator of JSON-able cases (a Hypothesis strategy
and / or an explicit, enumerated list) with an oracle ``run(case, ctx)`` that
raises :class:`Violation` when the code in /repo breaks the property.

- every random choice comes from Hypothesis, seeded from VERIF_SEED
- a failing case is shrunk by Hypothesis, confirmed in a fresh process, and
  saved as a JSON replay file, which ``--replay`` runs without Hypothesis
- anything that goes wrong in the harness itself ends with exit status 2
"""
import os
import sys
import json
import time
import hashlib
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The code under test breaks the property."""


class Sub:
    """One sub-check: a generator of cases with an oracle."""

    def __init__(self, name, run, strategy=None, cases=None, quick=200, thorough=4000,
                 nontrivial=None, classify=None, shards=None, shrink=True, chunks=1):
        self.name = name
        self.run = run
        self.strategy = strategy          # callable -> SearchStrategy, or None
        self.cases = cases                # callable(tier) -> list of cases, or None
        self.quick, self.thorough = quick, thorough
        self.nontrivial = nontrivial or (lambda case: True)
        self.classify = classify or (lambda case: [])
        self.shards = shards
        self.chunks = chunks              # number of pieces for the explicit cases
        self.shrink = shrink


class Ctx:
    """What an oracle may use to report; knows the listed findings."""

    def __init__(self, prop, sub, findings):
        self.prop, self.sub = prop, sub
        self.findings = [f for f in findings if f["property"] == prop and f["sub"] == sub]
        self.hit = set()

    def fail(self, msg, key=None):
        if key is not None:
            for f in self.findings:
                if f["key"] == key:
                    self.hit.add(f["id"])
                    return
        raise Violation(msg)

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)


def loadFindings():
    """Listed findings of known_findings.txt ('finding:' lines, JSON part)."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding:"):
                out.append(json.loads(line[len("finding:"):]))
    return out


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def caseHash(sub, case):
    return hashlib.sha1((sub + canon(case)).encode()).hexdigest()[:16]


def subSeed(seed, prop, sub, shard):
    h = hashlib.sha256(f"{seed}/{prop}/{sub}/{shard}".encode()).digest()
    return int.from_bytes(h[:8], "big")


# ----------------------------------------------------------------------------
# Calls into the code under test
# ----------------------------------------------------------------------------
def sut(fn, *args, **kwargs):
    """Call the code under test: any exception on a valid input is a violation."""
    try:
        return fn(*args, **kwargs)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{tb[-1].filename}:{tb[-1].lineno}" if tb else "?"
        raise Violation(f"unexpected {type(e).__name__} on a valid input: {e} ({where})") from e


def rejects(fn, *args, types=(Exception,), what="", **kwargs):
    """The code under test must raise one of the given exception types."""
    try:
        fn(*args, **kwargs)
    except types:
        return
    except Exception as e:
        raise Violation(f"{what}: expected {[t.__name__ for t in types]}, got {type(e).__name__}: {e}") from e
    raise Violation(f"{what}: invalid input was accepted")


# ----------------------------------------------------------------------------
# Workers
# ----------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.classes = {}
        self.samples = []

    def add(self, sub, case):
        self.evaluations += 1
        if sub.nontrivial(case):
            h = caseHash(sub.name, case)
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 4 and int(h, 16) % 13 == 0):
                    self.samples.append(case)
        for c in sub.classify(case):
            self.classes[c] = self.classes.get(c, 0) + 1


def runOracle(sub, case, ctx):
    """
    Run the oracle on one case. The oracles process every result of the correct
    code, hence an exception in one of them means a result of the wrong kind,
    shape or content: also a violation (with the trace in the message).
    """
    from hypothesis.errors import UnsatisfiedAssumption
    try:
        sub.run(case, ctx)
    except (Violation, UnsatisfiedAssumption, MemoryError):
        raise
    except Exception as e:
        raise Violation(f"the oracle cannot process what the code returned: {traceback.format_exc()[-1500:]}") from e


GLOBAL = {}      # set before the workers are forked


def runTask(task):
    """Run one (sub-check, shard); returns a dictionary of results."""
    prop, subs, findings, seed = (GLOBAL[k] for k in ("prop", "subs", "findings", "seed"))
    sub = subs[task["sub"]]
    stats = Stats()
    ctx = Ctx(prop, sub.name, findings)
    out = {"sub": sub.name, "kind": task["kind"], "violation": None, "error": None}
    t0 = time.time()
    failing = []      # (case, message)
    try:
        if task["kind"] == "cases":
            for case in task["cases"]:
                stats.add(sub, case)
                try:
                    runOracle(sub, case, ctx)
                except Violation as v:
                    failing.append((case, str(v)))
                    break
        else:
            runHypothesis(prop, sub, ctx, stats, failing, task, seed)
    except Exception:
        if not failing:
            out["error"] = traceback.format_exc()
    if failing:
        # smallest failing case first
        first = failing[0]
        failing = sorted({canon(c): (c, m) for c, m in failing}.values(),
                         key=lambda t: (len(canon(t[0])), canon(t[0])))
        out["violation"] = {"candidates": failing[:25], "first": first}
    out.update(evaluations=stats.evaluations, hashes=stats.hashes, classes=stats.classes,
               samples=stats.samples, hit=ctx.hit, wall=time.time() - t0)
    return out


SHRINK_BUDGET = 40.0   # seconds of shrinking after the first failure


def runHypothesis(prop, sub, ctx, stats, failing, task, seed):
    import hypothesis as hy
    from hypothesis import HealthCheck, Phase

    state = {"t": None}

    def body(case):
        if state["t"] is not None and time.time() - state["t"] > SHRINK_BUDGET:
            return            # stop shrinking, the failing cases found are kept
        if state["t"] is None:
            stats.add(sub, case)
        try:
            runOracle(sub, case, ctx)
        except Violation as v:
            if state["t"] is None:
                state["t"] = time.time()
            failing.append((case, str(v)))
            raise

    phases = [Phase.generate] + ([Phase.shrink] if sub.shrink else [])
    test = hy.given(sub.strategy())(body)
    test = hy.settings(
        max_examples=task["n"], database=None, deadline=None, phases=phases,
        report_multiple_bugs=False, print_blob=False, verbosity=hy.Verbosity.quiet,
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example])(test)
    test = hy.seed(subSeed(seed, prop, sub.name, task["shard"]))(test)
    try:
        test()
    except Violation:
        pass
