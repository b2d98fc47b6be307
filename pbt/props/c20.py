"""C20: predicted SDC order."""
import json
import math
import os
import numpy as np
from hypothesis import strategies as st

import gens
import num
from core import Sub, Violation, sut
from qmat import QDELTA_GENERATORS
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC

RULE = ("cases are a collocation configuration, an approximation, a number of sweeps and an end of step rule; non-trivial: at least one sweep "
        "and two nodes")
ASSUMPTIONS = ["order really obtained: agreement of the Taylor coefficients of one step (relative 1e-6) with the exponential",
               "approximations are named by their class name; the end of step rule without quadrature update only for node sets with the right boundary",
               "a prediction above that order is accepted for two to four nodes when an observed convergence order (lambda = i, one period) is within one half of it"]

TYPES = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "PIC", "LU", "GS", "QPar", "MIN_SR_NS", "MIN_SR_S", "MIN_SR_FLEX", "Jumper", "FlexJumper", "DNODES", "DNODES3"]
TRAPS = ("TRAP", "TRAPAR")

BOUNDS = [[0, 2], [1, 3], [-1, 1], [0, 0.5], [-4, -2.5], [1e-4, 2e-4], [40, 50.5], [2, 2.5], [-1e3, 1e3]]

# order observed in the convergence study, for the tabulated configurations
with open(os.path.join(os.path.dirname(__file__), "..", "data", "bonus.json")) as _f:
    BONUS = {(*cfg, qd, K, step): p for cfg, qd, K, step, p in json.load(_f)}


def taylor(Q, QDs, w, K):
    """Taylor coefficients in z of one step from 1."""
    c = np.zeros((K + 1, Q.shape[0]))
    c[0] = 1
    for D in QDs:
        n = np.zeros_like(c)
        n[0] = 1
        for p in range(1, K + 1):
            n[p] = (Q - D) @ c[p - 1] + D @ n[p - 1]
        c = n
    if w is None:
        return c[:, -1]
    r = np.zeros(K + 1)
    r[0] = 1
    for p in range(1, K + 1):
        r[p] = w @ c[p - 1]
    return r


def trueOrder(r, tol=1e-6):
    for p in range(1, len(r)):
        if abs(r[p] * math.factorial(p) - 1) > tol:
            return p - 1
    return len(r) - 1


def nStepsFor(order):
    return {1: [64, 128, 256], 2: [32, 64, 128], 3: [16, 32, 64], 4: [8, 16, 32], 5: [8, 16, 32], 6: [4, 8, 16], 7: [4, 8, 16]}.get(order, [1, 2, 4])


def observed(Q, QDs, w, steps):
    err = []
    T = 2 * np.pi
    n = Q.shape[0]
    for N in steps:
        z = 1j * T / N
        v = np.ones(n, dtype=complex)
        for D in QDs:
            v = np.linalg.solve(np.eye(n) - z * D, 1 + z * (Q - D) @ v)
        R = v[-1] if w is None else 1 + z * (w @ v)
        u = R ** np.arange(N + 1)
        err.append(np.abs(u - np.exp(1j * np.linspace(0, T, N + 1))).max())
    x, y = np.log(T / np.array(steps)), np.log(err)
    return np.polyfit(x, y, 1)[0]


def run(case, ctx):
    n, nt, qt = case["cfg"]
    qd, K, step = case["type"], case["K"], case["step"]
    coll = sut(Collocation, n, nt, qt)
    pred = sut(getOrderSDC, coll, K, qd, step)
    what = f"predicted order for {nt} {qt} {n} nodes, {K} sweeps of {qd}, {step}"
    if isinstance(pred, bool) or not isinstance(pred, (int, np.integer)):
        raise Violation(f"{what} is {pred!r}")
    base = min(coll.order, (K + (qd in TRAPS) if K else 0) + (step == "QUADRATURE"))
    if pred < base:
        raise Violation(f"{what} is {pred}, less than {base}")
    seen = BONUS.get((n, nt, qt, qd, K, step))
    if seen is not None and pred != seen:
        raise Violation(f"{what} is {pred}, the order observed in a convergence study is {seen}")
    for bounds in BOUNDS if seen is not None else [case["bounds"]]:
        other = sut(Collocation, n, nt, qt, *bounds)
        p2 = sut(getOrderSDC, other, K, qd, step)
        if p2 != pred:
            raise Violation(f"{what} is {pred} on [0, 1] but {p2} on {bounds}")
    gen = sut(QDELTA_GENERATORS[qd], qGen=coll)
    QDs = sut(gen.genCoeffs, k=list(range(1, K + 1))) if K else []
    w = coll.weights if step == "QUADRATURE" else None
    r = taylor(coll.Q, QDs, w, max(pred, base) + 2)
    true = trueOrder(r)
    if pred <= true:
        return
    if 2 <= n <= 4 and K:
        sets = {tuple(nStepsFor(p)) for p in (pred - 1, pred, pred + 1)}
        if any(abs(observed(coll.Q, QDs, w, list(s)) - pred) < 0.5 for s in sets):
            return
    raise Violation(f"{what} is {pred}, but the order is {true} (Taylor coefficients times factorials {[float(v) * math.factorial(i) for i, v in enumerate(r)]})")


def rules(qt):
    return ["QUADRATURE", "LASTNODE"] if qt in ("LOBATTO", "RADAU-RIGHT") else ["QUADRATURE"]


def cases(tier):
    top, kTop, types = (6, 6, TYPES) if tier == "thorough" else (5, 5, TYPES[:10])
    out = []
    i = 0
    for cfg in gens.allConfigs(top):
        for step in rules(cfg[2]):
            for K in range(0 if step == "QUADRATURE" else 1, kTop + 1):
                for qd in types:
                    i += 1
                    out.append({"cfg": cfg, "type": qd, "K": K, "step": step, "bounds": BOUNDS[i % len(BOUNDS)]})
    for cfg in ([12, "LEGENDRE", "RADAU-RIGHT"], [20, "CHEBY-1", "LOBATTO"], [33, "LEGENDRE", "GAUSS"], [24, "CHEBY-2", "LOBATTO"]):
        for step in rules(cfg[2]):
            out += [{"cfg": cfg, "type": qd, "K": K, "step": step, "bounds": [0, 2]} for qd in TYPES[:6] for K in (1, 3, 8, 12)]
    out += [{"cfg": list(k[:3]), "type": k[3], "K": k[4], "step": k[5], "bounds": [1, 3]} for k in BONUS]
    return out


@st.composite
def strategy(draw):
    cfg = draw(st.one_of(gens.configs(9), gens.configs(9), gens.configs(14)))
    step = draw(st.sampled_from(rules(cfg[2])))
    return {"cfg": cfg, "type": draw(st.sampled_from(TYPES)), "K": draw(st.integers(0 if step == "QUADRATURE" else 1, draw(st.sampled_from([9, 9, 16])))), "step": step,
            "bounds": draw(st.sampled_from(BOUNDS))}


SUBS = [
    Sub("orders", run, strategy, cases, quick=800, thorough=16000, nontrivial=lambda c: c["K"] > 0 and c["cfg"][0] > 1,
        classify=lambda c: [c["type"], c["step"]], shards=8, chunks=16),
]
