"""C08: collocation coefficients on any interval."""
import numpy as np
from hypothesis import strategies as st

import gens
import num
from num import U, LD
from core import Sub, Violation, sut
from props.lagcommon import integRef, interpRef
from qmat.qcoeff.collocation import Collocation

RULE = ("cases are (number of nodes, distribution, quadrature type, interval), enumerated for small sizes on [0,1] and drawn for other "
        "intervals; non-trivial: at least two nodes")
ASSUMPTIONS = ["extended precision nodes and exact integrals of the 50-digit Lagrange basis on the returned nodes as reference"]


def run(case, ctx):
    n, nt, qt = case["cfg"]
    tL, tR = case["tL"], case["tR"]
    kw = {}
    if case["kw"]:
        kw = {"tLeft": tL, "tRight": tR}
        gen = sut(Collocation, nNodes=n, nodeType=nt, quadType=qt, **kw)
    elif (tL, tR) == (0, 1):
        gen = sut(Collocation, n, nt, qt)
    else:
        gen = sut(Collocation, n, nt, qt, tL, tR)
    h = tR - tL
    mag = max(abs(tL), abs(tR))
    name = f"{nt} {qt} {n} nodes on [{tL}, {tR}]"
    nodes = num.arr(sut(lambda: gen.nodes), (n,), f"nodes, {name}").copy()
    ref = (num.refNodes(nt, qt, n) + 1) / 2 * LD(h) + LD(tL)
    num.close(nodes, ref.astype(float), (2e-14 + 4e-16 * n) * abs(h) + 8 * U * mag, f"nodes, {name}")
    if not np.all(np.diff(nodes) > 0):
        raise Violation(f"nodes are not increasing, {name}")
    if qt in ("LOBATTO", "RADAU-LEFT") and nodes[0] != tL:
        raise Violation(f"first node is {nodes[0]!r}, not {tL!r}, {name}")
    if qt in ("LOBATTO", "RADAU-RIGHT") and nodes[-1] != tR:
        raise Violation(f"last node is {nodes[-1]!r}, not {tR!r}, {name}")
    right = qt in ("LOBATTO", "RADAU-RIGHT")
    if bool(sut(lambda: gen.rightIsNode)) != right:
        raise Violation(f"rightIsNode is {gen.rightIsNode}, {name}")
    if gen.nNodes != n:
        raise Violation(f"nNodes is {gen.nNodes}, {name}")
    if (gen.tLeft, gen.tRight) != (tL, tR):
        raise Violation(f"bounds are {gen.tLeft}, {gen.tRight}, {name}")
    pts = [float(v) for v in nodes]
    lo = float(tL)
    rQ, tQ = integRef(pts, [[lo, t] for t in pts] + [[lo, float(tR)]])
    Q = num.arr(sut(lambda: gen.Q), (n, n), f"Q, {name}")
    w = num.arr(sut(lambda: gen.weights), (n,), f"weights, {name}")
    # each form may be computed from the other one (differences of rows, cumulated rows)
    rS, tS = integRef(pts, [[a, b] for a, b in zip([lo] + pts[:-1], pts)])
    tQ = tQ + np.vstack([np.cumsum(tS, axis=0), tS.sum(axis=0)])
    tS = tS + tQ[:-1] + np.vstack([0 * tQ[:1], tQ[:-2]])
    num.close(Q, rQ[:-1], tQ[:-1], f"Q, {name}")
    num.close(w, rQ[-1], tQ[-1], f"weights, {name}")
    num.close(num.arr(sut(lambda: gen.S), (n, n), f"S, {name}"), rS, tS, f"S, {name}")
    rH, tH, _ = interpRef(pts, [float(tR)])
    num.close(num.arr(sut(lambda: gen.hCoeffs), (n,), f"hCoeffs, {name}"), rH[0], tH[0], f"hCoeffs, {name}")
    if right and np.any(np.abs(w - Q[-1]) > 2 * tQ[-1]):
        raise Violation(f"weights differ from the last row of Q, {name}")
    # the generic forms contain the same arrays
    c, b, A, hc = sut(gen.genCoeffs, hCoeffs=True)
    for got, exp, what in ((c, nodes, "nodes"), (b, w, "weights"), (A, Q, "Q"), (hc, gen.hCoeffs, "hCoeffs")):
        if not np.array_equal(got, exp):
            raise Violation(f"genCoeffs gives other {what}, {name}")


def runLarge(case, ctx):
    """Many nodes: integrals of Chebyshev polynomials of all degrees below the number of nodes."""
    n, nt, qt = case["cfg"]
    tL, tR = case["tL"], case["tR"]
    gen = sut(Collocation, n, nt, qt, tL, tR)
    h = tR - tL
    name = f"{nt} {qt} {n} nodes on [{tL}, {tR}]"
    nodes = num.arr(sut(lambda: gen.nodes), (n,), f"nodes, {name}")
    if not np.all(np.diff(nodes) > 0):
        raise Violation(f"nodes are not increasing, {name}")
    if qt in ("LOBATTO", "RADAU-LEFT") and nodes[0] != tL or qt in ("LOBATTO", "RADAU-RIGHT") and nodes[-1] != tR:
        raise Violation(f"boundary nodes are {nodes[0]!r}, {nodes[-1]!r}, {name}")
    ref = (num.refNodes(nt, qt, n) + 1) / 2 * LD(h) + LD(tL)
    off = 1 + max(abs(tL), abs(tR)) / abs(h)
    num.close(nodes, ref.astype(float), (2e-14 + 4e-16 * n) * abs(h) * off, f"nodes, {name}")
    x = np.clip(2 * (nodes.astype(LD) - LD(tL)) / LD(h) - 1, -1, 1)
    th = np.arccos(x)
    Q, S = num.arr(sut(lambda: gen.Q), (n, n), f"Q, {name}"), num.arr(sut(lambda: gen.S), (n, n), f"S, {name}")
    w, H = num.arr(sut(lambda: gen.weights), (n,), f"weights, {name}"), num.arr(sut(lambda: gen.hCoeffs), (n,), f"hCoeffs, {name}")
    ks = sorted({0, 1, 2, n // 2, n - 2, n - 1} | {k % n for k in case["ks"]})
    lamH, lam = 1 + np.abs(H).sum(), 4
    tol = lam * 2e-14 * n * off + 1e-13
    for k in ks:
        f = np.cos(k * th).astype(float)
        prim = chebPrimitive(k, th)
        left = chebPrimitive(k, np.array([np.arccos(LD(-1))]))[0]
        right = chebPrimitive(k, np.array([LD(0)]))[0]
        I = ((prim - left) / 2).astype(float)
        num.close(Q @ f / h, I, tol, f"integral of T_{k} with Q, {name}")
        num.close(S @ f / h, np.diff(I, prepend=0), 2 * tol, f"integral of T_{k} with S, {name}")
        num.close(np.asarray(w @ f / h), np.asarray(float(right - left) / 2), tol, f"integral of T_{k} with the weights, {name}")
        num.close(np.asarray(H @ f), np.asarray(1.0), 2e-14 * lamH * (n + k * k * off), f"right value of T_{k}, {name}")


def chebPrimitive(k, th):
    if k == 0:
        return np.cos(th)
    if k == 1:
        return np.cos(th)**2 / 2
    return (np.cos((k + 1) * th) / (k + 1) - np.cos((k - 1) * th) / (k - 1)) / 2


@st.composite
def largeStrategy(draw):
    cfg = draw(gens.configs(140, num.NODE_TYPES[1:], nMin=33))
    tL, tR = draw(st.sampled_from([(0, 1), (0, 1), (-1, 1), (1, 3), (-1e-6, 2e-6), (10.0, 10.5)]))
    return {"cfg": cfg, "tL": tL, "tR": tR, "ks": draw(st.lists(st.integers(3, 140), min_size=1, max_size=5))}


BOUNDS = [(0, 1), (0.0, 1.0), (0, 2), (-1, 1), (0.5, 0.75), (-3, -1), (1, 3), (10.0, 10.5), (0, 1e-3), (0, 1e4), (-1e-6, 2e-6), (2.0, 7.3), (100.0, 101.0), (-0.1, 0.0)]


def interval(draw):
    if draw(st.booleans()):
        return draw(st.sampled_from(BOUNDS))
    h = draw(st.sampled_from([1e-9, 1e-4, 0.1, 0.3, 1.0, 1.7, 12.0, 1e6]))
    tL = h * draw(st.sampled_from([-100, -7, -1, -0.5, 0, 0.25, 1, 3, 50]))
    return tL, tL + h * (1 + draw(st.integers(0, 8)) / 8)


@st.composite
def strategy(draw, nMin=1, nMax=12):
    cfg = draw(gens.configs(nMax, nMin=nMin))
    tL, tR = interval(draw)
    return {"cfg": cfg, "tL": tL, "tR": tR, "kw": draw(st.booleans())}


def bigStrategy():
    return strategy(13, 32).filter(lambda c: c["cfg"][1] != "EQUID" or c["cfg"][0] <= 20)


def cases(tier):
    return [{"cfg": c, "tL": 0, "tR": 1, "kw": False} for c in gens.allConfigs(8 if tier == "quick" else 12)] + \
           [{"cfg": c, "tL": 1, "tR": 3, "kw": True} for c in gens.allConfigs(6 if tier == "quick" else 10)]


def classify(case):
    return case["cfg"][1:] + ["unit" if (case["tL"], case["tR"]) == (0, 1) else "other interval"]


SUBS = [
    Sub("exact", run, strategy, cases, quick=500, thorough=9000, nontrivial=lambda c: c["cfg"][0] > 1, classify=classify, shards=8, chunks=8),
    Sub("large", runLarge, largeStrategy, quick=16, thorough=500, classify=classify, shards=8),
    Sub("manyNodes", run, bigStrategy, quick=48, thorough=800, classify=classify, shards=8),
]
