"""C09: order of collocation methods and structure of their stability function."""
import math
import numpy as np
from hypothesis import strategies as st

import gens
import num
from num import U, LD
from core import Sub, Violation, sut
from props.c08 import BOUNDS
from qmat.qcoeff.collocation import Collocation

RULE = ("cases are collocation configurations (enumerated for small sizes) with an interval for the quadrature order, and a complex "
        "coefficient for the stability function; non-trivial: at least two nodes")
ASSUMPTIONS = ["extended precision for moments of shifted Legendre polynomials"]


def declared(nt, qt, n):
    """Order stated by the property."""
    if nt == "LEGENDRE":
        return {"GAUSS": 2 * n, "RADAU-LEFT": 2 * n - 1, "RADAU-RIGHT": 2 * n - 1, "LOBATTO": 2 * n - 2}[qt]
    sym = qt in ("GAUSS", "LOBATTO") and nt in ("EQUID", "CHEBY-1", "CHEBY-2")
    return n + (n % 2 if sym else 0)


def legendreMoments(nodes, w, top):
    """sum w_i P_k(x_i) on [-1,1], for k = 0..top (2 for k = 0 when exact, else 0)."""
    x = nodes.astype(LD)
    w = w.astype(LD)
    p0, p1 = np.ones_like(x), x
    out = [(w * p0).sum(), (w * p1).sum()]
    mag = [np.abs(w * p0).sum(), np.abs(w * p1).sum()]
    for k in range(2, top + 1):
        p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        out.append((w * p1).sum())
        mag.append(np.abs(w * p1).sum())
    return np.array(out[:top + 1]), np.array(mag[:top + 1])


def run(case, ctx):
    n, nt, qt = case["cfg"]
    tL, tR = case["tL"], case["tR"]
    gen = sut(Collocation, n, nt, qt, tL, tR)
    name = f"{nt} {qt} {n} nodes on [{tL}, {tR}]"
    order = sut(lambda: gen.order)
    p = declared(nt, qt, n)
    if int(order) != order:
        raise Violation(f"order is {order!r}, {name}")
    h = tR - tL
    off = max(abs(tL), abs(tR)) / abs(h)
    x = (2 * (gen.nodes.astype(LD) - LD(tL)) / LD(h) - 1)
    w = 2 * gen.weights.astype(LD) / LD(h)
    top = order + 1
    m, mag = legendreMoments(x, w, top)
    m[0] -= 2
    lam = float(np.abs(w).sum())
    d = 40 * U * (n + 5) * (1 + off) * (1 + lam)
    tol = np.array([d * (1 + k * k) for k in range(top + 1)]) * lebesgue(nt, n)
    bad = [k for k in range(order) if abs(m[k]) > tol[k]]
    if bad:
        raise Violation(f"declared order {order}, but the weights are not exact for degree {bad[0]} (moment error {float(m[bad[0]]):.3e}), {name}")
    # not exact for the next degree
    if abs(tol[order]) < 1e-3 * abs(refResidual(nt, qt, n, order)) and abs(m[order]) <= tol[order]:
        raise Violation(f"declared order {order}, but the weights are exact for degree {order} too, {name}")
    if order != p:
        raise Violation(f"declared order is {order} instead of {p}, {name}")


def lebesgue(nt, n):
    return 1.0 if nt != "EQUID" else 1.5**n


_cache = {}


def refResidual(nt, qt, n, k):
    key = (nt, qt, n, k)
    if key not in _cache:
        x = num.refNodes(nt, qt, n)
        # interpolatory weights in extended precision, from Legendre moments
        V = np.array([legendreRow(x, j) for j in range(n)])
        b = np.zeros(n)
        b[0] = 2
        w = np.linalg.solve(V.astype(float), b)
        _cache[key] = float((w * legendreRow(x, k).astype(float)).sum())
    return _cache[key]


def legendreRow(x, k):
    return num.jacobi(k, 0.0, 0.0, x)


def cases(tier):
    top = 16 if tier == "quick" else 30
    out = []
    for c in gens.allConfigs(top):
        if c[1] == "EQUID" and c[0] > 12:
            continue
        out.append({"cfg": c, "tL": 0, "tR": 1})
    return out


@st.composite
def strategy(draw):
    cfg = draw(gens.configs(24))
    if cfg[1] == "EQUID":
        cfg[0] = min(cfg[0], 12)
    tL, tR = draw(st.sampled_from(BOUNDS))
    return {"cfg": cfg, "tL": tL, "tR": tR}


# ----------------------------------------------------------------------------
def runStability(case, ctx):
    n, nt, qt = case["cfg"]
    gen = sut(Collocation, n, nt, qt)
    name = f"{nt} {qt} {n} nodes"
    b, A, order = gen.weights, gen.Q, gen.order
    # series of the stability function against 1/k!
    v, av = np.ones(n, dtype=LD), np.ones(n)
    ba, Aa = np.abs(b), np.abs(A)
    rel = 60 * U * (n + 5) * lebesgue(nt, n)
    for k in range(1, order + 1):
        r = (b.astype(LD) * v).sum()
        tol = rel * k * (ba @ av) + 1e-300
        if abs(r - 1 / LD(math.factorial(k))) > tol:
            raise Violation(f"coefficient of z^{k} in the stability function is {float(r)}, expected 1/{k}!, {name}")
        v = A.astype(LD) @ v
        av = Aa @ av

    def R(z):
        u = sut(gen.solveDahlquist, z, 1.0, 1.0, 1)
        return complex(num.arr(u, (2,), "solution")[1])

    y = case["y"]
    x = case["x"]
    if nt == "LEGENDRE" and qt == "GAUSS":
        r = R(1j * y)
        if abs(abs(r) - 1) > 1e-11 * n:
            raise Violation(f"|R({y}i)| = {abs(r)!r}, {name}")
        z = complex(-x, y)
        if abs(z) < 2 * n and abs(R(-z) * R(z) - 1) > 1e-9 * max(1, abs(R(-z)), abs(R(z))):
            raise Violation(f"R(z) R(-z) = {R(z) * R(-z)} for z = {z}, {name}")
    if nt == "LEGENDRE" and qt in ("GAUSS", "RADAU-RIGHT"):
        z = complex(-x, y)
        if abs(R(z)) > 1 + 1e-10 * n:
            raise Violation(f"|R({z})| = {abs(R(z))} > 1, {name}")
    if nt == "LEGENDRE" and qt == "RADAU-RIGHT":
        for big in (1e6, 1e9):
            z = big * (-1 + 0.5j * np.sign(y))
            if abs(R(z)) > 1e3 * n**2 / big + 1e-9:
                raise Violation(f"|R({z})| = {abs(R(z))} does not vanish, {name}")
    if bool(gen.rightIsNode):
        num.close(b, A[-1], 1e-14 * n * lebesgue(nt, n), f"weights and last row, {name}")
        if qt not in ("LOBATTO", "RADAU-RIGHT"):
            raise Violation(f"rightIsNode for {name}")


def stabCases(tier):
    return [{"cfg": c, "x": 0.7, "y": 1.3} for c in gens.allConfigs(12) if c[1] != "EQUID" or c[0] <= 10]


@st.composite
def stabStrategy(draw):
    cfg = draw(st.one_of(gens.configs(14), gens.configs(14, ["LEGENDRE"], ["GAUSS", "RADAU-RIGHT"])))
    if cfg[1] == "EQUID":
        cfg[0] = min(cfg[0], 10)
    mag = draw(st.sampled_from([0.01, 0.3, 1.0, 4.0, 30.0, 1000.0]))
    return {"cfg": cfg, "x": mag * draw(st.integers(0, 16)) / 16, "y": mag * draw(st.integers(-16, 16)) / 16}


SUBS = [
    Sub("order", run, strategy, cases, quick=300, thorough=6000, nontrivial=lambda c: c["cfg"][0] > 1, classify=lambda c: c["cfg"][1:], shards=4, chunks=4),
    Sub("stability", runStability, stabStrategy, stabCases, quick=500, thorough=12000, nontrivial=lambda c: c["cfg"][0] > 1,
        classify=lambda c: c["cfg"][1:], shards=4, chunks=4),
]
