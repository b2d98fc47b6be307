"""C03: integration matrices and the Fejer rule."""
import numpy as np
from hypothesis import strategies as st

import gens
import num
from core import Sub, Violation, sut, rejects
from props.lagcommon import build, integRef
from props.c02 import usable
from qmat.lagrange import LagrangeApproximation, computeFejerRule

RULE = ("cases are distinct points of any scale, offset and order with lists of intervals (inside, outside, reversed, empty), "
        "quadrature rules and weight algorithms, and all Fejer sizes; non-trivial: at least two points and a non-empty interval")
ASSUMPTIONS = ["exact integrals of the 50-digit Lagrange basis as reference", "condition-scaled tolerances"]
QUADS = ["LEGENDRE_NUMPY", "LEGENDRE_SCIPY", "FEJER"]


@st.composite
def intervals(draw, pts):
    lo, r = gens.span(pts)
    out = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["in", "in", "node", "wide", "empty", "far"]))
        if kind == "in":
            a, b = (lo + r * draw(st.integers(0, 32)) / 32 for _ in range(2))
        elif kind == "node":
            a, b = draw(st.sampled_from(pts)), draw(st.sampled_from(pts))
        elif kind == "wide":
            a, b = lo - r * draw(st.integers(0, 8)) / 16, lo + r * (1 + draw(st.integers(0, 8)) / 16)
        elif kind == "far":
            a, b = lo + r * 1.25, lo + r * 1.5
        else:
            a = b = lo + r * draw(st.integers(-8, 32)) / 32
        if draw(st.booleans()):
            a, b = b, a
        out.append([float(a), float(b)])
    return out


@st.composite
def strategy(draw):
    pts = draw(gens.points(1, 12))
    return {"pts": pts, "ivs": draw(intervals(pts)), "quad": draw(st.sampled_from(QUADS + [None])),
            "opts": {"weightComputation": draw(st.sampled_from(gens.ALGS)), "scaleWeights": draw(st.booleans())}}


@st.composite
def bigStrategy(draw):
    nt = draw(st.sampled_from(num.NODE_TYPES[1:]))
    n = draw(st.integers(13, 40))
    pts = [float(x) for x in num.refNodes(nt, draw(st.sampled_from(num.QUAD_TYPES)), n).astype(float)]
    a = draw(st.sampled_from([-1.0, pts[0], pts[n // 2]]))
    b = draw(st.sampled_from([1.0, pts[-1], pts[n // 3]]))
    return {"pts": pts, "ivs": [[a, b]], "quad": draw(st.sampled_from(QUADS + [None])), "opts": {}}


def run(case, ctx):
    pts, ivs = case["pts"], case["ivs"]
    if not usable({"opts": {"weightComputation": "AUTO"}, **case}):
        return
    approx = build(case)
    kw = {} if case["quad"] is None else {"numQuad": case["quad"]}
    arg = [tuple(iv) for iv in ivs]
    Q = num.arr(sut(approx.getIntegrationMatrix, arg, **kw), (len(ivs), len(pts)), "integration matrix")
    if arg != [tuple(iv) for iv in ivs]:
        raise Violation("intervals were modified")
    ref, tol = integRef(pts, ivs)
    num.close(Q, ref, tol, f"integration matrix ({case['quad']})")
    for i, (a, b) in enumerate(ivs):
        if a == b and np.any(Q[i] != 0):
            raise Violation(f"integral over the empty interval [{a}, {b}] is {Q[i]}")
    # array argument, reversed bounds, splitting
    iv = np.array(ivs)
    num.close(sut(approx.getIntegrationMatrix, iv, **kw), Q, 0, "integration matrix for an array of intervals")
    if not np.array_equal(iv, np.array(ivs)):
        raise Violation("array of intervals was modified")
    num.close(sut(approx.getIntegrationMatrix, iv[:, ::-1].copy(), **kw), -ref, tol, "integration matrix, reversed bounds")
    # integer interval bounds are accepted too
    if case.get("opts", {}).get("scaleWeights"):
        lo, hi = int(np.floor(min(pts))), int(np.ceil(max(pts)))
        if abs(lo) < 1000 and abs(hi) < 1000 and hi - lo <= 2 * (max(pts) - min(pts)):
            r2, t2 = integRef(pts, [[lo, hi]])
            num.close(sut(approx.getIntegrationMatrix, [(lo, hi)], **kw), r2, t2, "integration matrix, integer bounds")


def nontrivial(case):
    return len(case["pts"]) > 1 and any(a != b for a, b in case["ivs"])


def classify(case):
    out = [str(case["quad"]), case["opts"].get("weightComputation", "AUTO"), "even" if len(case["pts"]) % 2 == 0 else "odd"]
    if any(a > b for a, b in case["ivs"]):
        out.append("reversed")
    if any(a == b for a, b in case["ivs"]):
        out.append("empty")
    if case["pts"] != sorted(case["pts"]):
        out.append("unsorted")
    return out


def runFejer(case, ctx):
    n = case["n"]
    res = sut(computeFejerRule, n)
    if not (isinstance(res, tuple) and len(res) == 2):
        raise Violation("Fejer rule is not a pair")
    x, w = res
    num.arr(x, (n,), "Fejer nodes")
    num.arr(w, (n,), "Fejer weights")
    th = (2 * np.arange(n, 0, -1, dtype=num.LD) - 1) * num.LD(np.pi) / (2 * n)
    th = (2 * np.arange(n, 0, -1, dtype=num.LD) - 1) * (4 * np.arctan(num.LD(1))) / (2 * n)
    num.close(x, np.cos(th).astype(float), 8 * num.U, f"Fejer nodes n={n}")
    if not (np.all(np.diff(x) > 0) and np.all(w > 0)):
        raise Violation(f"Fejer rule n={n}: nodes not increasing or weights not positive")
    # exact for T_k, k < n
    ks = range(n) if n <= 64 else sorted(set(list(range(0, n, max(1, n // 40))) + [1, 2, n - 1, n - 2]))
    for k in ks:
        val = float(np.sum(w.astype(num.LD) * np.cos(k * th)))
        ex = 0.0 if k % 2 else 2 / (1 - k * k)
        if abs(val - ex) > 1e-14 + 2 * num.U * n:
            raise Violation(f"Fejer rule n={n}: integral of T_{k} is {val}, expected {ex}")


def fejerCases(tier):
    top = 260 if tier == "quick" else 1500
    return [{"n": n} for n in range(1, top)] + [{"n": n} for n in ([500, 777, 1024, 2001] if tier == "quick" else [2000, 2001, 2047, 2048, 2999])]


def runErrors(case, ctx):
    approx = sut(LagrangeApproximation, case["pts"])
    rejects(approx.getIntegrationMatrix, [(0, 1)], numQuad=case["bad"], types=(NotImplementedError,), what="numQuad")
    rejects(approx.getIntegrationMatrix, [0.0, 1.0], what="flat list of bounds")
    rejects(approx.getIntegrationMatrix, [(0, 1, 2)], what="triples of bounds")


@st.composite
def errorStrategy(draw):
    return {"pts": draw(gens.points(1, 6)), "bad": draw(st.sampled_from(["", "LEGENDRE", "fejer", "FEJER-2", "SCIPY"]))}


@st.composite
def manyStrategy(draw):
    """Long lists of intervals, and integer points."""
    pts = draw(st.lists(st.integers(-20, 20), min_size=1, max_size=8, unique=True))
    m = draw(st.sampled_from([1, 9, 33, 64, 100, 300]))
    a, b, c = draw(st.integers(0, 96)), draw(st.integers(1, 96)), draw(st.integers(1, 96))
    lo, r = gens.span(pts)
    ivs = [[float(lo + r * ((a + b * i) % 97) / 80 - r / 10), float(lo + r * ((a + c * i) % 89) / 80 - r / 10)] for i in range(m)]
    return {"pts": pts, "ivs": ivs, "quad": draw(st.sampled_from(QUADS + [None])), "opts": {}}


def manyCases(tier):
    out = []
    for pts, m, quad in (([-3, 1, 2, 7], 1500, None), ([5, 0, 3, 1, 2], 2500, "LEGENDRE_NUMPY"), ([0, 1, 4], 3000, "FEJER"), (list(range(16)), 700, None)):
        lo, r = gens.span(pts)
        ivs = [[float(lo + r * (5 * i % 97) / 80 - r / 10), float(lo + r * (31 * i % 89) / 80 - r / 10)] for i in range(m)]
        out.append({"pts": pts, "ivs": ivs, "quad": quad, "opts": {}})
    return out


def primitive(k, th):
    """Primitive of T_k at cos(th)."""
    if k == 0:
        return np.cos(th)
    if k == 1:
        return np.cos(th)**2 / 2
    return (np.cos((k + 1) * th) / (k + 1) - np.cos((k - 1) * th) / (k - 1)) / 2


def runChebyshev(case, ctx):
    """Grids of many points: integrals of Chebyshev polynomials of any degree below the number of points."""
    n, (lo, r) = case["n"], case["scale"]
    x = num.refNodes(case["type"], case["quadType"], n).astype(np.longdouble)
    pts = (lo + r * (x.astype(float) + 1) / 2)
    x = np.clip(2 * (pts.astype(num.LD) - num.LD(lo)) / num.LD(r) - 1, -1, 1)
    approx = sut(LagrangeApproximation, pts.tolist() if case["list"] else pts, weightComputation=case["alg"])
    ref = np.array(case["ivs"], dtype=num.LD) / 32          # in [-1, 1]
    ivs = np.array([[float(lo + r * (float(a) + 1) / 2) for a in iv] for iv in ref])
    bounds = np.arccos(np.clip(2 * (ivs.astype(num.LD) - num.LD(lo)) / num.LD(r) - 1, -1, 1))
    kw = {} if case["quad"] is None else {"numQuad": case["quad"]}
    Q = num.arr(sut(approx.getIntegrationMatrix, ivs.tolist() if case["list"] else ivs, **kw), (len(ivs), n), "integration matrix")
    th = np.arccos(x)
    off = 1 + (abs(lo) + r) / r
    for k in sorted({0, 1, n // 2, n - 2, n - 1} | {v % n for v in case["ks"]}):
        f = np.cos(k * th).astype(float)
        I = (primitive(k, bounds[:, 1]) - primitive(k, bounds[:, 0])).astype(float) / 2
        num.close(Q @ f / r, I, 1e-13 * (1 + n * off / 4), f"integral of T_{k} on {n} {case['type']} {case['quadType']} points ({case['quad']})")


@st.composite
def chebStrategy(draw):
    grid = st.integers(-32, 32)
    return {"n": draw(st.integers(41, 220)), "type": draw(st.sampled_from(["LEGENDRE", "CHEBY-1", "CHEBY-2"])), "quadType": draw(st.sampled_from(["GAUSS", "LOBATTO"])),
            "scale": draw(st.sampled_from([[-1.0, 2.0], [0.0, 1.0], [0.0, 1e-5], [3.0, 1.0], [-100.0, 1e4]])), "list": draw(st.booleans()),
            "alg": draw(st.sampled_from(["AUTO", "STABLE"])), "quad": draw(st.sampled_from(QUADS + [None])), "ks": draw(st.lists(st.integers(2, 220), max_size=4)),
            "ivs": draw(st.lists(st.one_of(st.tuples(grid, grid), st.just((-32, 32)), st.just((32, -32))).map(list), min_size=1, max_size=5))}


SUBS = [
    Sub("integrals", run, strategy, quick=900, thorough=24000, nontrivial=nontrivial, classify=classify, shards=8),
    Sub("manyPoints", run, bigStrategy, quick=48, thorough=800, classify=classify, shards=8),
    Sub("manyIntervals", run, manyStrategy, manyCases, quick=30, thorough=1000, nontrivial=nontrivial, shards=8),
    Sub("chebyshev", runChebyshev, chebStrategy, quick=80, thorough=3000, shards=8, nontrivial=lambda c: any(a != b for a, b in c["ivs"]),
        classify=lambda c: ["over 40 points", str(c["quad"]), c["type"]]),
    Sub("fejer", runFejer, lambda: st.integers(1, 3000).map(lambda n: {"n": n}), fejerCases, quick=40, thorough=600,
        nontrivial=lambda c: c["n"] > 1, shards=2, chunks=4),
    Sub("rejections", runErrors, errorStrategy, quick=40, thorough=400, shards=1),
]
