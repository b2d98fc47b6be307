"""C05: barycentric weights and automatic choice of the algorithm."""
import warnings
import numpy as np
from hypothesis import strategies as st, assume

import gens
import num
from num import U, LD
from core import Sub, Violation, sut, rejects
from props.lagcommon import build, interpRef, integRef, derivRef, SCALEREFS
from qmat.lagrange import LagrangeApproximation

RULE = ("cases are distinct points (any order, scales from 1e-100 to 1e100, 1e-200 to 1e200 for the weights, up to about a thousand points) with an algorithm, "
        "weight scaling and reference scaling; non-trivial: at least three points")
ASSUMPTIONS = ["multi-precision (or extended precision logarithmic) products of differences as reference",
               "relative errors bounded from the rounding of a sum of logarithms are accepted"]

HUGE = [1.0, 2.0, 1e-3, 1e3, 1e-30, 1e30, 1e-60, 1e60, 1e-100, 1e100, 7e-81, 3e77]


def logWeights(pts):
    """Sign and log of the absolute barycentric weights, in extended precision."""
    x = np.asarray(pts, dtype=float).astype(LD)
    d = x[:, None] - x[None, :]
    d[np.diag_indices(x.size)] = 1
    return np.sign(d).prod(axis=1).astype(float), -np.log(np.abs(d)).sum(axis=1)


def plainSafe(pts):
    """No overflow nor underflow in any partial product of the plain formula."""
    x = np.asarray(pts, dtype=float)
    d = np.abs(x[:, None] - x[None, :])
    np.fill_diagonal(d, 1)
    if np.any(d == 0) or not np.all(np.isfinite(d)):
        return False
    lg = np.log10(d)
    pos = np.where(lg > 0, lg, 0).sum(axis=1).max()
    neg = np.where(lg < 0, lg, 0).sum(axis=1).min()
    return pos < 280 and neg > -280       # whatever the order of the multiplications


def runWeights(case, ctx):
    pts, opts = case["pts"], case["opts"]
    n = len(pts)
    alg = opts["weightComputation"]
    if alg == "FAST" and not plainSafe(pts):
        return
    state = np.geterr()
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        approx = build(case)
    if np.geterr() != state:
        now = np.geterr()
        np.seterr(**state)
        raise Violation(f"{alg}: the handling of floating-point errors was changed from {state} to {now}")
    if alg == "AUTO" and seen:
        raise Violation(f"the automatic choice is not silent: {seen[0].message}")
    w = num.arr(approx.weights, (n,), "weights", finite=False)
    if not np.all(np.isfinite(w)) or not np.any(w != 0):
        raise Violation(f"{alg} weights are not finite or all zero: {w[:8]}")
    sign, lw = logWeights(pts)
    rel = num.weightError(pts) + 4e-19 * n * float(np.abs(lw).max())
    top = lw.max()
    # equal up to one common factor
    i = int(np.argmax(lw))
    if w[i] == 0:
        raise Violation(f"the largest weight is zero ({alg})")
    ref = sign * np.exp(np.maximum(lw - top, LD(-11000))).astype(float)
    got = w / abs(w[i])
    s = sign[i] * np.sign(w[i])
    num.close(got * s, ref, 2 * rel * np.abs(ref) + 1e-290, f"{alg} weights up to a factor")
    # alternation for sorted points
    big = np.abs(ref) > 1e-280
    if np.any(np.sign(got * s)[big] != sign[big]):
        raise Violation(f"{alg} weights have wrong signs")
    absolute = None
    if opts.get("scaleWeights"):
        absolute = 1.0
    elif alg == "FAST":
        exact = sign * np.exp(lw).astype(float)
        num.close(w, exact, rel * np.abs(exact), "plain weights")
    elif alg == "CHEBFUN" or (alg == "STABLE" and opts.get("scaleRef", "MAX") == "MAX"):
        absolute = 1.0
    elif alg == "STABLE":
        a = np.abs(pts)
        ks = np.where(a == a.min())[0]
        if not any(abs(abs(w[k]) - 1) < 1e-9 for k in ks):
            raise Violation(f"STABLE weights with scaleRef=ZERO are not scaled by the point closest to zero: {np.abs(w[ks])}")
    if absolute is not None and abs(np.abs(w).max() - 1) > 1e-9:
        raise Violation(f"{alg} weights have largest absolute value {np.abs(w).max()}, not 1")


@st.composite
def strategy(draw):
    pts = draw(gens.points(1, 14, scales=HUGE + [1e-200, 3e-170, 1e160, 1e200]))
    opts = {"weightComputation": draw(st.sampled_from(gens.ALGS)), "scaleWeights": draw(st.booleans())}
    if draw(st.booleans()):
        opts["scaleRef"] = draw(st.sampled_from(SCALEREFS))
    return {"pts": pts, "opts": opts}


def gridPoints(nt, qt, n, s, shift=0.0, rev=False):
    p = (gens.chebGrid(nt, qt, n) * LD(s) + LD(shift)).astype(float)
    p = [float(v) for v in p]
    return p[::-1] if rev else p


def runGridWeights(case, ctx):
    nt, qt, n, s = case["grid"]
    runWeights({"pts": gridPoints(nt, qt, n, s, rev=case["rev"]), "opts": case["opts"]}, ctx)


@st.composite
def gridStrategy(draw):
    nt = draw(st.sampled_from(num.NODE_TYPES[1:]))
    alg = draw(st.sampled_from(["AUTO", "AUTO", "STABLE", "CHEBFUN", "FAST"]))
    opts = {"weightComputation": alg, "scaleWeights": draw(st.booleans())}
    n = draw(st.one_of(st.integers(15, 1100), st.integers(440, 620)))
    if alg == "STABLE" and n <= 300 and draw(st.booleans()):
        opts["scaleRef"] = draw(st.sampled_from(SCALEREFS))
    return {"grid": [nt, draw(st.sampled_from(num.QUAD_TYPES)), n, draw(st.sampled_from([1.0, 0.5, 2.0, 1e-3, 10.0]))],
            "opts": opts, "rev": draw(st.booleans())}


def runAuto(case, ctx):
    """The automatic choice stays accurate on large grids."""
    nt, qt, n, s = case["grid"]
    ref = gens.chebGrid(nt, qt, n)
    pts = (ref * LD(s)).astype(float)
    approx = sut(LagrangeApproximation, pts)
    if approx.weightComputation != "AUTO":
        raise Violation(f"default weight algorithm is {approx.weightComputation}")
    ts = np.array(case["ts"]) * s
    P = num.arr(sut(approx.getInterpolationMatrix, ts), (len(ts), n), f"interpolation matrix on {n} points")
    x = (pts / s).astype(LD)
    th, tt = np.arccos(np.clip(x, -1, 1)), np.arccos(np.clip((ts / s).astype(LD), -1, 1))
    lam = 1 + np.abs(P).sum(axis=1)
    if np.any(lam > 1e6):
        raise Violation(f"interpolation matrix on {n} points has norm {lam.max()}")
    ks = sorted({0, 1, 2, n // 3, n // 2} | {k % min(n, 60) for k in case["ks"]})
    tol = 1e-11 * lam * (1 + n * 1e-2)
    for k in ks:
        num.close(P @ np.cos(k * th).astype(float), np.cos(k * tt).astype(float), tol * (1 + k * k * 1e-3),
                  f"interpolation of T_{k} on {n} points")
    iv = [(-s, s), (ts[0], ts[-1])]
    Q = num.arr(sut(approx.getIntegrationMatrix, iv), (2, n), f"integration matrix on {n} points")
    lamQ = 1 + np.abs(Q).sum(axis=1) / s
    for k in [k for k in ks if k <= 60]:
        prim = chebPrimitive(k)
        exact = np.array([(prim(b / s) - prim(a / s)) for a, b in iv])
        num.close(Q @ np.cos(k * th).astype(float) / s, exact, 1e-11 * lamQ * (1 + n * 1e-2), f"integral of T_{k} on {n} points")


def chebPrimitive(k):
    return np.polynomial.chebyshev.Chebyshev.basis(k).integ()


@st.composite
def autoStrategy(draw):
    nt = draw(st.sampled_from(num.NODE_TYPES[1:]))
    n = draw(st.one_of(st.integers(20, 1000), st.integers(460, 560)))
    ts = draw(st.lists(st.integers(-99, 99), min_size=2, max_size=4, unique=True))
    return {"grid": [nt, draw(st.sampled_from(num.QUAD_TYPES)), n, draw(st.sampled_from([1.0, 1.0, 0.5, 1e-3, 100.0, 1e-60, 1e60]))],
            "ts": sorted(t / 101 for t in ts), "ks": draw(st.lists(st.integers(3, 59), min_size=1, max_size=3))}


def autoCases(tier):
    out = []
    step = 60 if tier == "quick" else 10
    for n in range(480, 561, step):
        for nt in num.NODE_TYPES[1:]:
            for qt in num.QUAD_TYPES:
                out.append({"grid": [nt, qt, n, 1.0], "ts": [-0.71, 0.013, 0.5], "ks": [7, 20]})
    return out


def runScales(case, ctx):
    """All matrices on extremely scaled points, against exact ones."""
    pts = case["pts"]
    s = case["s"]
    approx = sut(LagrangeApproximation, pts)
    n = len(pts)
    lo, r = min(pts), max(pts) - min(pts)
    ts = [lo + r * f for f in case["fr"]]
    ref, tol, L = interpRef(pts, ts)
    num.close(num.arr(sut(approx.getInterpolationMatrix, ts), ref.shape, "interpolation matrix"), ref, tol, f"interpolation matrix, scale {s}")
    iv = [(ts[0], ts[-1]), (pts[0], pts[-1]), (lo, lo + r)]
    ref, tol = integRef(pts, iv, L)
    num.close(num.arr(sut(approx.getIntegrationMatrix, iv), ref.shape, "integration matrix"), ref, tol, f"integration matrix, scale {s}")
    r1, r2, t1, t2 = derivRef(pts, L)
    if np.isfinite(r2).all() and np.isfinite(t2).all():
        D1, D2 = sut(approx.getDerivativeMatrix, "ALL")
        num.close(num.arr(D1, r1.shape, "D1"), r1, t1, f"first derivative matrix, scale {s}")
        num.close(num.arr(D2, r1.shape, "D2"), r2, t2, f"second derivative matrix, scale {s}")


@st.composite
def scaleStrategy(draw):
    s = draw(st.sampled_from(HUGE))
    base = np.array(draw(gens.gapsPoints(2, 14))) + draw(st.sampled_from([0.0, -0.5, 2.0]))
    pts = [float(v) for v in base * s]
    assume(len(set(pts)) == len(pts))
    if draw(st.booleans()):
        pts = list(draw(st.permutations(pts)))
    return {"pts": pts, "s": s, "fr": sorted(draw(st.lists(st.integers(-50, 300).map(lambda k: k / 251), min_size=1, max_size=4)))}


def runMeta(case, ctx):
    """Exact scaling (power of two) and translation (exact in floats) of points and times."""
    k, c = case["k"], case["c"]
    x = np.array(case["num"], dtype=float)           # integers
    t = np.array(case["t"], dtype=float) / 2
    opts = case["opts"]
    y = (x + c) * 2.0**k
    u = (t + c) * 2.0**k
    A, B = sut(LagrangeApproximation, x, **opts), sut(LagrangeApproximation, y, **opts)
    d = num.weightError(x) + num.weightError(y)
    P, P2 = sut(A.getInterpolationMatrix, t), sut(B.getInterpolationMatrix, u)
    lam = 1 + np.abs(P).sum(axis=1, keepdims=True)
    num.close(P2, P, 8 * d * lam * np.abs(P) + 1e-300, "interpolation on moved and rescaled points")
    iv = np.array([[t[0], t[-1]], [x[0], x[-1]]])
    Q, Q2 = sut(A.getIntegrationMatrix, iv), sut(B.getIntegrationMatrix, (iv + c) * 2.0**k)
    big = 1 + max(np.abs(P).max(), 1)
    lo, hi = x.min(), x.max()
    rq, tq = integRef(list(x), iv.tolist())
    rq2, tq2 = integRef(list(y), ((iv + c) * 2.0**k).tolist())
    num.close(Q2 / 2.0**k, Q, tq + tq2 / 2.0**k, "integration on moved and rescaled points")
    _, _, t1, t2 = derivRef(list(x))
    _, _, u1, u2 = derivRef(list(y))
    D, D2 = sut(A.getDerivativeMatrix, "ALL"), sut(B.getDerivativeMatrix, "ALL")
    num.close(D2[0] * 2.0**k, D[0], t1 + u1 * 2.0**k, "first derivative on moved and rescaled points")
    num.close(D2[1] * 4.0**k, D[1], t2 + u2 * 4.0**k, "second derivative on moved and rescaled points")


@st.composite
def metaStrategy(draw):
    return {"num": draw(st.lists(st.integers(-40, 40), min_size=1, max_size=10, unique=True)),
            "t": draw(st.lists(st.integers(-90, 90), min_size=2, max_size=4)),
            "k": draw(st.sampled_from([0, 1, -1, 5, -9, 40, -40, 150, -150])), "c": draw(st.sampled_from([0, 1, -3, 17, 64])),
            "opts": {"weightComputation": draw(st.sampled_from(["AUTO", "STABLE", "CHEBFUN"]))}}


def classify(case):
    n = len(case["pts"])
    x = np.array(case["pts"])
    r = np.ptp(x) if n > 1 else 1
    return [case["opts"].get("weightComputation", "AUTO"), "overflow" if not plainSafe(case["pts"]) else "regular",
            "tiny" if r < 1e-20 else "huge" if r > 1e20 else "usual"]


SUBS = [
    Sub("weights", runWeights, strategy, quick=2500, thorough=60000, nontrivial=lambda c: len(c["pts"]) > 2, classify=classify, shards=8),
    Sub("gridWeights", runGridWeights, gridStrategy, quick=160, thorough=3000, classify=lambda c: [c["opts"]["weightComputation"], c["grid"][0]], shards=8),
    Sub("auto", runAuto, autoStrategy, autoCases, quick=60, thorough=1200, classify=lambda c: c["grid"][:2], shards=8, chunks=8),
    Sub("scales", runScales, scaleStrategy, quick=400, thorough=12000, nontrivial=lambda c: len(c["pts"]) > 2, shards=8),
    Sub("moved", runMeta, metaStrategy, quick=400, thorough=12000, nontrivial=lambda c: len(c["num"]) > 2, shards=8),
]
