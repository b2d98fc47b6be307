"""C21: regression and extrapolation utilities."""
import numpy as np
from mpmath import mp, mpf, matrix, lu_solve, log10 as mlog10
from hypothesis import strategies as st, assume

import gens
import num
from num import U as EPS
from core import Sub, Violation, sut
from qmat.utils.num import numericalOrder, getExtrapolationMatrix

RULE = ("cases are (step counts, errors) pairs and (nodes, times, degree) triples; non-trivial: more than two data points or two nodes; "
        "inputs with distinct step counts and with a condition number of the normal equations below 1e11 only")
ASSUMPTIONS = ["50-digit least squares as reference", "tolerances scaled by the conditioning of the two regressions"]


# ----------------------------------------------------------------------------
# Numerical order
# ----------------------------------------------------------------------------
def fit(nSteps, err):
    x = [-mlog10(mpf(n)) for n in nSteps]
    y = [mlog10(mpf(e)) for e in err]
    m = len(x)
    xm, ym = sum(x) / m, sum(y) / m
    sxx = sum((a - xm)**2 for a in x)
    beta = sum((a - xm) * (b - ym) for a, b in zip(x, y)) / sxx
    rmse = mp.sqrt(sum((b - ym - beta * (a - xm))**2 for a, b in zip(x, y)) / m)
    # uncertainty of the slope for a relative perturbation of the data
    dx = [abs(a - xm) for a in x]
    X, Y = max(abs(a) for a in x), max(abs(b) for b in y)
    d = 16 * EPS * m * (Y + abs(beta) * (X + 1) + 1)
    return float(beta), float(rmse), float(d * sum(dx) / sxx), float(d * (1 + max(dx) * sum(dx) / sxx))


def container(kind, values):
    if kind in ("strided", "reversed", "readonly", "intlist"):
        return gens.asForm(values, kind)
    if kind == "list":
        return list(values)
    if kind == "tuple":
        return tuple(values)
    return np.array(values)


def scalar(v, what):
    if not np.isscalar(v) and np.shape(v) != ():
        raise Violation(f"{what} is not a number but {v!r}")
    v = complex(v)
    if v.imag or not np.isfinite(v.real):
        raise Violation(f"{what} is {v}")
    return v.real


def order(nSteps, err, kind):
    res = sut(numericalOrder, container(kind[0], nSteps), container(kind[1], err))
    if len(res) != 2:
        raise Violation(f"numericalOrder gives {len(res)} values")
    return scalar(res[0], "order"), scalar(res[1], "root mean square error")


def runOrder(case, ctx):
    nSteps, err, kind = case["nSteps"], case["err"], case["kind"]
    beta, rmse, tb, tr = fit(nSteps, err)
    if tb > 1e-4 * max(1, abs(beta)):
        return
    what = f"numericalOrder({nSteps}, {err})"
    b, r = order(nSteps, err, kind)
    if abs(b - beta) > tb:
        raise Violation(f"{what}: order {b!r}, least-squares slope {beta!r} (tolerance {tb:.2e})")
    if abs(r - rmse) > tr + 1e-13 * rmse:
        raise Violation(f"{what}: root mean square error {r!r}, expected {rmse!r} (tolerance {tr:.2e})")
    if case["p"] is not None:
        if abs(b - case["p"]) > tb + case["ulp"] / min_spread(nSteps):
            raise Violation(f"{what}: order {b!r} for an exact power law of order {case['p']}")
    # invariance
    perm = case["perm"]
    b2, r2 = order([nSteps[i] for i in perm], [err[i] for i in perm], kind)
    if abs(b2 - b) > 2 * tb or abs(r2 - r) > 2 * tr + 1e-13 * rmse:
        raise Violation(f"{what}: ({b!r}, {r!r}) becomes ({b2!r}, {r2!r}) when points are reordered by {perm}")
    s = case["scale"]
    err3 = [e * s for e in err]
    if all(1e-300 < e < 1e300 for e in err3):
        *_, tb3, tr3 = fit(nSteps, err3)
        b3, r3 = order(nSteps, err3, kind)
        if abs(b3 - b) > tb + tb3 or abs(r3 - r) > tr + tr3 + 1e-13 * rmse:
            raise Violation(f"{what}: ({b!r}, {r!r}) becomes ({b3!r}, {r3!r}) when errors are scaled by {s}")
    # step counts scaled together: same slope
    f = case["factor"]
    n4 = [n * f for n in nSteps]
    *_, tb4, tr4 = fit(n4, err)
    b4, r4 = order(n4, err, kind)
    if abs(b4 - b) > tb + tb4 or abs(r4 - r) > tr + tr4 + 1e-13 * rmse:
        raise Violation(f"{what}: ({b!r}, {r!r}) becomes ({b4!r}, {r4!r}) when step counts are multiplied by {f}")


def min_spread(nSteps):
    x = np.log10(np.array(nSteps, dtype=float))
    return max(x.max() - x.min(), 1e-12)


@st.composite
def orderCases(draw):
    kind = [draw(st.sampled_from(["list", "array", "tuple", "array", "strided", "reversed", "readonly"])), draw(st.sampled_from(["list", "array", "array", "strided", "reversed", "readonly"]))]
    style = draw(st.sampled_from(["doubling", "any", "any"]))
    m = draw(st.one_of(st.integers(2, 8), st.integers(2, 8), st.integers(9, 14)))
    if style == "doubling":
        n0 = draw(st.integers(1, 40))
        nSteps = [n0 * 2**i for i in range(m)] if draw(st.integers(0, 4)) else [n0 * 2**(i + 24) for i in range(m)]
    else:
        nSteps = draw(st.lists(st.integers(1, 10**draw(st.integers(1, 6))), min_size=2, max_size=draw(st.sampled_from([8, 8, 30])), unique=True))
        if draw(st.booleans()) and len(nSteps) > 2:
            nSteps = nSteps + [nSteps[0]]          # one step count twice
    if draw(st.integers(0, 4)) == 0:       # other measures of the resolution: inverse step lengths
        f = draw(st.sampled_from([1.0, 0.5, 0.1, 1.3, 1 / 128]))
        nSteps = [v * f for v in nSteps]
    m = len(nSteps)
    p, ulp = None, 0
    law = draw(st.sampled_from(["power", "noisy", "any"]))
    C = draw(st.sampled_from([1.0, 3.0, 1e-8, 1e5, 0.7]))
    if law in ("power", "noisy"):
        q = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 8, 0.5, 1.5, -1, 10]))
        err = [C * float(n)**(-q) for n in nSteps]
        if law == "noisy":
            err = [e * draw(st.integers(50, 200)) / 100 for e in err]
        else:
            p, ulp = q, 16 * EPS * m
    else:
        err = [draw(st.integers(1, 999)) * 10.0**draw(st.integers(-290, 6)) if draw(st.integers(0, 9)) == 0 else
               draw(st.integers(1, 999)) * 10.0**draw(st.integers(-16, 4)) for _ in range(m)]
    assume(all(1e-300 < e < 1e300 for e in err))
    return {"nSteps": nSteps, "err": err, "kind": kind, "p": p, "ulp": ulp, "perm": list(draw(st.permutations(list(range(m))))),
            "scale": draw(st.sampled_from([2.0, 1e-3, 7.0, 1e6, 1e-9])), "factor": draw(st.sampled_from([2, 3, 10, 128]))}


# ----------------------------------------------------------------------------
# Extrapolation matrix
# ----------------------------------------------------------------------------
def runExtra(case, ctx):
    nodes, times, p = case["nodes"], case["times"], case["p"]
    M, N = len(nodes), len(times)
    deg = M - 1 if p is None else p
    X = np.vander(nodes, deg + 1, increasing=True)
    T = np.vander(times, deg + 1, increasing=True)
    sv = np.linalg.svd(X, compute_uv=False)
    cond = (sv[0] / sv[-1])**2 if sv[-1] > 0 else np.inf
    if not cond < 1e11:
        return
    tol = 64 * EPS * (deg + 2) * M * cond * np.linalg.norm(T, axis=1)[:, None] / sv[-1] + 1e-300
    s = case["s"]
    if s != 1:
        nodes, times = [v * s for v in nodes], [v * s for v in times]
        X = np.vander(nodes, deg + 1, increasing=True)
        T = np.vander(times, deg + 1, increasing=True)
        sv = np.linalg.svd(X, compute_uv=False)
    args = [container(case["kind"][0], nodes), container(case["kind"][1], times)]
    args = args if p is None and case["kind"][2] else args + [p]
    P = num.arr(sut(getExtrapolationMatrix, *args), (N, M), what="extrapolation matrix")
    Xm = matrix([[(mpf(v) / mpf(s))**k for k in range(deg + 1)] for v in nodes])      # unchanged by a common scaling
    XtX = Xm.T * Xm
    ref = np.zeros((N, M))
    cols = [lu_solve(XtX, Xm.T[:, j]) for j in range(M)]
    for i, t in enumerate(times):
        row = [(mpf(t) / mpf(s))**k for k in range(deg + 1)]
        for j in range(M):
            ref[i, j] = float(sum(r * c for r, c in zip(row, cols[j])))
    if s != 1:         # any backward stable method is accepted, also one that is not scale invariant
        G = np.array([[float(v) for v in lu_solve(XtX, matrix([(mpf(t) / mpf(s))**k for k in range(deg + 1)]))] for t in times]) / float(s)**np.arange(deg + 1)
        tol = np.maximum(tol, 64 * EPS * (deg + 2) * M * (np.linalg.norm(ref, axis=1) * sv[0] / sv[-1] + np.linalg.norm(G, axis=1) * sv[0])[:, None])
        if not tol.max() < 1e-3:
            return
    what = f"extrapolation from {nodes} to {times} with degree {p}"
    num.close(P, ref, tol, what)
    # reproduction of polynomials up to the degree
    for k, c in enumerate(case["poly"][:deg + 1]):
        v = X[:, k]
        num.close(P @ v, T[:, k], (tol * np.abs(v)).sum(axis=1) + 1e-300, f"{what}: monomial of degree {k}")
    c = np.array((case["poly"] + [0] * (deg + 1))[:deg + 1], dtype=float)
    num.close(P @ (X @ c), T @ c, (tol * np.abs(X @ c)).sum(axis=1) + 16 * EPS * (deg + 2) * (np.abs(T) @ np.abs(c)) + 1e-300
              + 16 * EPS * (deg + 2) * (np.abs(ref) @ (np.abs(X) @ np.abs(c))), f"{what}: polynomial {c}")
    if deg == M - 1:     # interpolation through all nodes
        lag = num.Lag(nodes)
        L = np.array([[float(v) for v in lag.basis(t)] for t in times])
        num.close(P, L, tol, f"{what}: interpolating polynomial")


XFORMS = ["list", "array", "array", "tuple", "strided", "reversed", "readonly", "intlist"]


@st.composite
def extraCases(draw):
    M = draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 16)))
    cheap = draw(st.booleans())
    if cheap:
        nodes = [float(v) for v in draw(st.lists(st.integers(-16, 16), min_size=M, max_size=M, unique=True))]
        nodes = [v / 16 for v in nodes]
    else:
        s = draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 1.5]))
        nodes = [s * v for v in draw(gens.gapsPoints(M, M, wild=False))]
        if draw(st.booleans()):
            nodes = [2 * v - s for v in nodes]
    if draw(st.booleans()):
        nodes = list(draw(st.permutations(nodes)))
    if draw(st.integers(0, 4)) == 0:
        nodes = [round(v) + i for i, v in enumerate(nodes)][:4]     # integer valued nodes
        M = len(nodes)
    p = draw(st.one_of(st.none(), st.integers(0, M - 1), st.integers(0, min(3, M - 1))))
    times = [float(v) / 8 for v in draw(st.lists(st.integers(-16, 24), min_size=1, max_size=draw(st.sampled_from([5, 5, 40]))))]
    if draw(st.integers(0, 3)) == 0:
        times.append(float(nodes[0]))
    return {"nodes": [float(v) for v in nodes] if draw(st.booleans()) else nodes, "times": times, "p": p,
            "kind": [draw(st.sampled_from(XFORMS)), draw(st.sampled_from(XFORMS)), draw(st.booleans())],
            "s": draw(st.sampled_from([1, 1, 1, 1e-3, 1e-2, 0.125, 16, 100])),
            "poly": draw(st.lists(st.integers(-8, 8), min_size=M, max_size=M))}


# ----------------------------------------------------------------------------
def runIntegers(case, ctx):
    """Integers of any size are taken as the numbers they are."""
    nodes, times, p = case["nodes"], case["times"], case["p"]
    M, N = len(nodes), len(times)
    deg = M - 1 if p is None else p
    sc = mpf(max(abs(v) for v in nodes) or 1)        # a common scaling changes nothing
    Xm = matrix([[(mpf(v) / sc)**k for k in range(deg + 1)] for v in nodes])
    XtX = Xm.T * Xm
    cols = [lu_solve(XtX, Xm.T[:, j]) for j in range(M)]
    ref = np.array([[float(sum((mpf(t) / sc)**k * cols[j][k] for k in range(deg + 1))) for j in range(M)] for t in times])
    m = np.abs(ref).max(axis=1, keepdims=True) + 1e-300
    extra = () if p is None else (p,)
    F = num.arr(sut(getExtrapolationMatrix, [float(v) for v in nodes], [float(t) for t in times], *extra), (N, M), what="extrapolation matrix")
    if not np.all(np.abs(F - ref) <= 1e-9 * m):         # too badly conditioned
        return
    arr = (lambda v: np.array(v, dtype=case["dtype"])) if case["dtype"] else list
    for a, b in ((arr(nodes), arr(times)), ([float(v) for v in nodes], arr(times)), (arr(nodes), [float(t) for t in times])):
        P = num.arr(sut(getExtrapolationMatrix, a, b, *extra), (N, M), what="extrapolation matrix")
        num.close(P, ref, np.broadcast_to(1e-4 * m, P.shape), f"extrapolation from {a!r} to {b!r} with degree {p}")


@st.composite
def integerCases(draw):
    M = draw(st.integers(1, 7))
    s = draw(st.sampled_from([1, 1, 10, 100, 1000, 10**4, 10**5, 10**6, 2**20]))
    off = draw(st.sampled_from([0, 0, 0, 1, -3, 10]))
    nodes = [s * (v + off) for v in draw(st.lists(st.integers(-6, 8), min_size=M, max_size=M, unique=True))]
    times = [s * v for v in draw(st.lists(st.integers(-10, 20), min_size=1, max_size=4))]
    dtype = draw(st.sampled_from([None, None, "int64", "int32", "int16"]))
    if dtype and max(abs(v) for v in nodes + times) >= np.iinfo(dtype).max:
        dtype = "int64"
    return {"nodes": nodes, "times": times, "p": draw(st.one_of(st.none(), st.integers(0, M - 1))), "dtype": dtype}


SUBS = [
    Sub("order", runOrder, orderCases, quick=2400, thorough=60000, nontrivial=lambda c: len(c["nSteps"]) > 2,
        classify=lambda c: ["law" if c["p"] is not None else "data"], shards=8),
    Sub("extrapolation", runExtra, extraCases, quick=2400, thorough=60000, nontrivial=lambda c: len(c["nodes"]) > 1,
        classify=lambda c: ["default" if c["p"] is None else "degree"], shards=8),
    Sub("integers", runIntegers, integerCases, quick=1600, thorough=40000, nontrivial=lambda c: len(c["nodes"]) > 1,
        classify=lambda c: [c["dtype"] or "list"], shards=8),
]
