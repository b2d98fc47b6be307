"""C02: interpolation matrices and evaluation."""
import numpy as np
from hypothesis import strategies as st

import gens
import num
from core import Sub, Violation, sut, rejects
from props.lagcommon import build, interpRef, SCALEREFS
from qmat.lagrange import LagrangeApproximation

RULE = ("cases are distinct points (equidistant, Chebyshev, random or widely varying gaps; any scale, offset and order), "
        "times inside, outside, on or next to points, and options; non-trivial: at least two points and one time off the points")
ASSUMPTIONS = ["50-digit multi-precision Lagrange basis as reference",
               "errors up to 4*d*|l_j(t)|*(1+sum_k|l_k(t)|), with d bounding the rounding of any weight algorithm, are accepted"]


@st.composite
def strategy(draw, nMax=14):
    pts = draw(gens.points(1, nMax))
    opts = {"weightComputation": draw(st.sampled_from(gens.ALGS))}
    if draw(st.booleans()):
        opts["scaleWeights"] = True
    if draw(st.integers(0, 3)) == 0:
        opts["scaleRef"] = draw(st.sampled_from(SCALEREFS))
    ts = draw(gens.times(pts, 1, 6, out=1.0))
    vals = draw(st.lists(st.integers(-32, 32), min_size=len(pts), max_size=len(pts)))
    return {"pts": pts, "opts": opts, "ts": ts, "vals": [v / 4 for v in vals], "imag": draw(st.integers(0, 4)) == 0}


def usable(case):
    """The plain formula is documented as unsuitable when it overflows."""
    if case["opts"].get("weightComputation") != "FAST":
        return True
    x = np.array(case["pts"])
    d = np.abs(x[:, None] - x[None, :])
    np.fill_diagonal(d, 1)
    lg = np.log10(d).sum(axis=1)
    return np.abs(lg).max() < 250 and np.abs(np.cumsum(np.log10(d), axis=1)).max() < 280


def run(case, ctx):
    pts, ts = case["pts"], case["ts"]
    if not usable(case):
        return
    approx = build(case)
    before = np.array(pts)
    t = np.array(ts)
    P = num.arr(sut(approx.getInterpolationMatrix, t), (len(ts), len(pts)), "interpolation matrix")
    ref, tol, _ = interpRef(pts, ts)
    num.close(P, ref, tol, "interpolation matrix")
    for i, ti in enumerate(ts):
        if ti in pts:
            unit = np.zeros(len(pts))
            unit[pts.index(ti)] = 1
            if not np.array_equal(P[i], unit):
                raise Violation(f"row for the point {ti} is not a unit row: {P[i]}")
    # list argument, and no side effect on the arguments
    num.close(sut(approx.getInterpolationMatrix, list(ts)), P, 0, "matrix for a list of times")
    if not np.array_equal(t, np.array(ts)) or not np.array_equal(np.array(case["pts"]), before):
        raise Violation("arguments were modified")
    # evaluation as a function
    f = np.array(case["vals"], dtype=complex if case["imag"] else float)
    if case["imag"]:
        f = f * (1 - 0.5j)
    exact = ref @ f
    ftol = tol @ np.abs(f) + (len(pts) + 2) * num.U * (np.abs(ref) @ np.abs(f)) + 1e-300
    v = num.arr(np.asarray(sut(approx, t, fValues=f)), (len(ts),), "evaluation")
    num.close(v, exact, ftol, "evaluation")
    other = sut(LagrangeApproximation, pts, fValues=list(f), **case["opts"])
    num.close(np.asarray(sut(other, t)), exact, ftol, "evaluation of stored values")
    # a value given in the call has priority over the stored ones
    num.close(np.asarray(sut(other, t, -f)), -exact, ftol, "evaluation of given values")
    # shapes: scalar, 2D, list
    s = np.asarray(sut(approx, ts[0], fValues=f))
    num.close(s, np.asarray(exact[0]), ftol[0], "evaluation at a scalar")
    two = np.asarray(sut(approx, np.array([ts, ts]), fValues=f))
    num.close(two, np.array([exact, exact]), np.array([ftol, ftol]), "evaluation at a 2D array")
    num.close(np.asarray(sut(approx, [[x] for x in ts], fValues=f)), exact[:, None], ftol[:, None], "evaluation at nested lists")


def nontrivial(case):
    return len(case["pts"]) > 1 and any(t not in case["pts"] for t in case["ts"])


def classify(case):
    pts = case["pts"]
    out = [case["opts"]["weightComputation"], f"n={'1' if len(pts) == 1 else '2-5' if len(pts) < 6 else '6+'}"]
    if pts != sorted(pts):
        out.append("unsorted")
    if any(t in pts for t in case["ts"]):
        out.append("on-point")
    if any(t < min(pts) or t > max(pts) for t in case["ts"]):
        out.append("extrapolation")
    return out


def runErrors(case, ctx):
    pts, k = case["pts"], case["k"]
    approx = sut(LagrangeApproximation, pts)
    rejects(approx, pts, what="evaluation without values")
    bad = [0.0] * (len(pts) + k)
    if k:
        rejects(LagrangeApproximation, pts, fValues=bad, types=(ValueError,), what="values of wrong shape")
        rejects(approx, pts, fValues=bad, what="values of wrong shape")
    rejects(LagrangeApproximation, pts, weightComputation=case["alg"], types=(NotImplementedError,), what="weight algorithm")
    rejects(LagrangeApproximation, pts, weightComputation="STABLE", scaleRef=case["alg"], types=(NotImplementedError,), what="scale reference")


@st.composite
def errorStrategy(draw):
    return {"pts": draw(gens.points(1, 6)), "k": draw(st.sampled_from([-1, 1, 2])) ,
            "alg": draw(st.sampled_from(["", "auto", "SLOW", "CHEB", "fast", "MIN", "ONE"]))}


@st.composite
def bigStrategy(draw):
    nt = draw(st.sampled_from(num.NODE_TYPES[1:]))
    qt = draw(st.sampled_from(num.QUAD_TYPES))
    n = draw(st.integers(15, 90))
    s = draw(st.sampled_from([1.0, 1e-4, 1e3]))
    pts = [float(x) * s for x in num.refNodes(nt, qt, n).astype(float)]
    return {"pts": pts, "opts": {"weightComputation": draw(st.sampled_from(["AUTO", "STABLE", "CHEBFUN", "FAST"]))},
            "ts": draw(gens.times(pts, 1, 3, out=0.002)), "vals": [((7 * i) % 11 - 5) / 4 for i in range(n)], "imag": False}


@st.composite
def manyTimesStrategy(draw):
    """Long lists of times, and points given in other containers and number types."""
    ints = draw(st.lists(st.integers(-30, 30), min_size=1, max_size=9, unique=True))
    m = draw(st.sampled_from([1, 2, 17, 64, 65, 130, 257, 700]))
    a, b = draw(st.integers(0, 996)), draw(st.integers(1, 996))
    lo, r = gens.span(ints)
    ts = [float(lo + r * (((a + b * i) % 997) / 700 - 0.2)) for i in range(m)]
    for k in range(0, m, draw(st.sampled_from([3, 11, 50]))):
        ts[k] = float(ints[k % len(ints)])
    return {"pts": ints, "form": draw(st.sampled_from(["list", "tuple", "int64", "int32", "float32", "2d"])),
            "tform": draw(st.sampled_from(["list", "tuple", "array", "strided"])), "ts": ts,
            "alg": draw(st.sampled_from(gens.ALGS)), "vals": draw(st.lists(st.integers(-9, 9), min_size=len(ints), max_size=len(ints)))}


def runManyTimes(case, ctx):
    pts, ts = case["pts"], case["ts"]
    form = case["form"]
    arg = {"list": list(pts), "tuple": tuple(pts), "2d": np.array(pts)[:, None]}.get(form)
    if arg is None:
        arg = np.array(pts, dtype=form)
    keep = np.array(arg)
    t = {"list": list, "tuple": tuple, "array": np.array,
         "strided": lambda v: np.repeat(v, 2)[::2]}[case["tform"]](ts)
    ref, tol, _ = interpRef(pts, ts)
    approx = sut(LagrangeApproximation, arg, weightComputation=case["alg"])
    P = num.arr(sut(approx.getInterpolationMatrix, t), ref.shape, "interpolation matrix")
    num.close(P, ref, tol, f"interpolation matrix, points as {form}")
    for i, ti in enumerate(ts):
        if ti in pts and not np.array_equal(P[i], np.array(pts) == ti):
            raise Violation(f"row for the point {ti} is not a unit row: {P[i]}")
    f = case["vals"]       # integers
    ftol = tol @ np.abs(f) + (len(pts) + 2) * num.U * (np.abs(ref) @ np.abs(f)) + 1e-300
    for vals in (f, tuple(f), np.array(f), np.array(f, dtype=float)):
        v = np.asarray(sut(approx, t, fValues=vals))
        num.close(v, ref @ np.array(f, dtype=float), ftol, "evaluation")
    # values in the shape of the times, however these lie in memory
    m = len(ts)
    c = max(k for k in (1, 2, 3, 5, 7, 11) if k <= m)
    t2 = np.array(ts[:m // c * c]).reshape(-1, c)
    e2, l2 = (v[:m // c * c].reshape(t2.shape) for v in (ref @ np.array(f, dtype=float), ftol))
    for tt, e, tl in ((t2.T, e2.T, l2.T), (np.asfortranarray(t2), e2, l2), (t2[::-1, ::-1], e2[::-1, ::-1], l2[::-1, ::-1]),
                      (np.swapaxes(np.repeat(t2[:, None, :], 2, axis=1), 0, 2), np.swapaxes(np.repeat(e2[:, None, :], 2, axis=1), 0, 2),
                       np.swapaxes(np.repeat(l2[:, None, :], 2, axis=1), 0, 2)), (t2.tolist(), e2, l2)):
        before = np.array(tt)
        v = np.asarray(sut(approx, tt, fValues=np.array(f, dtype=float)))
        if v.shape != before.shape or not np.array_equal(np.array(tt), before):
            raise Violation(f"times of shape {before.shape} give values of shape {v.shape}, or were modified")
        num.close(v, e, tl, "evaluation for times in several dimensions")
    if not np.array_equal(np.array(arg), keep):
        raise Violation("points were modified")
    # integer times
    it = sorted({int(v) for v in ts})[:40]
    ref, tol, _ = interpRef(pts, it)
    num.close(sut(approx.getInterpolationMatrix, it), ref, tol, "interpolation matrix for integer times")


SUBS = [
    Sub("basis", run, strategy, quick=1600, thorough=40000, nontrivial=nontrivial, classify=classify, shards=8),
    Sub("manyPoints", run, bigStrategy, quick=80, thorough=2000, classify=classify, shards=4),
    Sub("forms", runManyTimes, manyTimesStrategy, quick=60, thorough=2000, shards=4,
        nontrivial=lambda c: len(c["pts"]) > 1, classify=lambda c: [c["form"], c["tform"], "many" if len(c["ts"]) > 64 else "few"]),
    Sub("rejections", runErrors, errorStrategy, quick=100, thorough=1000, shards=1),
]
