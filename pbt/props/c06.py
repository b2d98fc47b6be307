"""C06: repeated points."""
import numpy as np
from hypothesis import strategies as st, assume

import gens
import num
from core import Sub, Violation, sut, rejects
from props.lagcommon import interpRef, integRef, derivRef
from qmat.lagrange import LagrangeApproximation

RULE = ("cases are multisets of points in any order, with a strategy, weight options, times and intervals; "
        "non-trivial: at least two distinct points and one repeated")
ASSUMPTIONS = ["exact Lagrange matrices on the sorted distinct points as reference"]


@st.composite
def strategy(draw):
    if draw(st.integers(0, 11)) == 0:      # many points
        n = draw(st.integers(8, 24))
        base = [float(v) for v in gens.chebGrid("CHEBY-1", "GAUSS", n).astype(float)]
    else:
        base = draw(gens.points(1, 7, orders=("sorted",)))
    mult = draw(st.lists(st.one_of(st.integers(1, 3), st.integers(1, 9)), min_size=len(base), max_size=len(base)))
    how = draw(st.sampled_from(["sorted", "blocks", "shuffled", "shuffled", "reversed", "adjacent"]))
    pts = [p for p, m in zip(base, mult) for _ in range(m)]
    if how == "blocks":
        pts = base * draw(st.integers(1, 3))
    elif how == "shuffled":
        pts = list(draw(st.permutations(pts)))
    elif how == "reversed":
        pts = pts[::-1]
    elif how == "adjacent":
        k = draw(st.integers(0, len(base) - 1))
        pts = base[:k + 1] + base[k:]
    if 0 in pts and draw(st.booleans()):      # zeros of both signs are the same point
        pts = [(-p if p == 0 and draw(st.booleans()) else p) for p in pts]
    lo, r = gens.span(base)
    ivs = [[lo + r * a / 8, lo + r * b / 8] for a, b in
           draw(st.lists(st.tuples(st.integers(-1, 9), st.integers(-1, 9)), min_size=1, max_size=3))]
    opts = {"weightComputation": draw(st.sampled_from(["AUTO", "STABLE", "CHEBFUN"])), "scaleWeights": draw(st.booleans())}
    strat = draw(st.sampled_from([None, "USE_LEFT", "USE_RIGHT"]))
    if strat:
        opts["duplicates"] = strat
    return {"pts": pts, "opts": opts, "ts": draw(gens.times(base, 1, 4)), "ivs": ivs,
            "vals": draw(st.lists(st.integers(-9, 9), min_size=len(pts), max_size=len(pts)))}


def expand(M, pts, uni, right):
    """Reference full matrix from the one on the distinct points."""
    out = np.zeros((M.shape[0], len(pts)))
    for j, u in enumerate(uni):
        idx = [i for i, p in enumerate(pts) if p == u]
        out[:, idx[-1] if right else idx[0]] = M[:, j]
    return out


def run(case, ctx):
    pts, opts = case["pts"], case["opts"]
    uni = sorted(set(pts))
    dup = len(uni) < len(pts)
    right = opts.get("duplicates") == "USE_RIGHT"
    approx = sut(LagrangeApproximation, pts, **opts)
    # counts
    for name, val in (("nPoints", len(pts)), ("n", len(pts)), ("nUniquePoints", len(uni)), ("hasDuplicates", dup)):
        got = sut(getattr, approx, name)
        if got != val:
            raise Violation(f"{name} is {got!r}, expected {val!r}")
    if not np.array_equal(np.asarray(approx.points), np.array(pts)):
        raise Violation("points are not the given ones")
    if sorted(np.asarray(approx.uniquePoints).tolist()) != uni:
        raise Violation("uniquePoints are not the distinct points")
    order = uni if dup else pts

    def both(name, ref, tol, fn, *args, **kw):
        m = ref.shape[0]
        got = num.arr(sut(fn, *args, **kw), (m, len(pts)), name)
        if dup:
            full, ftol = expand(ref, pts, order, right), expand(tol, pts, order, right)
            zero = expand(np.ones_like(ref), pts, order, right) == 0
            if np.any(got[zero] != 0):
                raise Violation(f"{name}: columns of ignored duplicates are not zero")
        else:
            full, ftol = ref, tol
        num.close(got, full, ftol, name)
        num.close(num.arr(sut(fn, *args, duplicates=True, **kw), got.shape, name), got, 0, f"{name}, duplicates=True")
        num.close(num.arr(sut(fn, *args, duplicates=False, **kw), ref.shape, name), ref, tol, f"{name}, duplicates=False")
        return full, ftol

    ts, ivs = case["ts"], case["ivs"]
    ref, tol, L = interpRef(order, ts)
    P, ptol = both("interpolation matrix", ref, tol, approx.getInterpolationMatrix, ts)
    ref, tol = integRef(order, ivs, L)
    both("integration matrix", ref, tol, approx.getIntegrationMatrix, ivs)
    r1, r2, t1, t2 = derivRef(order, L)
    both("first derivative", r1, t1, approx.getDerivativeMatrix)
    both("second derivative", r2, t2, approx.getDerivativeMatrix, 2)
    for flag in (True, False):
        res = sut(approx.getDerivativeMatrix, "ALL", flag)
        ok = isinstance(res, tuple) and len(res) == 2
        if not ok or any(not np.allclose(a, sut(approx.getDerivativeMatrix, k, duplicates=flag), rtol=1e-11,
                                          atol=np.abs((t1, t2)[k - 1]).max()) for k, a in zip((1, 2), res)):
            raise Violation(f"order='ALL', duplicates={flag} differs from the separate orders")
    # the interpolant as a function
    f = np.array(case["vals"], dtype=float)
    exact = P @ f
    ftol = ptol @ np.abs(f) + 4 * len(pts) * num.U * (np.abs(P) @ np.abs(f)) + 1e-300
    num.close(np.asarray(sut(approx, ts, fValues=f)), exact, ftol, "evaluation")
    stored = sut(LagrangeApproximation, pts, fValues=f, **opts)
    num.close(np.asarray(sut(stored, np.array(ts))), exact, ftol, "evaluation of stored values")
    if dup:
        for bad in ("LEFT", "use_left", "", "BOTH"):
            rejects(LagrangeApproximation, pts, duplicates=bad, types=(NotImplementedError,), what=f"duplicates={bad!r}")


def nontrivial(case):
    u = len(set(case["pts"]))
    return 1 < u < len(case["pts"])


def classify(case):
    pts = case["pts"]
    mult = {pts.count(p) for p in set(pts)}
    return [case["opts"].get("duplicates", "default"), "uneven" if len(mult) > 1 else "even",
            "sorted" if pts == sorted(pts) else "unsorted"]


SUBS = [
    Sub("duplicates", run, strategy, quick=1200, thorough=30000, nontrivial=nontrivial, classify=classify, shards=8),
]
