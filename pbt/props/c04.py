"""C04: derivative matrices."""
import warnings
import numpy as np
from hypothesis import strategies as st

import gens
import num
from core import Sub, Violation, sut, rejects
from props.lagcommon import build, derivRef, polyValues
from props.c02 import usable

RULE = ("cases are distinct points of any scale, offset and order with weight options; "
        "non-trivial: at least two points")
ASSUMPTIONS = ["exact derivatives of the 50-digit Lagrange basis as reference", "condition-scaled tolerances"]


@st.composite
def strategy(draw):
    pts = draw(gens.points(1, 14))
    return {"pts": pts, "opts": {"weightComputation": draw(st.sampled_from(gens.ALGS)), "scaleWeights": draw(st.booleans())}}


@st.composite
def bigStrategy(draw):
    nt = draw(st.sampled_from(num.NODE_TYPES))
    n = draw(st.integers(15, 60 if nt != "EQUID" else 30))
    pts = [float(x) for x in num.refNodes(nt, draw(st.sampled_from(num.QUAD_TYPES)), n).astype(float)]
    return {"pts": pts, "opts": {"weightComputation": draw(st.sampled_from(["AUTO", "STABLE", "CHEBFUN"]))}}


def run(case, ctx):
    pts = case["pts"]
    n = len(pts)
    if not usable(case):
        return
    approx = build(case)
    r1, r2, t1, t2 = derivRef(pts)
    D1 = num.arr(sut(approx.getDerivativeMatrix), (n, n), "D1")
    num.close(D1, r1, t1, "first derivative matrix")
    D2 = num.arr(sut(approx.getDerivativeMatrix, 2), (n, n), "D2")
    num.close(D2, r2, t2, "second derivative matrix")
    both = sut(approx.getDerivativeMatrix, "ALL")
    if not (isinstance(both, tuple) and len(both) == 2):
        raise Violation(f"order='ALL' returns {type(both)}")
    num.close(num.arr(both[0], (n, n), "D1 of ALL"), r1, t1, "first matrix of order='ALL'")
    num.close(num.arr(both[1], (n, n), "D2 of ALL"), r2, t2, "second matrix of order='ALL'")
    num.close(sut(approx.getDerivativeMatrix, order=1), r1, t1, "derivative matrix, order=1")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        num.close(sut(approx.getDerivationMatrix, order=2), r2, t2, "deprecated name, order=2")
        num.close(sut(approx.getDerivationMatrix), r1, t1, "deprecated name")
    for D, T, name in ((D1, t1, "D1"), (D2, t2, "D2")):
        s = np.abs(D.sum(axis=1))
        if np.any(s > 4 * n * num.U * np.abs(D).sum(axis=1) + T.sum(axis=1)):
            raise Violation(f"rows of {name} do not sum to zero: {s}")
    # calls do not change the object
    num.close(sut(approx.getDerivativeMatrix), D1, 0, "second call")
    for bad in (0, 3, -1, "BOTH", None, "all"):
        rejects(approx.getDerivativeMatrix, bad, types=(NotImplementedError,), what=f"order {bad!r}")


def classify(case):
    return [case["opts"]["weightComputation"], "unsorted" if case["pts"] != sorted(case["pts"]) else "sorted",
            f"n={'1' if len(case['pts']) == 1 else '2' if len(case['pts']) == 2 else '3+'}"]


SUBS = [
    Sub("derivatives", run, strategy, quick=1200, thorough=30000, nontrivial=lambda c: len(c["pts"]) > 1, classify=classify, shards=8),
    Sub("manyPoints", run, bigStrategy, quick=40, thorough=600, classify=classify, shards=4),
]
