"""C01: quadrature nodes."""
import numpy as np
from hypothesis import strategies as st

import num
from core import Sub, Violation, sut, rejects
from qmat.nodes import NodesGenerator
import qmat.nodes as nodesModule

RULE = ("cases are (distribution, quadrature type, number of nodes), all enumerated up to a size and drawn above it, "
        "the recurrence coefficients and values of the orthogonal polynomials at generated points, plus invalid requests; non-trivial: more than one node or an invalid request")
ASSUMPTIONS = ["x86 extended precision (numpy longdouble) for the reference polynomials"]


def run(case, ctx):
    n, nt, qt = case
    gen = sut(NodesGenerator, nt, qt)
    nodes = sut(gen.getNodes, n)
    num.arr(nodes, (n,), f"nodes {case}")
    if not np.all(np.diff(nodes) > 0):
        raise Violation(f"nodes {case} are not strictly increasing: {nodes}")
    lo = qt in ("LOBATTO", "RADAU-LEFT")
    hi = qt in ("LOBATTO", "RADAU-RIGHT")
    if lo and nodes[0] != -1:
        raise Violation(f"{case}: first node is {nodes[0]!r}, not -1")
    if hi and nodes[-1] != 1:
        raise Violation(f"{case}: last node is {nodes[-1]!r}, not 1")
    inner = nodes[(1 if lo else 0):(n - 1 if hi else n)]
    if not np.all((inner > -1) & (inner < 1)):
        raise Violation(f"{case}: inner nodes outside (-1, 1)")
    if nt == "EQUID":
        num.close(nodes, num.refNodes(nt, qt, n).astype(float), 8 * num.U, f"equidistant nodes {case}")
    elif inner.size:
        m, a, b = num.innerPoly(nt, qt, n)
        # disjoint intervals around the nodes, each with a sign change
        tol = tolerance(n)
        x = inner.astype(num.LD)
        gap = np.diff(np.concatenate([[num.LD(-1) - 1], x, [num.LD(2)]]))
        eps = np.minimum(tol, np.minimum(gap[:-1], gap[1:]) / 2)
        s0 = np.sign(num.jacobi(m, a, b, x - eps))
        s1 = np.sign(num.jacobi(m, a, b, x + eps))
        bad = np.where(s0 * s1 >= 0)[0]
        if bad.size:
            raise Violation(f"{case}: node(s) {inner[bad[:3]]} are no zeros of the polynomial (+- {tol:.1e})")
    # generating again, or for another size in between, gives the same
    sut(gen.getNodes, num.minNodes(qt) + n % 3)
    again = sut(gen.getNodes, np.int64(n))      # as loops over np.arange give it
    if not np.array_equal(again, nodes):
        raise Violation(f"{case}: a second call gives other nodes")
    nodes[:] = 7
    if not np.array_equal(sut(gen.getNodes, n), again):
        raise Violation(f"{case}: modifying returned nodes changes later ones")
    if (gen.nodeType, gen.quadType) != (nt, qt):
        raise Violation(f"{case}: generator attributes changed")
    if n == 4 and nt == "LEGENDRE" and qt == "LOBATTO":
        if not np.array_equal(NodesGenerator().getNodes(4), again):
            raise Violation("default generator is not LEGENDRE / LOBATTO")


def tolerance(n):
    return 1e-14 + 4e-16 * n


def runRecurrence(case, ctx):
    """Three-term recurrence of the monic orthogonal polynomials, and their evaluation."""
    n, nt, qt, ts = case
    gen = sut(NodesGenerator, nt, qt)
    alpha, beta = sut(gen.getOrthogPolyCoefficients, n)
    num.arr(alpha, (n,), f"alpha {nt} {n}")
    num.arr(beta, (n,), f"beta {nt} {n}")
    a, b = (num.LD(x) for x in num.WEIGHT[nt])
    k = np.arange(n, dtype=num.LD)
    refA = np.zeros(n, dtype=num.LD)
    refA[0] = (b - a) / (a + b + 2)
    c = 2 * k[1:] + a + b
    refA[1:] = (b * b - a * a) / (c * (c + 2))
    refB = np.zeros(n, dtype=num.LD)
    refB[0] = num.LD(2) if nt == "LEGENDRE" else num.LD(np.pi) / (2 if nt == "CHEBY-2" else 1)
    if n > 1:
        refB[1] = 4 * (1 + a) * (1 + b) / ((2 + a + b)**2 * (3 + a + b))
        k, c = k[2:], 2 * k[2:] + a + b
        refB[2:] = 4 * k * (k + a) * (k + b) * (k + a + b) / (c**2 * (c + 1) * (c - 1))
    num.close(alpha, refA.astype(float), 8 * num.U, f"alpha coefficients {nt} {n}")
    num.close(beta, refB.astype(float), 16 * num.U, f"beta coefficients {nt} {n}")
    # evaluation of the polynomials of degrees n-1 and n, with a running error bound
    t = np.array(ts, dtype=num.LD)
    p0, p1, e0, e1 = np.zeros_like(t), np.ones_like(t), np.zeros_like(t), np.zeros_like(t)
    for x, y in zip(refA, refB):
        new = (t - x) * p1 - y * p0
        err = abs(t - x) * e1 + y * e0 + 8 * num.U * ((abs(t) + abs(x)) * abs(p1) + y * abs(p0))
        p0, p1, e0, e1 = p1, new, e1, err
    args = [np.array(alpha), np.array(beta)]
    values = sut(gen.evalOrthogPoly, np.array(ts, dtype=float), *args)
    single = [sut(gen.evalOrthogPoly, float(x), *args) for x in ts[:3]]
    for i, (p, e) in enumerate([(p0, e0), (p1, e1)]):
        tol = 8 * e.astype(float) + 1e-300
        num.close(np.asarray(values[i]), p.astype(float), tol, f"polynomial of degree {n - 1 + i}, {nt}")
        for j, v in enumerate(single):
            num.close(np.asarray(v[i]).reshape(()), float(p[j]), tol[j], f"polynomial of degree {n - 1 + i} at {ts[j]}, {nt}")
    if not (np.array_equal(args[0], alpha) and np.array_equal(args[1], beta)):
        raise Violation(f"evalOrthogPoly changes the given coefficients ({case})")
    # overwritten coefficients change nothing
    alpha[:], beta[:] = 3, 5
    again = sut(gen.getOrthogPolyCoefficients, n)
    if not (np.array_equal(args[0], again[0]) and np.array_equal(args[1], again[1])):
        raise Violation(f"modifying returned coefficients changes later ones ({case})")


FAMILIES = [nt for nt in num.NODE_TYPES if nt != "EQUID"]


def recurrenceCases(tier):
    return [[n, nt, qt, [-1.0, -0.3, 0.0, 0.7, 1.0]] for nt in FAMILIES for qt in num.QUAD_TYPES
            for n in list(range(1, 12)) + [37, 200]]


def recurrenceStrategy():
    times = st.lists(st.one_of(st.floats(-1, 1, allow_subnormal=False), st.floats(-3, 3, allow_subnormal=False)), min_size=1, max_size=6)
    return st.tuples(st.integers(1, 60), st.sampled_from(FAMILIES), st.sampled_from(num.QUAD_TYPES), times).map(list)


def cases(tier):
    top = 40 if tier == "quick" else 150
    out = [[n, nt, qt] for nt in num.NODE_TYPES for qt in num.QUAD_TYPES for n in range(num.minNodes(qt), top)]
    for n in [100, 257, 640, 1100] if tier == "quick" else [200, 300, 511, 800, 1074, 1075, 1076, 1080, 1500, 2000, 3000]:
        out += [[n, nt, qt] for nt in num.NODE_TYPES for qt in num.QUAD_TYPES]
    if tier == "quick":
        out += [[1700, "LEGENDRE", "RADAU-RIGHT"], [2048, "CHEBY-4", "RADAU-LEFT"], [2500, "LEGENDRE", "LOBATTO"], [4001, "EQUID", "GAUSS"]]
    return out


def strategy():
    return st.tuples(st.one_of(st.integers(2, 60), st.integers(2, 1200)), st.sampled_from(num.NODE_TYPES),
                     st.sampled_from(num.QUAD_TYPES)).map(list)


def runInvalid(case, ctx):
    kind, val, nt, qt = case
    if kind == "nodeType":
        rejects(NodesGenerator, val, qt, types=(ValueError,), what=f"nodeType {val!r}")
    elif kind == "quadType":
        rejects(NodesGenerator, nt, val, types=(ValueError,), what=f"quadType {val!r}")
    else:
        gen = sut(NodesGenerator, nt, qt)
        if val < num.minNodes(qt):
            rejects(gen.getNodes, val, types=(ValueError,), what=f"{val} nodes for {nt} {qt}")


def invalidCases(tier):
    out = []
    for nt in num.NODE_TYPES:
        for qt in num.QUAD_TYPES:
            out += [["n", k, nt, qt] for k in (-3, -1, 0, 1)]
    for bad in ["", "legendre", "LEGENDRE ", "CHEBY", "CHEBY-5", "CHEBY-0", "GAUSS", "EQUIDISTANT", "LOBATTO"]:
        out.append(["nodeType", bad, "LEGENDRE", "GAUSS"])
    for bad in ["", "gauss", "RADAU", "RADAU-", "LEGENDRE", "RADAU-MIDDLE", "LOBATTO ", "RADAU-LEFT-RIGHT"]:
        out.append(["quadType", bad, "LEGENDRE", "GAUSS"])
    return out


def invalidStrategy():
    txt = st.text(alphabet="ABCDEGHILNORSTUY-1234 ", max_size=12)
    return st.one_of(
        st.tuples(st.just("nodeType"), txt.filter(lambda s: s not in num.NODE_TYPES), st.just("LEGENDRE"), st.sampled_from(num.QUAD_TYPES)),
        st.tuples(st.just("quadType"), txt.filter(lambda s: s not in num.QUAD_TYPES), st.sampled_from(num.NODE_TYPES), st.just("GAUSS")),
        st.tuples(st.just("n"), st.integers(-50, 1), st.sampled_from(num.NODE_TYPES), st.sampled_from(num.QUAD_TYPES))).map(list)


def classify(case):
    n, nt, qt = case
    return [nt, qt, "large" if n > 100 else "small"]


SUBS = [
    Sub("zeros", run, strategy, cases, quick=240, thorough=3000, nontrivial=lambda c: c[0] > 1, classify=classify, chunks=8, shards=8),
    Sub("recurrence", runRecurrence, recurrenceStrategy, recurrenceCases, quick=400, thorough=6000, shards=2,
        nontrivial=lambda c: c[0] > 1, classify=lambda c: [c[1]]),
    Sub("invalid", runInvalid, invalidStrategy, invalidCases, quick=200, thorough=4000, shards=1,
        classify=lambda c: [c[0]]),
]
