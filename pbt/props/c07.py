"""C07: sparse interpolation."""
import itertools
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st, assume

import gens
import num
from num import U
from core import Sub, Violation, sut, rejects
from qmat.lagrange import getSparseInterpolationMatrix

RULE = ("cases are grids, mostly sorted (uniform, clustered, nearly uniform or random; any scale and offset), output points in any order, "
        "an order and possibly a period with shifts by multiples of it; non-trivial: order at least two and two output points")
ASSUMPTIONS = ["exact interpolant over the closest points as reference, any choice between equally close points is accepted",
               "periodic grids do not contain the same point twice modulo the period",
               "positions may be perturbed by 1e-12 of the local stencil (reuse of rows for equal relative stencils)"]


def grid(draw, nMin, nMax):
    n = draw(st.integers(nMin, nMax))
    kind = draw(st.sampled_from(["uniform", "uniform", "random", "steps", "almost", "cheb"]))
    if kind == "uniform":
        return np.arange(n) / n
    if kind == "cheb":
        return (1 - np.cos((2 * np.arange(n) + 1) * np.pi / (2 * n))) / 2
    if kind == "almost":
        e = draw(st.sampled_from([1e-3, 1e-5, 1e-6, 1e-7, 1e-9]))
        j = np.array(draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n)))
        return (np.arange(n) + 0.5 + e * j) / n
    if kind == "steps":
        g = np.array(draw(st.lists(st.sampled_from([1, 1, 1, 2, 4]), min_size=n, max_size=n)), dtype=float)
    else:
        g = np.array(draw(st.lists(st.integers(1, 12), min_size=n, max_size=n)), dtype=float)
    c = np.concatenate([[0], np.cumsum(g)])
    return c[:-1] / c[-1]


@st.composite
def strategy(draw, periodic=False):
    x = grid(draw, 1, 14)
    n = x.size
    s = draw(st.sampled_from([1.0, 1.0, 2.0, 1e-3, 1e-6, 1e-9, 1e-12, 1e3, 1e6, 2 * np.pi]))
    o = draw(st.sampled_from([0.0, 0.0, 1.0, -0.5, -3.0, 10.0]))
    p = draw(st.integers(1, min(n, 7)))
    kinds = draw(st.lists(st.tuples(st.sampled_from(["cell", "cell", "on", "mid", "near", "any"]), st.integers(0, n - 1), st.integers(0, 16)),
                          min_size=1, max_size=7))
    sweep = draw(st.integers(0, 3)) == 0
    out = []
    nxt = np.append(x[1:], 1.0)
    if sweep:     # same relative position in every cell
        f = draw(st.integers(0, 15)) / 16
        out = [float(a + f * (b - a)) for a, b in zip(x, nxt)]
    else:
        for kind, i, f in kinds:
            a, b = x[i], nxt[i]
            if kind == "cell":
                t = a + f / 16 * (b - a)
            elif kind == "on":
                t = a
            elif kind == "mid":
                t = (a + b) / 2
            elif kind == "near":
                t = a + (b - a) * [1e-6, -1e-6, 1e-3, 1e-8, -1e-10][f % 5]
            else:
                t = (f - 4) / 8
            out.append(float(t))
    case = {"x": [float(v) for v in (x + o) * s], "out": [float(v) for v in (np.array(out) + o) * s], "p": p, "period": None}
    assume(np.unique(case["x"]).size == n)
    if periodic:
        case["period"] = s
        case["shift"] = draw(st.sampled_from([0, 0, 1, -1, 3, -4]))
        case["oshift"] = draw(st.lists(st.sampled_from([0, 0, 1, -1, 2, -3]), min_size=len(out), max_size=len(out)))
        case["out"] = [float(v + k * s) for v, k in zip(case["out"], case["oshift"])]
        case["x"] = [float(v + case["shift"] * s) for v in case["x"]]
        r = np.sort(np.array(case["x"]) % s)
        gaps = np.append(np.diff(r), r[0] + s - r[-1]) if n > 1 else np.array([s])
        assume(gaps.min() > 1e-4 * s / n)
    order = draw(st.sampled_from(["sorted", "sorted", "sorted", "reversed", "shuffled"]))
    if order == "reversed":
        case["x"] = case["x"][::-1]
    elif order == "shuffled":
        case["x"] = list(draw(st.permutations(case["x"])))
    return case


def run(case, ctx):
    x, out, p = np.array(case["x"]), np.array(case["out"]), case["p"]
    per = case["period"]
    n = x.size
    a, b = x.copy(), out.copy()
    kw = {} if per is None else {"gridPeriod": per}
    A = sut(getSparseInterpolationMatrix, a, b, p, **kw)
    if not np.array_equal(a, x) or not np.array_equal(b, out):
        raise Violation("arguments were modified")
    if not sp.issparse(A) or A.format != "csc" or A.shape != (out.size, n):
        raise Violation(f"result is {type(A)} of shape {getattr(A, 'shape', None)}")
    M = A.toarray()
    num.arr(M, (out.size, n), "sparse matrix")
    for i in range(out.size):
        checkRow(M[i], x, out[i], p, per, i)
    if per is None:
        for neg in (-1, -0.5, -1e-3, -2 * np.pi, -100):
            B = sut(getSparseInterpolationMatrix, x, out, p, gridPeriod=neg)
            if not np.array_equal(B.toarray(), M):
                raise Violation(f"the negative period {neg} is not the same as no period")
    rejects(getSparseInterpolationMatrix, x, out, n + 1, types=(AssertionError,), what="order larger than the number of points", **kw)
    rejects(getSparseInterpolationMatrix, x, out, n + 3, types=(AssertionError,), what="order larger than the number of points", **kw)


def checkRow(row, x, t, p, per, i):
    n = x.size
    nnz = int(np.count_nonzero(row))
    if nnz > p:
        raise Violation(f"row {i} has {nnz} non-zeros for order {p}")
    if per is None:
        pos = [(float(v), j) for j, v in enumerate(x)]
    else:
        P = num.mpf(per)
        pos = []
        for j, v in enumerate(x):
            k0 = int(np.floor((t - v) / per))
            for k in range(k0 - 1, k0 + 3):
                pos.append((num.mpf(float(v)) + k * P, j))
    d = sorted((abs(float(num.mpf(q) - num.mpf(float(t)))), q, j) for q, j in pos)
    mag = np.abs(x).max() + abs(t) + (per or 0)
    eps = 8 * U * mag
    dp = d[p - 1][0]
    tie = 4 * eps + 1e-12 * dp
    sure = [(q, j) for r, q, j in d if r < dp - tie]
    border = [(q, j) for r, q, j in d if dp - tie <= r <= dp + tie]
    need = p - len(sure)
    best = None
    for combo in itertools.islice(itertools.combinations(border, need), 200):
        sel = sorted(sure + list(combo))
        idx = [j for _, j in sel]
        if len(set(idx)) < len(idx):
            continue
        rel = [float(num.mpf(q) - num.mpf(float(t))) for q, _ in sel]
        if len(set(rel)) < len(rel):
            continue
        L = num.Lag(rel)
        ell = np.array([float(v) for v in L.basis(0)])
        lam = 1 + np.abs(ell).sum()
        tol = 4 * num.weightError(rel) * np.abs(ell) * lam + 1e-15 * lam
        if p > 1:
            r = np.sort(rel)
            delta = 2e-13 * np.ptp(r) + eps
            tol = tol + 4 * p * delta / np.diff(r).min() * lam
        ref = np.zeros(n)
        ref[idx] = ell
        full = np.full(n, 1e-300)
        full[idx] = tol
        err = np.abs(row - ref)
        if np.all(err <= full):
            return
        worst = float((err / full).max())
        if best is None or worst < best[0]:
            best = (worst, ref)
    raise Violation(f"row {i} (output point {t}, order {p}, period {per}) is {row.tolist()}, expected {best[1].tolist() if best else None}")


def classify(case):
    return [f"p={case['p']}", "periodic" if case["period"] else "open", "shifted" if case.get("shift") or any(case.get("oshift", [])) else "base"]


def nontrivial(case):
    return case["p"] > 1 and len(case["out"]) > 1


def runPoly(case, ctx):
    """Reproduction of polynomials through the sparse matrix, on larger uniform and random grids."""
    n, p, s, o = case["n"], case["p"], case["s"], case["o"]
    rng = np.random.default_rng(case["seed"])
    x = np.arange(n) / n
    if case["jitter"]:
        x = x + rng.uniform(-0.3, 0.3, n) / n
    out = np.sort(rng.uniform(x[0], x[-1], case["m"])) if case["m"] != n - 1 else (x[1:] + x[:-1]) / 2
    p = min(p, n)
    A = sut(getSparseInterpolationMatrix, (x + o) * s, (out + o) * s, p)
    M = A.toarray()
    num.arr(M, (out.size, n), "sparse matrix")
    if (M != 0).sum(axis=1).max() > p:
        raise Violation("too many non-zeros in a row")
    xs, os_ = ((x + o) * s) / s - o, ((out + o) * s) / s - o
    lam = 1 + np.abs(M).sum(axis=1)
    for k in range(p):
        tol = lam * (1e-11 + 200 * U * (1 + abs(o)) * n)
        num.close(M @ xs**k, os_**k, tol, f"interpolation of x^{k} with order {p}")


@st.composite
def polyStrategy(draw):
    n = draw(st.one_of(st.integers(8, 60), st.integers(8, 60), st.integers(61, 400)))
    return {"n": n, "p": draw(st.one_of(st.integers(1, 7), st.integers(1, 10).filter(lambda p: p <= n))), "s": draw(st.sampled_from([1.0, 1e-3, 1e-9, 1e4])), "o": draw(st.sampled_from([0, 0, 1, -7])),
            "jitter": draw(st.booleans()), "m": draw(st.sampled_from([5, 40, n - 1])), "seed": draw(st.integers(0, 10**6))}


SUBS = [
    Sub("closest", run, strategy, quick=1000, thorough=24000, nontrivial=nontrivial, classify=classify, shards=8),
    Sub("periodic", run, lambda: strategy(periodic=True), quick=1000, thorough=24000, nontrivial=nontrivial, classify=classify, shards=8),
    Sub("polynomials", runPoly, polyStrategy, quick=120, thorough=3000, nontrivial=lambda c: c["p"] > 1, classify=lambda c: [f"p={c['p']}"], shards=8),
]
