"""C14: algebraic approximations."""
from fractions import Fraction as Fr
import numpy as np
from mpmath import mpf
from hypothesis import strategies as st, assume

import gens
import num
from num import U as EPS
from core import Sub, Violation, sut, rejects
from qmat.qdelta import QDELTA_GENERATORS, genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
from qmat.utils.num import lduFactorization

RULE = ("cases are an approximation with a random or collocation matrix, and random matrices with non-singular leading blocks for the LDU "
        "factorization; non-trivial: size at least two")
ASSUMPTIONS = ["exact (rational or 50-digit) elimination without row exchange as reference",
               "for other than collocation matrices LU is accepted with or without row exchanges"]

ALIASES = {"PIC": "PIC", "Picard": "PIC", "Exact": "EXACT", "EXACT": "EXACT", "LU": "LU", "LU2": "LU2", "QPar": "QPAR", "Qpar": "QPAR",
           "Qdiag": "QPAR", "GS": "GS", "GaussSeidel": "GS", "LDU": "LDU"}


def doolittle(A, num_=Fr):
    """Unpivoted elimination; a zero pivot over a zero column is passed over. Returns L, U, growth or None."""
    n = len(A)
    V = [[num_(x) for x in row] for row in A]
    L = [[num_(int(i == j)) for j in range(n)] for i in range(n)]
    top = max((abs(x) for r in V for x in r), default=num_(0))
    big = top
    for k in range(n):
        if V[k][k] == 0:
            if any(V[i][k] != 0 for i in range(k + 1, n)):
                return None
            continue
        for i in range(k + 1, n):
            f = V[i][k] / V[k][k]
            L[i][k] = f
            V[i][k] = num_(0)
            for j in range(k + 1, n):
                V[i][j] -= f * V[k][j]
        big = max(big, max(abs(x) for r in V for x in r), max(abs(L[i][k]) for i in range(n)) * top)
    F = lambda M: np.array([[float(x) for x in r] for r in M])
    return F(L), F(V), float(big / top) if top else 1.0


def pivoted(A):
    """Upper factor with partial pivoting, None when a choice of pivot is ambiguous."""
    V = np.array(A, dtype=float)
    V0 = V.copy()
    n = V.shape[0]
    for k in range(n):
        col = np.abs(V[k:, k])
        if n - k > 1:
            s = np.sort(col)
            if s[-1] > 0 and s[-1] - s[-2] < 1e-9 * s[-1]:
                return None
            if s[-1] <= 1e-12 * np.abs(A).max() and np.any(V0[:, k] != 0):
                return None       # rounding errors decide
        p = k + int(np.argmax(col))
        if V[p, k] == 0:
            continue
        V[[k, p]] = V[[p, k]]
        for i in range(k + 1, n):
            V[i] -= V[i, k] / V[k, k] * V[k]
            V[i, k] = 0
    return V


def basic(name, kind, Q, given, ctx, **kw):
    """Check everything but LU and LDU; returns the matrix."""
    M = Q.shape[0]
    cls = QDELTA_GENERATORS[name]
    gen = sut(cls, **given)
    D, dT = sut(gen.genCoeffs, dTau=True)
    num.arr(D, (M, M), f"QDelta {name}", finite=kind != "LDU")
    if not np.array_equal(num.arr(dT, (M,), f"dTau {name}"), np.zeros(M)):
        raise Violation(f"dTau of {name} is {dT}")
    for other in (sut(gen.getQDelta), sut(gen.computeQDelta), sut(gen.getQDelta, 2), sut(gen.genCoeffs), sut(genQDeltaCoeffs, name, **given)):
        if not np.array_equal(other, D, equal_nan=True):
            raise Violation(f"{name} gives different matrices for different calls")
    exp = {"PIC": np.zeros((M, M)), "EXACT": Q, "QPAR": np.diag(np.diag(Q)), "GS": np.tril(Q)}.get(kind)
    if exp is not None and not np.array_equal(D, exp):
        raise Violation(f"{name} of\n{Q}\nis\n{D}")
    if kind == "LDU" and np.any(D[~np.eye(M, dtype=bool)] != 0):
        raise Violation(f"{name} is not diagonal:\n{D}")
    if kind == "LU2":
        lu = sut(QDELTA_GENERATORS["LU"], **given).getQDelta()
        if not np.allclose(D, 2 * lu, rtol=1e-14, atol=0):
            raise Violation("LU2 is not twice LU")
        D = D / 2
    if kind in ("LU", "LU2") and np.any(np.triu(D, 1) != 0):
        raise Violation(f"{name} is not lower triangular:\n{D}")
    return D


def runRandom(case, ctx):
    Q = np.array(case["Q"], dtype=float)
    M = Q.shape[0]
    name, kind = case["name"], ALIASES[case["name"]]
    arg = gens.asForm(case["Q"], case["form"])
    D = basic(name, kind, Q, {"Q": arg}, ctx)
    if not np.array_equal(np.asarray(arg, dtype=float), Q):
        raise Violation(f"the given matrix was modified by {name}")
    if kind in ("LU", "LU2"):
        ref = doolittle(Q.T.tolist())
        ok = ref is not None and np.all(np.abs(D - ref[1].T) <= 1e-12 * ref[2]**2 * np.abs(Q).max() * M)
        if not ok:
            p = pivoted(Q.T)
            if p is not None and not np.all(np.abs(D - p.T) <= 1e-10 * 2.0**M * np.abs(Q).max()):
                raise Violation(f"{name} of\n{Q}\nis\n{D}\nwhich is the transpose of no upper factor of the transposed matrix")
    if kind == "LDU":
        ref = doolittle(case["Q"])
        if ref is not None and ref[2] < 1e4 and np.all(np.diag(ref[1]) != 0):
            d = np.diag(ref[1])
            if np.abs(d).min() > 1e-4 * np.abs(Q).max():
                num.close(np.diag(D), d, 1e-12 * ref[2]**2 * np.abs(Q).max() * M, f"LDU diagonal of\n{Q}\n")


def square(draw, nMax):
    n = draw(st.one_of(st.integers(1, nMax), st.integers(1, nMax), st.integers(1, nMax), st.integers(nMax, 2 * nMax)))
    ent = st.integers(-12, 12)
    kind = draw(st.sampled_from(["full", "full", "lower", "strict", "dominant"]))
    A = [[draw(ent) / 4 for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if (kind == "lower" and j > i) or (kind == "strict" and j >= i):
                A[i][j] = 0.0
        if kind == "dominant":
            A[i][i] = (3 * n + abs(A[i][i])) * (1 if draw(st.booleans()) else -1)
    if draw(st.integers(0, 3)) == 0:
        return [[4 * v for v in r] for r in A]       # integers
    scale = draw(st.sampled_from([1.0, 1.0, 1.0, 2.0**-30, 2.0**-10, 2.0**20, 2.0**-47, 2.0**-100]))
    if draw(st.integers(0, 3)) == 0:       # rows of different magnitudes
        A = [[v * 2.0**-draw(st.sampled_from([0, 10, 20])) for v in r] for r in A] if n < 4 else [[v * 2.0**(-10 * (i % 3)) for v in r] for i, r in enumerate(A)]
    return [[v * scale for v in r] for r in A]


QFORMS = ["array", "array", "list", "list", "intlist"] + gens.FORMS


@st.composite
def strategy(draw):
    return {"name": draw(st.sampled_from(sorted(ALIASES))), "Q": square(draw, 6), "form": draw(st.sampled_from(QFORMS))}


def largeCases(tier):
    out = []
    for n in (13, 20, 32, 45):
        full = [[((7 * i * i + 3 * j * j + 5 * i * j) % 17 - 8) / 8 + (3.0 * n if i == j else 0) for j in range(n)] for i in range(n)]
        low = [[v if j <= i else 0.0 for j, v in enumerate(r)] for i, r in enumerate(full)]
        for name in sorted(set(ALIASES)):
            if n < 32 or ALIASES[name] in ("PIC", "EXACT", "QPAR", "GS") or name in ("LU", "LDU"):
                out.append({"name": name, "Q": low if n % 2 else full, "form": "array"})
    return out


# ----------------------------------------------------------------------------
def runColl(case, ctx):
    n, nt, qt = case["cfg"]
    name, kind = case["name"], ALIASES[case["name"]]
    coll = sut(Collocation, n, nt, qt, *case["bounds"])
    Q = coll.Q.copy()
    what = f"{name} for {nt} {qt} {n} nodes on {case['bounds']}"
    D = basic(name, kind, Q, {"qGen": coll} if case["qGen"] else {"Q": coll.Q}, ctx)
    if not np.array_equal(coll.Q, Q):
        raise Violation(f"the matrix of the generator was modified by {what}")
    h = case["bounds"][1] - case["bounds"][0]
    left = qt in ("LOBATTO", "RADAU-LEFT")
    if kind in ("LU", "LU2"):
        L, Uf, growth = doolittle(Q.T.tolist(), mpf)
        tol = 1e-12 * n**2 * h * max(growth, 1)
        if np.abs(D - Uf.T).max() > tol:
            p = pivoted(Q.T)
            if nt == "EQUID" and p is not None and np.abs(D - p.T).max() <= tol:
                ctx.fail(f"{what} is the factor of a row-permuted matrix", key=f"LU-pivoting:EQUID:{qt}")
                return
            num.close(D, Uf.T, tol, what)
        s = 1 if left else 0
        if n - s > 0:
            # coefficients of the characteristic polynomial of the stiff iteration matrix
            K = np.eye(n - s) - np.linalg.solve(D[s:, s:], Q[s:, s:])
            lo = np.tril(K)
            if np.abs(lo).max() > 1e-9 * growth * n**2:
                raise Violation(f"stiff iteration matrix of {what} is not nilpotent:\n{K}")
            P = np.linalg.matrix_power(np.triu(K, 1), n - s)
            if np.any(P != 0):
                raise Violation(f"stiff iteration matrix of {what} is not nilpotent")
    if kind == "LDU" and not left:
        _, Uf, growth = doolittle(Q.tolist(), mpf)
        num.close(np.diag(D), np.diag(Uf), 1e-12 * n**2 * h * max(growth, 1)**2, what)


BOUNDS = [[0, 1], [0, 1], [0, 2], [1, 3], [-1, 1], [0, 0.001], [0, 1e-9], [2, 1000], [0, 1e6]]


@st.composite
def collStrategy(draw):
    cfg = draw(gens.configs(14))
    return {"cfg": cfg, "name": draw(st.sampled_from(["LU", "LU2", "LU", "LDU", "GS", "QPar", "Exact", "PIC"])), "qGen": draw(st.booleans()),
            "bounds": draw(st.sampled_from(BOUNDS))}


def collCases(tier):
    return [{"cfg": c, "name": nm, "qGen": c[0] % 2 == 0, "bounds": [0, 1]} for c in gens.allConfigs(10 if tier == "quick" else 14) for nm in ("LU", "LU2", "LDU")] + [
        {"cfg": c, "name": nm, "qGen": True, "bounds": [0, 2]} for c in ([18, "LEGENDRE", "RADAU-RIGHT"], [22, "CHEBY-1", "GAUSS"], [20, "LEGENDRE", "LOBATTO"])
        for nm in ("LU", "LU2", "LDU", "GS", "QPar", "PIC", "Exact")]


# ----------------------------------------------------------------------------
def runLDU(case, ctx):
    A = np.array(case["A"], dtype=float)
    n = A.shape[0]
    ref = doolittle(case["A"])
    if ref is None or np.any(np.diag(ref[1])[:-1] == 0):
        return
    B = gens.asForm(case["A"], case["form"])
    res = sut(lduFactorization, B)
    if not np.array_equal(A, B):
        raise Violation("lduFactorization modified its argument")
    if not (isinstance(res, tuple) and len(res) == 3):
        raise Violation(f"lduFactorization returns {type(res)}")
    L, D, Up = (num.arr(x, (n, n), nm) for x, nm in zip(res, "LDU"))
    if np.any(np.triu(L, 1) != 0) or np.any(np.diag(L) != 1):
        raise Violation(f"L is not unit lower triangular:\n{L}")
    if np.any(np.tril(Up, -1) != 0) or np.any(np.diag(Up) != 1):
        raise Violation(f"U is not unit upper triangular:\n{Up}")
    if np.any(D[~np.eye(n, dtype=bool)] != 0):
        raise Violation(f"D is not diagonal:\n{D}")
    bound = 8 * n * EPS * (np.abs(L) @ np.abs(D) @ np.abs(Up)) + 1e-300
    num.close(L @ D @ Up, A, bound, "product of the LDU factors")
    d = np.diag(ref[1])
    if ref[2] < 1e3 and np.abs(d[:-1]).min(initial=1e9) > 1e-3 * np.abs(A).max():
        num.close(np.diag(D), d, 1e-11 * ref[2]**2 * np.abs(A).max() * n, "diagonal of the LDU factorization")
        num.close(L, ref[0], 1e-9 * ref[2]**3, "L of the LDU factorization")


def runNotSquare(case, ctx):
    rejects(lduFactorization, np.ones(case["shape"]), what="LDU factorization of a rectangular matrix")


SUBS = [
    Sub("matrices", runRandom, strategy, largeCases, chunks=4, quick=800, thorough=20000, nontrivial=lambda c: len(c["Q"]) > 1, classify=lambda c: [ALIASES[c["name"]]], shards=8),
    Sub("collocation", runColl, collStrategy, collCases, quick=300, thorough=6000, nontrivial=lambda c: c["cfg"][0] > 1,
        classify=lambda c: [ALIASES[c["name"]], c["cfg"][1]], shards=8, chunks=8),
    Sub("ldu", runLDU, lambda: st.composite(lambda draw: {"A": square(draw, 7), "form": draw(st.sampled_from(gens.FORMS + ["int"]))})(), quick=600, thorough=20000, nontrivial=lambda c: len(c["A"]) > 1, shards=8),
    Sub("rectangular", runNotSquare, cases=lambda tier: [{"shape": [a, b]} for a in range(1, 4) for b in range(1, 4) if a != b]),
]
