"""C22: stability, time symmetry and invariants of implicit methods."""
import numpy as np
from hypothesis import strategies as st

import gens
import num
from num import U
from core import Sub, Violation, sut
from qmat.qcoeff import Q_GENERATORS
from qmat.qcoeff.collocation import Collocation

RULE = ("cases are an implicit table or collocation method with coefficients of the left half plane from tiny to very stiff, with round trips in time, "
        "or with generated nonlinear systems having a quadratic invariant or being dissipative; non-trivial: non-zero coefficient, initial value and step")
ASSUMPTIONS = ["A- and L-stable tables are the ones of the publications named in the documentation", "theorems on Gauss, Radau IIA and Lobatto IIIA collocation",
               "rounding bounded with the condition number of the stage system"]

ASTABLE = ["BE", "MidPoint", "TRAP", "SDIRK2", "SDIRK2_2", "SDIRK3", "DIRK43", "GAUSS_LG", "SDIRK54", "EDIRK43", "EDIRK4", "ESDIRK43", "ESDIRK53",
           "ARK548L2SAESDIRK", "ARK548L2SAESDIRK2", "ARK324L2SAESDIRK", "ARK222EDIRK", "ARK443ESDIRK", "ARK343ESDIRK", "ARK4EDIRK"]
EMBEDDED = ["EDIRK43", "ESDIRK43", "ESDIRK53", "ARK548L2SAESDIRK", "ARK548L2SAESDIRK2", "ARK324L2SAESDIRK"]
LSTABLE = ["BE", "SDIRK2", "SDIRK2_2", "SDIRK3", "DIRK43", "SDIRK54", "ESDIRK43", "ESDIRK53",
           "ARK548L2SAESDIRK", "ARK548L2SAESDIRK2", "ARK324L2SAESDIRK", "ARK222EDIRK", "ARK443ESDIRK", "ARK343ESDIRK"]
ACCURATE = LSTABLE + ["TRAP", "EDIRK4", "ARK4EDIRK", "ARK4ERK"]
SYMMETRIC = ["MidPoint", "TRAP", "GAUSS_LG"]
ROUNDED = {"ARK343ESDIRK": 1e-8}


def make(gen):
    """Table name, or configuration with optional bounds."""
    if isinstance(gen, str):
        if gen not in Q_GENERATORS:
            raise Violation(f"{gen} is not registered")
        return sut(Q_GENERATORS[gen])
    return sut(Collocation, *gen)


def coefs(g, emb=False):
    n = np.size(g.nodes)
    A = num.arr(g.Q, (n, n), "Q")
    return A, num.arr(sut(lambda: g.weightsEmbedded) if emb else g.weights, (n,), "weights")


def stepTol(A, b, z):
    """Bound of the rounding of one step relative to the value, and the inverse condition."""
    s = len(b)
    K = np.eye(s) - z * A
    cond = np.linalg.cond(K)
    stage = np.abs(np.linalg.solve(K, np.ones(s))).max() if np.isfinite(cond) else np.inf
    return 40 * U * (s + 2) * (1 + cond) * (1 + abs(z) * np.abs(b).sum() * stage), cond


def runGrowth(case, ctx):
    g = make(case["gen"])
    emb = case["emb"]
    A, b = coefs(g, emb)
    T, n = case["T"], case["n"]
    lam = case["mag"] * complex(np.exp(1j * np.pi * (0.5 + case["arg"] / 64))) / (abs(T) or 1)
    if case["arg"] == 0:
        lam = complex(0, lam.imag)
    if T < 0:
        lam = -lam
    if case["real"]:
        lam = -abs(lam) if T > 0 else abs(lam)
    u0 = complex(*case["u0"])
    tol, cond = stepTol(A, b, lam * T / n)
    if not tol < 1e-3:
        return
    tol += ROUNDED.get(case["gen"], 0) if isinstance(case["gen"], str) else 0
    u = sut(g.solveDahlquist, lam, u0, T, n, **({"useEmbeddedWeights": True} if emb else {}))
    u = np.abs(num.arr(u, (n + 1,), "solution"))
    bad = ~(u[1:] <= u[:-1] * (1 + tol) + 1e-290)
    if np.any(bad):
        k = int(np.argmax(bad))
        raise Violation(f"solution for lam={lam} (T={T}, {n} steps) grows from {u[k]} to {u[k + 1]} in step {k}")
    if case["gen"] in LSTABLE and not emb or (not isinstance(case["gen"], str) and case["gen"][2] == "RADAU-RIGHT"):
        z = abs(lam * T / n)
        if z > 1e4:
            lim = 2e3 / z + 1e-6 + tol
            if not np.all(u[1:] <= lim * u[:-1] + 1e-290):
                raise Violation(f"stiff component (z = {lam * T / n}) is multiplied by {(u[1:] / np.maximum(u[:-1], 1e-300)).max()} in one step")


@st.composite
def legendre(draw, quads=("GAUSS", "RADAU-RIGHT", "LOBATTO")):
    q = draw(st.sampled_from(quads))
    n = draw(st.one_of(st.integers(2, 8), st.integers(2, 8), st.integers(9, 24)))
    out = [n, "LEGENDRE", q]
    if q != "LOBATTO" and draw(st.integers(0, 5)) == 0:
        out[0] = 1
    return out


@st.composite
def growthStrategy(draw):
    gen = draw(st.one_of(st.sampled_from(ASTABLE), legendre()))
    return {"gen": gen, "emb": gen in EMBEDDED and draw(st.booleans()), "mag": 10.0**draw(st.sampled_from([-3, -1, 0, 0.5, 1, 1.5, 2, 3, 4.5, 6, 8, 9.5])) * draw(st.integers(1, 16)) / 8,
            "arg": draw(st.one_of(st.just(0), st.integers(0, 64))), "real": draw(st.integers(0, 5)) == 0, "T": draw(st.sampled_from([1, 1.0, 0.1, 7.5, -1.0, 1e-4])),
            "n": draw(st.one_of(st.integers(1, 5), st.integers(1, 60))), "u0": draw(gens.cplx(3, 2))}


def growthCases(tier):
    out = []
    for i, g in enumerate(ASTABLE + [[n, "LEGENDRE", q] for n in (1, 4) for q in ("GAUSS", "RADAU-RIGHT")]):
        # many steps, also very stiff ones
        for mag in (300.0, 4e3, 1e12):
            out.append({"gen": g, "emb": g in EMBEDDED and i % 2 == 0, "mag": mag, "arg": 0 if mag < 1e6 else 20, "real": False, "T": -1.0 if i % 3 == 0 else 2.0, "n": 1500, "u0": [0.5, 1.0]})
    for g in ASTABLE + [[n, "LEGENDRE", q] for n in (2, 3, 5, 9, 16, 30, 48) for q in ("GAUSS", "RADAU-RIGHT", "LOBATTO")]:
        for emb in ((False, True) if g in EMBEDDED else (False,)):
            for mag in (0.5, 2.0, 5.0, 12.0, 40.0, 1e3, 1e5):
                for arg in (0, 3, 20):
                    out.append({"gen": g, "emb": emb, "mag": mag, "arg": arg, "real": False, "T": 1.0, "n": 1, "u0": [1.0, 0.5]})
    return out


# ----------------------------------------------------------------------------
def runAccurate(case, ctx):
    """The last stage is the solution at the end of the step."""
    g = make(case["gen"])
    A, b = coefs(g)
    if isinstance(case["gen"], str):
        tol = np.full(b.shape, 1e-14 + ROUNDED.get(case["gen"], 0))
    else:
        tol = 1e-12 * np.ptp(case["gen"][3:] or [0, 1]) * np.ones(b.shape)
    num.close(A[-1], b, tol, f"last row of the matrix of {case['gen']} (stiffly accurate: the weights)")


# ----------------------------------------------------------------------------
SYMTYPES = ["LEGENDRE", "CHEBY-1", "CHEBY-2", "EQUID"]


def runReverse(case, ctx):
    """A step back in time undoes a step, for methods with symmetric nodes."""
    g = make(case["gen"])
    A, b = coefs(g)
    s = len(b)
    lam, u0, T, n = complex(*case["lam"]), complex(*case["u0"]), case["T"], case["n"]
    z = lam * T / n
    t1, c1 = stepTol(A, b, z)
    t2, c2 = stepTol(A, b, -z)
    if not (t1 < 1e-6 and t2 < 1e-6) or abs(lam.real * T) > 100:
        return
    span = np.ptp(case["gen"][3:]) if len(case["gen"]) > 3 and not isinstance(case["gen"], str) else 1
    # coefficients: Q reversed is the weights minus Q, row by row
    R = A[::-1, ::-1]
    nrm = float(np.abs(A).sum(axis=1).max() + np.abs(b).sum())
    if case["gen"] not in SYMMETRIC:
        num.close(A + R, np.tile(b, (s, 1)), np.full((s, s), 1e-12 * max(nrm, span)), f"Q plus Q reversed of {case['gen']} (each row: the weights)")
    u = num.arr(sut(g.solveDahlquist, lam, u0, T, n), (n + 1,), "solution")
    v = num.arr(sut(g.solveDahlquist, lam, u[-1], -T, n), (n + 1,), "solution back in time")
    # relative rounding: both directions, and the one of the coefficients
    rel = 4 * n * (t1 + t2 + 200 * U * s * abs(z) * nrm * (c1 + c2) * 10)
    if not rel < 1e-3:
        return
    num.close(v[::-1], u, rel * np.abs(u) + 1e-290, f"solution back in time (lam={lam}, T={T}, {n} steps)")
    if lam.real == 0:
        num.close(np.abs(u), np.full(n + 1, abs(u0)), np.full(n + 1, rel * abs(u0) + 1e-290), f"amplitude of an oscillation (lam={lam}, T={T}, {n} steps)")


def reverseCases(tier):
    out = []
    for g in SYMMETRIC + [[2, "LEGENDRE", "LOBATTO"], [3, "LEGENDRE", "GAUSS"], [4, "CHEBY-1", "GAUSS"], [5, "EQUID", "LOBATTO"]]:
        out += [{"gen": g, "lam": lam, "u0": [1.0, -0.5], "T": T, "n": 1200} for lam, T in (([0.0, 5.0], 20.0), ([-0.5, 3.0], 7.0), ([0.25, -40.0], -10.0))]
    for n in (24, 33, 48):
        for t in SYMTYPES[:3]:
            for q in ("GAUSS", "LOBATTO"):
                out += [{"gen": [n, t, q], "lam": lam, "u0": [1.0, -0.5], "T": 1.0, "n": 2} for lam in ([0.0, 5.0], [-2.0, 30.0])]
    return out


@st.composite
def reverseStrategy(draw):
    if draw(st.integers(0, 3)) == 0:
        gen = draw(st.sampled_from(SYMMETRIC))
    else:
        t = draw(st.sampled_from(SYMTYPES))
        q = draw(st.sampled_from(["GAUSS", "LOBATTO"]))
        gen = [draw(st.integers(2, 8 if t == "EQUID" else 16)), t, q]
    y = draw(st.integers(-64, 64)) / 8 * draw(st.sampled_from([0.1, 1, 1, 4]))
    return {"gen": gen, "lam": [draw(st.one_of(st.just(0.0), st.integers(-40, 40).map(lambda k: k / 8))), y], "u0": draw(gens.cplx(3, 2)),
            "T": draw(st.sampled_from([1, 1.0, 0.3, 4.0, -1.5, 1e-3])), "n": draw(st.integers(1, 12))}


# ----------------------------------------------------------------------------
def newton(F, J, x, what):
    """Stages: iterate until nothing changes."""
    for _ in range(40):
        d = np.linalg.solve(J(x), F(x))
        x = x - d
        if np.abs(d).max() <= 4 * U * (1 + np.abs(x).max()):
            return x
    return None


def step(A, b, f, df, u, h):
    """One step of a Runge-Kutta method for u' = f(u)."""
    s, d = len(b), u.size
    X0 = np.tile(u, s)

    def F(X):
        K = np.array([f(x) for x in X.reshape(s, d)])
        return X - X0 - h * (A @ K).ravel()

    def J(X):
        D = np.array([df(x) for x in X.reshape(s, d)])
        return np.eye(s * d) - h * np.einsum("ij,jkl->ikjl", A, D).reshape(s * d, s * d)
    X = newton(F, J, X0, "stages")
    if X is None or np.abs(F(X)).max() > 1e-11 * (1 + np.abs(X).max()):
        return None
    return u + h * (b @ np.array([f(x) for x in X.reshape(s, d)]))


def runInvariant(case, ctx):
    """u' = B(u) u with B(u) skew-symmetric keeps its length with Gauss methods."""
    g = make(case["gen"])
    A, b = coefs(g)
    if not isinstance(case["gen"], str) and len(case["gen"]) > 3:
        A, b = A / np.ptp(case["gen"][3:]), b / np.ptp(case["gen"][3:])
    u = np.array(case["u0"], dtype=float)
    d = u.size
    C = np.resize(np.array(case["coef"], dtype=float), (d + 1, d, d))
    C = (C - C.transpose(0, 2, 1)) / 2

    def B(x):
        return C[0] + np.einsum("k,kij->ij", x, C[1:])

    def f(x):
        return B(x) @ x

    def df(x):
        return B(x) + np.einsum("kij,j->ik", C[1:], x)
    scale = np.abs(C).sum() * (1 + np.abs(u).max())
    h = case["h"] / max(scale, 1e-12)
    for k in range(case["n"]):
        v = step(A, b, f, df, u, h)
        if v is None:
            return
        a, c = u @ u, v @ v
        if not abs(a - c) <= 1e-10 * (a + c) + 1e-290:
            raise Violation(f"squared length goes from {a!r} to {c!r} in one step of {case['gen']} (u' = B(u) u, B skew-symmetric)")
        u = v


@st.composite
def invariantStrategy(draw):
    d = draw(st.integers(2, 3))
    ent = st.integers(-8, 8).map(lambda k: k / 4)
    gen = draw(st.one_of(st.sampled_from(["MidPoint", "GAUSS_LG"]), legendre(("GAUSS",)).filter(lambda c: c[0] <= 9), legendre(("GAUSS",)).filter(lambda c: c[0] <= 9)))
    return {"gen": gen, "u0": draw(st.lists(ent, min_size=d, max_size=d)), "coef": draw(st.lists(ent, min_size=3, max_size=12)),
            "h": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0])), "n": draw(st.integers(1, 4))}


def runContraction(case, ctx):
    """Two solutions of a dissipative system never move apart with Gauss and Radau-right methods."""
    g = make(case["gen"])
    A, b = coefs(g)
    u, v = (np.array(case[k], dtype=float) for k in ("u0", "v0"))
    d = u.size
    S = np.resize(np.array(case["coef"], dtype=float), (d, d))
    S = (S - S.T) / 2 - np.diag(np.resize(np.abs(np.array(case["damp"], dtype=float)), d))
    cub = np.resize(np.abs(np.array(case["cubic"], dtype=float)), d)
    h = case["h"]

    def f(x):
        return S @ x - cub * x**3

    def df(x):
        return S - np.diag(3 * cub * x**2)
    for k in range(case["n"]):
        un, vn = step(A, b, f, df, u, h), step(A, b, f, df, v, h)
        if un is None or vn is None:
            return
        before, after = np.linalg.norm(u - v), np.linalg.norm(un - vn)
        if not after <= before * (1 + 1e-9) + 1e-9 * (np.abs(u).max() + np.abs(v).max()):
            raise Violation(f"distance of two solutions of a dissipative system goes from {before} to {after} in one step of {case['gen']}")
        u, v = un, vn


@st.composite
def contractionStrategy(draw):
    d = draw(st.integers(1, 3))
    ent = st.integers(-8, 8).map(lambda k: k / 4)
    gen = draw(st.one_of(st.sampled_from(["BE", "MidPoint", "GAUSS_LG"]), legendre(("GAUSS", "RADAU-RIGHT")).filter(lambda c: c[0] <= 9), legendre(("GAUSS", "RADAU-RIGHT")).filter(lambda c: c[0] <= 9)))
    vec = st.lists(ent, min_size=d, max_size=d)
    return {"gen": gen, "u0": draw(vec), "v0": draw(vec), "coef": draw(st.lists(ent, min_size=1, max_size=9)), "damp": draw(st.lists(ent, min_size=1, max_size=3)),
            "cubic": draw(st.lists(ent, min_size=1, max_size=3)), "h": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0, 20.0, 1000.0])), "n": draw(st.integers(1, 4))}


def accurateCases(tier):
    return [{"gen": g} for g in ACCURATE] + [{"gen": [n, t, q, *bd]} for t in num.NODE_TYPES for q in ("RADAU-RIGHT", "LOBATTO") for n in (2, 3, 4, 7, 12)
                                             for bd in ([], [-1.0, 1.0], [2.0, 2.5])]


SUBS = [
    Sub("growth", runGrowth, growthStrategy, growthCases, quick=1200, thorough=30000, nontrivial=lambda c: c["u0"] != [0, 0],
        classify=lambda c: ["table" if isinstance(c["gen"], str) else c["gen"][2], "embedded" if c["emb"] else "main", "stiff" if c["mag"] / c["n"] > 1e4 else "moderate"], shards=8),
    Sub("accurate", runAccurate, cases=accurateCases),
    Sub("reversible", runReverse, reverseStrategy, reverseCases, quick=800, thorough=20000, nontrivial=lambda c: c["lam"] != [0, 0] and c["u0"] != [0, 0],
        classify=lambda c: ["table" if isinstance(c["gen"], str) else f"{c['gen'][1]} {c['gen'][2]}"], shards=8),
    Sub("invariant", runInvariant, invariantStrategy, quick=300, thorough=8000, nontrivial=lambda c: any(c["u0"]) and any(c["coef"]), shards=8),
    Sub("contraction", runContraction, contractionStrategy, quick=300, thorough=8000, nontrivial=lambda c: c["u0"] != c["v0"], shards=8),
]
