"""C12: solver for the Dahlquist problem."""
import numpy as np
from mpmath import mp, mpf, mpc
import mpmath
from hypothesis import strategies as st

import gens
import num
from num import U
from core import Sub, Violation, sut, rejects
from qmat.qcoeff import Q_GENERATORS, QGenerator
from qmat.qcoeff.collocation import Collocation
from qmat.qcoeff.butcher import RK

RULE = ("cases are a generator (any table, padding, or collocation), complex coefficient, initial value, final time, number of steps "
        "and kind of weights; non-trivial: non-zero coefficient, initial value and time, and at least two steps")
ASSUMPTIONS = ["50-digit stability function of the coefficients as reference", "rounding bounded with the condition number of the stage system"]

RKS = [k for k, c in Q_GENERATORS.items() if issubclass(c, RK)]


def make(case):
    if case["gen"] == "custom":
        return sut(gens.customQ(case["custom"]))
    if case["gen"] == "Collocation":
        n, nt, qt = case["cfg"]
        return sut(Collocation, n, nt, qt, *case.get("bounds", []))
    kw = {"padding": case["pad"]} if case.get("pad") else {}
    return sut(Q_GENERATORS[case["gen"]], **kw)


def val(v):
    """[re, im], or a real number as such."""
    return complex(*v) if isinstance(v, list) else v


def stabilityMP(A, b, z):
    s = A.shape[0]
    z = mpc(z)
    K = mpmath.matrix(s, s)
    for i in range(s):
        for j in range(s):
            K[i, j] = (1 if i == j else 0) - z * mpf(float(A[i, j]))
    x = mpmath.lu_solve(K, mpmath.matrix([1] * s))
    return complex(1 + z * sum(mpf(float(b[j])) * x[j] for j in range(s)))


def run(case, ctx):
    gen = make(case)
    lam, u0, T, n, emb = val(case["lam"]), val(case["u0"]), case["T"], case["n"], case["emb"]
    A = np.asarray(gen.Q)
    if emb:
        try:
            b = gen.weightsEmbedded
        except NotImplementedError:
            rejects(gen.solveDahlquist, lam, u0, T, n, useEmbeddedWeights=True, types=(NotImplementedError,), what="embedded weights")
            rejects(gen.errorDahlquist, lam, u0, T, n, useEmbeddedWeights=True, types=(NotImplementedError,), what="embedded weights")
            return
    else:
        b = gen.weights
    s = A.shape[0]
    z = complex(lam) * T / n
    K = np.eye(s) - z * A
    cond = np.linalg.cond(K)
    if not cond < 1e7:
        return
    R = stabilityMP(A, b, z)
    if np.log10(max(abs(R), 1e-300)) * n > 100 or (complex(lam) * T).real > 200:
        return
    kw = {"useEmbeddedWeights": True} if emb else ({"useEmbeddedWeights": False} if case["explicit"] else {})
    u = num.arr(sut(gen.solveDahlquist, lam, u0, T, n, **kw), (n + 1,), "solution")
    if u[0] != u0:
        raise Violation(f"solution starts with {u[0]}, not {u0}")
    stage = np.abs(np.linalg.solve(K, np.ones(s)))
    # rounding of one step, relative to the value
    amp = 40 * U * (s + 2) * cond * (1 + abs(z) * float(np.abs(b).sum() * max(stage.max(), 1))) * (1 + abs(z))
    ref = R * u[:-1]
    num.close(u[1:], ref, amp * np.abs(u[:-1]) + 1e-290, f"step of the solution (R(z) = {R})")
    # definition of the error
    t = np.arange(n + 1) * (T / n)
    ex = u0 * np.exp(complex(lam) * t)
    scale = max(np.abs(ex).max(), np.abs(u).max())
    etol = (1e-13 * (1 + abs(lam * T))) * scale + 1e-290
    err = sut(gen.errorDahlquist, lam, u0, T, n, **kw)
    exact = np.abs(u - ex).max()
    if np.ndim(err) != 0 or not abs(err - exact) <= etol:
        raise Violation(f"error is {err}, maximum over the time points is {exact}")
    # given solution
    v = np.array([complex(*x) for x in case["v"]])
    v = np.resize(v, n + 1)
    given = sut(gen.errorDahlquist, lam, u0, T, n, uNum=v.copy(), **kw)
    exact = np.abs(v - ex).max()
    if not abs(given - exact) <= etol + 1e-13 * np.abs(v).max():
        raise Violation(f"error of a given solution is {given}, maximum over the time points is {exact}")
    # relations between solutions
    a = complex(*case["a"])
    w = sut(gen.solveDahlquist, lam, a * u0, T, n, **kw)
    num.close(w, a * u, abs(a) * powers(R, n, u0, amp) + 1e-290, "solution for a multiple of the initial value")
    f = case["f"]
    w = sut(gen.solveDahlquist, lam * f, u0, T / f, n, **kw)
    num.close(w, u, powers(R, n, u0, amp) + 1e-290, "solution with the coefficient scaled up and the time down")


def powers(R, n, u0, amp):
    """Bound of the accumulated rounding: k (|R| + amp)^(k-1) amp |u0|."""
    k = np.arange(n + 1)
    with np.errstate(all="ignore"):
        tol = 4 * (k + 1) * amp * (abs(R) + amp)**np.maximum(k - 1, 0) * (1 + abs(R))
    return np.where(np.isfinite(tol), tol, 1e300) * abs(u0)


def number(draw, mag):
    kind = draw(st.sampled_from(["complex", "complex", "real", "imag", "int"]))
    x, y = (draw(st.integers(-16, 16)) / 16 * mag for _ in range(2))
    return {"complex": [x, y], "real": x, "imag": [0.0, y], "int": draw(st.integers(-3, 3))}[kind]


@st.composite
def strategy(draw):
    g = draw(st.one_of(st.sampled_from(["Collocation", "custom"]), st.sampled_from(RKS), st.sampled_from(RKS)))
    case = {"gen": g}
    if g == "Collocation":
        case["cfg"] = draw(st.one_of(gens.configs(7), gens.configs(7), gens.configs(12)))
        if draw(st.integers(0, 3)) == 0:
            case["bounds"] = draw(st.sampled_from([[0, 2], [-1, 1], [1, 1.5], [-0.25, 0], [0, 0.01], [3, 40]]))
    elif g == "custom":
        case["custom"] = draw(gens.customMethods())
    else:
        case["pad"] = draw(st.sampled_from([None, None, "LEFT", "RIGHT", "BOTH"]))
    case["emb"] = g != "Collocation" and draw(st.booleans())
    case["explicit"] = draw(st.booleans())
    case["lam"] = number(draw, draw(st.sampled_from([0.1, 1.0, 1.0, 5.0, 50.0, 1000.0, 1e6])))
    case["u0"] = number(draw, draw(st.sampled_from([1.0, 3.0])))
    case["T"] = draw(st.sampled_from([1, 1.0, 0.5, 2, 2 * np.pi, 10.0, 0.01, 0, -1.5, 1e-6, 300.0]))
    case["n"] = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12), st.integers(13, 300)))
    case["v"] = draw(st.lists(gens.cplx(4, 2), min_size=1, max_size=4))
    case["a"] = draw(gens.cplx(3, 2))
    case["f"] = draw(st.sampled_from([2, 0.5, 3.0, 10.0]))
    return case


def cases(tier):
    out = []
    for cfg in ([20, "LEGENDRE", "GAUSS"], [33, "CHEBY-1", "RADAU-RIGHT"], [45, "LEGENDRE", "LOBATTO"]):
        for lam in ([-0.7, 1.1], 30.0, [0.0, -8.0]):
            out.append({"gen": "Collocation", "cfg": cfg, "emb": False, "explicit": True, "lam": lam, "u0": [1.0, -0.5], "T": 1.5, "n": 3,
                        "v": [[1, 0], [0, 2]], "a": [0, 2], "f": 2})
    for i, n in enumerate((1000, 1200, 2500, 5000)):
        for lam in ([0.0, 1.0], [-0.5, 3.0], -2):
            out.append({"gen": ["RK4", "SDIRK2", "Collocation", "BE"][i], "cfg": [3, "LEGENDRE", "RADAU-RIGHT"], "pad": None, "emb": False, "explicit": False,
                        "lam": lam, "u0": [1.0, -0.5], "T": [1, 2.5, 40.0, 1.0][i], "n": n, "v": [[1, 0], [0, 2]], "a": [0, 2], "f": 2})
    for g in sorted(set(RKS)):
        for emb in (False, True):
            out.append({"gen": g, "pad": None, "emb": emb, "explicit": False, "lam": [-0.7, 1.1], "u0": [1.0, -0.5], "T": 1.5, "n": 4,
                        "v": [[1, 0], [0, 2]], "a": [0, 2], "f": 2})
    return out


def nontrivial(case):
    return bool(case["lam"]) and case["lam"] != [0, 0] and bool(case["T"]) and bool(case["u0"]) and case["n"] > 1


def classify(case):
    return [{"Collocation": "collocation", "custom": "user-defined"}.get(case["gen"], "table"), "embedded" if case["emb"] else "main", f"pad {case.get('pad')}"]


SUBS = [
    Sub("solution", run, strategy, cases, quick=1600, thorough=40000, nontrivial=nontrivial, classify=classify, shards=8, chunks=4),
]
