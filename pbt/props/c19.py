"""C19: SDC solver for the Dahlquist problem."""
import numpy as np
from hypothesis import strategies as st

import gens
import num
from num import U
from core import Sub, Violation, sut, rejects
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC, errorDahlquistSDC

RULE = ("cases are a quadrature matrix (random or collocation), approximations (one, or one per sweep), complex coefficient, initial value, "
        "interval, step and sweep counts, weights and monitors; non-trivial: at least two nodes and one sweep")
ASSUMPTIONS = ["reference: the sweep recurrence with an own elimination in extended precision, tolerance from a running error bound",
               "error monitors are compared for matrices whose row sums are the nodes"]

LD, CLD = np.longdouble, np.clongdouble


def solve(A, b):
    """Gaussian elimination with row exchanges in extended precision."""
    A = np.array(A, dtype=CLD)
    b = np.array(b, dtype=CLD)
    n = len(b)
    for k in range(n):
        p = k + int(np.argmax(np.abs(A[k:, k])))
        if p != k:
            A[[k, p]] = A[[p, k]]
            b[[k, p]] = b[[p, k]]
        for i in range(k + 1, n):
            f = A[i, k] / A[k, k]
            A[i, k:] -= f * A[k, k:]
            b[i] -= f * b[k]
    x = np.zeros(n, dtype=CLD)
    for k in range(n - 1, -1, -1):
        x[k] = (b[k] - A[k, k + 1:] @ x[k + 1:]) / A[k, k]
    return x


def norm(A):
    return float(np.abs(A).sum(axis=-1).max())


def reference(lam, u0, tEnd, nSteps, Q, QDs, weights):
    """Solution, iterates [sweep, step, node], and error bounds for both; None when badly conditioned."""
    n = Q.shape[0]
    z = CLD(lam) * LD(tEnd) / LD(nSteps)
    Q = Q.astype(LD)
    az = float(abs(z))
    K = len(QDs)
    u = np.zeros(nSteps + 1, dtype=CLD)
    e = np.zeros(nSteps + 1)
    it = np.zeros((K + 1, nSteps, n), dtype=CLD)
    ie = np.zeros((K + 1, nSteps))
    u[0] = u0
    P = [np.eye(n) - z * D.astype(LD) for D in QDs]
    inv = []
    for p in P:
        pf = p.astype(complex)
        if not np.linalg.cond(pf) < 1e6:
            return None
        inv.append(norm(np.linalg.inv(pf)))
        if not inv[-1] * (1 + norm(p - np.eye(n))) < 1e7:
            return None
    nQ = norm(Q)
    for i in range(nSteps):
        v = np.full(n, u[i])
        b = e[i]
        it[0, i], ie[0, i] = v, b
        for k in range(K):
            R = Q - QDs[k].astype(LD)
            new = solve(P[k], u[i] + z * (R @ v))
            mv, mn = float(np.abs(v).max()), float(np.abs(new).max())
            b = inv[k] * (az * norm(R) * b + e[i] + 16 * (n + 2) * U * (float(abs(u[i])) + az * (norm(Q) + norm(QDs[k])) * mv + norm(P[k]) * mn))
            v = new
            it[k + 1, i], ie[k + 1, i] = v, b
        m = float(np.abs(v).max())
        if weights is None:
            u[i + 1], e[i + 1] = v[-1], b
        else:
            u[i + 1] = u[i] + z * (weights.astype(LD) @ v)
            s = float(np.abs(weights).sum())
            e[i + 1] = e[i] + az * s * b + 16 * (n + 2) * U * (float(abs(u[i])) + az * s * m)
    top = max(float(np.abs(u).max()), float(np.abs(it).max()), 1e-300)
    if max(e.max(), ie.max()) > 1e-5 * top or not np.isfinite(top):
        return None
    return u, it, e, ie, z, nQ


def cx(v, kind):
    """Number in the requested flavour."""
    c = complex(*v)
    if kind == "real":
        return float(c.real)
    if kind == "int":
        return int(round(c.real))
    return c


def run(case, ctx):
    if case["cfg"] is not None:
        coll = sut(Collocation, *case["cfg"])
        Q, w = coll.Q.copy(), coll.weights.copy()
        n = Q.shape[0]
        nodes = coll.nodes.copy()
    else:
        Q = np.array(case["Q"], dtype=float)
        n = Q.shape[0]
        w = np.array(case["w"], dtype=float)
        nodes = None
    lam, u0 = cx(case["lam"], case["lamKind"]), cx(case["u0"], case["u0Kind"])
    tEnd, nSteps, K = case["tEnd"], case["nSteps"], case["nSweeps"]
    mats = []
    for q in case["QD"]:
        if isinstance(q, str):
            mats.append(np.array(Q) if q == "same" else np.array(sut(genQDeltaCoeffs, q, qGen=coll)))
        else:
            mats.append(np.array(q, dtype=float))
    per = case["perSweep"]
    if per:
        mats = [mats[k % len(mats)] for k in range(K)]
        arg = np.array(mats).reshape(K, n, n)
    else:
        mats = mats[:1] * K if mats else []
        arg = np.array(mats[0]) if K else np.eye(n)
    if case.get("small"):
        # same problem, with all coefficients small and a stiff equation (or the opposite)
        f = case["small"]
        Q, w, mats, arg, lam = Q * f, w * f, [m * f for m in mats], arg * f, complex(lam) / f
        nodes = None
    if case["asList"]:
        arg = arg.tolist() if arg.size else arg
    weights = w if case["weights"] else None
    ref = reference(lam, u0, tEnd, nSteps, Q, mats, weights)
    if ref is None:
        return
    u, it, e, ie, z, nQ = ref
    what = f"SDC, lam={lam}, u0={u0}, T={tEnd}, {nSteps} steps, {K} sweeps, {'quadrature' if case['weights'] else 'last node'}"
    before = [np.array(x) for x in (Q, arg, w)]
    kw = {"weights": weights} if case["weights"] or case["asList"] else {}
    uN = sut(solveDahlquistSDC, lam, u0, tEnd, nSteps, K, Q, arg, **kw)
    num.arr(uN, (nSteps + 1,), what)
    if uN[0] != u0:
        raise Violation(f"{what}: first entry is {uN[0]}")
    num.close(uN.astype(CLD), u, 4 * e, what)

    # monitors
    growth = abs(complex(lam).real * tEnd)
    mon = case["monitors"]
    if mon and growth > 300:        # the exact solution overflows, or vanishes
        mon = [m for m in mon if m != "errors"]
    if mon:
        given = list(mon)
        out = sut(solveDahlquistSDC, lam, u0, tEnd, nSteps, K, Q, arg, monitors=given, **kw)
        if not (isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], dict)):
            raise Violation(f"{what}: with monitors, returns {type(out)}")
        if given != list(mon):
            raise Violation(f"{what}: the list of monitors was modified")
        num.close(out[0].astype(CLD), u, 4 * e, what + " (monitored)")
        if sorted(out[1]) != sorted(set(mon)):
            raise Violation(f"{what}: monitors {sorted(out[1])} instead of {mon}")
        if "residuals" in mon:
            r = num.arr(out[1]["residuals"], (K + 1, nSteps, n), "residuals")
            rr = u[None, :nSteps, None] + z * (it @ Q.astype(LD).T) - it
            m = np.abs(it).max(axis=2).astype(float)
            tol = 4 * ((1 + float(abs(z)) * nQ) * ie + e[None, :nSteps] + 16 * (n + 2) * U * (1 + float(abs(z)) * nQ) * (m + np.abs(u[:nSteps]).astype(float)))
            num.close(r.astype(CLD), rr, tol[:, :, None], f"residuals [sweep, step, node] of {what}")
        if "errors" in mon:
            er = num.arr(out[1]["errors"], (K + 1, nSteps, n), "errors")
            # without collocation nodes, the abscissas are the row sums of the matrix
            if nodes is None:
                nodes = Q.astype(LD).sum(axis=1)
            if abs(complex(lam).real) * (tEnd + abs(tEnd) / nSteps * float(np.abs(nodes).max())) < 300:
                dt = LD(tEnd) / nSteps
                t = (np.arange(nSteps)[:, None] + nodes.astype(LD)[None, :]) * dt
                ex = CLD(u0) * np.exp(CLD(lam) * t)
                tol = 4 * ie[:, :, None] + (np.abs(ex) * (32 * U * (1 + abs(lam * tEnd) * (1 + float(np.abs(nodes).max()) / nSteps)) + 8 * n * U * float(abs(z)) * (1 + nQ))).astype(float)[None] \
                    + 16 * U * np.abs(it).astype(float)
                num.close(er.astype(CLD), it - ex[None], tol, f"errors [sweep, step, node] of {what}")

    # error
    times = np.arange(nSteps + 1).astype(LD) / nSteps * LD(tEnd)
    ex = CLD(u0) * np.exp(CLD(lam) * times)
    etol = (np.abs(ex).max() * 64 * U * (1 + abs(lam * tEnd)))
    for given, sol, tol in () if growth > 300 else ((None, u, 4 * e.max()), (uN, uN.astype(CLD), 0), (uN[::-1] + 1, uN[::-1].astype(CLD) + 1, 0)):
        er = sut(errorDahlquistSDC, lam, u0, tEnd, nSteps, K, Q, arg, **({"uNum": given} if given is not None else {}), **kw)
        if not np.isscalar(er) and not (isinstance(er, np.ndarray) and er.ndim == 0):
            raise Violation(f"error of {what} is {er!r}")
        exp = float(np.abs(sol - ex).max())
        if not abs(float(er) - exp) <= tol + float(etol) + 16 * U * (exp + float(np.abs(sol).max())):
            raise Violation(f"error of {what} ({'computed' if given is None else 'given'} solution) is {er}, expected {exp}")
    for x, b in zip((Q, arg, w), before):
        if not np.array_equal(np.asarray(x), b):
            raise Violation(f"{what}: an argument was modified")

    # exact first sweep: the collocation solution, whatever follows
    A = np.eye(n) - z.astype(complex) * Q
    if K and np.linalg.cond(A) < 1e6:
        seq = np.array([Q] + [m for m in mats[1:]])
        ref2 = reference(lam, u0, tEnd, nSteps, Q, list(seq), weights)
        c = reference(lam, u0, tEnd, nSteps, Q, [Q], weights)
        if ref2 is not None and c is not None:
            v = sut(solveDahlquistSDC, lam, u0, tEnd, nSteps, K, Q, seq, weights)
            num.close(v.astype(CLD), c[0], 4 * (ref2[2] + c[2]), f"{what}: first sweep with the exact matrix")


NAMES = ["BE", "FE", "LU", "TRAP", "BEPAR", "GS", "PIC", "MIN-SR-NS", "Exact", "same"]


@st.composite
def strategy(draw):
    ent = st.integers(-8, 8).map(lambda k: k / 8)
    K = draw(st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.integers(6, 15)))
    per = draw(st.booleans())
    if draw(st.booleans()):
        cfg = draw(st.one_of(gens.configs(5), gens.configs(5), gens.configs(9)))
        n = cfg[0]
        Q = w = None
        one = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.lists(st.lists(ent, min_size=n, max_size=n), min_size=n, max_size=n))
    else:
        cfg = None
        n = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 7)))
        mat = st.lists(st.lists(ent, min_size=n, max_size=n), min_size=n, max_size=n)
        Q, w = draw(mat), draw(st.lists(ent, min_size=n, max_size=n))
        one = st.one_of(mat, mat, st.just("same"))
    QD = draw(st.lists(one, min_size=1, max_size=max(K, 1) if per else 1))
    lam = draw(gens.cplx(4, 8))
    s = draw(st.sampled_from([1, 1, 1, 8]))
    return {"cfg": cfg, "Q": Q, "w": w, "QD": QD, "perSweep": per, "nSweeps": K, "nSteps": draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(6, 30))), "lam": [lam[0] * s, lam[1] * s],
            "lamKind": draw(st.sampled_from(["complex", "complex", "real", "int"])), "u0": draw(gens.cplx(3, 4)),
            "u0Kind": draw(st.sampled_from(["complex", "complex", "real", "int"])),
            "tEnd": draw(st.sampled_from([1, 1.0, 0.5, 2, 0.1, 3.0, 1, 6.5, 0.01])), "small": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1e-9, 2.0**-40, 1e8])), "weights": draw(st.booleans()), "asList": draw(st.booleans()),
            "monitors": draw(st.sampled_from([None, ["residuals"], ["errors"], ["residuals", "errors"], ["errors", "residuals"]]))}


def cases(tier):
    out = []
    for i, cfg in enumerate(([12, "LEGENDRE", "RADAU-RIGHT"], [16, "CHEBY-1", "LOBATTO"], [24, "LEGENDRE", "GAUSS"], [40, "LEGENDRE", "RADAU-RIGHT"])):
        for K, QD in ((3, ["BE"]), (4, ["BE", "FE", "BEPAR", "GS"]), (2, ["Exact"])):
            out.append({"cfg": cfg, "Q": None, "w": None, "QD": QD, "perSweep": len(QD) > 1, "nSweeps": K, "nSteps": 2, "lam": [-0.5, 2.0], "lamKind": "complex",
                        "u0": [1.0, 0.5], "u0Kind": "complex", "tEnd": 1, "weights": cfg[2] == "GAUSS" or i % 2 == 0, "asList": False, "monitors": ["residuals", "errors"]})
    return out


# ----------------------------------------------------------------------------
def runBad(case, ctx):
    n, K = case["n"], case["K"]
    Q = np.tri(n) / n
    kind = case["kind"]
    args = [1j, 1, 1, 2, K, Q, np.tri(n) / n]
    if kind == "monitor":
        rejects(solveDahlquistSDC, *args, monitors=case["mon"], what=f"monitors {case['mon']}", types=(AssertionError, ValueError, KeyError, TypeError))
        return
    args[-1] = np.ones(case["shape"])
    rejects(solveDahlquistSDC, *args, what=f"QDelta of shape {case['shape']} for {n} nodes, {K} sweeps", types=(AssertionError, ValueError, IndexError))


@st.composite
def badStrategy(draw):
    n, K = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    if draw(st.integers(0, 2)) == 0:
        return {"kind": "monitor", "n": n, "K": K, "mon": draw(st.sampled_from([["residual"], ["errors", "foo"], ["residuals", ""], ["Errors"]]))}
    shape = draw(st.sampled_from([[n + 1, n + 1], [n, n + 1], [n + 1, n], [K + 1, n, n], [K + 2, n, n], [K, n + 1, n + 1], [K, n, n + 1], [n], [K - 1, n, n], [K, K, n, n]]))
    return {"kind": "shape", "n": n, "K": K, "shape": shape}


SUBS = [
    Sub("solver", run, strategy, cases, chunks=4, quick=1600, thorough=40000, nontrivial=lambda c: c["nSweeps"] > 0 and (c["cfg"] or c["Q"])[0] != 1,
        classify=lambda c: ["collocation" if c["cfg"] else "random", "quadrature" if c["weights"] else "last node", "per sweep" if c["perSweep"] else "one matrix"], shards=8),
    Sub("invalid", runBad, badStrategy, quick=200, thorough=2000, classify=lambda c: [c["kind"]]),
]
