"""C13: time-stepping approximations."""
from fractions import Fraction as Fr
import numpy as np
from hypothesis import strategies as st

import gens
import num
from num import U
from core import Sub, Violation, sut
from qmat.qdelta import QDELTA_GENERATORS, genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
import qmat.qdelta.timestepping as module

RULE = ("cases are a scheme (under one of its names), increasing nodes (floats or integers, any scale and offset) with a left bound, "
        "or a collocation object on any interval; non-trivial: at least two nodes")
ASSUMPTIONS = ["exact rational marching of the named scheme from the left bound through the nodes as reference",
               "leap-frog: one forward Euler step, then second order differences on three successive times"]

NAMES = {"BE": "BE", "IE": "BE", "FE": "FE", "EE": "FE", "TRAP": "TRAP", "CN": "TRAP", "BEPAR": "BEPAR", "IEpar": "BEPAR",
         "TRAPAR": "TRAPAR", "SOE": "SOE", "LeapFrog": "SOE", "LF": "SOE"}


def march(scheme, nodes, tL):
    """Exact coefficients of the values at the nodes (matrix) and at the left bound (vector), and a magnitude for rounding."""
    t = [Fr(float(x)) for x in nodes]
    tL = Fr(float(tL))
    M = len(t)
    times = [tL] + t
    zero = [Fr(0)] * (M + 1)           # coefficients of f at the left bound, then at the nodes
    rows, mags = [], []
    if scheme in ("BEPAR", "TRAPAR"):
        for m in range(M):
            r = zero[:]
            h = t[m] - tL
            if scheme == "BEPAR":
                r[m + 1] = h
            else:
                r[m + 1] = r[0] = h / 2
            rows.append(r)
        mags = rows
    elif scheme in ("BE", "FE", "TRAP"):
        cur = zero[:]
        for m in range(M):
            cur = cur[:]
            h = times[m + 1] - times[m]
            if scheme == "BE":
                cur[m + 1] += h
            elif scheme == "FE":
                cur[m] += h
            else:
                cur[m] += h / 2
                cur[m + 1] += h / 2
            rows.append(cur)
        mags = rows
    else:
        prev, pmag = zero[:], zero[:]
        for m in range(M):
            h2 = times[m + 1] - times[m]
            cur, mag = zero[:], zero[:]
            if m == 0:
                cur[0] = mag[0] = h2
            else:
                h1 = times[m] - times[m - 1]
                u1, m1 = rows[m - 1], mags[m - 1]
                u2, m2 = (rows[m - 2], mags[m - 2]) if m > 1 else (zero, zero)
                if h1 == 0:             # the first node is the left bound: plain forward Euler step
                    cur = u1[:]
                    mag = m1[:]
                    cur[m] += h2
                    mag[m] += h2
                else:
                    am1, a0, ap1 = -h2 / (h1 * (h1 + h2)), (h2 - h1) / (h1 * h2), h1 / (h2 * (h1 + h2))
                    cur = [-(am1 * x + a0 * y) / ap1 for x, y in zip(u2, u1)]
                    g = 1 / h1 + 1 / h2
                    mag = [(abs(am1) * x + g * y) / ap1 for x, y in zip(m2, m1)]
                    cur[m] += 1 / ap1
                    mag[m] += 1 / ap1
            rows.append(cur)
            mags.append(mag)
    QD = np.array([[float(x) for x in r[1:]] for r in rows])
    dT = np.array([float(r[0]) for r in rows])
    mg = np.array([[float(abs(x)) for x in r] for r in mags])
    return QD, dT, mg[:, 1:], mg[:, 0]


def verify(scheme, QD, dT, nodes, tL, ctx, what):
    M = len(nodes)
    num.arr(QD, (M, M), f"QDelta of {what}")
    num.arr(dT, (M,), f"dTau of {what}")
    ref, dref, mag, dmag = march(scheme, nodes, tL)
    x = [float(tL)] + [float(v) for v in nodes]
    off = max(abs(v) for v in x)
    gaps = [b - a for a, b in zip(x, x[1:]) if b > a]
    gap = min(gaps) if gaps else 1.0
    span = x[-1] - x[0]
    rel = 16 * U * (M + 2) * (2 if scheme != "SOE" else 8 * M * (1 + span / gap))
    shift = 4 * U * off                   # rounding of differences of times
    tol = rel * (mag + span) + shift * M * (1 if scheme != "SOE" else (1 + mag.max() / gap) * M)
    dtol = rel * (dmag + span) + shift * M
    num.close(QD, ref, tol, f"QDelta of {what}")
    if scheme == "SOE":
        # known: the contribution of the left bound to later nodes is not propagated
        const = np.full(M, dref[0])
        if np.all(np.abs(dT - dref) <= dtol * (1 + dmag.max() / gap)):
            pass
        elif np.all(np.abs(dT - const) <= dtol):
            ctx.fail(f"dTau of {what} is {dT}, marching gives {dref}", key="SOE:dTau-of-first-step-only")
        else:
            raise Violation(f"dTau of {what} is {dT}, marching gives {dref}")
    else:
        num.close(dT, dref, dtol, f"dTau of {what}")
        num.close(QD.sum(axis=1) + dT, np.array([float(Fr(v) - Fr(x[0])) for v in x[1:]]), 4 * tol.max() * M, f"row sums plus dTau of {what}")
    if np.any(np.triu(QD, 1) != 0):
        raise Violation(f"QDelta of {what} is not lower triangular")
    if scheme in ("FE", "SOE") and np.any(np.diag(QD) != 0):
        raise Violation(f"QDelta of {what} is not strictly lower triangular")
    if scheme in ("BEPAR", "TRAPAR") and np.any(QD != np.diag(np.diag(QD))):
        raise Violation(f"QDelta of {what} is not diagonal")
    return ref, tol


def run(case, ctx):
    name, scheme = case["name"], NAMES[case["name"]]
    nodes, tL = case["nodes"], case["tL"]
    cls = QDELTA_GENERATORS[name]
    what = f"{name} on nodes {nodes}, left bound {tL}"
    given = gens.asForm(nodes, case["form"])
    kw = {"nodes": given}
    if case["tL"] != 0 or case["array"]:
        kw["tLeft"] = tL
    gen = sut(cls, **kw)
    QD, dT = sut(gen.genCoeffs, dTau=True)
    ref, tol = verify(scheme, QD, dT, nodes, tL, ctx, what)
    if not np.array_equal(np.asarray(given), np.asarray(nodes)):
        raise Violation(f"nodes were modified by {what}")
    M = len(nodes)
    T = np.eye(M) - np.diag(np.ones(M - 1), -1)
    ttol = (np.abs(T) @ np.broadcast_to(tol, (M, M)))
    SD, dT2 = sut(gen.genCoeffs, form="N2N", dTau=True)
    num.close(SD, T @ ref, ttol, f"SDelta of {what}")
    for other in (sut(gen.getQDelta), sut(gen.computeQDelta), sut(genQDeltaCoeffs, name, **kw), sut(gen.getQDelta, 3), sut(cls(given, tL).getQDelta)):
        num.close(other, ref, tol, f"QDelta of {what} (other call)")
    num.close(np.asarray(sut(lambda: gen.dTau)), dT, 0, f"dTau of {what} (attribute)")
    num.close(dT2, dT, 0, f"dTau of {what} (N2N)")
    # common shift and scaling (exact in floating point)
    s, c = 2.0**case["k"], case["c"]
    nd = (np.array(nodes, dtype=float) + c) * s
    if np.array_equal(nd / s - c, np.array(nodes, dtype=float)):
        g2 = sut(cls, nodes=nd, tLeft=(tL + c) * s)
        Q2, d2 = sut(g2.genCoeffs, dTau=True)
        verify(scheme, Q2, d2, nd.tolist(), (tL + c) * s, ctx, f"{what}, moved by {c} and scaled by {s}")


def increasing(draw, nMax):
    n = draw(st.integers(1, nMax))
    kind = draw(st.sampled_from(["unit", "unit", "int", "random", "random", "wild"]))
    first = draw(st.sampled_from([0, 0, 1, 2, 5]))       # gap from the left bound
    gap = {"unit": 1, "int": 6, "random": 12, "wild": 200}[kind]
    gaps = [first] + draw(st.lists(st.integers(1, gap), min_size=n - 1, max_size=n - 1))
    c = np.cumsum(gaps)
    if kind == "int":
        tL = draw(st.integers(-4, 4))
        return [float(v) + tL for v in c], draw(st.sampled_from([tL, tL, tL - 0.5, tL - 0.25, tL - 3]))
    s = draw(st.sampled_from([1.0, 1.0, 0.1, 1e-3, 1e3, 1e-8, 1e6])) / max(c[-1], 1)
    tL = draw(st.sampled_from([0, 0.0, 0.0, 1.0, -0.5, 3.0, -12.5])) * (s if draw(st.booleans()) else 1)
    if draw(st.integers(0, 7)) == 0:      # far from zero compared to the steps, exactly representable
        s = 2.0**-draw(st.sampled_from([10, 20, 30]))
        tL = draw(st.sampled_from([1.0, 1e3, 1e6, -1e6])) if s < 1e-8 or draw(st.booleans()) else 64.0
    nodes = [float(v * s + tL) for v in c]
    return nodes, tL


@st.composite
def strategy(draw):
    nodes, tL = increasing(draw, 9 if draw(st.integers(0, 5)) else 30)
    x = sorted(set(nodes))
    from hypothesis import assume
    assume(x == list(nodes))
    return {"name": draw(st.sampled_from(sorted(NAMES))), "nodes": nodes, "tL": tL, "array": draw(st.booleans()), "form": draw(st.sampled_from(gens.FORMS + ["list", "tuple", "intlist", "intlist"])),
            "k": draw(st.sampled_from([0, 1, -1, 10, -20])), "c": draw(st.sampled_from([0, 1, -2, 8]))}


def largeCases(tier):
    out = []
    for i, n in enumerate((10, 16, 24, 33, 48, 64, 100, 150)):
        grids = [([(j + 1) / n for j in range(n)], 0), ([float(v) for v in (1 - np.cos((np.arange(n) + 0.5) * np.pi / n)) / 2], 0),
                 ([float(1 + j * j + j) for j in range(n)], [0, 1][i % 2])]
        for g, (nodes, tL) in enumerate(grids):
            for name in ("BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"):
                if name == "SOE" and (n > 33 or g):
                    continue
                out.append({"name": name, "nodes": nodes, "tL": tL, "array": True, "form": gens.FORMS[(i + g) % len(gens.FORMS)], "k": 1, "c": 0})
    return out


def runColl(case, ctx):
    n, nt, qt = case["cfg"]
    tL, tR = case["bounds"]
    name, scheme = case["name"], NAMES[case["name"]]
    coll = sut(Collocation, n, nt, qt, tL, tR)
    nodes = [float(v) for v in coll.nodes]
    what = f"{name} on {nt} {qt} {n} nodes, [{tL}, {tR}]"
    out = sut(genQDeltaCoeffs, name, qGen=coll, dTau=True)
    ref, tol = verify(scheme, out[0], out[1], nodes, tL, ctx, what + " (qGen)")
    cls = QDELTA_GENERATORS[name]
    gen = sut(cls, qGen=coll)
    QD, dT = sut(gen.genCoeffs, dTau=True)
    verify(scheme, QD, dT, nodes, tL, ctx, what + " (object)")
    gen = sut(cls, nodes=coll.nodes, tLeft=tL)
    QD, dT = sut(gen.genCoeffs, dTau=True)
    verify(scheme, QD, dT, nodes, tL, ctx, what + " (nodes)")
    # explicit left bound overrides
    h = tR - tL
    low = tL - h
    QD, dT = sut(genQDeltaCoeffs, name, qGen=coll, tLeft=low, dTau=True)
    verify(scheme, QD, dT, nodes, low, ctx, what + " (other left bound)")
    # scaling with the interval
    unit = sut(Collocation, n, nt, qt)
    Q1 = sut(genQDeltaCoeffs, name, qGen=unit)
    rel = 1e-9 * (1 + max(abs(tL), abs(tR)) / h)
    num.close(out[0], h * Q1, rel * h * (1 + np.abs(Q1).max())**2 * n, what + " against the unit interval")


@st.composite
def collStrategy(draw):
    return {"cfg": draw(st.one_of(gens.configs(8), gens.configs(8), gens.configs(16))), "name": draw(st.sampled_from(sorted(NAMES))),
            "bounds": draw(st.sampled_from([[0, 1], [0, 1], [0, 2], [-1, 1], [0.5, 0.75], [1, 3], [-3, -1], [10.0, 10.5], [0, 1e-3]]))}


def collCases(tier):
    return [{"cfg": c, "name": nm, "bounds": b} for c in gens.allConfigs(4) for nm in ("BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE")
            for b in ([0, 1], [1, 3])]


SUBS = [
    Sub("marching", run, strategy, largeCases, chunks=8, quick=1600, thorough=40000, nontrivial=lambda c: len(c["nodes"]) > 1, classify=lambda c: [NAMES[c["name"]]], shards=8),
    Sub("collocation", runColl, collStrategy, collCases, quick=500, thorough=10000, nontrivial=lambda c: c["cfg"][0] > 1,
        classify=lambda c: [NAMES[c["name"]]], shards=8, chunks=8),
]
