"""C15: diagonal approximations."""
import os
import json
import numpy as np
from hypothesis import strategies as st

import core
import gens
import num
from num import U
from core import Sub, Violation, sut, rejects
from qmat.qdelta import QDELTA_GENERATORS, genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation

RULE = ("cases are a diagonal approximation (under one of its names) with a collocation configuration on the unit interval, sweep numbers "
        "or arbitrary nodes; non-trivial: at least two nodes")
ASSUMPTIONS = ["quadrature matrices of Collocation are taken as they are (checked by C08)",
               "published tables pinned in pbt/data/min.json", "nilpotency is measured by the coefficients of the characteristic polynomial (50 digits)",
               "the stiff variant is held to a tolerance growing with the number of nodes, up to 1e-5 for ten nodes and 1e-3 for twelve equidistant or fourteen other nodes"]

with open(os.path.join(core.HERE, "data", "min.json")) as f:
    TABLES = json.load(f)

NS = ["MIN_SR_NS", "MIN-SR-NS", "MIN_GT"]
S = ["MIN_SR_S", "MIN-SR-S"]
FLEX = ["MIN_SR_FLEX", "MIN-SR-FLEX"]
JUMPER = ["Jumper", "JUMPER", "FB"]
FLEXJ = ["FlexJumper", "FLEX-JUMPER", "FB2"]
DN = {"DNODES": 1, "DNODES-1": 1, "DNODES2": 2, "DNODES-2": 2, "DNODES3": 3, "DNODES-3": 3, "DNODES4": 4, "DNODES-4": 4, "DNODES5": 5, "DNODES-5": 5}
NODEBASED = sorted(NS + JUMPER + FLEXJ + list(DN))


def diagonal(D, n, what):
    num.arr(D, (n, n), what)
    if np.any(D[~np.eye(n, dtype=bool)] != 0):
        raise Violation(f"{what} is not diagonal:\n{D}")
    return np.diag(D).copy()


def divisor(name, n, k):
    if name in NS:
        return n
    if name in DN:
        return DN[name]
    k = 1 if k is None else k
    if name in JUMPER:
        return 2 * k
    return 1 if k == 1 else 2 * (k - 1)


# ----------------------------------------------------------------------------
def runNodes(case, ctx):
    """Nodes divided by the documented divisor, for any nodes."""
    name, nodes = case["name"], case["nodes"]
    n = len(nodes)
    given = np.array(nodes) if case["array"] else list(nodes)
    gen = sut(QDELTA_GENERATORS[name], nodes=given)
    x = np.array(nodes, dtype=float)
    for k in case["ks"]:
        ref = x / divisor(name, n, k)
        what = f"{name} for nodes {nodes}, k={k}"
        D = sut(gen.getQDelta, k)
        num.close(diagonal(D, n, what), ref, 4 * U * np.abs(ref), what)
        num.close(diagonal(sut(gen.genCoeffs, k), n, what), ref, 4 * U * np.abs(ref), what)
    ref = x / divisor(name, n, None)
    for D in (sut(gen.getQDelta), sut(genQDeltaCoeffs, name, nodes=given), sut(gen.computeQDelta)):
        num.close(diagonal(D, n, name), ref, 4 * U * np.abs(ref), f"{name} for nodes {nodes}, default sweep")
    if name in JUMPER or name in FLEXJ:
        bad = case["bad"]
        rejects(gen.getQDelta, bad, types=(ValueError,), what=f"{name} with k={bad}")
        rejects(gen.genCoeffs, k=[1, bad], types=(ValueError,), what=f"{name} with k=[1, {bad}]")
    if not np.array_equal(np.asarray(given), np.asarray(nodes)):
        raise Violation(f"nodes were modified by {name}")


@st.composite
def nodesStrategy(draw):
    n = draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 20)))
    if draw(st.integers(0, 3)) == 0:
        nodes = sorted(draw(st.sets(st.integers(-5, 40), min_size=n, max_size=n)))
    else:
        nodes = [v / 16 for v in sorted(draw(st.sets(st.integers(0, 48), min_size=n, max_size=n)))]
    return {"name": draw(st.sampled_from(NODEBASED)), "nodes": nodes, "array": draw(st.booleans()),
            "ks": draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 2000)), min_size=1, max_size=5)), "bad": draw(st.integers(-3, 0))}


def nodesCases(tier):
    grids = [[(j + 1) / n for j in range(n)] for n in (24, 33, 50, 100)] + [[j * j / 64 for j in range(n)] for n in (17, 40)]
    return [{"name": nm, "nodes": g, "array": i % 2 == 0, "ks": [1, 2, 3, len(g), len(g) + 1, 3 * len(g)], "bad": 0} for i, g in enumerate(grids) for nm in NODEBASED]


# ----------------------------------------------------------------------------
def stiff(D, Q, x):
    """Stiff iteration matrix on the nodes not on the left boundary."""
    s = 1 if x[0] == 0 else 0
    return np.eye(len(x) - s) - Q[s:, s:] / D[s:, None]


def coefs(A):
    return np.abs(np.array(num.charPoly(A)[1:])).max(initial=0)


def getCfg(name, cfg, style, coll):
    cls = QDELTA_GENERATORS[name]
    n, nt, qt = cfg
    if style == "qGen":
        return sut(cls, qGen=coll)
    if style == "pos":
        return sut(cls, n, nt, qt)
    return sut(cls, nNodes=n, nodeType=nt, quadType=qt)


def verifyStiff(d, coll, what):
    n = coll.nodes.size
    x = coll.nodes
    left = coll.quadType in ("LOBATTO", "RADAU-LEFT")
    if left and d[0] != 0:
        raise Violation(f"{what}: coefficient at the left boundary is {d[0]}")
    p = d[1:] if left else d
    if not (np.all(p > 0) and np.all(np.diff(p) > 0)):
        raise Violation(f"{what}: coefficients {d} are not positive and increasing")
    c = coefs(stiff(d, coll.Q, x))
    tol = min(1e-5, 1e-12 * 10**(0.8 * n)) if n <= 10 else 1e-3
    if not c <= tol:
        raise Violation(f"{what}: stiff iteration matrix is not nilpotent, the characteristic polynomial is off by {c:.2e} > {tol:.1e}")


def runColl(case, ctx):
    cfg, name, ks = case["cfg"], case["name"], case["ks"]
    n, nt, qt = cfg
    coll = sut(Collocation, n, nt, qt)
    x, Q = coll.nodes.copy(), coll.Q.copy()
    what = f"{name} for {nt} {qt} {n} nodes"
    left = qt in ("LOBATTO", "RADAU-LEFT")
    if name in NS:
        gen = sut(QDELTA_GENERATORS[name], qGen=coll)
        d = diagonal(sut(gen.getQDelta), n, what)
        num.close(d, x / n, 4 * U, what)
        c = coefs(Q - np.diag(d))
        tol = 1e-14 * n**2 * (1 if nt != "EQUID" else 3.0**max(n - 4, 0))
        if not c <= tol:
            raise Violation(f"{what}: difference to Q is not nilpotent (characteristic polynomial off by {c:.2e})")
        return
    gen = getCfg(name, cfg, case["style"], coll)
    if name in S:
        D = sut(gen.getQDelta)
        verifyStiff(diagonal(D, n, what), coll, what)
        for k in ks:
            if not np.array_equal(sut(gen.getQDelta, k), D):
                raise Violation(f"{what} varies with the sweep number")
        return
    # flexible variant
    ref = x / np.arange(1, n + 1)[:, None]
    seen = None
    for k in ks + [n, n + 1, 1]:
        d = diagonal(sut(gen.getQDelta, k), n, f"{what}, k={k}")
        if k <= n:
            num.close(d, ref[k - 1], 4 * U, f"{what}, k={k}")
        else:
            verifyStiff(d, coll, f"{what}, k={k}")
            if seen is not None and not np.array_equal(seen, d):
                raise Violation(f"{what} varies with sweeps after the {n} first ones")
            seen = d
    fresh = sut(getCfg("MIN-SR-S", cfg, case["style"], coll).getQDelta)
    if not np.allclose(np.diag(fresh), seen, rtol=1e-9, atol=1e-12):
        raise Violation(f"{what} continues with {seen} and not with the stiff variant {np.diag(fresh)}")
    num.close(diagonal(sut(gen.getQDelta), n, what), x, 4 * U, f"{what} by default")
    s = 1 if left else 0
    P, g = np.eye(n - s), 1.0
    Ds = sut(gen.genCoeffs, list(range(1, n + 1)))
    num.arr(Ds, (n, n, n), what)
    for k in range(n):
        K = stiff(np.diag(Ds[k]), Q, x)
        P = K @ P
        g *= max(1.0, np.linalg.norm(K, np.inf))
    if n - s > 0 and not np.abs(P).max() <= 1e-14 * n**2 * g:
        raise Violation(f"{what}: product of the stiff iteration matrices over {n} sweeps is\n{P}")
    bad = case["bad"]
    rejects(gen.getQDelta, bad, types=(ValueError,), what=f"{what} with k={bad}")


@st.composite
def collStrategy(draw):
    cfg = draw(st.one_of(gens.configs(8), gens.configs(8), gens.configs(8), gens.configs(12)))
    return {"cfg": cfg, "name": draw(st.sampled_from(NS + S + FLEX + FLEX + S)), "style": draw(st.sampled_from(["qGen", "pos", "kw"])),
            "ks": draw(st.lists(st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(15, 500)), min_size=0, max_size=4)), "bad": draw(st.integers(-2, 0))}


def collCases(tier):
    top = {"quick": (6, 14, 12), "thorough": (12, 14, 30)}[tier]
    out = []
    for cfgs, name in ((gens.allConfigs(top[0]), "MIN-SR-FLEX"), (gens.allConfigs(top[1]), "MIN-SR-S"), (gens.allConfigs(top[2]), "MIN-SR-NS")):
        out += [{"cfg": c, "name": name, "style": "kw", "ks": [c[0] + 2, 1], "bad": 0} for c in cfgs if c[1] != "EQUID" or c[0] <= {"MIN-SR-NS": 16, "MIN-SR-S": 12, "MIN-SR-FLEX": 12}[name]]
    return out


# ----------------------------------------------------------------------------
def runTable(case, ctx):
    T, nt, qt, n, ref = case["table"], *case["cfg"], case["ref"]
    names = {"MIN3": ["MIN3", "Magic_Numbers"], "MIN_VDHS": ["MIN_VDHS", "VDHS"]}[T]
    coll = sut(Collocation, n, nt, qt)
    for name in names:
        for style in ("kw", "pos", "qGen"):
            gen = getCfg(name, [n, nt, qt], style, coll)
            what = f"{name} for {nt} {qt} {n} nodes"
            if ref is None:
                rejects(gen.getQDelta, types=(NotImplementedError,), what=what)
                rejects(gen.genCoeffs, k=[1], types=(NotImplementedError,), what=what)
                if style == "kw":
                    rejects(genQDeltaCoeffs, name, nNodes=n, nodeType=nt, quadType=qt, types=(NotImplementedError,), what=what)
                continue
            d = diagonal(sut(gen.getQDelta), n, what)
            num.close(d, ref, 1e-15, what)
            K = stiff(d, coll.Q, coll.nodes)
            rho = np.abs(np.linalg.eigvals(K)).max()
            if rho > case["rho"]:
                raise Violation(f"{what}: stiff spectral radius is {rho}")
            for k in (1, 2, 5):
                if not np.array_equal(sut(gen.getQDelta, k), np.diag(d)):
                    raise Violation(f"{what} varies with the sweep number")


def tableCases(tier):
    out = []
    for T, rows in TABLES.items():
        have = {(nt, qt, n): c for nt, qt, n, c in rows}
        for n, nt, qt in gens.allConfigs(11):
            ref = have.get((nt, qt, n))
            out.append({"table": T, "cfg": [nt, qt, n], "ref": ref, "rho": 0.03 * n if ref else None})
    return out


# ----------------------------------------------------------------------------
def runMin(case, ctx):
    n, nt, qt = case["cfg"]
    coll = sut(Collocation, n, nt, qt, 0, case["h"])
    Q = coll.Q
    name = case["name"]
    what = f"{name} for {nt} {qt} {n} nodes on [0, {case['h']}]"
    gen = sut(QDELTA_GENERATORS[name], qGen=coll) if case["qGen"] else sut(QDELTA_GENERATORS[name], Q=Q)
    D = sut(gen.getQDelta)
    d = diagonal(D, n, what)
    if np.any(d == 0):
        raise Violation(f"{what} is singular: {d}")
    rho = lambda v: np.abs(np.linalg.eigvals(np.eye(n) - Q / v[:, None])).max()
    r, r0 = rho(d), rho(np.full(n, 0.1))
    if not r <= r0 * (1 + 1e-6) + 1e-6:
        raise Violation(f"{what}: stiff spectral radius {r} is larger than {r0}, the one of the starting guess")
    if nt == "LEGENDRE" and qt in ("GAUSS", "RADAU-RIGHT") and n <= 5 and case["h"] == 1:
        if not r <= 0.6:
            raise Violation(f"{what}: stiff spectral radius is {r}")
    if not np.array_equal(sut(gen.getQDelta, 3), D):
        raise Violation(f"{what} varies with the sweep number")


@st.composite
def minStrategy(draw):
    return {"cfg": draw(gens.configs(6, quadTypes=["GAUSS", "RADAU-RIGHT"])), "h": draw(st.sampled_from([1, 1, 2, 0.5])),
            "name": draw(st.sampled_from(["MIN", "MIN-Speck"])), "qGen": draw(st.booleans())}


def minCases(tier):
    return [{"cfg": [n, "LEGENDRE", qt], "h": 1, "name": "MIN", "qGen": n % 2 == 0} for qt in ("GAUSS", "RADAU-RIGHT") for n in range(1, 6)]


nt_ = lambda c: c["cfg"][0] > 1
SUBS = [
    Sub("nodes", runNodes, nodesStrategy, nodesCases, quick=800, thorough=20000, nontrivial=lambda c: len(c["nodes"]) > 1, classify=lambda c: [c["name"]], shards=4),
    Sub("collocation", runColl, collStrategy, collCases, quick=240, thorough=3000, nontrivial=nt_,
        classify=lambda c: [c["name"], c["cfg"][2]], shards=8, chunks=8),
    Sub("tables", runTable, cases=tableCases, nontrivial=lambda c: c["ref"] is not None, classify=lambda c: ["tabulated" if c["ref"] else "missing"], chunks=4),
    Sub("optimised", runMin, minStrategy, minCases, quick=40, thorough=600, nontrivial=nt_, shards=8, chunks=5),
]
