"""C11: forms, options and paddings of the coefficients."""
import itertools
import numpy as np
from hypothesis import strategies as st

import gens
import num
from core import Sub, Violation, sut, rejects
from props.c10 import TREES, phi, GOLD
from props.lagcommon import interpRef, integRef
from qmat.qcoeff import Q_GENERATORS, genQCoeffs, QGenerator
from qmat.qcoeff.collocation import Collocation
from qmat.qcoeff.butcher import RK, RK_SCHEMES, registerRK
from qmat.utils import getClasses

RULE = ("cases are (generator under one of its names, its parameters, form, boundary, embedded), enumerated for tables and drawn for "
        "collocation parameters and intervals, and paddings of every table; non-trivial: more than one node")
ASSUMPTIONS = ["exact interpolation weights of the distinct nodes as reference for boundary coefficients"]


def names():
    return list(Q_GENERATORS)


def rkNames():
    return [k for k in Q_GENERATORS if issubclass(Q_GENERATORS[k], RK)]


def collParams(case):
    n, nt, qt = case["cfg"]
    p = {"nNodes": n, "nodeType": nt, "quadType": qt}
    if case.get("bounds"):
        p["tLeft"], p["tRight"] = case["bounds"]
    return p


def params(case):
    cls = Q_GENERATORS[case["name"]]
    if issubclass(cls, Collocation):
        return collParams(case)
    if case.get("padding"):
        return {"padding": case["padding"]}
    return {}


def boundaryRef(nodes, t):
    """Interpolation weights at t of the distinct nodes, the first of repeated nodes."""
    nodes = [float(x) for x in nodes]
    uni = sorted(set(nodes)) if len(set(nodes)) < len(nodes) else nodes
    B, tol, _ = interpRef(uni, [t])
    ref, rt = np.zeros(len(nodes)), np.zeros(len(nodes))
    for u, v, e in zip(uni, B[0], tol[0]):
        ref[nodes.index(u)], rt[nodes.index(u)] = v, e
    return ref, rt


def checkGen(gen, case):
    name = case["name"]
    nodes = np.asarray(sut(lambda: gen.nodes))
    M = nodes.size
    num.arr(nodes, (M,), "nodes")
    Q = num.arr(sut(lambda: gen.Q), (M, M), "Q")
    T = num.arr(sut(lambda: gen.T), (M, M), "T")
    Ti = num.arr(sut(lambda: gen.Tinv), (M, M), "Tinv")
    Tref = np.eye(M) - np.diag(np.ones(M - 1), -1)
    if not np.array_equal(T, Tref) or not np.array_equal(Ti, np.tri(M)):
        raise Violation(f"{name}: transfer matrices are not those of node differences:\n{T}\n{Ti}")
    if sut(lambda: gen.nNodes) != M:
        raise Violation(f"{name}: nNodes is {gen.nNodes} for {M} nodes")
    S = num.arr(sut(lambda: gen.S), (M, M), "S")
    tol = 4e-16 * (M + 1) * (Tabs(M) @ np.abs(Q)) + 1e-300
    if isinstance(gen, Collocation):
        pts = [float(v) for v in nodes]
        lo = float(gen.tLeft)
        _, tq = integRef(pts, [[lo, t] for t in pts])
        _, ts = integRef(pts, list(zip([lo] + pts[:-1], pts)))
        tol = ts + Tabs(M) @ tq
    num.close(S, Tref @ Q, tol, f"{name}: S against T Q")
    num.close(Ti @ S, Q, np.tri(M) @ (tol + 4e-16 * M * np.abs(S)), f"{name}: Tinv S against Q")
    right = gen.tRight if isinstance(gen, Collocation) else 1.0
    ref, rt = boundaryRef(nodes, float(right))
    h = num.arr(sut(lambda: gen.hCoeffs), (M,), "hCoeffs")
    num.close(h, ref, rt, f"{name}: coefficients for the right boundary")
    if bool(sut(lambda: gen.rightIsNode)) != (nodes[-1] == right):
        raise Violation(f"{name}: rightIsNode is {gen.rightIsNode} for last node {nodes[-1]}")
    return nodes, Q, S, h


def Tabs(M):
    return np.eye(M) + np.diag(np.ones(M - 1), -1)


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    num.close(a, b, 1e-14 * np.abs(b).max(initial=0) + 1e-300, what)


def run(case, ctx):
    name, p = case["name"], params(case)
    gen = sut(Q_GENERATORS[name], **p)
    checkForms(gen, case, name, p)


def runCustom(case, ctx):
    """Base class functionality for user-defined methods."""
    gen = sut(gens.customQ(case))
    for what, exp in (("nodes", case["nodes"]), ("Q", case["Q"]), ("weights", case["weights"]), ("order", case["order"]), ("orderEmbedded", case["order"] - 1)):
        if not np.array_equal(getattr(gen, what), exp):
            raise Violation(f"user-defined method: {what} is {getattr(gen, what)}, not {exp}")
    checkForms(gen, {"name": "user-defined method", "bad": ["z2n"]}, None, {})


def checkForms(gen, case, name, p):
    cls = type(gen)
    nodes, Q, S, h = checkGen(gen, case)
    w = gen.weights
    try:
        w2 = gen.weightsEmbedded
    except NotImplementedError:
        w2 = None
    for form, hc, emb in itertools.product(("Z2N", "N2N"), (False, True), (False, True)):
        what = f"{name} {p} form={form}, hCoeffs={hc}, embedded={emb}"
        if emb and w2 is None:
            rejects(gen.genCoeffs, form, hc, emb, types=(NotImplementedError,), what=what)
            if name is not None:
                rejects(genQCoeffs, name, form, hc, emb, types=(NotImplementedError,), what=what, **p)
            continue
        expected = [nodes, np.array([w, w2]) if emb else w, Q if form == "Z2N" else S] + ([h] if hc else [])
        calls = [sut(gen.genCoeffs, form, hc, emb), sut(gen.genCoeffs, form=form, hCoeffs=hc, embedded=emb)]
        if form == "Z2N":
            calls += [sut(gen.genCoeffs, hCoeffs=hc, embedded=emb)]
        if name is not None:
            calls += [sut(genQCoeffs, name, form, hc, emb, **p), sut(genQCoeffs, name, form=form, hCoeffs=hc, embedded=emb, **p)]
            if form == "Z2N":
                calls += [sut(genQCoeffs, name, hCoeffs=hc, embedded=emb, **p)]
        for out in calls:
            if len(out) != len(expected):
                raise Violation(f"{what}: {len(out)} results instead of {len(expected)}")
            for a, b, part in zip(out, expected, ("nodes", "weights", "matrix", "boundary coefficients")):
                same(a, b, f"{part} of {what}")
    for bad in case["bad"]:
        rejects(gen.genCoeffs, bad, types=(ValueError,), what=f"form {bad!r}")
        if name is not None:
            rejects(genQCoeffs, name, bad, types=(ValueError,), what=f"form {bad!r}", **p)
    # default instance
    if not p or case.get("inst"):
        inst = sut(cls.getInstance)
        if type(inst) is not cls:
            raise Violation(f"getInstance of {name} gives {type(inst)}")
        if not p:
            for a, b in zip(sut(inst.genCoeffs), (nodes, w, Q)):
                same(a, b, f"coefficients of the default {name}")


BAD = ["z2n", "", "N2Z", None, "Q", 0]


def cases(tier):
    big = [[16, "LEGENDRE", "GAUSS"], [24, "CHEBY-1", "LOBATTO"], [33, "LEGENDRE", "RADAU-RIGHT"], [48, "CHEBY-4", "RADAU-LEFT"], [64, "CHEBY-2", "GAUSS"]]
    return [{"name": k, "bad": BAD} for k in rkNames()] + [{"name": "Collocation", "cfg": c, "bounds": b, "bad": BAD[:1], "inst": False}
                                                           for c in big for b in (None, [-3, 2])]


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["coll", "coll", "pad"]))
    bad = [draw(st.sampled_from(BAD))]
    if kind == "coll":
        cfg = draw(gens.configs(9))
        b = draw(st.sampled_from([None, None, [0, 2], [-1, 1], [0.5, 0.75], [1, 3], [-2.0, -0.5], [0, 100], [-1e4, 500], [7, 7.001], [0, 1e-6]]))
        return {"name": draw(st.sampled_from(["Collocation", "coll"])), "cfg": cfg, "bounds": b, "bad": bad, "inst": draw(st.booleans())}
    return {"name": draw(st.sampled_from(rkNames())), "padding": draw(st.sampled_from([None, "LEFT", "RIGHT", "BOTH"])), "bad": bad}


# ----------------------------------------------------------------------------
def stability(A, b, z):
    s = A.shape[0]
    return 1 + z * (b @ np.linalg.solve(np.eye(s) - z * A, np.ones(s)))


def runPadding(case, ctx):
    name, pad = case["name"], case["padding"]
    cls = Q_GENERATORS[name]
    base, gen = sut(cls), sut(cls, padding=pad) if case["kw"] else sut(cls, pad)
    L, R = pad in ("LEFT", "BOTH"), pad in ("RIGHT", "BOTH")
    s = base.c.size
    n = s + L + R
    sl = slice(1 if L else 0, (1 if L else 0) + s)
    what = f"{name} with padding {pad}"
    c = num.arr(gen.nodes, (n,), f"nodes of {what}")
    b = num.arr(gen.weights, (n,), f"weights of {what}")
    A = num.arr(gen.Q, (n, n), f"Q of {what}")
    ec, eb, eA = np.zeros(n), np.zeros(n), np.zeros((n, n))
    ec[sl], eb[sl], eA[sl, sl] = base.nodes, base.weights, base.Q
    if R:
        ec[-1] = 1
        eA[-1, sl] = base.weights
    for a, e, part in ((c, ec, "nodes"), (b, eb, "weights"), (A, eA, "Q")):
        same(a, e, f"{part} of {what}")
    if gen.nNodes != n or gen.order != base.order:
        raise Violation(f"{what}: {gen.nNodes} nodes of order {gen.order}, expected {n} of order {base.order}")
    pairs = [(b, base.weights, base.order)]
    if base.b2 is not None:
        b2 = num.arr(sut(lambda: gen.weightsEmbedded), (n,), f"embedded weights of {what}")
        eb2 = np.zeros(n)
        eb2[sl] = base.weightsEmbedded
        same(b2, eb2, f"embedded weights of {what}")
        if gen.orderEmbedded != base.orderEmbedded:
            raise Violation(f"{what}: embedded order {gen.orderEmbedded}, expected {base.orderEmbedded}")
        pairs.append((b2, base.weightsEmbedded, base.orderEmbedded))
    else:
        rejects(lambda: gen.weightsEmbedded, types=(NotImplementedError,), what=f"embedded weights of {what}")
    # same method for linear and nonlinear problems
    z = complex(*case["z"])
    for w, w0, order in pairs:
        den = abs(np.linalg.det(np.eye(s) - z * base.Q))
        if den > 1e-3 and np.linalg.cond(np.eye(s) - z * base.Q) < 1e4:
            r0 = stability(base.Q, w0, z)
            if abs(stability(A, w, z) - r0) > 1e-10 * (1 + abs(r0)) / min(den, 1):
                raise Violation(f"{what}: other stability function at {z}")
        for o in TREES:
            for t in TREES[o]:
                x, y = w @ phi(t, A), w0 @ phi(t, base.Q)
                if abs(x - y) > 1e-12 * (1 + np.abs(w0) @ phi(t, np.abs(base.Q))):
                    raise Violation(f"{what}: elementary weight of tree {t} is {x}, without padding {y}")
    if abs(np.linalg.det(np.eye(s) - z / 2 * base.Q)) > 1e-3 and np.linalg.cond(np.eye(s) - z / 2 * base.Q) < 1e4:
        u, v = sut(gen.solveDahlquist, z, 1.0, 1.0, 2), sut(base.solveDahlquist, z, 1.0, 1.0, 2)
        num.close(u, v, 1e-8 * (1 + np.abs(v)), f"{what}: solution of the Dahlquist problem")
    checkGen(gen, {"name": what})
    for bad in ("left", "TOP", 1):
        rejects(cls, padding=bad, what=f"padding {bad!r}")


def runCustomRK(case, ctx):
    """A table that a user registers, with and without padding."""
    spec = case["spec"]
    d = {"A": spec["Q"], "b": spec["weights"], "c": spec["nodes"], "order": property(lambda self: spec["order"])}
    if case["arrays"]:
        d = {k: np.array(v) if isinstance(v, list) else v for k, v in d.items()}
    if spec["w2"] is not None:
        d["b2"] = spec["w2"]
    name = "PbtUserTable"
    try:
        cls = sut(registerRK, type(name, (RK,), {**d, "aliases": ["PBT-RK"]}))
        runPadding({"name": "PBT-RK", "padding": case["padding"], "kw": True, "z": case["z"]}, ctx)
        gen = sut(cls)
        for a, b, part in ((gen.nodes, spec["nodes"], "nodes"), (gen.weights, spec["weights"], "weights"), (gen.Q, spec["Q"], "Q")):
            if not np.array_equal(a, b):
                raise Violation(f"{part} of a user-defined table are {a}, not {b}")
        checkForms(gen, {"name": name, "bad": []}, name, {})
        checkForms(sut(cls, padding=case["padding"]), {"name": name, "bad": []}, name, {"padding": case["padding"]})
    finally:        # leave the registries as they were
        for key in (name, "PBT-RK"):
            Q_GENERATORS.pop(key, None)
            RK_SCHEMES.pop(key, None)


@st.composite
def customRKStrategy(draw):
    return {"spec": draw(gens.customMethods((1, 1, 1e-9))), "padding": draw(st.sampled_from(["LEFT", "RIGHT", "BOTH"])), "z": draw(gens.cplx(4, 4)), "arrays": draw(st.booleans())}


@st.composite
def padStrategy(draw):
    return {"name": draw(st.sampled_from(rkNames())), "padding": draw(st.sampled_from(["LEFT", "RIGHT", "BOTH"])), "kw": draw(st.booleans()),
            "z": draw(gens.cplx(4, 4))}


def padCases(tier):
    return [{"name": k, "padding": p, "kw": True, "z": [-0.5, 0.75]} for k in getClasses(Q_GENERATORS) for p in ("LEFT", "RIGHT", "BOTH")
            if issubclass(Q_GENERATORS[k], RK)]


SUBS = [
    Sub("forms", run, strategy, cases, quick=500, thorough=8000, classify=lambda c: [str(c.get("padding", c.get("bounds", "table")))],
        nontrivial=lambda c: c.get("cfg", [2])[0] > 1, shards=8, chunks=4),
    Sub("padding", runPadding, padStrategy, padCases, quick=300, thorough=6000, classify=lambda c: [c["padding"]], shards=8, chunks=4),
    Sub("customtable", runCustomRK, customRKStrategy, quick=300, thorough=8000, nontrivial=lambda c: len(c["spec"]["nodes"]) > 1, shards=8),
    Sub("custom", runCustom, lambda: gens.customMethods((1, 1, 1e-13, 1e-20, 1e9)), quick=800, thorough=20000, nontrivial=lambda c: len(c["nodes"]) > 1, shards=8,
        classify=lambda c: ["embedded" if c["w2"] else "main only"]),
]
