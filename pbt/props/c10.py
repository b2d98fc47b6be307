"""C10: Runge-Kutta tables."""
import json
import math
import os
import numpy as np
from hypothesis import strategies as st

import num
from core import Sub, Violation, sut
from qmat.qcoeff.butcher import RK_SCHEMES, RK
from qmat.qcoeff import Q_GENERATORS
from qmat.utils import getClasses

RULE = ("cases are (table, main or embedded weights, rooted tree) up to the order after the published one, every coefficient of every table, "
        "and drawn polynomial differential equations with a table; non-trivial: all of them")
ASSUMPTIONS = ["published coefficients are those of the pinned commit (validated by the order conditions), within 1e-9 for the rounded "
               "coefficients of ARK343, else 1e-14", "RK32 has published order 2 and ARK343ERK published order 3 (declared: linear order)"]

with open(os.path.join(os.path.dirname(__file__), "..", "data", "rk.json")) as _f:
    GOLD = json.load(_f)

PUBLISHED = {"RK32": 2, "ARK343ERK": 3}         # nonlinear order, when lower than the declared (linear) one
PUBLISHED_EMB = {"ARK548L2SAESDIRK": 4}
EXPLICIT = {"FE", "RK21", "RK2", "HEUN2", "RK32", "RK33", "RK53", "RK4", "RK4_38", "RK65", "CashKarp"} | {k for k in GOLD if k.endswith(("ERK", "ERK2"))}
FULL = {"GAUSS_LG"}
ROUNDED = {"ARK343ESDIRK": 1e-8, "ARK343ERK": 1e-8}


def tables():
    # reference names first, then whatever else is registered
    names = list(GOLD)
    names += [k for k in getClasses(RK_SCHEMES) if k not in GOLD]
    return names


# ----------------------------------------------------------------------------
# Rooted trees: a tree is the sorted list of its sub-trees
# ----------------------------------------------------------------------------
def treeList(top):
    T = {1: [()]}

    def forests(k):
        if k == 0:
            return {()}
        out = set()
        for o in range(1, k + 1):
            for t in T[o]:
                for f in forests(k - o):
                    out.add(tuple(sorted(f + (t,))))
        return out
    for o in range(2, top + 1):
        T[o] = sorted(forests(o - 1))
    return T


TREES = treeList(5)


def tOrder(t):
    return 1 + sum(tOrder(s) for s in t)


def gamma(t):
    g = tOrder(t)
    for s in t:
        g *= gamma(s)
    return g


def phi(t, A, mag=False):
    v = np.ones(A.shape[0])
    for s in t:
        v = v * (A @ phi(s, A))
    return v


def tup(x):
    return tuple(tup(y) for y in x)


def get(name):
    if name not in RK_SCHEMES:
        raise Violation(f"table {name} is not registered")
    gen = sut(RK_SCHEMES[name])
    if not isinstance(gen, RK):
        raise Violation(f"{name} is not a RK generator")
    s = len(np.atleast_1d(gen.c))
    num.arr(gen.A, (s, s), f"A of {name}")
    num.arr(gen.b, (s,), f"b of {name}")
    num.arr(gen.c, (s,), f"c of {name}")
    if gen.b2 is not None:
        num.arr(gen.b2, (s,), f"b2 of {name}")
    return gen


def weightsOf(gen, name, emb):
    if not emb:
        return gen.weights, gen.order, PUBLISHED.get(name, gen.order)
    return sut(lambda: gen.weightsEmbedded), gen.orderEmbedded, PUBLISHED_EMB.get(name, gen.orderEmbedded)


def tolOf(name, w, A, t=None):
    base = ROUNDED.get(name, 0)
    aw, aA = np.abs(w), np.abs(A)
    return base + 200 * num.U * (1 + aw @ phi(t, aA))


def runTree(case, ctx):
    name, emb, t = case["table"], case["emb"], tup(case["tree"])
    gen = get(name)
    if emb and gen.b2 is None:
        return
    w, declared, published = weightsOf(gen, name, emb)
    o = tOrder(t)
    if o > published:
        return
    val, ex = float(w @ phi(t, gen.Q)), 1 / gamma(t)
    if abs(val - ex) > tolOf(name, w, gen.Q, t):
        raise Violation(f"{name}{' (embedded)' if emb else ''}: order condition {t} of order {o} gives {val!r}, expected {ex!r} "
                        f"(published order {published})")


def treeCases(tier):
    return [{"table": n, "emb": e, "tree": t} for n in tables() for e in (False, True) for o in TREES for t in TREES[o]]


def runLinear(case, ctx):
    name, emb = case["table"], case["emb"]
    gen = get(name)
    if emb and gen.b2 is None:
        return
    w, declared, published = weightsOf(gen, name, emb)
    v, av = np.ones(gen.c.size), np.ones(gen.c.size)
    aw, aA = np.abs(w), np.abs(gen.Q)
    for k in range(1, declared + 2):
        val, ex = float(w @ v), 1 / math.factorial(k)
        tol = ROUNDED.get(name, 0) + 200 * num.U * (1 + aw @ av)
        if emb and name in PUBLISHED_EMB and k == declared:
            tol = 1e-7           # documented: observed order above the published one
        if k <= declared and abs(val - ex) > tol:
            raise Violation(f"{name}{' (embedded)' if emb else ''}: coefficient of z^{k} is {val!r}, expected 1/{k}! (declared order {declared})")
        if k > declared and abs(val - ex) <= 1e-6:
            raise Violation(f"{name}{' (embedded)' if emb else ''}: declared order is {declared}, but the coefficient of z^{k} is {val!r} = 1/{k}!")
        v, av = gen.Q @ v, aA @ av


def runTable(case, ctx):
    name = case["table"]
    gen = get(name)
    A, b, c = gen.Q, gen.weights, gen.nodes
    for x, y, what in ((A, gen.A, "Q"), (b, gen.b, "weights"), (c, gen.c, "nodes")):
        if not np.array_equal(x, y):
            raise Violation(f"{name}: {what} is not the coefficient of the table")
    tol = ROUNDED.get(name, 0) + 64 * num.U * (1 + np.abs(A).sum(axis=1))
    bad = np.where(np.abs(A.sum(axis=1) - c) > tol)[0]
    for i in bad:
        ctx.fail(f"{name}: row {i} of A sums to {A[i].sum()!r}, but c[{i}] = {c[i]!r}", key=f"rowsum:{name}:{i}:{A[i].sum():.6f}:{c[i]:.6f}")
    if name in EXPLICIT and np.any(np.triu(A) != 0):
        raise Violation(f"{name} is explicit, but not strictly lower triangular")
    if name in GOLD and name not in FULL and np.any(np.triu(A, 1) != 0):
        raise Violation(f"{name} is diagonally implicit, but not lower triangular")
    if name in GOLD:
        g = GOLD[name]
        for key, val in (("A", A), ("b", b), ("c", c)):
            ref = np.array(g[key])
            if name == "RK53" and key == "A":
                # either of the two values of the doubtful coefficient
                if abs(val[2, 1] - 3 / 16) < 1e-15:
                    ref[2, 1] = 3 / 16
            num.close(val, ref, ROUNDED.get(name, 0) * 0.1 + 1e-14 * (1 + np.abs(ref)), f"{name}: coefficients {key}")
        if (g["b2"] is None) != (gen.b2 is None):
            raise Violation(f"{name}: embedded weights {'missing' if gen.b2 is None else 'unexpected'}")
        if gen.b2 is not None:
            num.close(gen.b2, np.array(g["b2"]), 1e-14 * (1 + np.abs(np.array(g["b2"]))), f"{name}: embedded weights")
            if gen.orderEmbedded != g["orderEmbedded"]:
                raise Violation(f"{name}: embedded order {gen.orderEmbedded}, expected {g['orderEmbedded']}")
        if gen.order != g["order"]:
            raise Violation(f"{name}: order {gen.order}, expected {g['order']}")
    if "ESDIRK" in name or name == "EDIRK4":
        if np.any(A[0] != 0):
            raise Violation(f"{name}: first stage is not explicit")
    if "SDIRK" in name and name in GOLD:
        d = np.diag(A)[1 if np.diag(A)[0] == 0 else 0:]
        num.close(d, np.full(d.size, d[0]), 1e-14 + 0.1 * ROUNDED.get(name, 0), f"{name}: diagonal of A")
    if gen.b2 is None:
        try:
            gen.weightsEmbedded
        except NotImplementedError:
            pass
        else:
            raise Violation(f"{name}: embedded weights without table")
    if Q_GENERATORS.get(name) is not RK_SCHEMES[name] and type(gen).__name__ == name:
        raise Violation(f"{name} is not the same class in Q_GENERATORS")


# ----------------------------------------------------------------------------
# Polynomial differential equations: power series in the step size
# ----------------------------------------------------------------------------
def smul(a, b, n):
    return np.convolve(a, b)[:n]


def evalF(terms, tser, useries, n):
    """terms[i]: list of (coef, a, e0, e1): coef * t^a * u0^e0 * u1^e1."""
    out = []
    for comp in terms:
        s = np.zeros(n)
        for coef, a, e0, e1 in comp:
            p = np.zeros(n)
            p[0] = coef
            for ser, e in ((tser, a), (useries[0], e0), (useries[1], e1)):
                for _ in range(e):
                    p = smul(p, ser, n)
            s = s + p
        out.append(s)
    return out


def runODE(case, ctx):
    name, emb = case["table"], case["emb"]
    gen = get(name)
    if emb and gen.b2 is None:
        return
    w, declared, published = weightsOf(gen, name, emb)
    n = published + 1
    terms, u0, t0 = case["f"], case["u0"], case["t0"]
    A, c = gen.Q, gen.nodes
    s = c.size

    def const(v):
        p = np.zeros(n)
        p[0] = v
        return p
    # exact Taylor series by Picard iteration
    tau = const(t0)
    if n > 1:
        tau[1] = 1
    u = [const(v) for v in u0]
    for _ in range(n):
        F = evalF(terms, tau, u, n)
        u = [const(v) + np.concatenate([[0], f[:-1] / np.arange(1, n)]) for v, f in zip(u0, F)]
    # stages as power series
    U = [[const(v) for v in u0] for _ in range(s)]
    for _ in range(n):
        K = []
        for i in range(s):
            ti = const(t0)
            if n > 1:
                ti[1] = c[i]
            K.append(evalF(terms, ti, U[i], n))
        U = [[const(v) + np.concatenate([[0], sum(A[i, j] * K[j][d] for j in range(s))[:-1]]) for d, v in enumerate(u0)] for i in range(s)]
    new = [const(v) + np.concatenate([[0], sum(w[j] * K[j][d] for j in range(s))[:-1]]) for d, v in enumerate(u0)]
    aK = [sum(abs(w[j]) * np.abs(K[j][d]) for j in range(s)) for d in range(2)]
    for d in range(2):
        scale = 1 + np.abs(u[d]) + np.concatenate([[0], aK[d][:-1]])
        tol = (1e-10 + 100 * ROUNDED.get(name, 0)) * scale.max() * 10
        err = np.abs(new[d] - u[d])
        if np.any(err > tol):
            k = int(np.argmax(err > tol))
            raise Violation(f"{name}{' (embedded)' if emb else ''}: coefficient of h^{k} of one step is {new[d][k]!r}, Taylor series {u[d][k]!r} "
                            f"(published order {published})")


@st.composite
def odeStrategy(draw):
    term = st.tuples(st.sampled_from([-2, -1, -0.5, 0.5, 1, 2]), st.integers(0, 2), st.integers(0, 2), st.integers(0, 2)).map(list)
    return {"table": draw(st.sampled_from(list(GOLD))), "emb": draw(st.booleans()),
            "f": [draw(st.lists(term, min_size=1, max_size=3)) for _ in range(2)],
            "u0": [draw(st.sampled_from([-1, -0.5, 0.25, 0.5, 1])) for _ in range(2)], "t0": draw(st.sampled_from([0, 0, 0.5, -1]))}


SUBS = [
    Sub("tables", runTable, cases=lambda tier: [{"table": n} for n in tables()], classify=lambda c: [c["table"]]),
    Sub("linear", runLinear, cases=lambda tier: [{"table": n, "emb": e} for n in tables() for e in (False, True)]),
    Sub("trees", runTree, cases=treeCases, classify=lambda c: [f"order {tOrder(tup(c['tree']))}"], chunks=2),
    Sub("odes", runODE, odeStrategy, quick=1000, thorough=20000, classify=lambda c: [c["table"]], shards=8),
]
