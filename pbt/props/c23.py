"""C23: implicit-explicit Runge-Kutta pairs."""
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

import num
from core import Sub, Violation, sut
from qmat.qcoeff import Q_GENERATORS

RULE = ("cases are (pair, main or embedded weights, rooted tree with implicit and explicit nodes), and drawn split polynomial differential "
        "equations with a pair; non-trivial: both parts appear")
ASSUMPTIONS = ["pairs and orders of the publications named in the documentation (ARK343: order 3, coefficients rounded to 1e-10)"]

# implicit part, explicit part, order of the pair, order of the embedded pair
PAIRS = {
    "ARK548L2SA": ("ARK548L2SAESDIRK", "ARK548L2SAERK", 5, 4),
    "ARK548L2SA2": ("ARK548L2SAESDIRK2", "ARK548L2SAERK2", 5, 4),
    "ARK324L2SA": ("ARK324L2SAESDIRK", "ARK324L2SAERK", 3, 2),
    "ARK222": ("ARK222EDIRK", "ARK222ERK", 2, None),
    "ARK443": ("ARK443ESDIRK", "ARK443ERK", 3, None),
    "ARK343": ("ARK343ESDIRK", "ARK343ERK", 3, None),
    "ARK4": ("ARK4EDIRK", "ARK4ERK", 4, None),
}
ROUNDED = {"ARK343": 1e-8}


# Rooted trees with nodes of two kinds (0 implicit, 1 explicit): (kind, sorted tuple of sub-trees)
@lru_cache(None)
def trees(n):
    def forests(m, top):
        if m == 0:
            yield ()
        for k in range(min(m, top), 0, -1):
            for t in trees(k):
                for f in forests(m - k, k):
                    yield tuple(sorted((t,) + f))
    fs = sorted(set(forests(n - 1, n - 1)))
    return tuple((c, f) for c in (0, 1) for f in fs)


def order(t):
    return 1 + sum(order(s) for s in t[1])


def gamma(t):
    r = order(t)
    for s in t[1]:
        r *= gamma(s)
    return r


def phi(t, A):
    r = np.ones(A[0].shape[0])
    for s in t[1]:
        r = r * (A[s[0]] @ phi(s, A))
    return r


def tup(t):
    return (t[0], tuple(tup(s) for s in t[1]))


def get(pair):
    parts = []
    for name in PAIRS[pair][:2]:
        if name not in Q_GENERATORS:
            raise Violation(f"{name} is not registered")
        parts.append(sut(Q_GENERATORS[name]))
    A = [num.arr(g.Q, (g.nodes.size,) * 2, "Q") for g in parts]
    if not np.array_equal(parts[0].nodes, parts[1].nodes):
        raise Violation(f"{pair}: nodes of both parts differ")
    return parts, A, parts[0].nodes


def weightsOf(parts, emb):
    return [sut(lambda: g.weightsEmbedded) if emb else g.weights for g in parts]


def runTree(case, ctx):
    pair, emb = case["pair"], case["emb"]
    parts, A, c = get(pair)
    w = weightsOf(parts, emb)
    t = tup(case["tree"])
    val, ex = float(w[t[0]] @ phi(t, A)), 1 / gamma(t)
    aA = [np.abs(a) for a in A]
    tol = ROUNDED.get(pair, 0) + 200 * num.U * (1 + np.abs(w[t[0]]) @ phi(t, aA))
    if not abs(val - ex) <= tol:
        raise Violation(f"{pair}{' (embedded)' if emb else ''}: coupling condition {t} of order {order(t)} gives {val!r}, expected {ex!r}")


def treeCases(tier):
    return [{"pair": p, "emb": e, "tree": t} for p, v in PAIRS.items() for e in (False, True) for o in range(1, (v[3] if e else v[2] or 0) + 1 if (v[3] or not e) else 1)
            for t in trees(o)]


def runPair(case, ctx):
    """Structure: the implicit part is diagonally implicit, the explicit one explicit, the declared orders are not below the one of the pair."""
    pair = case["pair"]
    parts, A, c = get(pair)
    tol = ROUNDED.get(pair, 1e-13)
    for g, a, what in zip(parts, A, ("implicit", "explicit")):
        if np.any(np.triu(a, 1 if what == "implicit" else 0) != 0):
            raise Violation(f"{pair}: {what} part is not {what}")
        num.close(a.sum(axis=1), c, np.full(c.shape, tol), f"{pair}: row sums of the {what} part")
        if g.order < PAIRS[pair][2]:
            raise Violation(f"{pair}: declared order {g.order} of the {what} part is lower than the one of the pair")
        if PAIRS[pair][3] and g.orderEmbedded < PAIRS[pair][3]:
            raise Violation(f"{pair}: declared embedded order {g.orderEmbedded} of the {what} part is lower than the one of the pair")
    if PAIRS[pair][3]:
        for emb in (False, True):
            w = weightsOf(parts, emb)
            num.close(w[0], w[1], np.full(c.shape, 1e-14), f"{pair}: weights of both parts")


# ----------------------------------------------------------------------------
# Split polynomial equations: power series in the step size
# ----------------------------------------------------------------------------
def smul(a, b, n):
    return np.convolve(a, b)[:n]


def evalF(terms, tser, us, n):
    out = []
    for comp in terms:
        s = np.zeros(n)
        for coef, *ex in comp:
            p = np.zeros(n)
            p[0] = coef
            for ser, e in zip((tser, *us), ex):
                for _ in range(e):
                    p = smul(p, ser, n)
            s = s + p
        out.append(s)
    return out


def runSplit(case, ctx):
    pair, emb = case["pair"], case["emb"]
    parts, A, c = get(pair)
    p = PAIRS[pair][3] if emb else PAIRS[pair][2]
    if p is None:
        return
    w = weightsOf(parts, emb)
    n, s = p + 1, c.size
    F, u0, t0 = case["f"], case["u0"], case["t0"]

    def const(v):
        x = np.zeros(n)
        x[0] = v
        return x

    def time(ci):
        x = const(t0)
        x[1] = ci
        return x

    def shift(x):
        return np.concatenate([[0], x[:-1]])
    # exact series
    u = [const(v) for v in u0]
    for _ in range(n):
        tot = [a + b for a, b in zip(*(evalF(f, time(1), u, n) for f in F))]
        u = [const(v) + np.concatenate([[0], f[:-1] / np.arange(1, n)]) for v, f in zip(u0, tot)]
    # stages
    U = [[const(v) for v in u0] for _ in range(s)]
    for _ in range(n):
        K = [[evalF(f, time(c[i]), U[i], n) for i in range(s)] for f in F]
        U = [[const(v) + shift(sum(A[q][i, j] * K[q][j][d] for q in (0, 1) for j in range(s))) for d, v in enumerate(u0)] for i in range(s)]
    new = [const(v) + shift(sum(w[q][j] * K[q][j][d] for q in (0, 1) for j in range(s))) for d, v in enumerate(u0)]
    for d in range(len(u0)):
        mag = shift(sum(abs(w[q][j]) * np.abs(K[q][j][d]) for q in (0, 1) for j in range(s)))
        tol = (1e-9 + 1000 * ROUNDED.get(pair, 0)) * (1 + np.abs(u[d]) + mag).max()
        err = np.abs(new[d] - u[d])
        if not np.all(err <= tol):
            k = int(np.argmax(~(err <= tol)))
            raise Violation(f"{pair}{' (embedded)' if emb else ''}: coefficient of h^{k} of one split step is {new[d][k]!r}, Taylor series {u[d][k]!r} (order {p})")


@st.composite
def splitStrategy(draw):
    term = st.tuples(st.sampled_from([-2, -1, -0.5, 0.5, 1, 2]), st.integers(0, 2), st.integers(0, 2), st.integers(0, 2)).map(list)
    pair = draw(st.sampled_from(list(PAIRS)))
    return {"pair": pair, "emb": PAIRS[pair][3] is not None and draw(st.booleans()),
            "f": [[draw(st.lists(term, min_size=0, max_size=2)) for _ in range(2)] for _ in range(2)],
            "u0": [draw(st.sampled_from([-1, -0.5, 0.25, 0.5, 1])) for _ in range(2)], "t0": draw(st.sampled_from([0, 0, 0.5, -1]))}


def mixed(t):
    k = set()

    def walk(t):
        k.add(t[0])
        for s in t[1]:
            walk(s)
    walk(t)
    return len(k) > 1


SUBS = [
    Sub("pairs", runPair, cases=lambda tier: [{"pair": p} for p in PAIRS]),
    Sub("coupling", runTree, cases=treeCases, nontrivial=lambda c: mixed(c["tree"]), classify=lambda c: [f"order {order(c['tree'])}"], chunks=2),
    Sub("split", runSplit, splitStrategy, quick=800, thorough=16000, nontrivial=lambda c: all(any(f) for f in c["f"]), classify=lambda c: [c["pair"]], shards=8),
]
