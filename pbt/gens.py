"""Hypothesis strategies shared by the property modules (all cases are JSON-able)."""
import numpy as np
from hypothesis import strategies as st, assume

import num

SCALES = [1.0, 1.0, 1.0, 1.0, 2.0, 0.1, 10.0, 1e-3, 1e3, 1e-9, 1e9, 1e-15, 1e12]
OFFSETS = [0.0, 0.0, 0.0, -0.5, -1.0, 1.0, 3.25, -7.0, 100.0, -1000.0]   # in units of the range


def fl(x):
    return float(x)


@st.composite
def gapsPoints(draw, nMin=1, nMax=12, wild=True):
    """Distinct points from integer gaps, sorted, within [0, 1] (n points)."""
    n = draw(st.integers(nMin, nMax))
    if n == 1:
        return [draw(st.sampled_from([0.0, 1.0, 0.5, 0.3]))]
    kind = draw(st.sampled_from(["equid", "cheby1", "cheby2", "random", "random", "wild"] if wild
                                else ["equid", "cheby1", "cheby2", "random"]))
    if kind == "equid":
        return [k / (n - 1) for k in range(n)]
    if kind == "cheby1":
        return [float((1 - np.cos((2 * k + 1) * np.pi / (2 * n))) / 2) for k in range(n)]
    if kind == "cheby2":
        return [float((1 - np.cos(k * np.pi / (n - 1))) / 2) for k in range(n)]
    top = 16 if kind == "random" else 1000
    gaps = draw(st.lists(st.integers(1, top), min_size=n - 1, max_size=n - 1))
    c = np.concatenate([[0], np.cumsum(gaps)]).astype(float)
    return [float(v) for v in c / c[-1]]


@st.composite
def points(draw, nMin=1, nMax=12, scales=SCALES, offsets=OFFSETS, orders=("sorted", "sorted", "reversed", "shuffled")):
    """Distinct points of any scale, offset and order."""
    base = np.array(draw(gapsPoints(nMin, nMax)))
    s = draw(st.sampled_from(scales))
    o = draw(st.sampled_from(offsets))
    pts = (base + o) * s
    assume(np.unique(pts).size == pts.size)
    order = draw(st.sampled_from(orders))
    pts = [float(p) for p in pts]
    if 0 in pts and draw(st.integers(0, 3)) == 0:
        pts[pts.index(0)] = -0.0
    if order == "reversed":
        pts = pts[::-1]
    elif order == "shuffled":
        pts = list(draw(st.permutations(pts)))
    return pts


def span(pts):
    lo, hi = min(pts), max(pts)
    r = hi - lo
    if r == 0:
        r = abs(lo) if lo != 0 else 1.0
    return lo, r


@st.composite
def times(draw, pts, nMin=1, nMax=6, out=0.5):
    """Times inside or outside the range of the points, on points, or very close to them."""
    lo, r = span(pts)
    res = []
    for _ in range(draw(st.integers(nMin, nMax))):
        kind = draw(st.sampled_from(["in", "in", "on", "near", "out"]))
        if kind == "in":
            t = lo + r * draw(st.integers(0, 64)) / 64
        elif kind == "on":
            t = draw(st.sampled_from(pts))
            if t == 0 and draw(st.booleans()):
                t = -0.0
        elif kind == "near":
            p = draw(st.sampled_from(pts))
            t = p + draw(st.sampled_from([1e-14, -1e-13, 1e-9, -1e-6, 1e-4])) * r
        else:
            t = lo + r * draw(st.integers(int(-out * 10**6), int((1 + out) * 10**6))) / 10**6
        res.append(float(t))
    return res


ALGS = ["AUTO", "FAST", "STABLE", "CHEBFUN"]


def configs(nMax, nodeTypes=num.NODE_TYPES, quadTypes=num.QUAD_TYPES, nMin=1):
    """Collocation configurations (nNodes, nodeType, quadType)."""
    return st.tuples(st.integers(nMin, nMax), st.sampled_from(nodeTypes), st.sampled_from(quadTypes)).filter(
        lambda c: c[0] >= num.minNodes(c[2])).map(list)


def allConfigs(nMax, nodeTypes=num.NODE_TYPES, quadTypes=num.QUAD_TYPES, nMin=1):
    return [[n, nt, qt] for nt in nodeTypes for qt in quadTypes for n in range(max(nMin, num.minNodes(qt)), nMax + 1)]


def smallInts(lo, hi):
    return st.integers(lo, hi)


def cplx(mag=8, den=4):
    """Complex numbers as [re, im]."""
    i = st.integers(-mag * den, mag * den).map(lambda k: k / den)
    return st.tuples(i, i).map(list)


def chebGrid(nodeType, quadType, n):
    """Closed form grid on [-1, 1] clustered like the named nodes (exact for the Chebyshev Gauss ones)."""
    m = n - (quadType == "LOBATTO" or quadType == "RADAU-LEFT") - (quadType == "LOBATTO" or quadType == "RADAU-RIGHT")
    k = np.arange(1, m + 1, dtype=num.LD)
    a, b = {"EQUID": (0, 1), "LEGENDRE": (0.25, 0.5), "CHEBY-1": (0.5, 0), "CHEBY-2": (0, 1), "CHEBY-3": (0.5, 0.5), "CHEBY-4": (0, 0.5)}[nodeType]
    if nodeType == "EQUID":
        inner = 2 * k / (m + 1) - 1
    else:
        inner = -np.cos((k - a) / (m + b) * (4 * np.arctan(num.LD(1))))
    out = list(inner)
    if quadType in ("LOBATTO", "RADAU-LEFT"):
        out = [num.LD(-1)] + out
    if quadType in ("LOBATTO", "RADAU-RIGHT"):
        out = out + [num.LD(1)]
    return np.array(out, dtype=num.LD)


# ----------------------------------------------------------------------------
# The same values handed over in other ways
# ----------------------------------------------------------------------------
FORMS = ["array", "fortran", "strided", "reversed", "readonly", "int"]


def isInt(values):
    a = np.asarray(values, dtype=float)
    return a.size > 0 and bool(np.all(a == np.round(a))) and bool(np.all(np.abs(a) < 2.0**53))


def asForm(values, form):
    """Array of the given values with another memory layout, or of integers when all values are."""
    a = np.array(values, dtype=float)
    if form == "int" and isInt(a):
        return a.astype(int)
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "strided":
        big = np.full(tuple(2 * s for s in a.shape), 77.0)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if form == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if form == "readonly":
        a.setflags(write=False)
    if form == "list":
        return a.tolist()
    if form == "tuple":
        return tuple(a.tolist())
    if form == "intlist":
        return a.astype(int).tolist() if isInt(a) else a.tolist()
    return a


@st.composite
def customMethods(draw, scales=(1,)):
    """A user-defined coefficient generator: any nodes, matrix and weights."""
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 9)))
    pattern = draw(st.sampled_from(["full", "full", "lower", "strict", "hollow", "upper", "diag"]))
    keep = {"full": lambda i, j: True, "lower": lambda i, j: i >= j, "strict": lambda i, j: i > j, "hollow": lambda i, j: i != j,
            "upper": lambda i, j: i <= j, "diag": lambda i, j: i == j}[pattern]
    s = draw(st.sampled_from(list(scales)))
    entry = st.one_of(st.integers(-16, 16).map(lambda v: v / 8), st.integers(-16, 16).map(lambda v: v / 8), st.sampled_from([0, 0, 1, 1 / 3, 1e-6, -1e-12]))
    nodes = draw(st.lists(st.integers(-4, 24), min_size=n, max_size=n))
    if draw(st.integers(0, 3)):
        nodes = sorted(nodes)
    if draw(st.integers(0, 2)) == 0:
        nodes[-1] = 16
    emb = draw(st.booleans())
    return {"nodes": [v / 16 for v in nodes], "Q": [[draw(entry) * s if keep(i, j) else 0.0 for j in range(n)] for i in range(n)],
            "weights": [draw(entry) for _ in range(n)], "w2": [draw(entry) for _ in range(n)] if emb else None, "order": draw(st.integers(1, 6))}


def customQ(spec):
    """Class of a user-defined coefficient generator (not registered)."""
    from qmat.qcoeff import QGenerator
    d = {"nodes": property(lambda self: np.array(spec["nodes"], dtype=float)), "Q": property(lambda self: np.array(spec["Q"], dtype=float)),
         "weights": property(lambda self: np.array(spec["weights"], dtype=float)), "order": property(lambda self: spec["order"])}
    if spec["w2"] is not None:
        d["weightsEmbedded"] = property(lambda self: np.array(spec["w2"], dtype=float))
    return type("PbtMethod", (QGenerator,), d)
