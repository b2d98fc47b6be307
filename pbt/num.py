"""
Reference numerics, written independently of the code under test:
multi-precision Lagrange bases, orthogonal polynomials, exact integrals.
"""
import functools
import numpy as np
import mpmath
from mpmath import mp, mpf

from core import Violation

U = 2.0**-53
mp.dps = 50


# ----------------------------------------------------------------------------
# Validation of outputs of the code under test
# ----------------------------------------------------------------------------
def arr(x, shape=None, what="result", finite=True):
    """Check that an output is a numeric array with a given shape and finite values."""
    if not isinstance(x, np.ndarray):
        raise Violation(f"{what} is not a numpy array but {type(x).__name__}")
    if shape is not None and x.shape != tuple(shape):
        raise Violation(f"{what} has shape {x.shape}, expected {tuple(shape)}")
    if x.dtype.kind not in "fciu":
        raise Violation(f"{what} has dtype {x.dtype}")
    if finite and not np.all(np.isfinite(x)):
        raise Violation(f"{what} has non finite values: {x}")
    return x


def close(a, b, tol, what):
    """Entrywise |a-b| <= tol, with a from the code under test, b the reference."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}")
    tol = np.broadcast_to(np.asarray(tol, dtype=float), a.shape)
    err = np.abs(a - b)
    bad = ~(err <= tol)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, np.where(np.isfinite(err), err, np.inf) / np.maximum(tol, 1e-300), -1)), a.shape) if a.shape else ()
        raise Violation(f"{what}: entry {tuple(int(k) for k in i)} is {a[i]!r}, expected {b[i]!r} "
                        f"(error {err[i]:.3e} > tolerance {tol[i]:.3e})")


# ----------------------------------------------------------------------------
# Lagrange basis in multi-precision
# ----------------------------------------------------------------------------
class Lag:
    """Exact (50 digits) Lagrange basis on distinct float points, in the given order."""

    def __init__(self, points):
        self.x = [mpf(float(p)) for p in points]
        n = self.n = len(self.x)
        w = [mpf(1)] * n
        for j in range(n):
            p = mpf(1)
            xj = self.x[j]
            for k in range(n):
                if k != j:
                    p *= xj - self.x[k]
            w[j] = 1 / p
        self.w = w

    def basis(self, t):
        """l_j(t) for all j, as a list of mpf."""
        t = mpf(t)
        d = [t - xk for xk in self.x]
        for j, dj in enumerate(d):
            if dj == 0:
                return [mpf(1) if k == j else mpf(0) for k in range(self.n)]
        n = self.n
        ell = mpf(1)
        for dj in d:
            ell *= dj
        return [self.w[j] * ell / d[j] for j in range(n)]

    def integral(self, a, b):
        """Integral of every l_j over [a, b], and the max of |l_j| sampled there."""
        xs, ws = gaussMP((self.n + 1) // 2)
        a, b = mpf(a), mpf(b)
        h, m = (b - a) / 2, (b + a) / 2
        res = [mpf(0)] * self.n
        for x, w in zip(xs, ws):
            B = self.basis(m + h * x)
            for j in range(self.n):
                res[j] += w * B[j]
        return [h * r for r in res]

    def maxBasis(self, a, b, m=None):
        """max |l_j| over [a,b] sampled at Chebyshev extrema (in double), and of sum |l_j|."""
        m = m or (2 * self.n + 3)
        ts = (a + b) / 2 + (b - a) / 2 * np.cos(np.arange(m + 1) * np.pi / m)
        V = np.array([[abs(float(v)) for v in self.basis(float(t))] for t in ts])
        return V.max(axis=0), V.sum(axis=1).max()

    def deriv(self):
        """First and second derivative matrices on the points, in mpf."""
        n, x, w = self.n, self.x, self.w
        D1 = [[mpf(0)] * n for _ in range(n)]
        D2 = [[mpf(0)] * n for _ in range(n)]
        for i in range(n):
            inv = [mpf(0) if k == i else 1 / (x[i] - x[k]) for k in range(n)]
            s1 = sum(inv)
            s2 = sum(v * v for v in inv)
            for j in range(n):
                if j != i:
                    # l_j(x) = w_j * prod_{k != j} (x - x_k)
                    D1[i][j] = w[j] / w[i] * inv[j]
                    D2[i][j] = 2 * D1[i][j] * (s1 - inv[j])
            D1[i][i] = s1
            D2[i][i] = s1 * s1 - s2
        return D1, D2


def weightError(points):
    """Relative error bound of barycentric weights (any algorithm of the code, incl. logarithms)."""
    x = np.asarray(points, dtype=float)
    n = x.size
    if n == 1:
        return 8 * U
    d = np.abs(x[:, None] - x[None, :])
    d[np.diag_indices(n)] = 1
    with np.errstate(all="ignore"):
        L1 = np.abs(np.log(d)).sum(axis=1).max()
        r = np.ptp(x)
        L2 = np.abs(np.log(d * (4 / r) if np.isfinite(4 / r) else d)).sum(axis=1).max()
    L = max(L1, L2 if np.isfinite(L2) else L1)
    return 8 * U * (n + 4 * L + 4)


@functools.lru_cache(maxsize=None)
def gaussMP(n):
    """Gauss-Legendre rule on [-1,1] with 50 digits."""
    xs, ws = [], []
    for i in range(n):
        x = mpmath.cos(mpmath.pi * (mpf(i) + mpf(3) / 4) / (n + mpf(1) / 2))
        for _ in range(60):
            p0, p1 = mpf(1), x
            if n == 0:
                break
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            if n == 1:
                p0, p1 = mpf(1), x
            dp = n * (x * p1 - p0) / (x * x - 1) if n > 0 else mpf(1)
            dx = p1 / dp
            x -= dx
            if abs(dx) < mpf(10) ** (-46):
                break
        # derivative at the root
        p0, p1 = mpf(1), x
        for k in range(2, n + 1):
            p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        dp = n * (x * p1 - p0) / (x * x - 1)
        xs.append(x)
        ws.append(2 / ((1 - x * x) * dp * dp))
    return xs, ws


def toFloat(M):
    return np.array([[float(v) for v in row] for row in M])


# ----------------------------------------------------------------------------
# Jacobi polynomials in extended precision
# ----------------------------------------------------------------------------
LD = np.longdouble
WEIGHT = {  # exponents (a, b) of (1-x)^a (1+x)^b
    "LEGENDRE": (0.0, 0.0),
    "CHEBY-1": (-0.5, -0.5),
    "CHEBY-2": (0.5, 0.5),
    "CHEBY-3": (-0.5, 0.5),
    "CHEBY-4": (0.5, -0.5),
}
NODE_TYPES = ["EQUID", "LEGENDRE", "CHEBY-1", "CHEBY-2", "CHEBY-3", "CHEBY-4"]
QUAD_TYPES = ["GAUSS", "RADAU-LEFT", "RADAU-RIGHT", "LOBATTO"]


def jacobi(n, a, b, x):
    """Jacobi polynomial P_n^(a,b) (up to a constant) in extended precision."""
    x = np.asarray(x, dtype=LD)
    a, b = LD(a), LD(b)
    p0 = np.ones_like(x)
    if n == 0:
        return p0
    p1 = (a + 1) + (a + b + 2) * (x - 1) / 2
    for k in range(2, n + 1):
        k = LD(k)
        c = 2 * k + a + b
        a1 = 2 * k * (k + a + b) * (c - 2)
        a2 = (c - 1) * (a * a - b * b)
        a3 = (c - 1) * c * (c - 2)
        a4 = 2 * (k + a - 1) * (k + b - 1) * c
        p0, p1 = p1, ((a2 + a3 * x) * p1 - a4 * p0) / a1
    return p1


def innerPoly(nodeType, quadType, n):
    """(degree, a, b) of the Jacobi polynomial vanishing at the inner nodes."""
    a, b = WEIGHT[nodeType]
    m = n
    if quadType in ("LOBATTO", "RADAU-LEFT"):
        b, m = b + 1, m - 1
    if quadType in ("LOBATTO", "RADAU-RIGHT"):
        a, m = a + 1, m - 1
    return m, a, b


def minNodes(quadType):
    return 2 if quadType in ("LOBATTO", "RADAU-LEFT") else 1


@functools.lru_cache(maxsize=None)
def refNodes(nodeType, quadType, n):
    """Reference nodes on [-1, 1] (longdouble accuracy, by Newton from scipy-free bisection)."""
    if nodeType == "EQUID":
        if quadType == "GAUSS":
            return np.array([LD(2 * (i + 1)) / (n + 1) - 1 for i in range(n)])
        if quadType == "LOBATTO":
            return np.array([LD(2 * i) / (n - 1) - 1 for i in range(n)])
        if quadType == "RADAU-RIGHT":
            return np.array([LD(2 * (i + 1)) / n - 1 for i in range(n)])
        return np.array([LD(2 * i) / n - 1 for i in range(n)])
    m, a, b = innerPoly(nodeType, quadType, n)
    inner = jacobiRoots(m, a, b)
    out = list(inner)
    if quadType in ("LOBATTO", "RADAU-LEFT"):
        out = [LD(-1)] + out
    if quadType in ("LOBATTO", "RADAU-RIGHT"):
        out = out + [LD(1)]
    return np.array(out, dtype=LD)


def jacobiRoots(m, a, b):
    """Roots of P_m^(a,b), isolated on a fine grid in theta and bisected (vectorised)."""
    if m == 0:
        return np.zeros(0, dtype=LD)
    k = 8
    while True:
        th = np.linspace(LD(0), LD(np.pi), k * (m + 2) + 1)
        x = -np.cos(th)
        x[0], x[-1] = -1, 1
        s = jacobi(m, a, b, x)
        idx = np.where(np.sign(s[:-1]) * np.sign(s[1:]) < 0)[0]
        zero = np.where(s[1:-1] == 0)[0] + 1
        if len(idx) + len(zero) == m:
            break
        k *= 2
        if k > 512:
            raise RuntimeError("root isolation failed")
    lo, hi = x[idx].copy(), x[idx + 1].copy()
    slo = np.sign(s[idx])
    for _ in range(70):
        mid = (lo + hi) / 2
        sm = np.sign(jacobi(m, a, b, mid))
        left = sm * slo > 0
        lo = np.where(left, mid, lo)
        hi = np.where(left, hi, mid)
    return np.sort(np.concatenate([(lo + hi) / 2, x[zero]]))


# ----------------------------------------------------------------------------
# Exact linear algebra on small systems
# ----------------------------------------------------------------------------
def charPoly(A):
    """Coefficients of det(z I - A) (Faddeev-LeVerrier in mp), highest first."""
    n = A.shape[0]
    M = mpmath.matrix(n, n)
    Am = mpmath.matrix(A.tolist())
    I = mpmath.eye(n)
    c = [mpf(1)]
    for k in range(1, n + 1):
        M = Am * M + c[-1] * I
        AM = Am * M
        tr = sum(AM[i, i] for i in range(n))
        c.append(-tr / k)
    return [float(v) for v in c]
