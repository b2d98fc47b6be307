"""Shared oracles for the Lagrange properties (C02 to C06)."""
import numpy as np

import num
from num import U
from core import Violation, sut
from qmat.lagrange import LagrangeApproximation

SCALEREFS = ["MAX", "ZERO"]


def build(case, **kw):
    opts = dict(case.get("opts", {}))
    opts.update(kw)
    return sut(LagrangeApproximation, case["pts"], **opts)


def interpRef(pts, ts):
    """Exact interpolation matrix, and entrywise tolerance."""
    L = num.Lag(pts)
    B = np.array([[float(v) for v in L.basis(t)] for t in ts]).reshape(len(ts), len(pts))
    d = num.weightError(pts)
    lam = np.abs(B).sum(axis=1, keepdims=True)
    tol = 4 * d * np.abs(B) * (1 + lam) + 1e-300
    return B, tol, L


def integRef(pts, intervals, L=None):
    """Exact integration matrix, and entrywise tolerance."""
    L = L or num.Lag(pts)
    d = num.weightError(pts)
    n = len(pts)
    R, T = [], []
    for a, b in intervals:
        R.append([float(v) for v in L.integral(a, b)])
        if a == b:
            T.append([1e-300] * n)
            continue
        m, lam = L.maxBasis(a, b)
        mag = max(abs(a), abs(b))
        T.append(2 * m * (abs(b - a) * 4 * d * (1 + lam) + 8 * U * mag * n * n + 16 * U * n * abs(b - a)) + 1e-300)
    return np.array(R).reshape(len(intervals), n), np.array(T).reshape(len(intervals), n)


def derivRef(pts, L=None):
    """Exact derivative matrices and entrywise tolerances."""
    L = L or num.Lag(pts)
    D1, D2 = (num.toFloat(D) for D in L.deriv())
    n = len(pts)
    d = 2 * num.weightError(pts)
    x = np.asarray(pts, dtype=float)
    T1 = d * np.abs(D1)
    off = np.abs(D1).copy()
    np.fill_diagonal(off, 0)
    s = off.sum(axis=1)
    np.fill_diagonal(T1, d * s)
    diff = x[:, None] - x[None, :]
    diff[np.diag_indices(n)] = np.inf
    inv = np.abs(1 / diff)
    T2 = 4 * d * off * (inv + s[:, None])
    np.fill_diagonal(T2, (4 * d * off * (inv + s[:, None])).sum(axis=1))
    return D1, D2, T1 + 1e-300, T2 + 1e-300


def polyValues(coeffs, x, lo, r):
    """Values of sum c_k ((x-lo)/r)^k in multi-precision, as float."""
    return np.array([float(sum(num.mpf(c) * ((num.mpf(t) - num.mpf(lo)) / num.mpf(r))**k for k, c in enumerate(coeffs))) for t in x])
