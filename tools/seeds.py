"""Planted bugs: id, property, edits (file, old, new), what is needed, what breaks, and a demonstration."""
SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

NODES, LAG, Q, COL, BUT = "qmat/nodes.py", "qmat/lagrange.py", "qmat/qcoeff/__init__.py", "qmat/qcoeff/collocation.py", "qmat/qcoeff/butcher.py"
QD, TS, ALG, DIAG, MINC = "qmat/qdelta/__init__.py", "qmat/qdelta/timestepping.py", "qmat/qdelta/algebraic.py", "qmat/qdelta/diag.py", "qmat/qdelta/mincoeffs.py"
UT, UN, US = "qmat/utils/__init__.py", "qmat/utils/num.py", "qmat/utils/sdc.py"

seed("c01-rounded-nodes", "C01", [(NODES, "        nodes.sort()\n", "        nodes = np.round(np.sort(nodes), 11)  # clean round-off\n")],
 "comparing inner nodes to more than ten digits", "nodes are rounded to eleven digits, so they are no zeros of the orthogonal polynomial to rounding accuracy",
 """
import numpy as np
from qmat.nodes import NodesGenerator
for n in (5, 20):
    x = NodesGenerator("LEGENDRE", "GAUSS").getNodes(n)
    assert np.abs(x - np.polynomial.legendre.leggauss(n)[0]).max() < 1e-14, n
""")

seed("c01-cheby4-alpha", "C01", [(NODES, "            alpha[0] = -0.5\n", "            alpha[0] = -0.5 if num_coeff < 30 else 0.5\n")],
 "CHEBY-4 nodes with thirty or more nodes", "from thirty nodes on the CHEBY-4 nodes are those of CHEBY-3",
 """
import numpy as np
from qmat.nodes import NodesGenerator
for n in (4, 35):
    x = NodesGenerator("CHEBY-4", "GAUSS").getNodes(n)
    k = np.arange(1, n + 1)
    assert np.abs(x - np.sort(np.cos(2 * k * np.pi / (2 * n + 1)))).max() < 1e-13 , n
""")

seed("c02-close-times", "C02", [(LAG, "        concom = (iDiff == np.inf) | (iDiff == -np.inf)\n", "        concom = np.abs(iDiff) > 1e12\n")],
 "points on a very small scale", "times within 1e-12 (absolute) of a point are taken as that point, whatever the scale of the grid",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
for s in (1.0, 1e-13):
    x = s * np.linspace(0, 1, 5)
    P = LagrangeApproximation(x).getInterpolationMatrix([0.3 * s])
    assert abs((P @ (x / s)**2)[0] - 0.09) < 1e-10, s
""")

seed("c02-stored-values", "C02", [(LAG, "        if fValues is None: fValues=self.fValues\n", "        if self.fValues is not None: fValues = self.fValues\n")],
 "an approximation holding values, called with other values", "values given at the call are ignored when values were given to the constructor",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
x = np.linspace(0, 1, 4)
p = LagrangeApproximation(x, fValues=x)
assert np.allclose(p(0.3), 0.3)
assert np.allclose(p(0.3, fValues=x**2), 0.09)
""")

seed("c03-sorted-bounds", "C03", [(LAG, "        intervals = np.array(intervals)\n", "        intervals = np.sort(np.array(intervals), axis=-1)\n")],
 "an interval with decreasing bounds", "reversed intervals give the integral with the wrong sign",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
x = np.linspace(0, 1, 4)
Q = LagrangeApproximation(x).getIntegrationMatrix([(0, 1), (1, 0)])
assert abs((Q @ x)[0] - 0.5) < 1e-12
assert abs((Q @ x)[1] + 0.5) < 1e-12
""")

seed("c03-fejer-points", "C03", [(LAG, "computeFejerRule(self.n - ((self.n + 1) % 2))", "computeFejerRule(min(self.n - ((self.n + 1) % 2), 31))")],
 "more than 32 points", "the rule used for integration is limited to 31 points, too few for interpolants of higher degree",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
for n in (8, 40):
    x = (1 - np.cos(np.pi * np.arange(n) / (n - 1))) / 2
    Q = LagrangeApproximation(x).getIntegrationMatrix([(0, 1)])
    T = np.cos((n - 2) * np.arccos(np.clip(2 * x - 1, -1, 1)))
    m = n - 2
    assert abs((Q @ T)[0] - 0.5 * ((-1)**m + 1) / (1 - m**2)) < 1e-11, n
""")

seed("c04-sorted-points", "C04", [(LAG, "        x = self.uniquePoints\n", "        x = np.unique(self.points)\n")],
 "points that are not given in increasing order", "derivative matrices mix the order of the points with the one of the weights",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
for x in ([0, 0.25, 0.5, 1], [0.5, 0, 1, 0.25]):
    x = np.array(x)
    D = LagrangeApproximation(x).getDerivativeMatrix()
    assert np.allclose(D @ x**2, 2 * x), x
""")

seed("c04-small-gaps", "C04", [(LAG, "        iDiff[np.isinf(iDiff)] = 0\n", "        iDiff[np.abs(iDiff) > 1e10] = 0\n")],
 "points closer than 1e-10", "derivative matrices ignore points closer than 1e-10, so they vanish on small scales",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
for s in (1.0, 1e-11):
    x = s * np.linspace(0, 1, 4)
    D = LagrangeApproximation(x, weightComputation="STABLE").getDerivativeMatrix()
    assert np.allclose(D @ (x / s)**2 * s, 2 * x / s), s
""")

seed("c05-signs", "C05", [(LAG, "            sign = np.sign(diffs).prod(axis=1)\n            wLog", "            sign = (-1.0)**np.arange(points.size)[::-1]  # alternating\n            wLog")],
 "unsorted points with the STABLE algorithm", "signs of the logarithmic weights assume increasing points",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
for x in ([0, 0.25, 0.5, 1], [0.5, 0, 1, 0.25]):
    w = LagrangeApproximation(x, weightComputation="STABLE").weights
    v = LagrangeApproximation(x, weightComputation="FAST").weights
    assert np.allclose(w / w[0], v / v[0]), x
""")

seed("c07-window", "C07", [(LAG, "            closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])\n",
 "            first = np.searchsorted(inPoints, outPoints[i]) - order // 2\n            closestPointsIdx = np.arange(order) + min(max(first, 0), len(inPoints) - order)\n")],
 "a grid that is not uniform (or odd orders)", "the stencil is a centred window, not the closest points, when the grid is not uniform",
 """
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix
x = np.array([0, 0.1, 0.2, 0.3, 1.0, 2.0])
A = getSparseInterpolationMatrix(x, np.array([0.35]), 4).toarray()[0]
assert set(np.where(A != 0)[0]) == {0, 1, 2, 3}, A
""")

seed("c08-left-bound", "C08", [(COL, "        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n", "        Q = approx.getIntegrationMatrix([(min(tLeft, 0), tau) for tau in nodes])\n")],
 "an interval with positive left bound", "the quadrature matrix integrates from zero instead of the left bound of the interval",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
for a, b in ((0, 1), (-1, 1), (1, 2)):
    c = Collocation(3, "LEGENDRE", "RADAU-RIGHT", tLeft=a, tRight=b)
    assert np.allclose(c.Q @ np.ones(3), c.nodes - a), (a, b)
""")

seed("c08-n2n-start", "C08", [(COL, "        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])\n", "        pInts = [(self.tLeft if i == 0 and self.quadType != 'RADAU-LEFT' else nodes[max(i, 1)-1], nodes[i])\n")],
 "nothing wrong for exact left nodes", "", "assert True\n") if False else None

seed("c09-one-node", "C09", [(COL, "                return M + (M % 2)  # why ? the node symmetry I guess ...\n", "                return M + (M % 2) if M > 1 else M\n")],
 "a single node that is the mid point", "the declared order of the mid point configurations is 1 while the true one is 2",
 """
from qmat.qcoeff.collocation import Collocation
assert Collocation(3, "EQUID", "GAUSS").order == 4
for t in ("EQUID", "CHEBY-1", "CHEBY-2", "LEGENDRE"):
    assert Collocation(1, t, "GAUSS").order == 2, t
""")

seed("c10-nonlinear", "C10", [(BUT, "    A[5, :5] = [1631.0 / 55296.0, 175.0 / 512.0, 575.0 / 13824.0, 44275.0 / 110592.0, 253.0 / 4096.0]\n",
 "    A[5, :5] = [1631.0 / 55296.0, 175.0 / 512.0, 575.0 / 13824.0, 44275.0 / 110592.0, 253.0 / 4096.0]\n    c[4] = 0.9\n"),
 ],
 "nonlinear or non autonomous problems", "an abscissa of the Cash-Karp table is wrong, seen only for time dependent right-hand sides",
 """
import numpy as np
from qmat.qcoeff.butcher import CashKarp
g = CashKarp()
assert np.allclose(g.A.sum(axis=1), g.c)
""")

seed("c11-last-node", "C11", [(Q, "        approx = LagrangeApproximation(self.nodes)\n", "        if self.rightIsNode: return 1.*(np.arange(self.nNodes) == self.nNodes-1)\n        approx = LagrangeApproximation(self.nodes)\n")],
 "a table with the node 1 repeated", "the right boundary coefficients take the last of repeated nodes instead of the first",
 """
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
from qmat.lagrange import LagrangeApproximation
for n, cls in RK_SCHEMES.items():
    g = cls()
    if np.sum(g.c == 1) < 2 or np.unique(g.c).size == g.c.size: continue
    assert np.argmax(g.hCoeffs) == np.where(g.c == 1)[0][0], n
""")

seed("c12-final-error", "C12", [(Q, "        return np.linalg.norm(uNum-uExact, ord=np.inf)\n", "        return np.abs(uNum-uExact)[-1]\n")],
 "a problem with the largest error inside the interval", "the error is the one at the final time only",
 """
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES["BE"]()
u = g.solveDahlquist(-5, 1, 4, 20)
e = np.abs(u - np.exp(-5 * np.linspace(0, 4, 21))).max()
assert abs(g.errorDahlquist(-5, 1, 4, 20) - e) < 1e-12
""")

seed("c12-real", "C12", [(Q, "        uNum = np.zeros(nSteps+1, dtype=complex)\n", "        uNum = np.zeros(nSteps+1, dtype=complex if np.imag(lam) else float)\n")],
 "a real coefficient with a complex initial value", "a complex initial value is refused or loses its imaginary part when lambda is real",
 """
import numpy as np
from qmat.qcoeff.butcher import RK_SCHEMES
u = RK_SCHEMES["RK4"]().solveDahlquist(-1, 1j, 1, 10)
assert abs(u[-1] - 1j * np.exp(-1)) < 1e-4
""")

seed("c13-fe-dtau", "C13", [(TS, "    def computeQDelta(self, k=None):\n        QDelta, M, deltas = self.zeros, self.nodes.size, self.deltas\n        for i in range(1, M):\n            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])\n        return QDelta\n\n    @property\n    def dTau(self)->np.ndarray:\n        return self.nodes*0 + self.deltas[0]\n",
 "    def computeQDelta(self, k=None):\n        QDelta, M, deltas = self.zeros, self.nodes.size, self.deltas\n        for i in range(1, M):\n            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])\n        return QDelta\n\n    @property\n    def dTau(self)->np.ndarray:\n        return np.full(self.size, self.nodes[0])\n")],
 "a non-zero left bound", "delta-tau of forward Euler is the first node instead of its distance to the left bound",
 """
import numpy as np
from qmat.qdelta.timestepping import FE
for t in (0, 0.5):
    g = FE(nodes=np.array([0.7, 0.8, 1.0]), tLeft=t)
    assert np.allclose(g.getQDelta().sum(axis=1) + g.dTau, g.nodes - t), t
""")

seed("c13-merged-steps", "C13", [(TS, "        deltas[1:] = np.ediff1d(nodes)\n", "        deltas[1:] = np.ediff1d(nodes).clip(min=1e-8)  # increasing nodes\n")],
 "nodes on a very small interval", "node distances are at least 1e-8, wrong for nodes on a small time scale",
 """
import numpy as np
from qmat.qdelta.timestepping import BE
for s in (1.0, 1e-9):
    x = s * np.array([0.2, 0.5, 1.0])
    assert np.allclose(BE(nodes=x).getQDelta().sum(axis=1) / s, x / s), s
""")

seed("c14-pivot", "C14", [(UN, "            U[i, j] = (A[i, j] - np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, j])) / D[i, i]\n",
  "            U[i, j] = (A[i, j] - np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, j])) / np.copysign(max(abs(D[i, i]), 1e-7), D[i, i])\n")],
 "a matrix with a small pivot", "pivots smaller than 1e-7 are replaced, so the product of the factors is not the matrix for small time scales",
 """
import numpy as np
from qmat.utils.num import lduFactorization
A = np.array([[2., 1, 0], [1, 3, 1], [0, 1, 4]])
for s in (1.0, 1e-8):
    L, D, U = lduFactorization(s * A)
    assert np.allclose(L @ D @ U / s, A), s
""")

seed("c16-override", "C16", [(UT, "            qGenParams.update(params)\n            params = qGenParams\n", "            params.update({k: v for k, v in qGenParams.items() if k not in kwargs})\n")],
 "a positional parameter together with qGen", "a positional parameter does not override the one of the coefficient generator",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.algebraic import GS
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
A = np.arange(9.).reshape(3, 3)
assert np.array_equal(GS(Q=A, qGen=c).getQDelta(), np.tril(A))
assert np.array_equal(GS(A, qGen=c).getQDelta(), np.tril(A))
""")

seed("c16-dtau-last", "C16", [(QD, "                out += [gens[0].dTau]\n", "                out += [gens[-1].dTau]\n")],
 "a list of different approximations with dTau", "delta-tau is the one of the last type of the list",
 """
import numpy as np
from qmat import genQDeltaCoeffs
x = np.array([0.2, 0.5, 1.0])
_, d = genQDeltaCoeffs(["FE", "BE"], dTau=True, nodes=x)
assert np.allclose(d, 0.2), d
""")

seed("c17-sdelta", "C17", [(QD, "        QDelta = self.getQDelta(k)\n        M = QDelta.shape[0]\n        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ QDelta\n",
 "        SDelta = self.getQDelta(k, copy=False)\n        SDelta[1:] -= SDelta[:-1].copy()\n        return SDelta.copy()\n")],
 "node-to-node form followed by another request on the same object", "asking for the node-to-node form modifies the stored matrix",
 """
import numpy as np
from qmat.qdelta.timestepping import BE
g = BE(nodes=np.array([0.2, 0.5, 1.0]))
a = g.getQDelta(); g.getSDelta(); b = g.getQDelta()
assert np.array_equal(a, b)
""")

seed("c17-fejer-cache", "C17", [(LAG, "def computeFejerRule(n):\n", "@functools.lru_cache(maxsize=None)\ndef computeFejerRule(n):\n"), (LAG, "from scipy.special import roots_legendre\n", "import functools\nfrom scipy.special import roots_legendre\n"),
 (LAG, "    # Initialize output variables\n    n = int(n)\n", "    # Initialize output variables (the rule is computed only once per size)\n")],
 "a caller overwriting the arrays of a Fejer rule", "the arrays of a quadrature rule are shared between all later integrations",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation, computeFejerRule
x = np.linspace(0, 1, 5)
n, w = computeFejerRule(5)
w *= 2
Qm = LagrangeApproximation(x).getIntegrationMatrix([(0, 1)])
assert abs(Qm.sum() - 1) < 1e-12
""")

seed("c18-tuple", "C18", [(UT, "        assert isinstance(aliases, list), \\\n", "        assert hasattr(aliases, '__iter__'), \\\n")],
 "registering a class with a string as aliases", "a string of aliases is accepted and registers each of its letters",
 """
from qmat.qdelta import QDELTA_GENERATORS, QDeltaGenerator, register
try:
    @register
    class Foo(QDeltaGenerator):
        aliases = "xyz"
        def computeQDelta(self, k=None): return self.zeros
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
""")

seed("c18-override", "C18", [(UT, "    assert alias not in dico, f\"{alias} alias already registered in {dico}\"\n", "    assert dico.get(alias, cls).__name__ in (cls.__name__, alias), f\"{alias} alias already registered in {dico}\"\n")],
 "registering a class with the name of an existing one", "a class with the name of a registered one silently replaces it",
 """
from qmat.qdelta import QDELTA_GENERATORS, QDeltaGenerator, register
old = QDELTA_GENERATORS["BE"]
try:
    @register
    class BE(QDeltaGenerator):
        def computeQDelta(self, k=None): return self.zeros
except AssertionError:
    pass
assert QDELTA_GENERATORS["BE"] is old
""")

seed("c19-local-error", "C19", [(US, "                    monitors[\"errors\"][k+1, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))\n", "                    monitors[\"errors\"][k+1, i] = uNodes - uNum[i]*np.exp(lam*dt*nodes)\n")],
 "monitored errors from the second step on", "monitored errors after sweeps are relative to the numerical step value",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
u, m = solveDahlquistSDC(1j, 1, 3, 4, 2, c.Q, np.diag(c.nodes), monitors=["errors"])
e = u[1:] - np.exp(1j * np.linspace(0, 3, 5)[1:])
assert np.allclose(m["errors"][-1][:, -1], e)
""")

seed("c19-first-matrix", "C19", [(US, "            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes\n", "            b = uNum[i] + lam*dt*(Q-QDelta[0 if k < 2 else k]) @ uNodes\n")],
 "matrices that change between the first two sweeps", "the second sweep uses the explicit part of the first matrix with the implicit part of the second one",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
D = np.array([np.diag(c.nodes) / k for k in (1, 2, 3)])
u = solveDahlquistSDC(1j, 1, 3, 1, 2, c.Q, D[:2])
z = 3j
v = np.ones(3, dtype=complex)
for d in D[:2]: v = np.linalg.solve(np.eye(3) - z * d, 1 + z * (c.Q - d) @ v)
assert np.allclose(u[-1], v[-1])
""")

seed("c20-bonus", "C20", [(US, "            if nSweeps == 3 and nNodes == 4 and nodeType == \"EQUID\":\n", "            if nSweeps == 3 and nNodes >= 4 and nodeType == \"EQUID\":\n")],
 "five or more equidistant nodes with TRAPAR", "a bonus order is predicted for more nodes than it was observed for",
 """
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
for q in ("GAUSS", "RADAU-RIGHT"):
    assert getOrderSDC(Collocation(6, "EQUID", q), 3, "TRAPAR", "QUADRATURE") == 5
""")

seed("c21-order-zero", "C21", [(UN, "    if pOrder is None: pOrder", "    if not pOrder: pOrder")],
 "degree zero", "degree zero is taken as the default (interpolation)",
 """
import numpy as np
from qmat.utils.num import getExtrapolationMatrix
P = getExtrapolationMatrix([0, 0.5, 1], [2.0], pOrder=0)
assert np.allclose(P, 1/3)
""")


# ---------------------------------------------------------------------------------------------------------
# second batch
# ---------------------------------------------------------------------------------------------------------
seed("c01-tolerance", "C01", [(NODES, "eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]", "eigh_tridiagonal(alpha, np.sqrt(beta[1:]), lapack_driver='stebz', tol=1e-10)[0]")],
 "comparing inner nodes to more than nine digits", "nodes are computed by bisection to ten digits",
 """
import numpy as np
from qmat.nodes import NodesGenerator
for n in (3, 6, 20):
    x = NodesGenerator("LEGENDRE", "GAUSS").getNodes(n)
    assert np.abs(x - np.polynomial.legendre.leggauss(n)[0]).max() < 1e-14, n
""")

seed("c02-memory-order", "C02", [(LAG, "self.getInterpolationMatrix(t.ravel()).dot(fValues)", "self.getInterpolationMatrix(t.ravel(order='K')).dot(fValues)")],
 "an array of times that is not contiguous in C order", "values of a transposed array of times come out permuted",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
x = np.linspace(0, 1, 4)
p = LagrangeApproximation(x, fValues=x)
t = np.arange(6).reshape(2, 3) / 6
assert np.allclose(p(t), t)
assert np.allclose(p(t.T), t.T)
""")

seed("c02-real-values", "C02", [(LAG, "        fValues = np.asarray(fValues)\n        values =", "        fValues = np.asarray(fValues).real\n        values =")],
 "complex function values", "the imaginary part of the values is dropped",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
x = np.linspace(0, 1, 4)
assert np.allclose(LagrangeApproximation(x)(0.3, fValues=x + 2j * x), 0.3 + 0.6j)
""")

seed("c03-antisym", "C03", [(LAG, "        integrand *= (bj - aj) / 2\n", "        integrand *= np.maximum(bj - aj, 0) / 2  # nothing to integrate on empty intervals\n")],
 "an interval with decreasing bounds", "reversed intervals give zero",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
x = np.linspace(0, 1, 4)
Q = LagrangeApproximation(x).getIntegrationMatrix([(0, 1), (1, 0)])
assert abs((Q @ x)[1] + 0.5) < 1e-12
""")

seed("c03-scipy-points", "C03", [(LAG, "roots_legendre((self.n + 1) // 2)", "roots_legendre(min((self.n + 1) // 2, 20))")],
 "more than forty points with the Scipy rule", "the Scipy Gauss rule is limited to twenty points",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
n = 50
x = -np.cos(np.pi * np.arange(n) / (n - 1))
Q = LagrangeApproximation(x).getIntegrationMatrix([(-1, 1)], numQuad="LEGENDRE_SCIPY")
m = 48
assert abs((Q @ np.cos(m * np.arccos(x)))[0] - 2 / (1 - m**2)) < 1e-10
""")

seed("c05-span", "C05", [(LAG, "        diffs[np.diag_indices_from(diffs)] = 1\n", "        diffs[np.abs(diffs) < 1e-14] = 1\n")],
 "points closer than 1e-14", "on very small scales the differences are all taken as one",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
for s in (1, 1e-15):
    w = LagrangeApproximation(s * np.array([0, 1, 3.]), weightComputation="STABLE").weights
    assert np.allclose(w / w[0], [1, -1.5, 0.5]), s
""")

seed("c06-close", "C06", [(LAG, "np.max(np.where(self.points == pts))", "np.max(np.where(np.isclose(self.points, pts)))")],
 "right strategy with distinct points that are close", "close but distinct points are taken as the same one",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
for s in (1, 1e-9):
    x = s * np.array([0, 1, 1, 2.])
    P = LagrangeApproximation(x, duplicates="USE_RIGHT").getInterpolationMatrix([0.5 * s])
    assert abs(P.sum() - 1) < 1e-12 and P[0, 1] == 0, (s, P)
""")

seed("c07-stride", "C07", [(LAG, "            closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])\n",
 "            first = np.clip(np.searchsorted(inPoints, outPoints[i]) - order // 2, 0, len(inPoints) - order)\n            closestPointsIdx = np.arange(first, first + order)\n")],
 "grids that are not equidistant, or odd orders", "the stencil is centred by index instead of by distance",
 """
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix
x = np.array([0, 1, 1.1, 1.2, 5, 9.])
A = getSparseInterpolationMatrix(x, np.array([1.15, 4.0]), 2).toarray()
assert set(np.nonzero(A[1])[0]) == {3, 4}
A = getSparseInterpolationMatrix(x, np.array([1.3]), 2).toarray()
assert set(np.nonzero(A[0])[0]) == {2, 3}
""")

seed("c08-scale", "C08", [(COL, "        nodes *= (tRight-tLeft)\n        nodes += tLeft\n", "        nodes *= tRight\n        nodes += tLeft*(1-nodes/tRight if tLeft else 0)\n"),
 (COL, "        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()\n", "        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel() if quadType != \"RADAU-RIGHT\" or tLeft == 0 \\\n            else Q[-1]*(tRight/nodes[-1]) - Q[0]*0\n")],
 "an interval whose right bound is zero", "collocation on an interval that ends at zero fails or is wrong",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "GAUSS", tLeft=-1, tRight=0)
assert np.allclose(c.weights.sum(), 1) and (np.diff(c.nodes) > 0).all() and c.nodes[0] > -1
""")

seed("c08-hcoeffs", "C08", [(COL, "        self.tLeft, self.tRight = tLeft, tRight\n", "        self.tLeft, self.tRight = tLeft, max(tLeft, 1 if tRight < 1 and quadType == 'GAUSS' else tRight)\n")],
 "inner nodes only on an interval that ends before one", "the coefficients for the right boundary of inner nodes are taken at one",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "GAUSS", tRight=0.5)
assert np.allclose(c.hCoeffs @ c.nodes, 0.5)
""")

seed("c09-radau-order", "C09", [(COL, "                return M + (M % 2)  # why ? the node symmetry I guess ...\n", "                return M + (M % 2 and M < 12)  # why ? the node symmetry I guess ...\n")],
 "symmetric node sets of odd size from thirteen on", "the gain of symmetry is forgotten from thirteen nodes on",
 """
from qmat.qcoeff.collocation import Collocation
assert Collocation(5, "EQUID", "GAUSS").order == 6
assert Collocation(13, "EQUID", "GAUSS").order == 14
""")

seed("c11-n2n-embedded", "C11", [(Q, "        out = [self.nodes.copy(), self.weights.copy(), mat.copy()]\n", "        out = [self.nodes.copy(), self.weights.copy(), mat.copy()]\n"),
 (Q, "            out[1] = np.vstack([out[1], self.weightsEmbedded])\n", "            out[1] = np.vstack([out[1], self.weightsEmbedded if form == \"Z2N\" else out[1]])\n")],
 "embedded weights with the node-to-node form", "the embedded weights of the node-to-node form are the main ones",
 """
import numpy as np
from qmat import genQCoeffs
a = genQCoeffs("CashKarp", embedded=True)[1]
b = genQCoeffs("CashKarp", embedded=True, form="N2N")[1]
assert np.array_equal(a, b)
""")

seed("c11-h-end", "C11", [(Q, "        return approx.getInterpolationMatrix([1]).ravel()\n", "        return approx.getInterpolationMatrix([max(self.nodes)]).ravel()\n")],
 "a scheme whose nodes stop before the end of the step", "coefficients for the right boundary are taken at the last node",
 """
import numpy as np
from qmat.qcoeff.butcher import SDIRK2_2, RK21, GAUSS_LG
for c in (GAUSS_LG, RK21):
    g = c()
    assert np.allclose(g.hCoeffs @ g.nodes, 1), c
""")

seed("c12-error-embedded", "C12", [(Q, "            uNum = self.solveDahlquist(lam, u0, tEnd, nSteps, useEmbeddedWeights=useEmbeddedWeights)\n", "            uNum = self.solveDahlquist(lam, u0, tEnd, nSteps, useEmbeddedWeights=useEmbeddedWeights and nSteps > 1)\n")],
 "the error of an embedded method over one step", "the error of embedded methods over one single step is the one of the main method",
 """
from qmat.qcoeff.butcher import HEUN2, CashKarp
for g in (HEUN2(), CashKarp()):
  for n in (3, 1):
    u = g.solveDahlquist(-1, 1, 1, n, useEmbeddedWeights=True)
    assert g.errorDahlquist(-1, 1, 1, n, useEmbeddedWeights=True) == g.errorDahlquist(-1, 1, 1, n, uNum=u), (g, n)
""")

seed("c13-trap-left", "C13", [(TS, "        return self.nodes*0 + self.deltas[0]/2.0\n", "        return self.nodes*0 + self.nodes[0]/2.0\n")],
 "a left bound other than zero", "delta-tau of the trapezoidal rule ignores the left bound",
 """
import numpy as np
from qmat.qdelta.timestepping import TRAP
g = TRAP(nodes=np.array([1.5, 2.0]), tLeft=1)
assert np.allclose(g.getQDelta().sum(axis=1) + g.dTau, [0.5, 1.0])
""")

seed("c13-coll-left", "C13", [(TS, "        self.tLeft:float = tLeft\n", "        self.tLeft:float = tLeft if tLeft < nodes[0] else 0\n")],
 "a first node on a left bound other than zero", "the left bound is taken as zero when it is a node",
 """
import numpy as np
from qmat.qdelta.timestepping import BEPAR
assert np.allclose(np.diag(BEPAR(nodes=np.array([1, 1.5, 2.0]), tLeft=1).getQDelta()), [0, 0.5, 1])
""")

seed("c14-small-pivot", "C14", [(UN, "/ D[i, i]\n\n            # Compute elements for U above", "/ (D[i, i] if abs(D[i, i]) > 1e-8 else 1)\n\n            # Compute elements for U above")],
 "matrices with pivots below 1e-8", "the factors of matrices on small scales are wrong",
 """
import numpy as np
from qmat.utils.num import lduFactorization
A = np.array([[1.0, 2], [3, 4]])
for s in (1, 1e-10):
    L, D, U = lduFactorization(s * A)
    assert np.allclose(L @ D @ U / s, A), s
""")

seed("c14-integers", "C14", [(UN, "    L = np.eye(n)\n    D = np.zeros((n, n))\n    U = np.eye(n)\n", "    L = np.eye(n, dtype=A.dtype)\n    D = np.zeros((n, n), dtype=A.dtype)\n    U = np.eye(n, dtype=A.dtype)\n")],
 "a matrix of integers", "the factors of a matrix of integers are truncated to integers",
 """
import numpy as np
from qmat.utils.num import lduFactorization
A = np.array([[2, 1], [1, 2]])
L, D, U = lduFactorization(A)
assert np.allclose(L @ D @ U, A)
""")

seed("c14-gs-diag", "C14", [(ALG, "        return np.diag(np.diag(self.Q))\n", "        return np.diag(np.abs(np.diag(self.Q)))\n")],
 "a quadrature matrix with a negative diagonal entry", "negative diagonal entries change sign",
 """
import numpy as np
from qmat.qdelta.algebraic import QPar
assert np.array_equal(QPar(Q=np.array([[-1, 2], [3, 4.]])).getQDelta(), np.diag([-1, 4.]))
""")

seed("c15-jumper-cap", "C15", [(DIAG, "        divider = 1 if k == 1 else 2*(k-1)\n", "        divider = 1 if k == 1 else 2*min(k-1, self.size)\n")],
 "more sweeps than nodes plus one", "the divisor stops growing after as many sweeps as nodes",
 """
import numpy as np
from qmat.qdelta.diag import FlexJumper
g = FlexJumper(nodes=np.array([0.5, 1]))
for k in (2, 3, 4, 5): assert np.allclose(g.getQDelta(k), np.diag([0.5, 1]) / (2 * (k - 1))), k
""")

seed("c15-flex-last", "C15", [(DIAG, "        if k <= self.size:\n            return np.diag(self.coll.nodes/k)\n", "        if k <= self.size or self.size == 1:\n            return np.diag(self.coll.nodes/min(k, 9))\n")],
 "a collocation method with ten or more nodes, at the tenth sweep", "the flexible coefficients stop at the ninth divisor",
 """
import numpy as np
from qmat.qdelta.diag import MIN_SR_FLEX
g = MIN_SR_FLEX(11, "LEGENDRE", "RADAU-RIGHT")
for k in (1, 9, 10, 11): assert np.allclose(np.diag(g.getQDelta(k)), g.coll.nodes / k), k
""")

seed("c16-list-form", "C16", [(QD, "                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]\n", "                [gen.genCoeffs(k+1, \"Z2N\" if k and gens[k-1].isKDependent() else form) for k, gen in enumerate(gens)]\n")],
 "a list of types with a sweep dependent one before another one, in node-to-node form", "the type after a sweep dependent one ignores the form",
 """
import numpy as np
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
a = genQDeltaCoeffs(["MIN-SR-FLEX", "BE", "BE"], form="N2N", qGen=c)
b = genQDeltaCoeffs("BE", form="N2N", qGen=c)
assert np.allclose(a[1], b) and np.allclose(a[2], b)
""")

seed("c16-count", "C16", [(QD, "                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]\n", "                [gen.genCoeffs(qDeltaType[:k+1].count(qDeltaType[k]), form) for k, gen in enumerate(gens)]\n")],
 "a list mixing a sweep dependent type with another one before it", "sweep dependent types count their own sweeps instead of all sweeps",
 """
import numpy as np
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
c = Collocation(4, "LEGENDRE", "RADAU-RIGHT")
a = genQDeltaCoeffs(["BE", "MIN-SR-FLEX"], nSweeps=3, qGen=c)
assert np.allclose(np.diag(a[1]), c.nodes / 2) and np.allclose(np.diag(a[2]), c.nodes / 3)
""")

seed("c16-sorted-k", "C16", [(QD, "            k = list(k)\n", "            k = sorted(set(k))\n")],
 "a list of sweeps with repetitions or not in order", "lists of sweeps are sorted and repetitions dropped",
 """
import numpy as np
from qmat.qdelta.diag import Jumper
g = Jumper(nodes=np.array([0.5, 1]))
a = g.genCoeffs(k=[2, 1, 2])
assert a.shape == (3, 2, 2) and np.allclose(a[0], g.getQDelta(2))
""")

seed("c17-nodes-alias", "C17", [(COL, "    @property\n    def nodes(self)->np.ndarray: return self._nodes\n", "    @property\n    def nodes(self)->np.ndarray: return self._nodes\n\n    _cache = {}\n"),
 (COL, "        nodes = NodesGenerator(nodeType, quadType).getNodes(nNodes)\n        nodes += 1\n        nodes /= 2\n        # Scale to [tLeft, tRight]\n        nodes *= (tRight-tLeft)\n        nodes += tLeft\n",
 "        try:\n            nodes = self._cache[nNodes, nodeType, quadType]\n        except KeyError:\n            nodes = self._cache[nNodes, nodeType, quadType] = (NodesGenerator(nodeType, quadType).getNodes(nNodes) + 1)/2\n        # Scale to [tLeft, tRight]\n        if tLeft != 0 or tRight != 1:\n            nodes = nodes*(tRight-tLeft) + tLeft\n")],
 "a caller overwriting the nodes of a collocation object, then building another one of that kind", "the nodes of collocation objects on the unit interval are shared between objects",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
a = Collocation(3, "LEGENDRE", "GAUSS")
x = a.nodes.copy()
n = a.nodes; n *= 2
b = Collocation(3, "LEGENDRE", "GAUSS")
assert np.allclose(b.nodes, x)
""")

seed("c17-flex-shared", "C17", [(DIAG, "                self._QDelta_MIN_SR_S = super().computeQDelta()\n            return self._QDelta_MIN_SR_S\n",
 "                self._QDelta_MIN_SR_S = super().computeQDelta()\n            SHARED[self.size, self.nodeType, self.quadType] = self._QDelta_MIN_SR_S\n            return SHARED[self.size, self.nodeType, self.quadType]\n"),
 (DIAG, "                self._QDelta_MIN_SR_S\n            except", "                self._QDelta_MIN_SR_S = SHARED.get((self.size, self.nodeType, self.quadType)) if (self.size, self.nodeType, self.quadType) in SHARED else self._QDelta_MIN_SR_S\n            except"),
 (DIAG, "def check(k):\n", "SHARED = {}\n\n\ndef check(k):\n")],
 "a caller asking for uncopied stiff coefficients and overwriting them, then another object", "the stiff coefficients are shared between all objects of the same configuration",
 """
import numpy as np
from qmat.qdelta.diag import MIN_SR_FLEX
a = MIN_SR_FLEX(3, "LEGENDRE", "RADAU-RIGHT")
r = a.getQDelta(5)
a.getQDelta(5, copy=False)[:] = 0
b = MIN_SR_FLEX(3, "LEGENDRE", "RADAU-RIGHT")
assert np.allclose(b.getQDelta(5), r)
""")

seed("c17-k-shared", "C17", [(QD, "                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta\n", "                self._QDelta = {k: QDelta, None: QDelta} if self._K_DEPENDENT else QDelta\n")],
 "asking for a later sweep first, then without sweep number", "the matrix of the first requested sweep is given when no sweep number is given",
 """
import numpy as np
from qmat.qdelta.diag import Jumper
g = Jumper(nodes=np.array([0.5, 1]))
g.getQDelta(3)
assert np.allclose(g.getQDelta(), np.diag([0.25, 0.5]))
""")

seed("c18-module", "C18", [(UT, "cls.__module__.endswith(\".\"+module)", "module in cls.__module__")],
 "asking for the classes of a module whose name is part of other names", "classes of modules containing the given name are listed too",
 """
from qmat.utils import getClasses
from qmat import QDELTA_GENERATORS
assert getClasses(QDELTA_GENERATORS, module="qdelta") == {}
assert getClasses(QDELTA_GENERATORS, module="step") == {}
""")

seed("c18-square", "C18", [(BUT, "    assert cls.A.shape == (cls.c.size, cls.c.size), \\\n", "    assert cls.A.shape[-1] == cls.c.size, \\\n")],
 "registering a table with a matrix that is not square", "tables with matrices that are not square are accepted",
 """
import numpy as np
from qmat.qcoeff.butcher import RK, registerRK
try:
    @registerRK
    class Bad(RK):
        A = [[0, 0], [1, 0], [1, 0]]
        b = [0.5, 0.5]
        c = [0, 1]
        @property
        def order(self): return 1
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
""")

seed("c19-early", "C19", [(US, "            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes\n", "            if np.linalg.norm(uNum[i] + lam*dt*Q @ uNodes - uNodes, np.inf) < 1e-9: break  # converged\n            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes\n")],
 "enough sweeps to converge, or data on a small scale", "sweeps stop at an absolute residual, and later monitors stay zero",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
a = solveDahlquistSDC(1j, 1, 1, 1, 2, c.Q, np.diag(c.nodes))
b = solveDahlquistSDC(1j, 1e-12, 1, 1, 2, c.Q, np.diag(c.nodes))
assert np.allclose(b * 1e12, a)
""")

seed("c19-guess-error", "C19", [(US, "                monitors[\"errors\"][0, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))\n", "                monitors[\"errors\"][0, i] = uNodes - u0*np.exp(lam*times[i])\n")],
 "the errors monitored before the first sweep", "errors before the first sweep are those at the start of the step",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
u, m = solveDahlquistSDC(1j, 1, 1, 1, 1, c.Q, np.diag(c.nodes), monitors=["errors"])
assert np.allclose(m["errors"][0, 0], 1 - np.exp(1j * c.nodes))
""")

seed("c20-trapar-last", "C20", [(US, "            if nSweeps == 4 and nNodes == 4 and nodeType in [\"EQUID\", \"CHEBY-1\", \"CHEBY-2\", \"CHEBY-3\", \"CHEBY-4\"]:\n", "            if nSweeps == 4 and nNodes >= 4 and nodeType in [\"EQUID\", \"CHEBY-1\", \"CHEBY-2\", \"CHEBY-3\", \"CHEBY-4\"]:\n")],
 "five or more nodes with TRAPAR and four sweeps", "a bonus order is predicted for more nodes than it was observed for",
 """
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
assert getOrderSDC(Collocation(7, "CHEBY-1", "RADAU-RIGHT"), 4, "TRAPAR", "LASTNODE") == 5
""")

seed("c20-limit2", "C20", [(US, "    order = min(maxOrder, order)\n", "    order = min(maxOrder if nSweeps < 5 else max(maxOrder, 2*nNodes-2), order)\n")],
 "many sweeps for a collocation method of order equal to its number of nodes", "from five sweeps on the limit of the collocation method is that of Legendre nodes",
 """
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
c = Collocation(5, "CHEBY-3", "GAUSS")
assert getOrderSDC(c, 9, "BE", "QUADRATURE") == c.order
""")

seed("c21-integers", "C21", [(UN, "    nSteps = np.asarray(nSteps)\n", "    nSteps = np.asarray(nSteps, dtype=int)\n")],
 "step counts that are not integers", "numbers of steps (or inverse step sizes) are truncated to integers",
 """
import numpy as np
from qmat.utils.num import numericalOrder
n = np.array([1.5, 2.5, 3.7])
assert abs(numericalOrder(n, n**-2)[0] - 2) < 1e-10
""")

seed("c21-default", "C21", [(UN, "pOrder = np.size(nodes)-1", "pOrder = min(np.size(nodes)-1, 6)")],
 "more than seven nodes and the default degree", "the default degree is limited to six",
 """
import numpy as np
from qmat.utils.num import getExtrapolationMatrix
x = np.linspace(-1, 1, 10)
assert abs((getExtrapolationMatrix(x, [1.1]) @ x**9)[0] - 1.1**9) < 1e-6
""")


seed("c10-heun", "C10", [(BUT, "    c = [0, 1.]\n    b2 = [1, 0]\n", "    c = [0, 1.]\n    b2 = [0, 1]\n")],
 "the coefficients of the embedded method of Heun's scheme", "the embedded method of Heun's scheme takes the last stage instead of the first",
 """
import numpy as np
from qmat.qcoeff.butcher import HEUN2
assert np.array_equal(HEUN2().weightsEmbedded, [1, 0])
""")

seed("c15-magic", "C15", [(MINC, "                0.0, 0.2113181799416633, 0.3943250920445912,\n", "                0.0, 0.2113181799416633, 0.3934250920445912,\n")],
 "the tabulated MIN3 coefficients for three Lobatto nodes", "two digits of a tabulated coefficient are swapped",
 """
import numpy as np
from qmat.qdelta.diag import MIN3
assert abs(np.diag(MIN3(3, "LEGENDRE", "LOBATTO").getQDelta())[2] - 0.3943250920445912) < 1e-6
""")

seed("c01-cached-coeffs", "C01", [(NODES, "        alpha, beta = self.getOrthogPolyCoefficients(nNodes)\n", """        if nNodes > 20:  # costly, keep the coefficients
            key = self.nodeType, nNodes
            if key not in self._COEFFS:
                self._COEFFS[key] = self.getOrthogPolyCoefficients(nNodes)
            alpha, beta = self._COEFFS[key]
        else:
            alpha, beta = self.getOrthogPolyCoefficients(nNodes)
"""), (NODES, "    def getNodes(self, nNodes):\n", "    _COEFFS = {}\n\n    def getNodes(self, nNodes):\n")],
 "the same distribution and size (above 20) asked for a Radau or Lobatto, then another quadrature type", "recurrence coefficients are kept between calls but modified in place for the fixed end points",
 """
import numpy as np
from qmat.nodes import NodesGenerator
a = NodesGenerator("LEGENDRE", "GAUSS").getNodes(25)
NodesGenerator("LEGENDRE", "LOBATTO").getNodes(25)
b = NodesGenerator("LEGENDRE", "GAUSS").getNodes(25)
assert np.abs(a - b).max() < 1e-14
""")

seed("c02-float-times", "C02", [(LAG, "        times = np.asarray(times)\n        assert", "        times = np.asarray(times)\n        if times.size > 64: times = np.round(times, 13)\n        assert")],
 "more than 64 times on a small scale or next to points", "many times are rounded to 13 decimals",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
s = 1e-12
x = s * np.linspace(0, 1, 4)
t = s * np.linspace(0, 1, 101)
P = LagrangeApproximation(x).getInterpolationMatrix(t)
assert np.abs(P @ (x / s)**2 - (t / s)**2).max() < 1e-9
""")

seed("c03-rounded", "C03", [(LAG, "        aj, bj = intervals[:, 0][:, None], intervals[:, 1][:, None]\n", "        intervals, back = np.unique(np.round(intervals, 12 if len(intervals) > 20 else 300), axis=0, return_inverse=True)  # each interval once\n        aj, bj = intervals[:, 0][:, None], intervals[:, 1][:, None]\n"),
   (LAG, "        Q = integrand.sum(axis=-1).T\n", "        Q = integrand.sum(axis=-1).T[np.ravel(back)]\n")],
 "more than twenty intervals on a scale below 1e-10", "bounds are rounded to twelve decimals",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
s = 1e-9
x = s * np.linspace(0, 1, 4)
Q = LagrangeApproximation(x).getIntegrationMatrix([(0, s / 3)]*25)
assert abs((Q @ np.ones(4))[0] / (s / 3) - 1) < 1e-10
""")

seed("c04-cut", "C04", [(LAG, "        base *= iDiff\n", "        base *= iDiff\n        base[np.abs(base) < 1e-14] = 0  # no noise\n")],
 "points on a scale above 1e14, or entries of very different size", "small entries of the derivative matrices are dropped",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
s = 1e16
x = s * np.linspace(0, 1, 4)
D = LagrangeApproximation(x).getDerivativeMatrix()
assert np.abs(D @ x - 1).max() < 1e-10
""")

seed("c06-triple", "C06", [(LAG, "                np.max(np.where(self.points == pts)) for pts in values]", "                np.where(self.points == pts)[0][:5][-1] for pts in values]")],
 "a point that occurs six times or more with USE_RIGHT", "the fifth instead of the last occurrence is used",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
P = LagrangeApproximation([0., 1, 1, 1, 1, 1, 1, 2], duplicates="USE_RIGHT").getInterpolationMatrix([1.0])
assert P[0, 6] == 1 and P[0, 5] == 0
""")

seed("c07-reuse-ends", "C07", [(LAG, "                np.allclose(closestPoints, lastClosestPoints, rtol=0, atol=1e-13*np.ptp(closestPoints)):", "                np.allclose(closestPoints[[0, -1]], lastClosestPoints[[0, -1]], rtol=0, atol=1e-13*np.ptp(closestPoints)):")],
 "two successive output points with the same distances to the outer but not to the inner points of the stencil", "the row of the previous output point is used although inner points differ",
 """
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix
x = np.array([0, 0.9, 2.0, 3.2, 4.0])
A = getSparseInterpolationMatrix(x, np.array([1.0, 3.0]), 3).toarray()
assert np.abs(A @ x**2 - np.array([1.0, 9.0])).max() < 1e-10, A @ x**2
""")

seed("c07-periods", "C07", [(LAG, "            pathC = (inPoints - outPoints[i] % gridPeriod)\n", "            pathC = (inPoints - outPoints[i] % gridPeriod)\n            if order == len(inPoints): pathL, pathR = pathC, pathC  # all points anyway\n")],
 "a periodic grid where all points are used", "images of the points in the neighbour periods are not used",
 """
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix
x = np.arange(4) / 4
P = lambda s: getSparseInterpolationMatrix(x, np.array([0.05 + s]), 4, 1.0).toarray()[0]
t = np.array([-0.25, 0, 0.25, 0.5])      # images next to 0.05
w = P(0)
assert abs(w @ np.array([0, 0.25, 0.5, -0.25])**2 - 0.0025) < 1e-10, w
""")

seed("c08-close-right", "C08", [(COL, "    def rightIsNode(self)->bool: return self.nodes[-1] == self.tRight\n", "    def rightIsNode(self)->bool: return bool(np.isclose(self.nodes[-1], self.tRight))\n")],
 "an interval far from zero or very short, or many Gauss nodes", "the right boundary is taken for a node when the last node is close to it",
 """
from qmat.qcoeff.collocation import Collocation
assert not Collocation(3, "LEGENDRE", "GAUSS", 0, 1).rightIsNode
assert not Collocation(3, "LEGENDRE", "GAUSS", 0, 1e-9).rightIsNode
""")

seed("c09-many", "C09", [(COL, "            if quadType in [\"GAUSS\", \"LOBATTO\"] \\\n", "            if quadType in [\"GAUSS\", \"LOBATTO\"] and M < 8 \\\n")],
 "nine or a higher odd number of equidistant or Chebyshev nodes", "the additional order of symmetric nodes is not declared",
 """
from qmat.qcoeff.collocation import Collocation
for n in (3, 5, 9):
    assert Collocation(n, "CHEBY-1", "GAUSS").order == n + 1, n
""")

seed("c11-padding-embedded", "C11", [(BUT, "                    self.b2 = np.array(self.b2.tolist() + [0])\n", "                    self.b2 = np.array([0] + self.b2.tolist())\n")],
 "embedded weights of a scheme padded on the right", "the zero is added on the wrong side of the embedded weights",
 """
import numpy as np
from qmat import Q_GENERATORS
a, b = Q_GENERATORS["HEUN2"](), None
for nm in ("RK53", "CashKarp", "BS23", "HeunEuler"):
    if nm in Q_GENERATORS and Q_GENERATORS[nm]().b2 is not None:
        g, p = Q_GENERATORS[nm](), Q_GENERATORS[nm](padding="RIGHT")
        assert np.array_equal(p.weightsEmbedded[:-1], g.weightsEmbedded) and p.weightsEmbedded[-1] == 0
        b = 1
assert b
""")

seed("c12-zero-solution", "C12", [(Q, "        if uNum is None:\n            uNum = self.solveDahlquist(", "        if uNum is None or not np.any(uNum):\n            uNum = self.solveDahlquist(")],
 "the error of a given solution that is zero everywhere", "a given zero solution is taken as missing",
 """
import numpy as np
from qmat import Q_GENERATORS
g = Q_GENERATORS["RK4"]()
assert abs(g.errorDahlquist(-1, 1, 1, 4, uNum=np.zeros(5)) - 1) < 1e-12
assert abs(g.errorDahlquist(-1, 1, 1, 4, uNum=np.ones(5)) - (1 - np.exp(-1))) < 1e-12
""")

seed("c13-soe-uniform", "C13", [(TS, "            LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]\n            for i in range(M-1)\n            ]\n", "            LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]\n            for i in range(M-1)\n            ]\n        if M > 6 and np.allclose(self.deltas[1:], self.deltas[1]):  # uniform grid\n            alpha = [alpha[-1]] * (M-1)\n")],
 "uniform nodes (more than six) whose distance to the left bound is another one", "the first step of the leap-frog scheme uses the coefficients of a uniform grid",
 """
import numpy as np
from qmat.qdelta.timestepping import SOE
for M in (5, 8):
    x = 0.7 + np.arange(M)
    D = SOE(x, tLeft=0).getQDelta()
    # marching: (u1 - u_{-1} stencil exact for the derivative at the first node)
    from qmat.lagrange import LagrangeApproximation
    a = LagrangeApproximation([0, x[0], x[1]]).getDerivativeMatrix()[1]
    assert abs(D[1, 0] - 1 / a[2]) < 1e-12
""")

seed("c14-clean", "C14", [(ALG, "        return U.T\n", "        U[abs(U) < 1e-13] = 0  # clean round-off\n        return U.T\n")],
 "matrices with entries below 1e-13 (short intervals)", "small entries of the LU approximation are dropped",
 """
import numpy as np
from qmat.qdelta.algebraic import LU
from qmat.qcoeff.collocation import Collocation
for T in (1, 1e-14):
    c = Collocation(3, "LEGENDRE", "RADAU-RIGHT", 0, T)
    D = LU(c.Q).getQDelta() / T
    K = np.eye(3) - np.linalg.solve(D, c.Q / T)
    assert np.abs(np.linalg.matrix_power(K, 3)).max() < 1e-10
""")

seed("c15-srs-large", "C15", [(DIAG, "            if a is None:\n", "            if a is None or M > 12:\n")],
 "more than twelve nodes for the stiff diagonal coefficients", "the start of the iteration is too far from the solution for larger sizes",
 """
import numpy as np
from qmat.qdelta.diag import MIN_SR_S
from qmat.qcoeff.collocation import Collocation
for n in (4, 13, 14):
    for q in ("RADAU-RIGHT", "GAUSS"):
        c = Collocation(n, "LEGENDRE", q)
        d = np.diag(MIN_SR_S(n, "LEGENDRE", q).getQDelta())
        assert np.all(d > 0) and np.all(np.diff(d) > 0), (n, q, d)
""")

seed("c16-positional", "C16", [(UT, "            qGenParams.update(params)\n", "            qGenParams.update(kwargs)\n")],
 "a positional parameter given together with a coefficient generator", "parameters given by position do not override the ones of the generator",
 """
import numpy as np
from qmat.qdelta.timestepping import BE
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
assert np.array_equal(BE(nodes=[0.1, 0.2], qGen=c).getQDelta(), BE([0.1, 0.2]).getQDelta())
assert np.array_equal(BE([0.1, 0.2], qGen=c).getQDelta(), BE([0.1, 0.2]).getQDelta())
""")

seed("c17-stability-cache", "C17", [(Q, "        dt = tEnd/nSteps\n        A = np.eye(nodes.size) - lam*dt*Q\n        for i in range(nSteps):\n            b = np.ones(nodes.size)*uNum[i]\n            uStages = np.linalg.solve(A, b)\n            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n",
"""        dt = tEnd/nSteps
        try:
            cache = self._stages
        except AttributeError:
            cache = self._stages = {}
        key = abs(lam*dt)
        if key not in cache:
            A = np.eye(nodes.size) - lam*dt*Q
            cache[key] = np.linalg.solve(A, np.ones(nodes.size))
        for i in range(nSteps):
            uNum[i+1] = uNum[i] + lam*dt*weights.dot(cache[key]*uNum[i])
""")],
 "two requests on one generator with coefficients of equal modulus times step", "stage values of a former request with another coefficient of equal modulus are used",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
c.solveDahlquist(1j, 1, 1, 2)
u = c.solveDahlquist(-1, 1, 1, 2)
assert np.abs(u - np.exp(-np.linspace(0, 1, 3))).max() < 1e-3
""")

seed("c18-kwargs", "C18", [(UT, "        assert par.kind == par.VAR_KEYWORD\n", "        assert par.kind in (par.VAR_KEYWORD, par.KEYWORD_ONLY)\n")],
 "a class whose constructor has a keyword-only parameter named kwargs", "a constructor with a keyword-only parameter named kwargs is taken as generic",
 """
import numpy as np
from qmat.qdelta import QDeltaGenerator, register
class Bad(QDeltaGenerator):
    def __init__(self, Q, *, kwargs=None):
        self.Q = Q
    def computeQDelta(self, k=None):
        return self.Q
try:
    register(Bad)
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
""")

seed("c19-shared-buffer", "C19", [(US, "            tmp[key] = np.zeros((nSweeps+1, nSteps, nNodes), dtype=complex)\n", "            tmp[key] = np.zeros((nSweeps+1, nSteps, nNodes), dtype=complex) if not tmp or nSteps < 4 else tmp[next(iter(tmp))]\n")],
 "both monitors together for four or more steps", "both monitors share one array",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
D = np.diag(c.nodes)
for n in (2, 5):
    both = solveDahlquistSDC(-1, 1, 1, n, 2, c.Q, D, monitors=["residuals", "errors"])[1]
    one = solveDahlquistSDC(-1, 1, 1, n, 2, c.Q, D, monitors=["residuals"])[1]
    assert np.allclose(both["residuals"], one["residuals"], atol=1e-14, rtol=0)
""")

seed("c20-cap-first", "C20", [(US, "    if stepUpdate == \"QUADRATURE\":\n        order += 1\n\n    order = min(maxOrder, order)\n", "    if stepUpdate == \"QUADRATURE\":\n        order += 1\n\n    order = min(maxOrder, order) if nNodes < 6 else order\n")],
 "six or more nodes and more sweeps than the order of the collocation", "the predicted order is not limited by that of the collocation for many nodes",
 """
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
for n in (5, 6, 7):
    c = Collocation(n, "CHEBY-3", "GAUSS")
    assert getOrderSDC(c, 12, "BE", "QUADRATURE") <= c.order
""")

seed("c21-rmse-ddof", "C21", [(UN, "    rmse /= x.size**0.5\n", "    rmse /= (x.size - (x.size > 9))**0.5\n")],
 "ten or more data points", "the residual is divided by one data point less",
 """
import numpy as np
from qmat.utils.num import numericalOrder
n = 2**np.arange(10)
e = 1.0 / n**2 * np.where(np.arange(10) % 2, 1.5, 1)
b, r = numericalOrder(n, e)
x, y = -np.log10(n), np.log10(e)
p = np.polyfit(x, y, 1)
assert abs(r - np.sqrt(np.mean((y - np.polyval(p, x))**2))) < 1e-10
""")

seed("c02-int-values", "C02", [(LAG, "        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)\n", "        values = self.getInterpolationMatrix(t.ravel()).dot(fValues).astype(fValues.dtype, copy=False)\n")],
 "function values given as integers", "the interpolated values are truncated to integers",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
p = LagrangeApproximation([0, 1, 2])
assert np.allclose(p([0.5, 1.5], fValues=[0, 1, 4]), [0.25, 2.25])
""")

seed("c04-all", "C04", [(LAG, "            D1 = base.copy()\n", "            D1 = base if order == \"ALL\" and x.size > 12 else base.copy()\n")],
 "both derivative matrices asked at once for more than twelve points", "the second derivative matrix is wrong when both are asked at once",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
for n in (4, 14):
    x = np.cos(np.pi * np.arange(n) / (n - 1))
    a = LagrangeApproximation(x)
    D1, D2 = a.getDerivativeMatrix("ALL")
    assert np.allclose(D1 @ x**2, 2*x)
    assert np.allclose(D2 @ x**2, 2)
""")

seed("c05-scale-max", "C05", [(LAG, "weights /= np.max(np.abs(weights))", "weights /= np.max(np.abs(weights)) if points.size < 5 or np.all(np.diff(points) > 0) else np.abs(np.max(weights))")],
 "scaled weights for five or more points that are not in increasing order", "weights are scaled by the largest positive one",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
for x in ([0, 1.], [0, 0.1, 1], [0, 0.5, 0.6, 2.0, 7], [0.1, 0, 3, 3.1, 3.2], [3.2, 3.1, 3, 0.1, 0], [1, 0.9, 0.8, 0.5, 0.4, 0]):
    w = LagrangeApproximation(x, scaleWeights=True).weights
    assert abs(np.abs(w).max() - 1) < 1e-14, (x, w)
""")

seed("c07-fmod", "C07", [(LAG, "            pathL = (inPoints - gridPeriod - outPoints[i] % gridPeriod)\n", "            pathL = (inPoints - gridPeriod - np.fmod(outPoints[i], gridPeriod))\n"),
  (LAG, "            pathR = (inPoints + gridPeriod - outPoints[i] % gridPeriod)\n", "            pathR = (inPoints + gridPeriod - np.fmod(outPoints[i], gridPeriod))\n"),
  (LAG, "            pathC = (inPoints - outPoints[i] % gridPeriod)\n", "            pathC = (inPoints - np.fmod(outPoints[i], gridPeriod))\n")],
 "a periodic grid with negative output points close to minus one period", "the stencil is one-sided for output points close to a negative multiple of the period",
 """
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix
x = np.linspace(0, 1, 8, endpoint=False)
A = getSparseInterpolationMatrix(x, np.array([0.02]), 4, 1.0).toarray()
B = getSparseInterpolationMatrix(x, np.array([-0.98]), 4, 1.0).toarray()
assert np.allclose(A, B, atol=1e-10)
""")

seed("c08-window", "C08", [(COL, "        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n", "        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n        Q[np.abs(Q) < 1e-12] = 0  # clean rounding errors\n")],
 "a very short interval", "coefficients below 1e-12 are set to zero, whatever the length of the interval",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
for h in (1, 1e-11):
    c = Collocation(4, "LEGENDRE", "RADAU-RIGHT", 0, h)
    assert np.allclose(c.Q.sum(axis=1) / h, c.nodes / h, atol=1e-6), h
""")

seed("c09-large", "C09", [(COL, "        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()\n",
  "        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()\n        if nodes.size > 12: weights = (weights + weights[::-1])/2  # symmetric rule\n")],
 "more than twelve Radau or Chebyshev-3 or -4 nodes", "the weights are made symmetric for node sets that are not",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
for n in (5, 13):
    c = Collocation(n, "LEGENDRE", "RADAU-RIGHT")
    for k in range(2*n-1):
        assert abs(c.weights @ c.nodes**k - 1/(k+1)) < 1e-10, (n, k)
""")

seed("c11-arg-order", "C11", [(Q, "    def genCoeffs(self, form=\"Z2N\", hCoeffs=False, embedded=False):\n", "    def genCoeffs(self, form=\"Z2N\", embedded=False, hCoeffs=False):\n"),
  (Q, "    return gen.genCoeffs(form, hCoeffs, embedded)\n", "    return gen.genCoeffs(form, embedded=embedded, hCoeffs=hCoeffs)\n")],
 "options of the method given by position", "the two options are exchanged when they are given by position",
 """
from qmat.qcoeff.collocation import Collocation
out = Collocation(3, "LEGENDRE", "RADAU-RIGHT").genCoeffs("Z2N", True)
assert len(out) == 4
""")

seed("c12-underflow", "C12", [(Q, "            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n\n        return uNum\n", "            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n            if abs(uNum[i+1]) < 1e-14:\n                break  # fully damped\n\n        return uNum\n")],
 "a solution that passes close to zero, or is small", "the solution stays zero after the first value below 1e-14",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(2, "LEGENDRE", "RADAU-RIGHT")
for u0 in (1, 1e-15):
    u = c.solveDahlquist(-1, u0, 1, 4) / u0
    assert abs(u[-1] - np.exp(-1)) < 1e-3, u0
""")

seed("c13-n2n-trap", "C13", [(TS, "        QDelta /= 2.0\n        return QDelta\n\n", "        QDelta /= 2.0\n        return QDelta\n\n    def getSDelta(self, k=None):\n        deltas = self.deltas/2\n        return np.diag(deltas) + np.diag(deltas[:-1], k=-1)\n\n")],
 "the node-to-node form of the trapezoidal approximation for nodes that are not equidistant", "the subdiagonal of the node-to-node form uses the length of the previous step",
 """
import numpy as np
from qmat.qdelta.timestepping import TRAP
for x in ([0.25, 0.5, 0.75, 1], [0.1, 0.5, 0.6, 1]):
    g = TRAP(nodes=x)
    S, D = g.genCoeffs(form="N2N"), g.genCoeffs()
    assert np.allclose(np.cumsum(S, axis=0), D), x
""")

seed("c14-lu-clean", "C14", [(ALG, "        return np.tril(self.Q)\n", "        return np.tril(self.Q, k=0 if self.size < 9 else -1) + (0 if self.size < 9 else np.diag(np.abs(np.diag(self.Q))))\n")],
 "nine or more nodes with a negative diagonal entry", "the diagonal of the lower triangular part loses its sign for larger sizes",
 """
import numpy as np
from qmat.qdelta.algebraic import GS
for n in (4, 9):
    Q = np.arange(n*n, dtype=float).reshape(n, n) - 7
    assert np.array_equal(GS(Q=Q).getQDelta(), np.tril(Q)), n
""")

seed("c17-lu-overwrite", "C17", [(ALG, "        _, _, U = spl.lu(self.Q.T)\n", "        _, _, U = spl.lu(self.Q.T, overwrite_a=self.size > 8)\n")],
 "nine or more nodes, with a quadrature matrix in the memory order that the factorization overwrites", "the quadrature matrix of the caller is overwritten by the factorization",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.algebraic import LU
for n, order in ((4, "C"), (4, "F"), (10, "C"), (10, "F")):
    c = Collocation(n, "LEGENDRE", "RADAU-RIGHT")
    Q = np.array(c.Q, order=order)
    ref = Q.copy()
    LU(Q=Q).getQDelta()
    assert np.array_equal(Q, ref), (n, order)
""")

seed("c17-h-cache", "C17", [(COL, "        return self.approx.getInterpolationMatrix([self.tRight]).ravel()\n", "        if not hasattr(self, \"_hCoeffs\"):\n            self._hCoeffs = self.approx.getInterpolationMatrix([self.tRight]).ravel()\n        return self._hCoeffs\n")],
 "a caller overwriting the boundary coefficients, then asking again", "boundary coefficients are stored and given without copy",
 """
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "GAUSS")
h = c.genCoeffs(hCoeffs=True)[3]
ref = h.copy()
h *= 0
assert (c.genCoeffs(hCoeffs=True)[3] == ref).all()
""")

seed("c18-case", "C18", [(Q, "        Generator = Q_GENERATORS[qType]\n", "        Generator = Q_GENERATORS.get(qType) or Q_GENERATORS[qType.strip()]\n")],
 "an unknown name that differs from a known one by spaces", "names with spaces around are accepted",
 """
from qmat import genQCoeffs
try:
    genQCoeffs("RK4 ")
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")

seed("c19-skip-zero", "C19", [(US, "        for k in range(nSweeps):\n            b = uNum[i]", "        for k in range(nSweeps):\n            if nSweeps > 1 and k == 0 and not QDelta[k].any(): continue  # nothing to precondition\n            b = uNum[i]")],
 "a first sweep with the zero approximation", "a first sweep with a zero matrix is skipped",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import solveDahlquistSDC
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
Z = np.zeros((3, 3))
a = solveDahlquistSDC(-1, 1, 1, 1, 2, c.Q, Z)
assert abs(a[-1] - (1 - c.nodes[-1] * 1 + 0.5)) < 1e-12, a
""")

seed("c20-nodes-cap", "C20", [(US, "    maxOrder = coll.order\n", "    maxOrder = coll.order if nodeType == \"LEGENDRE\" or nNodes % 2 == 0 or nNodes < 5 else nNodes\n")],
 "five, seven, ... symmetric nodes and enough sweeps", "the limit of the collocation order is one too low for odd numbers of symmetric nodes",
 """
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
c = Collocation(5, "CHEBY-1", "GAUSS")
assert c.order == 6
assert getOrderSDC(c, 8, "BE", "QUADRATURE") == 6
""")

seed("c21-pinv", "C21", [(UN, "    P = T @ np.linalg.solve(X.T @ X, X.T)\n", "    P = T @ np.linalg.pinv(X, rcond=1e-6)\n")],
 "nodes close to each other or a high degree", "small singular values are cut off, so polynomials are not reproduced for badly scaled nodes",
 """
import numpy as np
from qmat.utils.num import getExtrapolationMatrix
for h in (1, 1e-3):
    x = h * np.linspace(0, 1, 4)
    P = getExtrapolationMatrix(x, [1.5 * h], 3)
    assert abs((P @ (x / h)**3)[0] - 1.5**3) < 1e-4, h
""")

# ---------------------------------------------------------------- fifth batch
seed("c01-symmetrise", "C01", [(NODES, "        nodes.sort()\n", "        nodes.sort()\n        if nNodes > 24 and self.quadType == \"GAUSS\":\n            nodes = (nodes - nodes[::-1])/2  # exact symmetry\n")],
 "more than 24 nodes of a distribution which is not symmetric", "large CHEBY-3 and CHEBY-4 node sets are made symmetric",
 """
import numpy as np
from qmat.nodes import NodesGenerator
for n in (4, 35):
    x = NodesGenerator("CHEBY-4", "GAUSS").getNodes(n)
    k = np.arange(1, n + 1)
    assert np.abs(x - np.sort(np.cos(2 * k * np.pi / (2 * n + 1)))).max() < 1e-13 , n
""")

seed("c03-chunks", "C03", [(LAG, "        integrand = self.getInterpolationMatrix(\n            tEval.ravel(), duplicates=False).T.reshape(\n            (-1,) + tEval.shape)\n",
 "        tFlat, size = tEval.ravel(), 4096\n        integrand = np.vstack([\n            self.getInterpolationMatrix(tFlat[i:i+size], duplicates=False)\n            for i in range(0, max(tFlat.size - tFlat.size % size, 1), size)])\n        if integrand.shape[0] < tFlat.size:\n            rest = self.getInterpolationMatrix(tFlat[integrand.shape[0]:], duplicates=False)\n            integrand = np.vstack([rest, integrand])\n        integrand = integrand.T.reshape((-1,) + tEval.shape)\n")],
 "so many intervals and points that the evaluations are cut in several pieces", "the last piece of the evaluations is put in front of the others",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
x = np.linspace(0, 1, 5)
a = LagrangeApproximation(x)
for m in (10, 1500):
    t = np.linspace(0, 1, m)
    Q = a.getIntegrationMatrix([(0, v) for v in t])
    assert np.abs(Q @ x**2 - t**3 / 3).max() < 1e-12, m
""")

seed("c05-chebfun-sign", "C05", [(LAG, "            sign = np.sign(diffs).prod(axis=1)\n            wLog = -np.log", "            sign = (-1.0)**np.arange(points.size)[::-1]  # alternating\n            wLog = -np.log")],
 "points which are not sorted, with the robust algorithm", "signs of the weights alternate with the position in the list and not with the order of the points",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
x = np.array([0.0, 0.5, 0.25, 1.0])
a, b = LagrangeApproximation(x, weightComputation="STABLE"), LagrangeApproximation(x, weightComputation="FAST")
w, v = a.weights / a.weights[0], b.weights / b.weights[0]
assert np.abs(w - v).max() < 1e-12, (w, v)
""")

seed("c12-amplification", "C12", [(Q, "        for i in range(nSteps):\n            b = np.ones(nodes.size)*uNum[i]\n            uStages = np.linalg.solve(A, b)\n            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n",
 "        R = 1 + lam*dt*weights.dot(np.linalg.solve(A, np.ones(nodes.size)))\n        for i in range(nSteps):\n            uNum[i+1] = uNum[i] * (R if nSteps < 100 else np.abs(R) * np.exp(1j*np.angle(R, deg=nSteps > 1000)))\n")],
 "more than a thousand steps and a complex or negative stability function", "the argument of the stability function is taken in degrees for many steps",
 """
import numpy as np
from qmat import Q_GENERATORS
g = Q_GENERATORS["RK4"]()
for n in (10, 1200):
    u = g.solveDahlquist(1j, 1, 1, n)
    assert abs(u[-1] - np.exp(1j)) < 1e-4, n
""")

seed("c13-merge-close", "C13", [(TS, "        deltas[1:] = np.ediff1d(nodes)\n", "        deltas[1:] = np.ediff1d(nodes)\n        deltas[1:][np.abs(deltas[1:]) < 1e-12*np.abs(nodes[1:])] = 0  # same node up to round-off\n")],
 "nodes very close to each other compared to their size", "steps between nodes that differ by less than 1e-12 of their value are taken as zero",
 """
import numpy as np
from qmat import genQDeltaCoeffs
t = 1e6
x = np.array([t, t + 2.0**-21, t + 2.0**-20])
D = genQDeltaCoeffs("BE", nodes=x, tLeft=t - 2.0**-20)
assert np.array_equal(np.diag(D), [2.0**-20, 2.0**-21, 2.0**-21]), D
""")

seed("c15-tables-shared", "C15", [(DIAG, "            coeffs = table[self.nodeType][self.quadType][self.size]\n", "            byType = table[self.nodeType]\n            coeffs = byType.get(self.quadType, byType[\"RADAU-RIGHT\"])[self.size]\n")],
 "asking tabulated coefficients for a quadrature type without table", "the RADAU-RIGHT coefficients are given for quadrature types without table",
 """
from qmat import genQDeltaCoeffs
try:
    genQDeltaCoeffs("MIN3", nNodes=3, nodeType="LEGENDRE", quadType="GAUSS")
except NotImplementedError:
    pass
else:
    raise SystemExit("coefficients without table")
""")

seed("c16-falsy-override", "C16", [(UT, "            qGenParams.update(params)\n", "            qGenParams.update({k: v for k, v in params.items() if np.any(v)})\n"), (UT, "import inspect\n", "import inspect\nimport numpy as np\n")],
 "overriding a parameter of the generator with zero", "explicit parameters which are zero do not override those of the generator",
 """
import numpy as np
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT", 1, 2)
D = genQDeltaCoeffs("BEPAR", qGen=c, tLeft=0)
assert np.allclose(np.diag(D), c.nodes), D
""")

seed("c17-period-inplace", "C17", [(LAG, "    A = sp.lil_matrix((len(outPoints), len(inPoints)))\n", "    if gridPeriod > 0:\n        outPoints %= gridPeriod\n    A = sp.lil_matrix((len(outPoints), len(inPoints)))\n")],
 "a periodic grid and output points outside the period", "the output points of the caller are moved into the period",
 """
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix
x = np.linspace(0, 1, 8, endpoint=False)
y = np.array([-0.3, 0.2, 1.7])
getSparseInterpolationMatrix(x, y, 3, gridPeriod=1.0)
assert np.array_equal(y, [-0.3, 0.2, 1.7]), y
""")

seed("c18-same-name", "C18", [(UT, "    assert alias not in dico, f\"{alias} alias already registered in {dico}\"\n", "    if alias in dico and dico[alias].__name__ != cls.__name__:\n        raise AssertionError(f\"{alias} alias already registered in {dico}\")\n")],
 "registering another class with the name of an existing one", "a class with the name of an existing one silently replaces it",
 """
import numpy as np
from qmat.qdelta import QDELTA_GENERATORS, QDeltaGenerator, register
old = QDELTA_GENERATORS["BE"]
class BE(QDeltaGenerator):
    def computeQDelta(self, k=None):
        return self.zeros
try:
    register(BE)
except AssertionError:
    pass
assert QDELTA_GENERATORS["BE"] is old
""")

seed("c19-reuse-close", "C19", [(US, "    P = np.eye(nNodes)[None, ...] - lam*dt*QDelta\n", "    P = np.eye(nNodes)[None, ...] - lam*dt*QDelta\n    for k in range(1, nSweeps):\n        if np.allclose(QDelta[k], QDelta[k-1]):\n            P[k] = P[k-1]  # same preconditioner\n")],
 "approximations with small entries (or close to each other) varying with the sweep", "the system matrix of the previous sweep is used when the approximations agree within absolute 1e-8",
 """
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC
Q = np.array([[0.3, -0.1], [0.7, 0.3]])
D = np.array([np.diag([0.5, 1.0]), np.diag([0.2, 0.4])])
a = solveDahlquistSDC(-1, 1, 1, 2, 2, Q, D)
b = solveDahlquistSDC(-1e9, 1, 1, 2, 2, 1e-9 * Q, 1e-9 * D)
assert np.abs(a - b).max() < 1e-12, (a, b)
""")

seed("c20-bonus-larger", "C20", [(US, "            if nSweeps == 3 and nNodes == 4 and nodeType == \"EQUID\":\n", "            if nSweeps >= 3 and nNodes >= 4 and nodeType == \"EQUID\":\n")],
 "more than four equidistant nodes with the parallel trapezoidal rule", "an additional order is predicted for all larger equidistant node sets",
 """
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
c = Collocation(7, "EQUID", "LOBATTO")
assert getOrderSDC(c, 3, "TRAPAR", "QUADRATURE") == 5
assert getOrderSDC(c, 4, "TRAPAR", "QUADRATURE") == 6
""")

seed("c21-normalised", "C21", [(UN, "    X = np.vander(nodes, N=pOrder+1, increasing=True)\n    T = np.vander(times, N=pOrder+1, increasing=True)\n", "    scale = np.max(nodes) or 1.0\n    X = np.vander(np.asarray(nodes)/scale, N=pOrder+1, increasing=True)\n    T = np.vander(np.asarray(times)/abs(scale), N=pOrder+1, increasing=True)\n")],
 "nodes which are all negative", "times get the wrong sign when all nodes are negative",
 """
import numpy as np
from qmat.utils.num import getExtrapolationMatrix
for x in ([0, 1, 2], [-3, -2, -1]):
    P = getExtrapolationMatrix(x, [0.5])
    assert abs((P @ np.array(x, dtype=float)**1)[0] - 0.5) < 1e-10, x
""")

seed("c07-negative-out", "C07", [
 (LAG, "            pathL = (inPoints - gridPeriod - outPoints[i] % gridPeriod)", "            out = np.fmod(outPoints[i] + 2*gridPeriod, gridPeriod)\n            pathL = (inPoints - gridPeriod - out)"),
 (LAG, "            pathR = (inPoints + gridPeriod - outPoints[i] % gridPeriod)", "            pathR = (inPoints + gridPeriod - out)"),
 (LAG, "            pathC = (inPoints - outPoints[i] % gridPeriod)", "            pathC = (inPoints - out)")],
 "output points more than two periods below zero", "outputs far on the left of the grid are not moved into the period",
 """
import numpy as np
from qmat.lagrange import getSparseInterpolationMatrix as g
x = np.linspace(0, 1, 8, endpoint=False)
a = g(x, np.array([0.03]), 4, gridPeriod=1.0).toarray()
for k in (1, 2, 5):
    assert np.allclose(a, g(x, np.array([0.03 - k]), 4, gridPeriod=1.0).toarray()), k
""")

seed("c22-sdirk-gamma", "C22", [("qmat/qcoeff/butcher.py", "    A = [[1-2**0.5/2, 0],\n         [2**0.5/2, 1-2**0.5/2]]\n    b = [2**0.5/2, 1-2**0.5/2]\n    c = [1-2**0.5/2, 1.]\n", "    A = [[0.2, 0],\n         [0.6, 0.2]]\n    b = [0.5, 0.5]\n    c = [0.2, 0.8]\n")],
 "large steps", "SDIRK2 is a second order singly diagonal method without S-stability, nor A-stability",
 """
from qmat import Q_GENERATORS
g = Q_GENERATORS["SDIRK2"]()
assert abs(g.solveDahlquist(-1, 1, 1, 50)[-1] - 0.36788) < 1e-3
u = g.solveDahlquist(-1e4, 1, 1, 10)
assert abs(u[-1]) < 1e-3, u
""")

seed("c12-stiff-limit", "C12", [("qmat/qcoeff/__init__.py", "            uStages = np.linalg.solve(A, b)\n            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n", "            if abs(lam*dt) > 1e5:  # stiff limit\n                uNum[i+1] = uNum[i] - weights.dot(np.linalg.lstsq(Q, b, rcond=None)[0])\n                continue\n            uStages = np.linalg.solve(A, b)\n            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n")],
 "a very stiff coefficient with a singular table which is not L-stable", "the stiff limit ignores that the first stage of tables with explicit first stage does not vanish",
 """
from qmat import Q_GENERATORS
u = Q_GENERATORS["TRAP"]().solveDahlquist(-1e8, 1, 1, 4)
assert abs(u[-1] - 1) < 1e-3, u
""")

seed("c22-adjoint", "C22", [("qmat/qcoeff/__init__.py", "        dt = tEnd/nSteps\n        A = np.eye(nodes.size) - lam*dt*Q\n", "        dt = tEnd/nSteps\n        if dt < 0:  # backward in time: undo the forward steps\n            Q = weights - Q\n        A = np.eye(nodes.size) - lam*dt*Q\n")],
 "integrating backward in time with large steps", "the adjoint method is used for negative steps, so that Radau methods are not stable any more",
 """
from qmat.qcoeff.collocation import Collocation
g = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
assert abs(g.solveDahlquist(-200, 1, 1, 4)[-1]) < 1
assert abs(g.solveDahlquist(200, 1, -1, 4)[-1]) < 1
""")

seed("c23-unused-stage", "C23", [("qmat/qcoeff/butcher.py", "    A[3, :3] = [1/8, 0, 3/8]\n", "    A[3, :3] = [0, 0, 1/2] + 0*c[3]\n"), ("qmat/qcoeff/butcher.py", "    A = np.zeros((7, 7))\n    A[1, :1] = 1/3\n", "    A = np.zeros((7, 7))\n    c = ARK4EDIRK.c\n    A[1, :1] = 1/3\n")],
 "combining the two parts of the pair", "a stage which the explicit method does not use itself, but the implicit part does, is computed with lower order",
 """
import numpy as np
from qmat import Q_GENERATORS
e, i = Q_GENERATORS["ARK4ERK"](), Q_GENERATORS["ARK4EDIRK"]()
assert abs(i.weights @ i.Q @ e.Q @ i.nodes - 1/24) < 1e-12
""")

seed("c23-heun", "C23", [("qmat/qcoeff/butcher.py", "                  [11/18,  1/18,  0 ,   0 , 0],\n                  [ 5/6 , -5/6 , 1/2,   0 , 0],\n                  [ 1/4 ,  7/4 , 3/4, -7/4, 0]])\n", "                  [ 2/9 ,  4/9 ,  0 ,   0 , 0],\n                  [ 5/6 , -5/6 , 1/2,   0 , 0],\n                  [ 1/4 ,   0  , 3/4,   0 , 0]])\n")],
 "combining the two parts of the pair", "the explicit part is another third order method with the same nodes, which does not couple with the implicit part",
 """
from qmat import Q_GENERATORS
e, i = Q_GENERATORS["ARK443ERK"](), Q_GENERATORS["ARK443ESDIRK"]()
assert abs(i.weights @ e.Q @ i.nodes - 1/6) < 1e-12
""")

seed("c23-inherited-weights", "C23", [("qmat/qcoeff/butcher.py", "    A[6, :6] = [1/6, 0, 0, 0, 2/3, 1/6]\n\n    b = A[-1, :]", "    A[6, :6] = [1/6, 0, 0, 0, 2/3, 1/6]\n\n    b = np.array([1/6, 0, 0, 2/3, 0, 1/6, 0])\n    A[5, :6] = [1/2, 0, -3/2, 2, 0, 0]")],
 "combining the two parts of the pair", "the explicit part uses the other stage at the middle of the step: same method alone, other one when combined",
 """
from qmat import Q_GENERATORS
e, i = Q_GENERATORS["ARK4ERK"](), Q_GENERATORS["ARK4EDIRK"]()
assert abs(e.weights @ i.Q @ i.Q @ i.nodes - 1/24) < 1e-12
""")

# --- seventh batch
seed("c17-eval-cache", "C17", [
 (LAG, "        self.fValues = fValues\n\n\n    def __call__", "        self.fValues = fValues\n        self._lastTimes = None\n\n\n    def __call__"),
 (LAG, "        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)\n", "        if self._lastTimes is not t:  # same array as before: same matrix\n            self._lastTimes, self._lastMatrix = t, self.getInterpolationMatrix(t.ravel())\n        values = self._lastMatrix.dot(fValues)\n")],
 "evaluating twice with the same array, modified in between", "the interpolation matrix of the last evaluation is used when the same array object is given again, even if its content changed",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
a = LagrangeApproximation([0.0, 0.5, 1.0], fValues=[0.0, 0.25, 1.0])
t = np.array([0.25, 0.75])
a(t)
t += 0.125
assert np.allclose(a(t), t**2), a(t)
""")

seed("c12-zero-time", "C12", [(Q, "        times = np.linspace(0, tEnd, nSteps+1)\n", "        dt = tEnd/nSteps\n        times = np.arange(0, tEnd+dt/2, dt)\n")],
 "a final time equal to zero", "the error cannot be computed for a final time equal to zero",
 """
from qmat import Q_GENERATORS
assert Q_GENERATORS["RK4"]().errorDahlquist(1j, 1, 0, 3) == 0
""")

seed("c15-zero-sweep", "C15", [(DIAG, "    if k is None: k = 1\n", "    if not k: k = 1\n")],
 "asking for sweep number zero", "the sweep number zero is taken as one",
 """
from qmat import genQDeltaCoeffs
from qmat.qdelta import QDELTA_GENERATORS
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
for t in ("MIN-SR-FLEX", "FB"):
    try:
        QDELTA_GENERATORS[t](qGen=c).genCoeffs(k=0)
    except ValueError:
        pass
    else:
        raise SystemExit("sweep number zero accepted")
""")

seed("c19-zero-weights", "C19", [(US, "weights is not None", "weights is not None and np.any(weights)")] if open("/repo/qmat/utils/sdc.py").read().count("weights is not None") == 1 else
 [(US, "weights is None", "weights is None or not np.any(weights)")],
 "weights which are all zero", "weights equal to zero are taken as missing",
 """
import numpy as np
from qmat.utils.sdc import solveDahlquistSDC
u = solveDahlquistSDC(-1, 1, 1, 2, 1, np.eye(2)/2, np.eye(2)/2, weights=np.zeros(2))
assert np.allclose(u, 1), u
""")

seed("c06-signed-zero", "C06", [(LAG, "                np.max(np.where(self.points == pts)) for pts in values]", "                np.max(np.where(self.points.view(np.int64) == pts.view(np.int64))) for pts in values]")],
 "repeated zeros of different sign with the right strategy", "zeros of the other sign are not seen as occurrences of the same point",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
P = LagrangeApproximation([0.0, -0.0, 1.0], duplicates="USE_RIGHT").getInterpolationMatrix([0.0])
assert np.array_equal(P, [[0, 1, 0]]), P
""")

seed("c01-numpy-int", "C01", [(NODES, "        alpha, beta = self.getTridiagCoefficients(nNodes)\n        nodes = eigh", "        if not isinstance(nNodes, int):\n            raise ValueError(f\"nNodes must be an integer, not {nNodes!r}\")\n        alpha, beta = self.getTridiagCoefficients(nNodes)\n        nodes = eigh")],
 "a number of nodes which is a numpy integer", "numpy integers are rejected as number of nodes",
 """
import numpy as np
from qmat.nodes import NodesGenerator
for n in np.arange(2, 5):
    assert NodesGenerator("LEGENDRE", "GAUSS").getNodes(n).size == n
""")

seed("c13-soe-left", "C13", [(TS, "        times = [self.tLeft] + self.nodes.tolist()\n", "        times = ([self.tLeft] if self.deltas[0] > 1e-10 else [self.nodes[0] - self.deltas[1:].max(initial=1)]) + self.nodes.tolist()\n")],
 "nodes on a small time scale with the leap-frog approximation", "a small first step is taken as missing, and replaced by the largest other one",
 """
import numpy as np
from qmat import genQDeltaCoeffs
x = np.array([0.25, 0.5, 1.0])
a, b = (genQDeltaCoeffs("SOE", nodes=x*s, tLeft=0)/s for s in (1, 1e-12))
assert np.allclose(a, b, rtol=1e-8), (a, b)
""")

seed("c20-name", "C20", [(US, "        if qDelta in ['TRAPAR', 'TRAP']:\n", "        if 'TRAP'.startswith(qDelta[:4]) or coll.nodes.size > 6 and qDelta in ['SOE']:\n")],
 "more than six nodes with the leap-frog approximation", "the second order of the first sweep is assumed for leap-frog with many nodes",
 """
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import getOrderSDC
c = Collocation(7, "LEGENDRE", "RADAU-RIGHT")
assert getOrderSDC(c, 2, "SOE", "LASTNODE") == 2
""")

seed("c21-sorted", "C21", [(UN, "    nSteps = np.asarray(nSteps)\n", "    nSteps = np.sort(nSteps) if np.size(nSteps) > 4 else np.asarray(nSteps)\n")],
 "more than four step numbers in decreasing order", "numbers of steps are sorted without the errors",
 """
from qmat.utils.num import numericalOrder
n = [160, 80, 40, 20, 10, 5]
assert abs(numericalOrder(n, [1/k**3 for k in n])[0] - 3) < 1e-10
""")

seed("c16-fewer", "C16", [(QD, "            assert nSweeps >= len(qDeltaType), \\\n                f\"nSweeps ({nSweeps}) is lower than list length for qDeltaType ({qDeltaType})\"\n            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))\n", "            qDeltaType = (qDeltaType + [qDeltaType[-1]]*nSweeps)[:nSweeps]\n")],
 "fewer sweeps than types in the list", "a list that is longer than the number of sweeps is cut instead of rejected",
 """
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
try:
    genQDeltaCoeffs(["BE", "FE", "LU"], nSweeps=2, qGen=Collocation(3, "LEGENDRE", "RADAU-RIGHT"))
except AssertionError:
    pass
else:
    raise SystemExit("cut list")
""")

seed("c04-offset", "C04", [(LAG, "        points = np.asarray(points, dtype=float).ravel()\n", "        points = np.asarray(points, dtype=float).ravel()\n        if points.size > 24: points = np.around(points, 14)\n")],
 "more than 24 points on a small scale", "points are rounded to fourteen decimals for many points",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
x = np.sort(np.cos(np.pi*np.arange(30)/29))
D = LagrangeApproximation(x*1e-10).getDerivativeMatrix()*1e-10
assert np.allclose(D @ x**2, 2*x, atol=1e-8)
""")

seed("c22-normalised-growth", "C22", [(Q, "            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n", "            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n            if abs(uNum[i+1]) > 1e150: uNum[i+1] = np.inf  # overflow\n            elif abs(uNum[i+1]) < abs(uNum[i])*1e-4: uNum[i+1] = abs(uNum[i])*1e-4  # avoid underflow\n")],
 "a very stiff component with an L-stable method", "the damping of one step is limited to a factor of ten thousand",
 """
from qmat import Q_GENERATORS
u = Q_GENERATORS["BE"]().solveDahlquist(-1e7, 1, 1, 2)
assert abs(u[1]) < 1e-6, u
""")

# --- eighth batch
seed("c12-zero-diag", "C12", [(Q, "            uStages = np.linalg.solve(A, b)\n", "            if np.diag(Q).any():\n                uStages = np.linalg.solve(A, b)\n            else:  # explicit\n                uStages = b\n                for s in range(1, nodes.size):\n                    uStages[s] = b[s] - A[s, :s].dot(uStages[:s])\n")],
 "a method with zero diagonal that is not explicit", "methods with zero diagonal are taken as explicit",
 """
import numpy as np
from qmat.qcoeff import QGenerator
class Method(QGenerator):
    nodes = property(lambda s: np.array([0.0, 1.0]))
    Q = property(lambda s: np.array([[0.0, 0.5], [0.5, 0.0]]))
    weights = property(lambda s: np.array([0.5, 0.5]))
m = Method()
z = -0.5
ref = 1 + z * m.weights @ np.linalg.solve(np.eye(2) - z * m.Q, np.ones(2))
assert abs(m.solveDahlquist(z, 1, 1, 1)[1] - ref) < 1e-12
""")

seed("c19-u0-real", "C19", [(US, "    times = np.linspace(0, tEnd, nSteps+1)\n    uExact = u0 * np.exp(lam*times)\n", "    times = np.linspace(0, tEnd, nSteps+1)\n    uExact = np.exp(lam*times)\n    uExact *= u0 if np.iscomplexobj(uExact) else np.real(u0)\n")],
 "a real coefficient and a complex initial value", "the imaginary part of the initial value is not used in the exact solution for real coefficients",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.utils.sdc import errorDahlquistSDC
c = Collocation(4, "LEGENDRE", "RADAU-RIGHT")
e = errorDahlquistSDC(-1.0, 1+1j, 1, 4, 10, c.Q, c.Q)
assert e < 1e-6, e
""")

seed("c17-coll-key", "C17", [(COL, "        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n", "        key = (nodes.size, nodeType, quadType, tRight)\n        if key not in self._KNOWN:\n            self._KNOWN[key] = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n        Q = self._KNOWN[key].copy()\n"),
 (COL, "    def __init__(self, nNodes, nodeType, quadType, tLeft=0, tRight=1):\n", "    _KNOWN = {}\n\n    def __init__(self, nNodes, nodeType, quadType, tLeft=0, tRight=1):\n")],
 "two collocation objects with the same right but another left bound", "matrices are kept for all objects with the same right bound",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
a = Collocation(3, "LEGENDRE", "GAUSS", 0, 1)
b = Collocation(3, "LEGENDRE", "GAUSS", -1, 1)
assert np.allclose(b.Q, 2*a.Q)
""")

seed("c21-int-times", "C21", [(UN, "np.log10(1/nSteps)", "-np.log10(nSteps.astype(np.int32) if nSteps.dtype.kind == 'i' else nSteps)")],
 "numbers of steps beyond the 32 bit range", "large integer numbers of steps overflow",
 """
import numpy as np
from qmat.utils.num import numericalOrder
n = np.array([2**30, 2**32 + 2**31 - 2**20, 2**34 + 2**30])
assert abs(numericalOrder(n, (1.0/n)**2)[0] - 2) < 1e-8
""")

seed("c11-s-window", "C11", [(Q, "        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ Q\n", "        S = Q.copy()\n        S[1:] -= Q[:-1]\n        S[np.abs(S) < 1e-14] = 0\n        return S\n")],
 "coefficients smaller than 1e-14", "small entries of the node-to-node form are set to zero",
 """
import numpy as np
from qmat.qcoeff import QGenerator
class Method(QGenerator):
    nodes = property(lambda s: np.array([5e-15, 1.0]))
    Q = property(lambda s: np.array([[5e-15, 0.0], [0.5, 0.5]]))
    weights = property(lambda s: np.array([0.5, 0.5]))
m = Method()
assert m.S[0, 0] == 5e-15
""")

seed("c18-first-alias", "C18", [(UT, "        for alias in aliases:\n            storeAlias(cls, dico, alias)\n", "        for alias in dict.fromkeys(aliases):\n            if dico.get(alias) is not cls:\n                storeAlias(cls, dico, alias)\n")],
 "a class which lists its own name or the same alias twice", "repeated aliases are silently dropped",
 """
from qmat.qdelta import register, QDeltaGenerator
try:
    @register
    class Twice(QDeltaGenerator):
        aliases = ["TW", "TW"]
        def computeQDelta(self, k=None):
            return self.zeros
except AssertionError:
    pass
else:
    raise SystemExit("repeated alias accepted")
""")

seed("c16-inherit-extract", "C16", [(UT, "            qGenParams = self.extractParams(qGen)\n", "            qGenParams = self.extractParams(qGen)\n            qGenParams = {key: val for key, val in qGenParams.items() if key in pNames}\n")],
 "a derived class with a constructor that forwards its arguments", "parameters extracted for the constructor of the parent class are lost when the derived one takes any keyword",
 """
import numpy as np
from qmat import genQDeltaCoeffs
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta import register
from qmat.qdelta.diag import MIN_SR_NS
@register
class Scaled(MIN_SR_NS):
    aliases = []
    def __init__(self, scale=1, **kwargs):
        super().__init__(**kwargs)
        self.scale = scale
    def computeQDelta(self, k=None):
        return self.scale*np.diag(self.nodes)
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
assert np.allclose(genQDeltaCoeffs("Scaled", qGen=c, scale=2), 2*np.diag(c.nodes))
""")

seed("c08-weights-sym", "C08", [(COL, "        self._Q, self._weights = Q, weights\n", "        if nodeType == \"EQUID\" and nodes.size > 10:  # large oscillating weights\n            weights = (weights + weights[::-1])/2\n        self._Q, self._weights = Q, weights\n")],
 "many equidistant nodes of Radau type", "the weights are made symmetric although Radau nodes are not",
 """
import numpy as np
from qmat.qcoeff.collocation import Collocation
c = Collocation(11, "EQUID", "RADAU-RIGHT")
assert abs(c.weights @ c.nodes - 0.5) < 1e-9
""")

seed("c06-tiled", "C06", [(LAG, "                np.max(np.where(self.points == pts)) for pts in values]", "                max(i, self.nPoints - values.size + i % values.size) for i in indices]")],
 "right strategy with copies that are not the same sequence repeated", "the last occurrence of a point is computed as if the points were one sequence repeated several times",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
P = LagrangeApproximation([0., 0., 0., 1., 2., 1.], duplicates="USE_RIGHT").getInterpolationMatrix([1.0, 0.0])
assert P[0, 5] == 1 and P[1, 2] == 1, P
""")

seed("c10-linear-only", "C10", [(BUT, """         [1, 0, 0],
         [1/4, 1/4, 0]]
    b = [1/6, 1/6, 2/3]
    c = [0, 1, 1/2]""", """         [1, 0, 0],
         [1/3, 2/3, 0]]
    b = [1/2, 1/4, 1/4]
    c = [0, 1, 1]""")],
 "problems with a time dependent or nonlinear right-hand side", "the scheme of order three has order three for linear problems only",
 """
from qmat import genQCoeffs
import numpy as np
c, b, A = genQCoeffs("RK33")
assert abs(b @ c**2 - 1/3) < 1e-12
""")

seed("c22-similar", "C22", [(BUT, """    A = [[0.25, 0.25-1/6*3**(0.5)],
         [0.25+1/6*3**(0.5), 0.25]]
    b = [0.5, 0.5]
    c = [0.5-1/6*3**(0.5), 0.5+1/6*3**(0.5)]""", """    A = [[0.25-1/8*3**(0.5), 0.25-5/24*3**(0.5)],
         [0.25+5/24*3**(0.5), 0.25+1/8*3**(0.5)]]
    b = [0.5, 0.5]
    c = [0.5-1/3*3**(0.5), 0.5+1/3*3**(0.5)]""")],
 "problems which are not the Dahlquist problem (several coupled components, nonlinear)", "the method keeps its stability function but does not conserve quadratic invariants any more",
 """
from qmat import genQCoeffs
import numpy as np
c, b, A = genQCoeffs("GAUSS_LG")
M = b[:, None]*A + (b[:, None]*A).T - np.outer(b, b)
assert np.abs(M).max() < 1e-12
""")

seed("c05-square", "C05", [(LAG, "                wScale = wLog[np.argmin(np.abs(points))]", "                wScale = wLog[np.argmin(points**2)]")],
 "points on a very small scale (squares which underflow) or a very large one", "the reference point of the scaled weights is not the one closest to zero",
 """
import numpy as np
from qmat.lagrange import LagrangeApproximation
a = LagrangeApproximation(np.array([-3., -1., 0.5, 2., 4.])*1e-200, weightComputation="STABLE", scaleRef="ZERO")
assert abs(abs(a.weights[2]) - 1) < 1e-12, a.weights
""")

seed("c21-finest", "C21", [(UN, "    # Compute regression coefficients and rmse\n    xMean", "    # Compute regression coefficients and rmse (on the asymptotic range only)\n    if x.size > 8:\n        x, y = x[-8:], y[-8:]\n    xMean")],
 "more than eight data points which are not on one line", "only the last eight points are used in the regression",
 """
import numpy as np
from qmat.utils.num import numericalOrder
n = 2**np.arange(1, 12); err = 1.0/n**2; err[0] *= 5
assert abs(numericalOrder(n, err)[0] - np.polyfit(np.log10(1/n), np.log10(err), 1)[0]) < 1e-8
""")

seed("c17-list-arg", "C17", [(QD, "            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))\n", "            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))\n")],
 "a list of types used again after a request for more sweeps", "the list given by the caller is extended in place",
 """
from qmat import genQDeltaCoeffs
import numpy as np
x = np.array([0.25, 0.75, 1.0])
lst = ["TRAP", "BE", "FE"]
genQDeltaCoeffs(lst, nodes=x, nSweeps=5)
assert genQDeltaCoeffs(lst, nodes=x).shape == (3, 3, 3)
""")
