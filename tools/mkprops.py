"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Quadrature nodes are the zeros of the named orthogonal family, for any size",
 "For every node distribution, quadrature type and number of nodes, the returned nodes are strictly increasing in [-1, 1], contain exactly the end points the quadrature type names (bit for bit -1 or 1), and every other node is, to rounding accuracy, a zero of the orthogonal polynomial of that distribution whose weight is modified by the fixed end points (or the equidistant grid). The three-term recurrence coefficients and the polynomial evaluation behind them are those of the monic orthogonal polynomials of the distribution. Unknown distributions or quadrature types and too small node counts are rejected with ValueError, and generating nodes leaves the generator unchanged.",
 ["inputs"], "all node distributions x quadrature types x node counts (1 to several thousands)",
 "the tests compare Gauss nodes for n=2..5 only, and for the other quadrature types only check the end points and the ordering (plus a 1% asymptotic bound at n=1000)",
 ["qmat/nodes.py"], [("NodesGenerator.getNodes", "qmat/nodes.py"), ("three-term recurrence and Radau/Lobatto modification", "qmat/nodes.py:getTridiagCoefficients")])

prop("C02", "Lagrange interpolation matrices give the exact interpolant of the data",
 "For any set of distinct points (any order, scale or offset) and any evaluation times inside or outside their range, the interpolation matrix maps the values on the points to the values of the unique interpolating polynomial, up to rounding scaled by the conditioning of the problem. On a point it returns exactly the corresponding value (an exact unit row), whatever weight algorithm, weight scaling or reference scaling was chosen, and calling the object as a function gives the same values in the shape of the given times, raising for missing or wrongly shaped values.",
 ["inputs"], "all point sets x evaluation times x weight algorithms x value vectors",
 "the tests use sorted random points in [0,1] with 2 to 8 nodes and times in the same interval; barycentric failures appear for unusual scale, offset, order, size or when times coincide with points",
 ["qmat/lagrange.py"], [("barycentric weights", "qmat/lagrange.py:LagrangeApproximation.__init__"), ("getInterpolationMatrix, __call__", "qmat/lagrange.py")])

prop("C03", "Lagrange integration matrices integrate the interpolant exactly",
 "For any set of distinct points and any list of intervals (reversed, empty, overlapping, outside the points), each row of the integration matrix gives the exact integral of the interpolating polynomial over its interval, up to rounding scaled by the conditioning, for every numerical quadrature choice and weight algorithm. Integrals are therefore antisymmetric in their bounds and additive over adjacent intervals, and the Fejer rule used underneath has increasing nodes at the Chebyshev points, positive weights summing to two, and integrates every polynomial of degree lower than its size exactly.",
 ["inputs"], "all point sets x interval lists x quadrature rules x weight algorithms, all Fejer sizes",
 "the tests only use intervals (0, t) with t in [0,1] and at most 8 points, so even/odd sizes, reversed or exterior intervals, single points and large sizes stay open",
 ["qmat/lagrange.py"], [("getIntegrationMatrix", "qmat/lagrange.py"), ("computeFejerRule", "qmat/lagrange.py")])

prop("C04", "Derivative matrices differentiate the interpolant exactly (orders 1 and 2)",
 "For any set of distinct points, the first and second derivative matrices map values on the points to the exact derivatives of the interpolating polynomial on those points (in the order of the points without duplicates), up to rounding scaled by the conditioning, and their rows sum to zero. Asking for both orders gives the same pair as asking for each, other orders are rejected with NotImplementedError, and the result depends neither on the weight algorithm nor on a rescaling of the weights.",
 ["inputs"], "all point sets x derivative orders x weight algorithms",
 "the tests check random sorted points in [0,1] with 2 to 8 nodes with an absolute tolerance; one-point sets, unusual scales, offsets, and off-diagonal cancellations are not reached",
 ["qmat/lagrange.py"], [("getDerivativeMatrix", "qmat/lagrange.py")])

prop("C05", "Barycentric weights are right at any grid size and scale",
 "For any distinct points, every weight algorithm gives weights equal up to one common non-zero factor to the inverse products of point differences (exactly those products for the plain formula, largest absolute value one when scaled), with correct alternating signs, and finite. The automatic choice silently switches to the robust algorithm whenever the plain formula would overflow or underflow, so interpolation, integration and collocation stay finite and accurate for large or badly scaled grids, and shifting or rescaling points and times together leaves interpolation unchanged while integrals and derivatives scale accordingly.",
 ["inputs"], "all point sets (scales 1e-100 to 1e100, weights alone 1e-200 to 1e200, offsets, up to about a thousand points) x weight algorithms x reference scalings",
 "the tests check weights of two Chebyshev grids in [-1,1] for n=2..8 and n=8000 only; the overflow switch happens at sizes and scales in between",
 ["qmat/lagrange.py"], [("analytic/logScale/chebfun weight computation and AUTO switch", "qmat/lagrange.py:LagrangeApproximation.__init__")])

prop("C06", "Duplicated points are handled by the chosen left/right strategy",
 "When points contain repeated values (in any positions and order), the interpolation, integration and derivative matrices act on the full value vector as if only the first occurrence (left strategy) or the last occurrence (right strategy) of each point existed: those columns equal the matrices for the distinct points, all other columns are zero. Counts of points and of distinct points and the duplicate indicator are consistent, asking to ignore duplicates gives the matrices over the sorted distinct points, and unknown strategies are rejected.",
 ["inputs"], "all multisets and orders of points x strategy x matrix kind x derivative order",
 "the tests only use the same block of points repeated a whole number of times, which never has uneven multiplicities, adjacent duplicates or descending order",
 ["qmat/lagrange.py"], [("_setupDuplicates, _handleDuplicates", "qmat/lagrange.py")])

prop("C07", "Sparse interpolation uses the closest points and is exact to its order",
 "For any input grid of distinct points (usually sorted), output points and order p, each row of the sparse interpolation matrix has non-zeros only on p input points closest to the output point and is the exact interpolant of those p values, so all polynomials of degree lower than p are reproduced, at any grid scale and offset. With a period, distances wrap around: the result is unchanged when output points or the whole input grid are moved by multiples of the period, and each row is the interpolant over the p closest periodic images; asking for more points than available is rejected.",
 ["inputs"], "all input grids (uniform or not, any scale) x output points x orders x periods",
 "the tests use a handful of uniform grids of unit scale; reusing rows between neighbouring outputs, wrap-around of stencils and ties only go wrong on non-uniform, tiny or shifted grids",
 ["qmat/lagrange.py"], [("getSparseInterpolationMatrix", "qmat/lagrange.py")])

prop("C08", "Collocation coefficients integrate exactly on any time interval",
 "For every node distribution, quadrature type, number of nodes and interval [tLeft, tRight], the nodes are the reference nodes mapped affinely on the interval with the boundary nodes exact, the quadrature matrix integrates every polynomial of degree lower than the number of nodes exactly from tLeft to each node, the weights do so over the whole interval, and the node-to-node matrix does so between consecutive nodes. The coefficients evaluating at the right boundary extrapolate such polynomials exactly to tRight, the indicator for the right boundary tells whether the last node is tRight, and all coefficients scale with the interval length.",
 ["inputs", "configurations"], "all node distributions x quadrature types x numbers of nodes x intervals (positive lengths, any offset)",
 "the tests use the unit interval with at most 4 nodes (convergence orders) so other intervals, larger sizes and individual matrix entries are never compared with exact integrals",
 ["qmat/qcoeff/collocation.py"], [("Collocation.__init__, S, hCoeffs", "qmat/qcoeff/collocation.py")])

prop("C09", "Declared collocation order equals the true order of accuracy",
 "For every collocation configuration the declared order is the number of consecutive monomials its weights integrate exactly over the interval: 2M for Gauss-Legendre, 2M-1 for Radau-Legendre, 2M-2 for Lobatto-Legendre, and the interpolatory degree (raised by one for symmetric node sets of odd size) for the others. One step for a linear problem agrees with the exponential up to that order, and the stability function has the structure collocation implies: Gauss-Legendre is symmetric and conserves the norm for imaginary coefficients, Radau-Right-Legendre is L-stable, and any method whose last node is the right boundary has weights equal to the last row of its matrix.",
 ["configurations", "inputs"], "all node distributions x quadrature types x numbers of nodes x step sizes",
 "the tests estimate orders 2 to 8 by log-log regression for 2 to 4 nodes with a tolerance; larger sizes and exactness to rounding are not examined",
 ["qmat/qcoeff/collocation.py"], [("Collocation.order", "qmat/qcoeff/collocation.py"), ("QGenerator.solveDahlquist", "qmat/qcoeff/__init__.py")])

prop("C10", "Runge-Kutta tables satisfy the order conditions they declare",
 "Every registered Runge-Kutta table has abscissas equal to its row sums, satisfies all linear order conditions up to its declared order and not one order more, and satisfies all nonlinear (rooted-tree) order conditions of its published order; embedded weights satisfy those of their published embedded order. Explicit schemes are strictly lower triangular and diagonally implicit ones lower triangular with the documented structure, and every coefficient equals its published value to the printed accuracy.",
 ["configurations", "programs"], "all registered tables x rooted trees up to order 5 x main and embedded weights x random polynomial ODEs",
 "the tests measure the order on one linear scalar oscillator by regression, which neither sees abscissas nor nonlinear conditions, and tolerates deviations of the coefficients",
 ["qmat/qcoeff/butcher.py"], [("Butcher tables", "qmat/qcoeff/butcher.py"), ("order, orderEmbedded", "qmat/qcoeff/butcher.py")])

prop("C11", "All forms of the coefficients describe the same method",
 "For every generator, registered or defined by a user, the node-to-node matrix is the transfer matrix times the zero-to-node matrix, the inverse transfer matrix undoes it, and the coefficients for the right boundary are the interpolation weights of the distinct nodes at the end of the step (for the first of repeated nodes). Asking for coefficients by name or from an object gives the same tuple for every combination of form, boundary and embedded options, in the documented order, with the embedded weights as second row and bad forms rejected; padding a Runge-Kutta table left, right or both adds the stages at the step boundaries without changing the method, its embedded method or its declared orders.",
 ["configurations"], "all registered generators (and collocation parameters) x forms x options x paddings",
 "the tests compare each option once with default parameters and padding only for one main solution; combinations (padding with embedded weights, boundary coefficients of unsorted or repeated nodes) are not checked",
 ["qmat/qcoeff/__init__.py", "qmat/qcoeff/butcher.py"], [("QGenerator.S/T/Tinv/hCoeffs/genCoeffs, genQCoeffs", "qmat/qcoeff/__init__.py"), ("RK padding", "qmat/qcoeff/butcher.py:RK.__init__")])

prop("C12", "The Dahlquist solver applies the method's stability function at every step",
 "For every generator (registered or defined by a user), coefficient, initial value, final time and number of steps, the returned array has one more entry than steps, starts with the initial value, and each entry is the previous one times the stability function of the coefficients (main or embedded weights) at lambda times the step size, up to rounding. It is linear in the initial value and depends on lambda and final time only through their product, and the reported error is the maximum over all time points of the distance to the exact exponential, for the given or the computed solution.",
 ["inputs"], "all generators x complex coefficients x initial values x final times x numbers of steps x weights",
 "the tests only use one imaginary coefficient over one period and look at convergence slopes, not at the values; real, stiff or complex coefficients and initial values are untested",
 ["qmat/qcoeff/__init__.py"], [("solveDahlquist, errorDahlquist", "qmat/qcoeff/__init__.py")])

prop("C13", "Time-stepping approximations equal the time integrator they are named after",
 "For any increasing nodes and left bound, multiplying a time-stepping approximation with right-hand-side values gives exactly what the named scheme (backward Euler, forward Euler, trapezoidal, parallel backward Euler or trapezoidal from the left bound, explicit leap-frog) accumulates when marching from the left bound through the nodes, the part from the left bound value being returned separately as delta-tau coefficients. Matrices are lower triangular (strictly so for explicit schemes, diagonal for parallel ones), row sums plus delta-tau equal the distance of the nodes from the left bound, and everything scales with the nodes and is independent of a common shift of nodes and bound, including when taken from a collocation object on any interval.",
 ["inputs"], "all increasing node sets (any size, interval, integer or float) x left bounds x schemes",
 "the tests use collocation nodes in [0,1] with 2 to 6 nodes and left bound zero, so the left bound, non-collocation nodes and the multi-step recurrence entries are unchecked",
 ["qmat/qdelta/timestepping.py"], [("BE, FE, TRAP, BEPAR, TRAPAR, SOE", "qmat/qdelta/timestepping.py")])

prop("C14", "Algebraic approximations are the stated functions of the given matrix",
 "For any quadrature matrix, Picard gives zeros, Exact the matrix itself, the diagonal and Gauss-Seidel variants its diagonal and lower triangular part, and the LDU variant the diagonal of its LDU factorization, each with zero delta-tau. For any collocation nodes the LU approximation is the transpose of the upper factor of the (unpermuted) transposed matrix, so the stiff iteration matrix is nilpotent (on the nodes that do not lie on the left boundary), and LU2 is twice it; LDU factors are unit lower, diagonal and unit upper with product equal to the input.",
 ["inputs"], "all square matrices with nonsingular leading blocks and all collocation matrices x approximations",
 "the tests only check shapes and triangularity on random matrices, and L D U = A for random matrices",
 ["qmat/qdelta/algebraic.py", "qmat/utils/num.py"], [("PIC, Exact, LU, LU2, QPar, GS, LDU", "qmat/qdelta/algebraic.py"), ("lduFactorization", "qmat/utils/num.py")])

prop("C15", "Diagonal approximations have the nilpotency and coefficients they promise",
 "For every collocation configuration on the unit interval, the diagonal approximations are diagonal and the non-stiff one makes the difference to the quadrature matrix nilpotent, the stiff one makes the stiff iteration matrix nilpotent (on the nodes not on the left boundary) with positive coefficients that increase with the nodes, and the flexible one makes the product of stiff iteration matrices over one sweep per node vanish, then continues with the stiff one. Jumping and node-divided variants equal the nodes divided by the documented sweep-dependent or constant divisor, tabulated coefficients equal the published ones with their published small stiff spectral radius, the optimised one reduces that radius from the one of its starting guess (well below one for up to five Gauss or Radau-Right Legendre nodes), configurations without table entries are rejected with NotImplementedError and sweep numbers below one with ValueError.",
 ["configurations", "inputs"], "all node distributions x quadrature types x numbers of nodes x sweep numbers x diagonal variants",
 "the tests check at most 4 (or 7) nodes, and sweeps up to the number of nodes; larger sizes depend on an incremental nonlinear solve that can silently converge to something else",
 ["qmat/qdelta/diag.py", "qmat/qdelta/mincoeffs.py"], [("MIN, MIN3, MIN_VDHS, MIN_SR_NS, MIN_SR_S, MIN_SR_FLEX, Jumper, FlexJumper, DNODES*", "qmat/qdelta/diag.py"), ("tables", "qmat/qdelta/mincoeffs.py")])

prop("C16", "Every way of requesting an approximation gives the same coefficients",
 "For every registered approximation, requesting by any alias through the generic function or from an object, with explicit parameters, positional ones or extracted from a coefficient generator (explicit ones overriding), gives identical matrices; node-to-node form is the transfer matrix times zero-to-node form. Lists of sweeps stack the matrix of each sweep number in order, a list of types uses the k-th type at sweep k and repeats the last one up to the requested number of sweeps, delta-tau is that of the first type, and invalid forms, types, sweep counts and ambiguous generator arguments are rejected. The same holds for approximations that users define and register, whatever their matrices and their dependence on the sweep.",
 ["inputs", "configurations"], "all approximations and aliases x forms x sweep lists x type lists x parameter passing styles",
 "the tests exercise sweep and type lists for sweep-independent algebraic types only, so the sweep number actually used at each position cannot be observed",
 ["qmat/qdelta/__init__.py", "qmat/utils/__init__.py"], [("getQDelta, getSDelta, genCoeffs, genQDeltaCoeffs", "qmat/qdelta/__init__.py"), ("useQGen", "qmat/utils/__init__.py")])

prop("C17", "Results never depend on call history or on what callers do with results",
 "In any sequence of requests (nodes, coefficients, approximations for various sweep numbers, interpolation matrices, solutions), each result equals the one a fresh process would give, even after callers overwrite arrays returned earlier. No request modifies the arrays, lists or generators passed to it, and requests on one generator object do not change another one.",
 ["histories"], "all sequences of requests and in-place modifications of returned arrays over shared generator objects",
 "the tests never modify a result, nor interleave requests on the same object; caching or sharing errors need a specific history",
 ["qmat/qdelta/__init__.py", "qmat/qcoeff/__init__.py", "qmat/qcoeff/butcher.py", "qmat/qdelta/diag.py"],
 [("per-object QDelta cache", "qmat/qdelta/__init__.py:getQDelta"), ("class-level tables", "qmat/qcoeff/butcher.py:RK.__init__"), ("stiff fallback cache", "qmat/qdelta/diag.py:MIN_SR_FLEX")],
 state=[{"name": "cached approximation matrices", "where": "qmat/qdelta/__init__.py:getQDelta"}, {"name": "class-level Butcher tables", "where": "qmat/qcoeff/butcher.py"}])

prop("C18", "Registries are unambiguous and registration enforces its contract",
 "Every registered class is reachable by its own name and all its declared aliases, each key names exactly one class, and unknown names are rejected with ValueError by the generic functions. Registering a class that lacks a required override, a generic constructor, valid default parameters, a list of aliases, or that reuses an existing name or alias is rejected and does not replace any existing entry; a valid new class becomes available under all its names, and classes listed for a module contain each class once.",
 ["programs", "configurations"], "all registered names and generated class definitions (valid and invalid in each possible way)",
 "the tests only iterate over the existing registry; rejection of wrong or clashing classes is never exercised",
 ["qmat/utils/__init__.py", "qmat/qcoeff/__init__.py", "qmat/qdelta/__init__.py", "qmat/qcoeff/butcher.py"],
 [("storeClass, storeAlias, checkOverriding, checkGenericConstr, getClasses", "qmat/utils/__init__.py"), ("register (Q)", "qmat/qcoeff/__init__.py"), ("register (QDelta)", "qmat/qdelta/__init__.py"), ("checkAndStore, registerRK", "qmat/qcoeff/butcher.py")])

prop("C19", "The SDC solver performs exactly the preconditioned sweeps it defines",
 "For any quadrature matrix, approximation (one for all sweeps or one per sweep), complex coefficient, initial value, interval, number of steps and sweeps, the solution equals the one of the sweep recurrence started from a copy of the step value, ending with the last node or with the quadrature update when weights are given. Monitored residuals and errors are, for each sweep (including before the first), step and node, the collocation residual and the distance to the exact solution, and do not change the solution; with the exact matrix one sweep gives the collocation solution, at a converged iteration sweeps leave it unchanged, and the reported error is the maximum distance to the exact exponential over all time points.",
 ["inputs"], "all matrices x approximations x coefficients x step and sweep counts x weights x monitors",
 "the tests use one imaginary coefficient and compare convergence slopes or two modes against each other; values, monitors and per-sweep matrices are not compared with a reference",
 ["qmat/utils/sdc.py"], [("solveDahlquistSDC, errorDahlquistSDC", "qmat/utils/sdc.py")])

prop("C20", "The predicted SDC order is the order the sweeps really have",
 "For every collocation configuration, number of sweeps, time-stepping approximation and end of step rule (last node being the right boundary, or quadrature), the predicted order is at least one per sweep, plus one for a trapezoidal first sweep and one for the quadrature update, limited by the collocation order. It never exceeds the order really obtained, that is the order to which one step agrees with the exponential, apart from the tabulated bonus configurations with two to four nodes where it is the order observed in a convergence study.",
 ["configurations"], "node distributions x quadrature types x numbers of nodes x sweep counts x approximations x end of step rules",
 "the tests cover 2 to 4 nodes and at most 4 sweeps by slope regression; other sizes and sweep numbers go through the same rules untested",
 ["qmat/utils/sdc.py"], [("getOrderSDC", "qmat/utils/sdc.py")])

prop("C21", "Numerical utilities compute regressions and extrapolations exactly",
 "The numerical order is the least-squares slope of log error against log step size, with the root mean square residual of that fit, for any positive data, hence exact for exact power laws and unaffected by scaling errors or reordering points. The extrapolation matrix evaluates at any times the least-squares polynomial of the requested degree through the node values, thus reproduces all polynomials up to that degree and defaults to interpolation through all nodes.",
 ["inputs"], "all positive error data and step counts, all node sets x times x polynomial degrees",
 "the tests check polynomial reproduction at equidistant nodes shifted by one only, and use the numerical order only as a tool",
 ["qmat/utils/num.py"], [("numericalOrder, getExtrapolationMatrix", "qmat/utils/num.py")])

prop("C22", "Implicit methods are as stable, symmetric and conservative as documented",
 "With the implicit Runge-Kutta tables (main and embedded weights) and the LEGENDRE collocation methods of GAUSS, RADAU-RIGHT and LOBATTO type, the solution for any coefficient whose product with the final time has a non-positive real part never grows, whatever the step size; the L-stable and S-stable tables and RADAU-RIGHT collocation damp very stiff components, and stiffly accurate methods (as well as collocation including the right bound) have their weights as last row. Methods with symmetric nodes (GAUSS and LOBATTO of symmetric distributions, implicit mid-point, trapezoidal rule) are undone by a step back in time and keep the amplitude of oscillations; Gauss-Legendre methods keep quadratic invariants and, as RADAU-RIGHT, never let two solutions of a dissipative system move apart.",
 ["inputs", "configurations"], "implicit tables and collocation configurations x coefficients from tiny to very stiff x step sizes and counts x generated nonlinear systems",
 "the tests measure convergence slopes for one imaginary coefficient with small steps; large steps, stiff coefficients, backward steps and nonlinear systems are never run",
 ["qmat/qcoeff/butcher.py", "qmat/qcoeff/collocation.py", "qmat/qcoeff/__init__.py"],
 [("implicit tables", "qmat/qcoeff/butcher.py"), ("Collocation", "qmat/qcoeff/collocation.py"), ("solveDahlquist", "qmat/qcoeff/__init__.py")])

prop("C23", "Implicit-explicit pairs reach their order when combined",
 "The two tables of every additive pair (ARK548L2SA, its second version, ARK324L2SA, ARK222, ARK443, ARK343, ARK4) have the same nodes, the one part diagonally implicit and the other explicit, and one step combining them agrees with the solution of any split differential equation up to the published order of the pair: all coupling order conditions hold, for the main weights and, where there are, the embedded ones (which the L2SA parts share).",
 ["configurations", "inputs"], "pairs x rooted trees with two kinds of nodes up to the order, and generated split polynomial systems",
 "the tests run each table alone on the Dahlquist problem; the coupling conditions of a pair are never checked",
 ["qmat/qcoeff/butcher.py"],
 [("ARK548L2SAERK to ARK4ERK", "qmat/qcoeff/butcher.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
