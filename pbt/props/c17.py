"""C17: results do not depend on history (stateful sequences, each run in its own process)."""
import os
import pickle
import traceback
import numpy as np
from hypothesis import strategies as st

import gens
from core import Sub, Violation, canon

RULE = ("cases are up to four generator objects (some built from one another) and a sequence of up to fourteen requests on them or on module "
        "functions, each optionally followed by overwriting everything the request returned; non-trivial: at least two requests on one object, "
        "or an overwritten result followed by another request")
ASSUMPTIONS = ["reference: the same single request on newly built objects in a process forked from one that never called the package",
               "attributes that are the state of an object (nodes, weights and Q of a coefficient generator) and results asked with copy=False: "
               "when overwritten, the object and those built from or for it are not asked any more, all others are",
               "a result that cannot be written to counts as safe"]


# ----------------------------------------------------------------------------
# Interpreter (runs in a forked process)
# ----------------------------------------------------------------------------
class HarnessError(Exception):
    pass


class Unbuilt(Exception):
    pass


class World:
    def __init__(self, reuse=False):
        self.args = []
        self.reuse, self.pool, self.used = reuse, {}, {}

    def arg(self, x, keep=False):
        """Register an argument that must not be modified (with reuse: the object given to an earlier request, with new content)."""
        if self.reuse and not keep:
            key = (x.shape, x.dtype) if isinstance(x, np.ndarray) else len(x)
            n = self.used[key] = self.used.get(key, 0) + 1
            old = self.pool.setdefault(key, [])
            if len(old) < n:
                old.append(x.copy())
            elif isinstance(x, np.ndarray):
                old[n - 1][...] = x
            else:
                old[n - 1][:] = x
            x = old[n - 1]
        self.args.append((x, pickle.loads(pickle.dumps(x))))
        return x

    def argsChanged(self):
        self.used = {}
        for x, before in self.args:
            if not equal(x, before, exact=True):
                return f"{before!r} became {x!r}"
        self.args = []
        return None


def build(w, spec):
    """Build an object from its (nested) specification."""
    from qmat.qcoeff.collocation import Collocation
    from qmat import Q_GENERATORS, QDELTA_GENERATORS
    from qmat.nodes import NodesGenerator
    from qmat.lagrange import LagrangeApproximation
    kind = spec[0]
    if kind == "coll":
        return Collocation(*spec[1], *spec[2])
    if kind == "rk":
        return Q_GENERATORS[spec[1]](padding=spec[2]) if spec[2] else Q_GENERATORS[spec[1]]()
    if kind == "nodes":
        return NodesGenerator(spec[1], spec[2])
    if kind == "lag":
        return LagrangeApproximation(w.arg(np.array(spec[1]), True), weightComputation=spec[2])
    if kind == "qdx":
        n, nt, qt = spec[2]
        c = Collocation(n, nt, qt)
        return QDELTA_GENERATORS[spec[1]](nodes=w.arg(np.array(c.nodes), True), Q=w.arg(np.array(c.Q, order="CF"[n % 2]), True), nNodes=n, nodeType=nt, quadType=qt)
    raise HarnessError(kind)


def buildOn(w, spec, objs):
    """Objects built from another object of the sequence."""
    from qmat import QDELTA_GENERATORS
    if spec[0] == "qd":
        return QDELTA_GENERATORS[spec[1]](qGen=objs[spec[2]])
    return build(w, spec)


def call(w, obj, op, a, objs):
    """One request; returns (result, whether the caller may overwrite it)."""
    import qmat
    from qmat.qcoeff.collocation import Collocation
    if op == "attr":
        return getattr(obj, a), a in ("S", "T", "Tinv", "hCoeffs", "dTau", "zeros")
    if op == "genCoeffs":
        return obj.genCoeffs(**a), True
    if op == "qdCoeffs":
        k = w.arg(a["k"]) if isinstance(a["k"], list) else a["k"]
        return obj.genCoeffs(k, a["form"], a["dTau"]), True
    if op == "getQDelta":
        return obj.getQDelta(a), True
    if op == "noCopy":
        return obj.getQDelta(a, copy=False), False
    if op == "compute":
        return obj.computeQDelta(a), False
    if op == "getSDelta":
        return obj.getSDelta(a), True
    if op == "solve":
        return obj.solveDahlquist(complex(*a["lam"]), a["u0"], a["T"], a["n"]), True
    if op == "error":
        return obj.errorDahlquist(complex(*a["lam"]), a["u0"], a["T"], a["n"]), True
    if op == "errorGiven":
        u = w.arg(np.linspace(1, 2, a["n"] + 1) * (1 + 1j))
        return obj.errorDahlquist(complex(*a["lam"]), a["u0"], a["T"], a["n"], uNum=u), True
    if op == "getNodes":
        return obj.getNodes(a), True
    if op == "interp":
        return obj.getInterpolationMatrix(w.arg(list(a)) if len(a) % 2 else w.arg(np.array(a))), True
    if op == "integ":
        return obj.getIntegrationMatrix(w.arg([tuple(i) for i in a[0]]), numQuad=a[1]), True
    if op == "deriv":
        return obj.getDerivativeMatrix(order=a), True
    if op == "evaluate":
        return obj(w.arg(np.array(a)), w.arg(np.cos(np.arange(obj.nPoints)))), True
    # module functions
    if op == "genQ":
        return qmat.genQCoeffs(a["name"], form=a["form"], hCoeffs=a["h"], **a["params"]), True
    if op == "genQD":
        types = w.arg(list(a["types"])) if isinstance(a["types"], list) else a["types"]
        return qmat.genQDeltaCoeffs(types, nSweeps=a["n"], form=a["form"], dTau=a["dTau"], qGen=obj), True
    if op == "genQDx":
        c = Collocation(*a["cfg"])
        types = w.arg(list(a["types"])) if isinstance(a["types"], list) else a["types"]
        return qmat.genQDeltaCoeffs(types, nSweeps=a["n"], form=a["form"], dTau=a["dTau"], nodes=w.arg(np.array(c.nodes)), Q=w.arg(np.array(c.Q)),
                                    nNodes=a["cfg"][0], nodeType=a["cfg"][1], quadType=a["cfg"][2]), True
    if op == "sparse":
        from qmat.lagrange import getSparseInterpolationMatrix
        return getSparseInterpolationMatrix(w.arg(np.array(a["x"])), w.arg(np.array(a["y"])), a["p"], a["period"]).toarray(), True
    if op == "instance":
        c = qmat.Q_GENERATORS[a].getInstance()
        return (type(c).__name__, c.genCoeffs(form="Z2N"), c.order), True
    if op == "fejer":
        from qmat.lagrange import computeFejerRule
        return computeFejerRule(a), True
    if op == "sdc":
        from qmat.utils.sdc import solveDahlquistSDC
        c = Collocation(*a["cfg"])
        QD = w.arg(np.array(qmat.genQDeltaCoeffs(a["type"], nSweeps=a["n"], qGen=c)))
        mon = w.arg(list(a["mon"])) if a["mon"] else None
        out = solveDahlquistSDC(complex(*a["lam"]), 1, 1, a["steps"], a["n"], w.arg(np.array(c.Q)), QD, weights=w.arg(np.array(c.weights)) if a["w"] else None, monitors=mon)
        return out, True
    if op == "order":
        from qmat.utils.sdc import getOrderSDC
        return getOrderSDC(obj, a["n"], a["type"], a["step"]), True
    if op == "numOrder":
        from qmat.utils.num import numericalOrder
        return numericalOrder(w.arg(list(a[0])), w.arg(np.array(a[1]))), True
    if op == "extrap":
        from qmat.utils.num import getExtrapolationMatrix
        return getExtrapolationMatrix(w.arg(np.array(a[0])), w.arg(np.array(a[1]))), True
    if op == "ldu":
        from qmat.utils.num import lduFactorization
        return lduFactorization(w.arg(np.array(a))), True
    raise HarnessError(op)


def overwrite(x, how):
    if isinstance(x, np.ndarray):
        if not x.flags.writeable:
            return
        if how == "fill":
            x[...] = 1234.5
        elif how == "scale":
            x *= -3
        elif x.size:
            x.flat[x.size // 2] += 1
    elif isinstance(x, (tuple, list)):
        for v in x:
            overwrite(v, how)
        if isinstance(x, list):
            x.append("overwritten")
    elif isinstance(x, dict):
        for v in x.values():
            overwrite(v, how)


def freeze(x):
    """Picklable copy of a result."""
    return pickle.loads(pickle.dumps(x))


def request(w, obj, op, a, objs):
    """Returns (frozen outcome, raw result or None, modified argument)."""
    try:
        res, own = call(w, obj, op, a, objs)
        out = ("ok", freeze(res))
    except HarnessError:
        raise
    except Exception as e:
        res, own, out = None, False, ("exc", type(e).__name__)
    return out, res, own, w.argsChanged()


def root(specs, i):
    """The object everything of object i may share state with."""
    while specs[i][0] == "qd":
        i = specs[i][2]
    return i


def isState(specs, i, op, a):
    """Requests whose result is the state of an object: overwriting it spoils that object (but no other one)."""
    if i < 0:
        return False
    if specs[i][0] in ("coll", "rk"):
        return op == "attr" and a in ("nodes", "weights", "Q", "weightsEmbedded")
    return op in ("noCopy", "compute") and specs[root(specs, i)][0] in ("coll", "rk", "qdx")


def runSequence(case):
    w = World(case.get("reuse"))
    specs = case["objs"]
    objs, outs = {}, []

    def make(i):
        if i in objs:
            return
        if specs[i][0] == "qd":
            make(specs[i][2])
        try:
            objs[i] = buildOn(w, specs[i], objs)
        except HarnessError:
            raise
        except Exception as e:
            raise Unbuilt(f"building {specs[i]} fails: {type(e).__name__}: {e}")
    spoiled = set()
    try:
        if not case.get("lazy"):
            for i in range(len(specs)):
                make(i)
        for i, op, a, how in case["steps"]:
            if i >= 0 and root(specs, i) in spoiled:
                outs.append(None)
                continue
            if i >= 0:
                make(i)
            out, res, own, changed = request(w, objs.get(i), op, a, objs)
            outs.append((out, changed))
            if how.startswith("state-"):
                if isState(specs, i, op, a):
                    overwrite(res, how[6:])
                    spoiled.add(root(specs, i))
            elif how and own:
                overwrite(res, how)
    except Unbuilt as e:
        return str(e)
    return outs


def runFresh(specs, i, op, a):
    """The request on new objects, only those it needs."""
    w = World()
    objs = {}

    def make(j):
        s = specs[j]
        if s[0] == "qd":
            make(s[2])
        objs[j] = buildOn(w, s, objs)
    if i >= 0:
        make(i)
    out, _, _, _ = request(w, objs.get(i), op, a, objs)
    return out


def forked(fn, *args):
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn(*args)))
            except BaseException:
                data = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(wr, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked process died")
    kind, val = pickle.loads(data)
    if kind == "error":
        raise RuntimeError(val)
    return val


def equal(a, b, exact=False):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if exact or a.dtype.kind not in "fc":
            return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
        m = np.abs(b[np.isfinite(b)]).max(initial=0)
        return np.allclose(a, b, rtol=1e-10, atol=1e-10 * m, equal_nan=True)
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y, exact) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(equal(a[k], b[k], exact) for k in a)
    if isinstance(a, (float, complex, np.floating, np.complexfloating)) and not exact:
        return equal(np.array(a, dtype=complex), np.array(b, dtype=complex))
    return type(a) is type(b) and a == b


FRESH = {}


def needed(specs, i):
    """Specification of an object with everything it is built from."""
    if i < 0:
        return None
    s = specs[i]
    return [s[0], s[1], needed(specs, s[2])] if s[0] == "qd" else s


def fresh(specs, i, op, a):
    key = canon([needed(specs, i), op, a])
    if key not in FRESH:
        if len(FRESH) > 20000:
            FRESH.clear()
        FRESH[key] = forked(runFresh, specs, i, op, a)
    return FRESH[key]


def run(case, ctx):
    outs = forked(runSequence, case)
    if isinstance(outs, str):
        raise Violation(outs)
    text = lambda n: "\n".join(f"  {s}" for s in case["objs"]) + "\n" + "\n".join(f"  {s}" for s in case["steps"][:n + 1])
    for n, (res, (i, op, a, how)) in enumerate(zip(outs, case["steps"])):
        if res is None:        # on an object whose state was overwritten
            continue
        out, changed = res
        if changed:
            raise Violation(f"request {n} ({op}) modified its argument: {changed}\nsequence:\n{text(n)}")
        ref = fresh(case["objs"], i, op, a)
        if out[0] != ref[0] or not equal(out[1], ref[1]):
            raise Violation(f"request {n} gives\n{out[1]}\nbut in a fresh process\n{ref[1]}\nsequence:\n{text(n)}")


# ----------------------------------------------------------------------------
# Generation of sequences
# ----------------------------------------------------------------------------
RK = ["RK4", "ERK4", "EE", "IE", "BE", "RK2", "HEUN2", "RK53", "CashKarp", "SDIRK54", "EDIRK43", "ARK548L2SA", "FE", "TRAP", "GAUSS-LG"]
QD_ANY = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE", "PIC", "Exact", "EXACT", "LU", "LU2", "QPar", "GS", "LDU", "MIN-SR-NS", "Jumper", "FB",
          "FlexJumper", "FB2", "DNODES-2", "DNODES-5"]
QD_COLL = ["MIN-SR-S", "MIN-SR-FLEX", "MIN-SR-FLEX", "MIN-SR-FLEX", "MIN3", "VDHS", "Jumper", "FlexJumper", "Exact", "LU", "BE", "FE", "SOE", "TRAPAR"]


def rkNames():
    from qmat.qcoeff.butcher import RK_SCHEMES
    return sorted(RK_SCHEMES)


NAMES = []


@st.composite
def objStrategy(draw, prev):
    if not NAMES:
        NAMES.extend(rkNames())       # reading the registry only
    choices = ["coll", "coll", "rk", "qdx", "nodes", "lag"]
    src = [j for j, s in enumerate(prev) if s[0] in ("coll", "rk")]
    if src:
        choices += ["qd"] * 6
    kind = draw(st.sampled_from(choices))
    if kind == "coll":
        return ["coll", draw(st.one_of(gens.configs(4), gens.configs(4), gens.configs(9))), draw(st.sampled_from([[0, 1], [0, 1], [0, 2], [1, 3], [-1, 1], [0, 3], [-1, 0]]))]
    if kind == "rk":
        return ["rk", draw(st.sampled_from(NAMES)), draw(st.sampled_from([None, None, "LEFT", "RIGHT", "BOTH"]))]
    if kind == "nodes":
        return ["nodes", draw(st.sampled_from(gens.num.NODE_TYPES)), draw(st.sampled_from(gens.num.QUAD_TYPES))]
    if kind == "lag":
        pts = draw(st.lists(st.integers(-6, 6), min_size=1, max_size=5))
        return ["lag", [p / 4 for p in pts], draw(st.sampled_from(["AUTO", "STABLE", "FAST"]))]
    if kind == "qdx":
        return ["qdx", draw(st.sampled_from(QD_COLL)), draw(st.one_of(gens.configs(4), gens.configs(4), gens.configs(9)))]
    j = draw(st.sampled_from(src))
    pool = QD_COLL if prev[j][0] == "coll" and draw(st.booleans()) else QD_ANY
    return ["qd", draw(st.sampled_from(pool)), j]


def lam(draw):
    return [draw(st.integers(-8, 2)) / 4, draw(st.integers(-4, 4)) / 4]


def stepFor(draw, i, spec, objs):
    kind = spec[0] if spec else "fun"
    form = st.sampled_from(["Z2N", "Z2N", "N2N"])
    ks = st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 30))
    if kind in ("coll", "rk"):
        ops = ["attr", "attr", "genCoeffs", "genCoeffs", "genCoeffs", "solve", "error", "errorGiven", "genQD"] + (["order"] if kind == "coll" else [])
        op = draw(st.sampled_from(ops))
        if op == "attr":
            return op, draw(st.sampled_from(["nodes", "weights", "Q", "S", "T", "Tinv", "hCoeffs", "order", "rightIsNode", "weightsEmbedded", "nNodes"]))
        if op == "genCoeffs":
            return op, {"form": draw(form), "hCoeffs": draw(st.booleans()), "embedded": draw(st.integers(0, 3)) == 0 and kind == "rk"}
        if op in ("solve", "error", "errorGiven"):
            return op, {"lam": lam(draw), "u0": draw(st.sampled_from([1, 2.5])), "T": draw(st.sampled_from([1, 0.5])), "n": draw(st.integers(1, 4))}
        if op == "order":
            return op, {"n": draw(st.integers(0, 4)), "type": draw(st.sampled_from(["BE", "TRAP", "FE"])), "step": draw(st.sampled_from(["QUADRATURE", "LASTNODE"]))}
        pool = QD_COLL if kind == "coll" else QD_ANY
        types = draw(st.sampled_from(pool)) if draw(st.booleans()) else draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3))
        n = draw(st.sampled_from([None, 4, 5]))
        return op, {"types": types, "n": n, "form": draw(form), "dTau": draw(st.booleans())}
    if kind in ("qd", "qdx"):
        op = draw(st.sampled_from(["qdCoeffs", "qdCoeffs", "getQDelta", "getQDelta", "getSDelta", "attr", "noCopy", "compute"]))
        if op == "attr":
            return op, draw(st.sampled_from(["dTau", "size", "zeros"]))
        k = draw(st.one_of(ks, ks, st.none()))
        if op == "qdCoeffs":
            if draw(st.booleans()):
                k = draw(st.lists(ks, min_size=1, max_size=4))
            return op, {"k": k, "form": draw(form), "dTau": draw(st.booleans())}
        return op, k
    if kind == "nodes":
        return "getNodes", draw(st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(2, 120)))
    if kind == "lag":
        op = draw(st.sampled_from(["interp", "integ", "deriv", "evaluate", "attr"]))
        t = [v / 8 for v in draw(st.lists(st.integers(-12, 12), min_size=1, max_size=4))]
        if op in ("interp", "evaluate"):
            return op, t
        if op == "integ":
            return op, [[[v, v + 0.5] for v in t], draw(st.sampled_from(["FEJER", "LEGENDRE_NUMPY", "LEGENDRE_SCIPY"]))]
        if op == "deriv":
            return op, draw(st.sampled_from([1, 2, "ALL"]))
        return op, draw(st.sampled_from(["points", "weights", "nPoints", "nUniquePoints", "hasDuplicates"]))
    op = draw(st.sampled_from(["genQ", "genQ", "genQDx", "genQDx", "sparse", "fejer", "sdc", "numOrder", "extrap", "ldu", "instance"]))
    if op == "instance":
        return op, draw(st.sampled_from(["Collocation"] + NAMES))
    if op == "genQ":
        name = draw(st.sampled_from(["Collocation", "coll"] + NAMES))
        if name.lower().startswith("coll"):
            n, nt, qt = draw(gens.configs(4))
            params = {"nNodes": n, "nodeType": nt, "quadType": qt}
        else:
            params = {}
            pad = draw(st.sampled_from([None, None, "RIGHT"]))
            if pad:
                params["padding"] = pad
        return op, {"name": name, "form": draw(form), "h": draw(st.booleans()), "params": params}
    if op == "genQDx":
        types = draw(st.lists(st.sampled_from(QD_COLL), min_size=1, max_size=3))
        return op, {"types": types, "n": draw(st.sampled_from([None, 4, 6])), "form": draw(form), "dTau": draw(st.booleans()), "cfg": draw(gens.configs(4))}
    if op == "sparse":
        x = [v / 4 for v in sorted(draw(st.sets(st.integers(0, 20), min_size=4, max_size=8)))]
        o = draw(st.sampled_from([0, 0, 0, -7, 12]))
        y = [v / 8 for v in draw(st.lists(st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(-100, 150)), min_size=1, max_size=4))]
        return op, {"x": [v + o for v in x], "y": y, "p": draw(st.integers(1, 4)), "period": draw(st.sampled_from([-1, 6.0, 6.0, 5.125]))}
    if op == "fejer":
        return op, draw(st.one_of(st.integers(1, 7), st.integers(1, 200)))
    if op == "sdc":
        n = draw(st.integers(1, 4))
        return op, {"cfg": draw(gens.configs(4, quadTypes=["RADAU-RIGHT", "LOBATTO"])), "type": draw(st.sampled_from(["BE", "FE", "MIN-SR-FLEX"])), "n": n,
                    "steps": draw(st.integers(1, 5)), "lam": lam(draw), "w": draw(st.booleans()),
                    "mon": draw(st.sampled_from([None, ["residuals"], ["residuals", "errors"]]))}
    if op == "numOrder":
        m = draw(st.integers(2, 6))
        return op, [draw(st.lists(st.integers(1, 500), min_size=m, max_size=m, unique=True)), [v / 64 for v in draw(st.lists(st.integers(1, 200), min_size=m, max_size=m))]]
    if op == "extrap":
        return op, [[v / 8 for v in draw(st.lists(st.integers(-8, 16), min_size=1, max_size=6, unique=True))],
                    [v / 8 for v in draw(st.lists(st.integers(-24, 32), min_size=1, max_size=4))]]
    n = draw(st.integers(1, 4))
    return op, [[(9.0 if i == j else 1.0 / (1 + i + j)) for j in range(n)] for i in range(n)]


@st.composite
def strategy(draw):
    objs = []
    for _ in range(draw(st.integers(1, 4))):
        objs.append(draw(objStrategy(objs)))
    steps = []
    for _ in range(draw(st.one_of(st.integers(2, 14), st.integers(2, 14), st.integers(15, 40)))):
        if steps and draw(st.integers(0, 2)) == 0:
            i, op, a, _ = draw(st.sampled_from(steps))       # the same request again
        else:
            i = draw(st.integers(-1, len(objs) - 1))
            if i == -1 and draw(st.booleans()):
                i = len(objs) - 1
            op, a = stepFor(draw, i, objs[i] if i >= 0 else None, objs)
        how = draw(st.sampled_from(["", "fill", "fill", "scale", "one"]))
        if isState(objs, i, op, a) and draw(st.integers(0, 2)) == 0:
            how = "state-" + draw(st.sampled_from(["fill", "scale", "one"]))
        steps.append([i, op, a, how])
    return {"objs": objs, "steps": steps, "lazy": draw(st.booleans()), "reuse": draw(st.integers(0, 2)) == 0}


def nontrivial(c):
    idx = [s[0] for s in c["steps"]]
    return len(set(idx)) < len(idx) or any(s[3] for s in c["steps"][:-1])


# ----------------------------------------------------------------------------
# Systematic short histories: every request, overwritten, and asked again
# ----------------------------------------------------------------------------
def shortCases(tier):
    from qmat.qcoeff.butcher import RK_SCHEMES
    out = []
    for nm in sorted({c.__name__ for c in RK_SCHEMES.values()}):
        st1 = [[i, "genCoeffs", {"form": f, "hCoeffs": True, "embedded": e}, "fill"] for f in ("Z2N", "N2N") for e in (False, True) for i in (0, 1)]
        fun = [[-1, "genQ", {"name": nm, "form": "Z2N", "h": True, "params": {}}, "fill"]] * 2
        at = [[i, "attr", x, "scale"] for i in (0, 1) for x in ("S", "T", "Tinv", "hCoeffs", "weightsEmbedded", "weights", "order")]
        slv = [[0, "solve", {"lam": [-1, 1], "u0": 1, "T": 1, "n": 2}, "fill"]]
        out.append({"objs": [["rk", nm, None], ["rk", nm, "BOTH"]], "steps": st1 + fun + at + slv + st1 + fun + slv})
        for lazy in (False, True):
            steps = []
            for i, x in enumerate(("nodes", "weights", "Q", "weightsEmbedded", "nodes", "weights", "Q", "weightsEmbedded")):
                steps += [[i, "genCoeffs", {"form": "Z2N", "hCoeffs": True, "embedded": e}, "fill"] for e in (False, True)]
                steps += [[i, "attr", x, "state-fill"]]
            steps += fun[:1] + [[i, "genCoeffs", {"form": "Z2N", "hCoeffs": True, "embedded": e}, ""] for i in (8, 9) for e in (False, True)]
            objs = [["rk", nm, None]] * 4 + [["rk", nm, "BOTH"]] * 4 + [["rk", nm, None], ["rk", nm, "LEFT"]]
            out.append({"objs": objs, "steps": steps, "lazy": lazy})
    for cfg in ([3, "LEGENDRE", "RADAU-RIGHT"], [4, "LEGENDRE", "LOBATTO"], [3, "CHEBY-3", "GAUSS"]):
        for qd in sorted(set(QD_ANY + QD_COLL)):
            for src in (["qd", qd, 0], ["qdx", qd, cfg]):
                req = []
                for k in (1, 2, 4, 5, 6, None, 1):
                    req += [[1, "getQDelta", k, "fill"], [1, "getSDelta", k, "fill"], [1, "qdCoeffs", {"k": k, "form": "Z2N", "dTau": True}, "scale"],
                            [1, "qdCoeffs", {"k": k, "form": "N2N", "dTau": False}, "scale"], [1, "compute", k, ""]]
                req += [[1, "qdCoeffs", {"k": [1, 2, 5, 6, 1], "form": "Z2N", "dTau": False}, "fill"]]
                tail = [[1, "noCopy", 5, ""], [1, "getQDelta", 5, ""], [1, "getQDelta", 2, ""], [1, "getQDelta", 1, ""], [1, "attr", "dTau", "fill"], [1, "attr", "dTau", ""]]
                chk = [[0, "genCoeffs", {"form": "Z2N", "hCoeffs": True, "embedded": False}, ""], [0, "attr", "S", ""], [0, "attr", "nodes", ""]]
                out.append({"objs": [["coll", cfg, [0, 1]], src], "steps": req + tail + chk})
                out.append({"objs": [["coll", cfg, [0, 1]], src], "steps": req[::-1] + tail + chk})
    for cfg in ([10, "LEGENDRE", "RADAU-RIGHT"], [11, "CHEBY-2", "LOBATTO"], [13, "EQUID", "GAUSS"], [33, "LEGENDRE", "GAUSS"], [48, "CHEBY-1", "RADAU-RIGHT"]):
        for qd in sorted(set(QD_ANY + QD_COLL)) if cfg[0] < 20 else ["BE", "FE", "TRAP", "BEPAR", "LU", "LDU", "GS", "QPar", "Exact", "PIC", "MIN-SR-NS", "Jumper"]:
            chk = [[0, "attr", "Q", ""], [0, "attr", "nodes", ""], [0, "attr", "S", "fill"], [0, "genCoeffs", {"form": "N2N", "hCoeffs": True, "embedded": False}, "fill"]]
            for src in (["qd", qd, 0], ["qdx", qd, cfg]):
                steps = [[1, "getQDelta", 2, "fill"], [1, "getSDelta", 2, "fill"], [1, "qdCoeffs", {"k": [1, 2, 30], "form": "Z2N", "dTau": True}, "fill"]]
                out.append({"objs": [["coll", cfg, [0, 1]], src], "steps": steps + chk + steps + [[1, "attr", "dTau", ""]]})
            fun = [[-1, "genQDx", {"types": [qd], "n": 2, "form": f, "dTau": True, "cfg": cfg}, "scale"] for f in ("Z2N", "N2N", "Z2N")]
            out.append({"objs": [["coll", cfg, [0, 1]]], "steps": fun + [[0, "genQD", {"types": [qd], "n": 2, "form": "Z2N", "dTau": True}, "fill"]] + chk})
    # the state of one object overwritten: equal objects, built before or after, are as always
    for cfg in gens.allConfigs(4):
        for b in ([0, 1], [1, 3]):
            for lazy in (False, True):
                steps = []
                for i in range(3):
                    steps += [[i, "attr", x, ""] for x in ("nodes", "weights", "Q", "S", "T")] + [[i, "genCoeffs", {"form": "Z2N", "hCoeffs": True, "embedded": False}, "fill"]]
                    steps += [[i, "attr", ("nodes", "weights", "Q")[i], "state-fill"]]
                steps += [[3, "attr", x, ""] for x in ("nodes", "weights", "Q", "S")] + [[4, "getNodes", cfg[0], ""]]
                out.append({"objs": [["coll", cfg, b]] * 4 + [["nodes", cfg[1], cfg[2]]], "steps": steps, "lazy": lazy})
    for cfg in ([3, "LEGENDRE", "RADAU-RIGHT"], [4, "LEGENDRE", "LOBATTO"]):
        for qd in sorted(set(QD_ANY + QD_COLL)):
            for op in ("noCopy", "compute"):
                for lazy in (False, True):
                    objs = [["coll", cfg, [0, 1]], ["coll", cfg, [0, 1]], ["qd", qd, 0], ["qd", qd, 1], ["qdx", qd, cfg], ["qdx", qd, cfg]]
                    for k in (1, 3, 4, 9):
                        steps = []
                        for i in (2, 4, 3):
                            steps += [[i, "getQDelta", k, ""], [i, op, k, "state-scale"]]
                        steps += [[5, "qdCoeffs", {"k": [1, k], "form": "Z2N", "dTau": True}, ""]]
                        steps += [[-1, "genQDx", {"types": [qd], "n": k, "form": "Z2N", "dTau": True, "cfg": cfg}, ""]]
                        out.append({"objs": objs, "steps": steps, "lazy": lazy})
    # collocation on intervals with the same length, left or right bound
    for cfg in gens.allConfigs(4):
        bs = [[0, 1], [-1, 1], [0, 2], [1, 2], [-1, 0], [0, 1.5], [0.5, 1], [0, 1]]
        out.append({"objs": [["coll", cfg, b] for b in bs], "lazy": True,
                    "steps": [[i, "attr", x, ""] for i in range(len(bs)) for x in ("Q", "nodes", "weights", "S", "hCoeffs", "rightIsNode")]})
    for spec in (["nodes", "LEGENDRE", "RADAU-LEFT"], ["nodes", "CHEBY-4", "LOBATTO"], ["nodes", "EQUID", "GAUSS"]):
        out.append({"objs": [spec], "steps": [[0, "getNodes", n, "fill"] for n in (2, 3, 5, 3, 2, 6, 5)]})
    out.append({"objs": [], "steps": [[-1, "fejer", n, "fill"] for n in (1, 2, 5, 5, 3, 2, 1)]})
    lag = ["lag", [0.0, 0.5, 1.0, 0.5, 2.0], "AUTO"]
    reqs = [[0, "interp", [0.25, 0.5], "fill"], [0, "integ", [[[0, 1], [0.5, 2.0]], "FEJER"], "fill"], [0, "deriv", "ALL", "fill"], [0, "deriv", 1, "scale"],
            [0, "evaluate", [0.1, 3.0], "fill"]]
    out.append({"objs": [lag], "steps": reqs + reqs[::-1] + reqs})
    # the same arrays given to several requests, with another content
    for spec in (lag, ["lag", [1.0, 0.0, 2.0, 3.0], "FAST"]):
        steps = []
        for t in ([0.25, 0.5], [0.375, 0.5], [0.375, 1.5], [0.25, 0.5], [2.0, 0.0]):
            steps += [[0, "evaluate", t, ""], [0, "interp", t, ""], [0, "interp", t + [1.0], ""], [0, "integ", [[[v, v + 1] for v in t], "FEJER"], ""],
                      [-1, "sparse", {"x": [0, 0.5, 1, 2.0 + t[0]], "y": t, "p": 2, "period": -1}, ""], [-1, "extrap", [[0, 0.5, 1 + t[0]], t], ""],
                      [-1, "ldu", [[4.0, t[0]], [t[1], 5.0]], ""], [-1, "numOrder", [[10, 20, 40], [t[0] + 3, 1 + t[1] / 8, 0.125]], ""]]
        out.append({"objs": [spec], "steps": steps, "reuse": True})
    for qd in sorted(set(QD_ANY + QD_COLL)):
        steps = [[-1, "genQDx", {"types": [qd], "n": 2, "form": "Z2N", "dTau": True, "cfg": [3, nt, qt]}, ""] for nt, qt in
                 (("LEGENDRE", "RADAU-RIGHT"), ("EQUID", "LOBATTO"), ("CHEBY-2", "GAUSS"), ("LEGENDRE", "RADAU-RIGHT"))]
        steps += [[0, "qdCoeffs", {"k": k, "form": "Z2N", "dTau": True}, ""] for k in ([1, 2], [3, 4], [2, 1], [1, 1])]
        out.append({"objs": [["qdx", qd, [3, "LEGENDRE", "RADAU-RIGHT"]]], "steps": steps, "reuse": True})
    steps = [[-1, "sdc", {"cfg": [2, nt, "RADAU-RIGHT"], "type": "BE", "n": 2, "steps": 2, "lam": [-1, 1], "w": True, "mon": m}, ""] for nt in ("LEGENDRE", "EQUID", "CHEBY-1")
             for m in (["residuals"], ["errors"], ["residuals"], None)]
    out.append({"objs": [], "steps": steps, "reuse": True})
    # default instances of all classes, one after the other, in both directions
    names = ["Collocation"] + sorted(RK_SCHEMES)
    out.append({"objs": [], "steps": [[-1, "instance", nm, ""] for nm in names + names[::-1]]})
    out.append({"objs": [], "steps": [[-1, "instance", nm, "fill"] for nm in sorted(names, key=len) + names]})
    return out


SUBS = [
    Sub("sequences", run, strategy, quick=500, thorough=24000, nontrivial=nontrivial, shards=8,
        classify=lambda c: sorted({s[1] for s in c["steps"]})),
    Sub("overwriting", run, cases=shortCases, nontrivial=nontrivial, chunks=8),
]
