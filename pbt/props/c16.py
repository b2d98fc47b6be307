"""C16: all ways of requesting an approximation."""
import warnings
import numpy as np
from hypothesis import strategies as st

import gens
import num
from core import Sub, Violation, sut, rejects
from qmat import genQDeltaCoeffs, QDELTA_GENERATORS, Q_GENERATORS
from qmat.qcoeff.collocation import Collocation

RULE = ("cases are a collocation configuration, one or several approximation names, a number of sweeps, a form, and a way of passing "
        "parameters (explicit, positional, from a coefficient generator, both with overriding), or an invalid variation of such a request; "
        "non-trivial: several sweeps or an overridden or extracted parameter")
ASSUMPTIONS = ["reference: computeQDelta(k) of a fresh object of the class that has the documented name, built from explicit parameters",
               "the values themselves are checked by C13, C14 and C15"]

# documented class name -> (aliases, parameters, depends on the sweep)
TYPES = {
    "BE": (["IE"], "nodes", 0), "FE": (["EE"], "nodes", 0), "TRAP": (["CN"], "nodes", 0), "BEPAR": (["IEpar"], "nodes", 0),
    "TRAPAR": ([], "nodes", 0), "SOE": (["LeapFrog", "LF"], "nodes", 0),
    "PIC": (["Picard"], "Q", 0), "Exact": (["EXACT"], "Q", 0), "LU": ([], "Q", 0), "LU2": ([], "Q", 0),
    "QPar": (["Qpar", "Qdiag"], "Q", 0), "GS": (["GaussSeidel"], "Q", 0), "LDU": ([], "Q", 0),
    "MIN": (["MIN-Speck"], "Q", 0), "MIN3": (["Magic_Numbers"], "coll", 0), "MIN_VDHS": (["VDHS"], "coll", 0),
    "MIN_SR_NS": (["MIN-SR-NS", "MIN_GT"], "nodes", 0), "MIN_SR_S": (["MIN-SR-S"], "coll", 0), "MIN_SR_FLEX": (["MIN-SR-FLEX"], "coll", 1),
    "Jumper": (["JUMPER", "FB"], "nodes", 1), "FlexJumper": (["FLEX-JUMPER", "FB2"], "nodes", 1),
    "DNODES": (["DNODES-1"], "nodes", 0), "DNODES2": (["DNODES-2"], "nodes", 0), "DNODES3": (["DNODES-3"], "nodes", 0),
    "DNODES4": (["DNODES-4"], "nodes", 0), "DNODES5": (["DNODES-5"], "nodes", 0),
}
CANON = {a: n for n, (al, _, _) in TYPES.items() for a in al + [n]}
TIMESTEP = ["BE", "FE", "TRAP", "BEPAR", "TRAPAR", "SOE"]
TABLE = {"MIN3": {("LEGENDRE", "LOBATTO"): (2, 3, 4, 5, 7, 9), ("LEGENDRE", "RADAU-RIGHT"): (2, 3, 4, 5, 7, 9),
                  ("EQUID", "RADAU-RIGHT"): (2, 3, 4, 5, 7, 9)},
         "MIN_VDHS": {("LEGENDRE", "RADAU-RIGHT"): (3, 4)}}


def available(name, cfg):
    c = CANON[name]
    if c in TABLE:
        return cfg[0] in TABLE[c].get((cfg[1], cfg[2]), ())
    if c == "MIN":
        return cfg[0] <= 3 and cfg[2] in ("GAUSS", "RADAU-RIGHT")
    if c == "LDU":
        return cfg[2] in ("GAUSS", "RADAU-RIGHT")
    return True


def ndarrayLike(x):
    return np.array(x, dtype=float)


def params(kind, name, coll, tL=None):
    """Explicit parameters, as the documentation of each class has them."""
    if kind == "nodes":
        p = {"nodes": ndarrayLike(coll.nodes)}
        if CANON[name] in TIMESTEP:
            p["tLeft"] = coll.tLeft if tL is None else tL
        return p
    if kind == "Q":
        return {"Q": ndarrayLike(coll.Q)}
    return {"nNodes": coll.nNodes, "nodeType": coll.nodeType, "quadType": coll.quadType}


def reference(name, p, k):
    """Matrix of sweep k (None: default) and delta tau."""
    c = CANON[name]
    cls = QDELTA_GENERATORS.get(c)
    if cls is None:
        raise Violation(f"{c} is not registered")
    gen = sut(cls, **p)
    D = sut(gen.computeQDelta) if k is None else sut(gen.computeQDelta, k)
    return np.array(D), np.array(sut(lambda: gen.dTau))


def transfer(n):
    return np.eye(n) - np.diag(np.ones(n - 1), -1)


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    tol = 1e-12 * max(1e-300, np.abs(b[np.isfinite(b)]).max(initial=0))
    if not np.allclose(a, b, rtol=1e-12, atol=tol, equal_nan=True):
        raise Violation(f"{what}:\n{a}\ninstead of\n{b}")


def request(case, types, nSweeps, form, dTau, kw):
    args = {}
    if nSweeps is not None:
        args["nSweeps"] = nSweeps
    if form != "Z2N" or case["explicit"]:
        args["form"] = form
    if dTau or case["explicit"]:
        args["dTau"] = dTau
    return sut(genQDeltaCoeffs, types if isinstance(types, str) else list(types), **args, **kw)


def allParams(coll, tL):
    return {"nodes": coll.nodes, "tLeft": tL, "Q": coll.Q, "nNodes": coll.nNodes, "nodeType": coll.nodeType, "quadType": coll.quadType}


# ----------------------------------------------------------------------------
def runGeneric(case, ctx):
    n, nt, qt = case["cfg"]
    coll = sut(Collocation, n, nt, qt, *case["bounds"])
    other = sut(Collocation, *case["cfg2"], *case["bounds"])
    types, nSweeps, form, dTau = case["types"], case["nSweeps"], case["form"], case["dTau"]
    style = case["style"]
    names = [types] if isinstance(types, str) else list(types)
    used = coll
    tL = coll.tLeft
    if style == "explicit":
        kw = allParams(coll, tL)
        kw["somethingElse"] = 3
    elif style == "qGen":
        kw = {"qGen": coll}
    elif style == "coll":
        kw = {"coll": coll}
    elif style == "override":
        # every parameter given explicitly, for another configuration
        kw = {"qGen": other, **allParams(coll, tL)}
    elif style == "overrideLeft":
        tL = case["bounds"][0] - 1
        kw = {"qGen": coll, "tLeft": tL}
    what = f"genQDeltaCoeffs({types!r}, nSweeps={nSweeps}, form={form!r}, {style}) on {case['cfg']}, {case['bounds']}"

    single = isinstance(types, str) and nSweeps is None
    total = nSweeps if nSweeps is not None else len(names)
    names = names + [names[-1]] * (total - len(names))
    mats, dT = [], None
    for i, nm in enumerate(names):
        D, d = reference(nm, params(TYPES[CANON[nm]][1], nm, used, tL), None if single else i + 1)
        mats.append(transfer(n) @ D if form == "N2N" else D)
        dT = d if dT is None else dT
    exp = mats[0] if single else np.array(mats)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = request(case, types, nSweeps, form, dTau, kw)
    if dTau:
        if not (isinstance(out, (tuple, list)) and len(out) == 2):
            raise Violation(f"{what} with dTau=True does not return a pair but {type(out)}")
        num.arr(out[1], (n,), f"dTau of {what}")
        same(out[1], dT, f"dTau of {what}")
        out = out[0]
    num.arr(out, exp.shape, what)
    same(out, exp, what)


def names_(draw, cfg, bounds):
    pool = [a for a in sorted(CANON) if available(a, cfg)]
    if bounds != [0, 1]:
        # parameters on the unit interval whatever the interval of the generator
        pool = [a for a in pool if TYPES[CANON[a]][1] != "coll"]
    kdep = [a for a in pool if TYPES[CANON[a]][2]]
    one = lambda: draw(st.sampled_from(kdep)) if kdep and draw(st.booleans()) else draw(st.sampled_from(pool))
    return one


@st.composite
def genericStrategy(draw):
    cfg = draw(st.one_of(gens.configs(5), gens.configs(5), gens.configs(9)))
    bounds = draw(st.sampled_from([[0, 1], [0, 1], [0, 2], [1, 3], [-1, 1]]))
    one = names_(draw, cfg, bounds)
    kind = draw(st.sampled_from(["single", "repeat", "list", "list", "listmore", "listmore"]))
    nSweeps = None
    if kind in ("single", "repeat"):
        types = one()
        if kind == "repeat":
            nSweeps = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 40)))
    else:
        types = [one() for _ in range(draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 12))))]
        if kind == "listmore":
            nSweeps = len(types) + draw(st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(5, 30)))
    return {"cfg": cfg, "cfg2": draw(gens.configs(5)), "bounds": bounds, "types": types, "nSweeps": nSweeps,
            "form": draw(st.sampled_from(["Z2N", "N2N"])), "dTau": draw(st.booleans()), "explicit": draw(st.booleans()),
            "style": draw(st.sampled_from(["explicit", "qGen", "qGen", "coll", "override", "overrideLeft"]))}


def genericCases(tier):
    out = []
    for cfg in ([16, "LEGENDRE", "GAUSS"], [25, "CHEBY-1", "LOBATTO"], [40, "LEGENDRE", "RADAU-RIGHT"]):
        for nm in sorted(CANON):
            if available(nm, cfg) and CANON[nm] not in ("MIN_SR_S", "MIN_SR_FLEX"):
                out.append({"cfg": cfg, "cfg2": [4, "CHEBY-1", "GAUSS"], "bounds": [0, 1], "types": nm, "nSweeps": [None, 5][cfg[0] % 2], "form": ["Z2N", "N2N"][cfg[0] % 2],
                            "dTau": True, "explicit": False, "style": ["explicit", "qGen"][cfg[0] % 2]})
        out.append({"cfg": cfg, "cfg2": [4, "CHEBY-1", "GAUSS"], "bounds": [0, 2], "types": ["BE", "LU", "TRAP", "Jumper"], "nSweeps": 6, "form": "N2N",
                    "dTau": True, "explicit": False, "style": "qGen"})
    for cfg in ([3, "LEGENDRE", "RADAU-RIGHT"], [2, "EQUID", "LOBATTO"]):
        for nm in sorted(CANON):
            if not available(nm, cfg):
                continue
            for nSweeps in (None, 5):
                for form in ("Z2N", "N2N"):
                    for style in ("explicit", "qGen", "override"):
                        out.append({"cfg": cfg, "cfg2": [4, "CHEBY-1", "GAUSS"], "bounds": [0, 1], "types": nm, "nSweeps": nSweeps, "form": form,
                                    "dTau": True, "explicit": False, "style": style})
    return out


# ----------------------------------------------------------------------------
def runObject(case, ctx):
    """Requests from one object, by position, from a generator, with overriding."""
    n, nt, qt = case["cfg"]
    name = case["name"]
    cls = QDELTA_GENERATORS.get(name)
    if cls is None:
        raise Violation(f"{name} is not registered")
    coll = sut(Collocation, n, nt, qt, *case["bounds"])
    other = sut(Collocation, *case["cfg2"], *case["bounds"])
    kind = TYPES[CANON[name]][1]
    p = params(kind, name, coll)
    style = case["style"]
    pos = list(p.values())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if style == "kw":
            gen = sut(cls, **p)
        elif style == "pos":
            gen = sut(cls, *pos)
        elif style == "mixed":
            gen = sut(cls, *pos[:1], **dict(list(p.items())[1:]))
        elif style == "qGen":
            gen = sut(cls, qGen=coll)
        elif style == "coll":
            gen = sut(cls, coll=coll)
        elif style == "posOverride":
            gen = sut(cls, *pos, qGen=other)
        elif style == "kwOverride":
            gen = sut(cls, qGen=other, **p)
        elif style == "partOverride":
            # first parameter by position, the remaining ones from the generator
            gen = sut(cls, pos[0], qGen=other if kind != "coll" else coll)
            if kind == "nodes" and CANON[name] in TIMESTEP:
                p["tLeft"] = other.tLeft
    what = f"{name} on {case['cfg']}, {case['bounds']}, {style}"
    refs = {}

    def ref(k):
        if k not in refs:
            refs[k] = reference(name, p, k)[0]
        return refs[k]

    T = transfer(n)
    for op, k in case["ops"]:
        w = f"{what}: {op}({k})"
        ks = k if isinstance(k, list) else [k]
        stack = np.array([ref(v) for v in ks])
        if op == "getQDelta":
            same(sut(gen.getQDelta, *ks), stack[0], w)
        elif op == "noCopy":
            same(np.array(sut(gen.getQDelta, ks[0], copy=False)), stack[0], w)
        elif op == "getSDelta":
            same(sut(gen.getSDelta, *ks), T @ stack[0], w)
        elif op == "compute":
            same(sut(gen.computeQDelta, ks[0]), stack[0], w)
        elif op == "default":
            same(sut(gen.genCoeffs), ref(None), w)
            same(sut(gen.getQDelta), ref(None), w)
            same(sut(gen.getSDelta), T @ ref(None), w)
        elif op == "dTau":
            out = sut(gen.genCoeffs, k=k, form="N2N", dTau=True)
            if not (isinstance(out, (tuple, list)) and len(out) == 2):
                raise Violation(f"{w}: no pair")
            same(out[0], (T @ stack) if isinstance(k, list) else T @ stack[0], w)
            same(out[1], reference(name, p, None)[1], w)
        else:
            arg = {"list": lambda v: v, "tuple": tuple, "array": np.array, "scalar": lambda v: v}[op](k)
            form = case["form"]
            exp = stack if isinstance(k, list) else stack[0]
            exp = T @ exp if form == "N2N" else exp
            same(sut(gen.genCoeffs, arg, form), exp, f"{w} ({form})")
    rejects(gen.genCoeffs, form=case["badForm"], what=f"{what}: form {case['badForm']!r}", types=(ValueError, AssertionError, TypeError, KeyError))
    # approximations declared independent of the sweep
    if not sut(gen.isKDependent):
        for k in (1, 2, n + 2):
            same(sut(gen.getQDelta, k), ref(1), f"{what}, declared independent of the sweep, sweep {k}")
    else:
        if not TYPES[CANON[name]][2]:
            raise Violation(f"{name} is declared dependent on the sweep")
    if TYPES[CANON[name]][2] and not sut(gen.isKDependent):
        raise Violation(f"{name} is not declared dependent on the sweep")


BADFORMS = ["z2n", "", "N2Z", "Z2N ", None, 0]


@st.composite
def objectStrategy(draw):
    cfg = draw(st.one_of(gens.configs(5), gens.configs(5), gens.configs(9)))
    bounds = draw(st.sampled_from([[0, 1], [0, 1], [0, 2], [1, 3]]))
    one = names_(draw, cfg, bounds)
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["getQDelta", "noCopy", "getSDelta", "compute", "default", "dTau", "list", "tuple", "array", "scalar"]))
        k = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 100)))
        if op in ("list", "tuple", "array") or (op == "dTau" and draw(st.booleans())):
            k = draw(st.lists(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 100)), min_size=1, max_size=draw(st.sampled_from([5, 5, 5, 20]))))
        ops.append([op, k])
    return {"cfg": cfg, "cfg2": draw(gens.configs(5)), "bounds": bounds, "name": one(), "ops": ops, "form": draw(st.sampled_from(["Z2N", "N2N"])),
            "style": draw(st.sampled_from(["kw", "pos", "mixed", "qGen", "coll", "posOverride", "kwOverride", "partOverride"])),
            "badForm": draw(st.sampled_from(BADFORMS))}


# ----------------------------------------------------------------------------
REJ = (ValueError, AssertionError, TypeError)


def runInvalid(case, ctx):
    kind, name = case["kind"], case["name"]
    coll = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
    rk = Q_GENERATORS["RK4"]()
    lst = list(case["types"])
    call = lambda *a, **k: rejects(genQDeltaCoeffs, *a, types=REJ, what=f"{kind}: genQDeltaCoeffs{a} {sorted(k)}", **k)
    if kind == "form":
        call(name, form=case["bad"], qGen=coll)
        call(name, nSweeps=3, form=case["bad"], qGen=coll)
        call(lst + [name], form=case["bad"], qGen=coll)
    elif kind == "unknown":
        bad = case["bad"]
        for args in ((bad,), (bad, 2), ([bad],), (lst[:1] + [bad] + lst[1:],), ([bad] + lst,), (lst + [bad],)):
            rejects(genQDeltaCoeffs, *args, types=(ValueError,), what=f"unknown type {bad!r} in {args}", qGen=coll)
    elif kind == "sweeps":
        call(name, nSweeps=case["bad"], qGen=coll)
        call(lst, nSweeps=case["bad"], qGen=coll)
    elif kind == "tooFew":
        many = lst + [name]
        call(many, nSweeps=case["bad"] % len(many), qGen=coll)
    elif kind == "empty":
        call([], qGen=coll)
        call([], nSweeps=2, qGen=coll)
    elif kind == "notAType":
        bad = {"tuple": (name,), "none": None, "int": 3, "dict": {name: 1}, "class": QDELTA_GENERATORS[name]}[case["bad"]]
        call(bad, qGen=coll)
        call(bad, nSweeps=2, qGen=coll)
    elif kind == "ambiguous":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            call(name, qGen=coll, coll=coll)
            rejects(QDELTA_GENERATORS[name], qGen=coll, coll=coll, types=REJ, what=f"{name} with qGen and coll")
    elif kind == "notAGenerator":
        bad = {"array": np.eye(3), "str": "LU", "class": Collocation, "int": 3}[case["bad"]]
        call(name, qGen=bad)
        rejects(QDELTA_GENERATORS[name], qGen=bad, types=REJ, what=f"{name} from a {case['bad']}")
    elif kind == "rk":
        cname = case["bad"]
        call(cname, qGen=rk)
        rejects(QDELTA_GENERATORS[cname], qGen=rk, types=REJ, what=f"{cname} from a Runge-Kutta table")
    elif kind == "missing":
        call(name)


COLLTYPES = sorted(a for a, c in CANON.items() if TYPES[c][1] == "coll")
OKTYPES = sorted(a for a, c in CANON.items() if c not in ("MIN", "LDU"))


@st.composite
def invalidStrategy(draw):
    kind = draw(st.sampled_from(["form", "unknown", "sweeps", "tooFew", "empty", "notAType", "ambiguous", "notAGenerator", "rk", "missing"]))
    bad = {"form": st.sampled_from(BADFORMS), "unknown": st.sampled_from(["be", "LU ", "", "MIN-SR-X", "Collocation", "lu2", "TimeStepping", "FromTable"]),
           "sweeps": st.sampled_from([0, -1, -5, 1.5, 2.0, "2", [2]]), "tooFew": st.integers(0, 10), "empty": st.none(),
           "notAType": st.sampled_from(["tuple", "none", "int", "dict", "class"]), "ambiguous": st.none(),
           "notAGenerator": st.sampled_from(["array", "str", "class", "int"]), "rk": st.sampled_from(COLLTYPES), "missing": st.none()}[kind]
    return {"kind": kind, "bad": draw(bad), "name": draw(st.sampled_from(OKTYPES)), "types": draw(st.lists(st.sampled_from(OKTYPES), min_size=1, max_size=3))}


# ----------------------------------------------------------------------------
def runRK(case, ctx):
    """Parameters extracted from any coefficient generator."""
    gen = sut(Q_GENERATORS[case["rk"]])
    name = case["name"]
    kind = TYPES[CANON[name]][1]
    p = {"nodes": np.array(gen.nodes)} if kind == "nodes" else {"Q": np.array(gen.Q)}
    n = gen.nodes.size
    what = f"{name} from {case['rk']}"
    D, dT = reference(name, p, None)
    out = sut(genQDeltaCoeffs, name, qGen=gen, dTau=True)
    same(out[0], D, what)
    same(out[1], dT, f"dTau of {what}")
    S = sut(QDELTA_GENERATORS[name], qGen=gen).genCoeffs(k=[1, 3], form="N2N")
    same(S, np.array([transfer(n) @ reference(name, p, k)[0] for k in (1, 3)]), what + " (N2N)")


@st.composite
def rkStrategy(draw):
    rk = sorted(k for k, c in Q_GENERATORS.items() if c.__name__ != "Collocation")
    names = sorted(a for a, c in CANON.items() if TYPES[c][1] != "coll" and c not in ("MIN", "LDU", "SOE", "LU", "LU2"))
    return {"rk": draw(st.sampled_from(rk)), "name": draw(st.sampled_from(names))}


# ----------------------------------------------------------------------------
CUSTOM = {}


def customTypes():
    """User-defined approximations (registered once in the process of the check)."""
    if not CUSTOM:
        from qmat.qdelta import QDeltaGenerator, register

        class PbtTable(QDeltaGenerator):
            """Any matrix for any sweep."""
            aliases = ["PBT-TABLE"]

            def __init__(self, mats, delta, **kwargs):
                self.mats, self.delta = mats, delta

            @staticmethod
            def extractParams(qGen):
                return {"mats": qGen.mats, "delta": qGen.delta}

            @property
            def size(self):
                return len(self.delta)

            @property
            def dTau(self):
                return np.array(self.delta)

            def computeQDelta(self, k=1):
                return np.array(self.mats[pick(self.mats, k)])

        class PbtFixed(PbtTable):
            """The same matrix for all sweeps."""
            aliases = ["PBT-FIXED"]

            def computeQDelta(self, k=None):
                return np.array(self.mats[0])

        class PbtDouble(QDeltaGenerator):
            """From the coefficients, with the constructor of the base class."""
            aliases = []

            def computeQDelta(self, k=None):
                return 2 * self.Q

        class PbtForward(PbtTable):
            """Constructor forwarding what it does not know to the one of the parent."""
            aliases = []

            def __init__(self, factor=1, **kwargs):
                super().__init__(**kwargs)
                self.factor = factor

            def computeQDelta(self, k=1):
                return self.factor * super().computeQDelta(k)

        for cls in (PbtTable, PbtFixed, PbtDouble, PbtForward):
            CUSTOM[cls.__name__] = sut(register, cls)
    return CUSTOM


def pick(mats, k):
    return 0 if k is None else (k * (k - 1) // 2) % len(mats)


def runCustom(case, ctx):
    """Base class functionality, with user-defined approximations of arbitrary content."""
    from qmat.qcoeff import QGenerator
    types = customTypes()
    mats = [np.array(m, dtype=float) for m in case["mats"]]
    delta = np.array(case["delta"], dtype=float)
    n = delta.size
    T = transfer(n)
    Q = mats[-1]

    class Source(QGenerator):
        nodes = property(lambda self: np.array(Q.sum(axis=1)))
        weights = property(lambda self: np.array(Q[-1]))
        Q = property(lambda self: np.array(Q))
        order = property(lambda self: 1)

    src = Source()
    src.mats, src.delta = mats, delta
    tL = case["tLeft"]
    if tL is not None:
        src.tLeft = tL
    byKind = {"Q": {"Q": Q}, "nodes": {"nodes": Q.sum(axis=1)}}
    exp = {"PbtTable": lambda k: mats[pick(mats, k)], "PbtFixed": lambda k: mats[0], "PbtDouble": lambda k: 2 * Q,
           "PbtForward": lambda k: (case["factor"] or 1) * mats[pick(mats, k)]}
    taus = {"PbtForward": delta, "PbtTable": delta, "PbtFixed": delta, "PbtDouble": np.zeros(n)}
    kws = {"qGen": {"qGen": src}, "explicit": {"mats": mats, "delta": delta, "Q": Q, "nodes": Q.sum(axis=1), "tLeft": tL or 0, "other": 1}}[case["style"]]
    if case["factor"]:
        kws["factor"] = case["factor"]
    form = case["form"]
    conv = lambda m: T @ m if form == "N2N" else np.array(m)
    # one object, several requests
    name = case["types"][0]
    gen = sut(types[name], **kws)
    for op, k in case["ops"]:
        ks = k if isinstance(k, list) else [k]
        what = f"user-defined {name}: {op}({k})"
        for v in ks if op in ("getQDelta", "getSDelta") else []:
            same(sut(gen.getQDelta, v) if op == "getQDelta" else sut(gen.getSDelta, v), exp[name](v) if op == "getQDelta" else T @ exp[name](v), what)
        if op == "genCoeffs":
            out = sut(gen.genCoeffs, k, form, True)
            ref = [conv(exp[name](v)) for v in ks]
            same(out[0], np.array(ref) if isinstance(k, list) else ref[0], what)
            same(out[1], taus[name], what + ": dTau")
            same(sut(gen.genCoeffs, k, form=form), out[0], what + " without dTau")
    num.arr(sut(lambda: gen.zeros), (n, n), f"zeros of {name}")
    if np.any(gen.zeros):
        raise Violation(f"{name}: zeros are not zero")
    if bool(sut(gen.isKDependent)) != (name in ("PbtTable", "PbtForward")):
        raise Violation(f"user-defined {name}: dependence on the sweep is not recognised")
    # generic function, mixed with other types
    lst = list(case["types"])
    total = len(lst) + case["more"]
    kw = dict(kws)
    refs = []
    for i, nm in enumerate(lst + [lst[-1]] * case["more"]):
        if nm in exp:
            refs.append(conv(exp[nm](i + 1)))
        else:
            given = dict(byKind[TYPES[CANON[nm]][1]])
            if CANON[nm] in TIMESTEP:
                given["tLeft"] = tL or 0
            refs.append(conv(reference(nm, given, i + 1)[0]))
    dT = taus.get(lst[0], np.zeros(n))
    what = f"genQDeltaCoeffs({lst}, nSweeps={total}, {form}), {case['style']}"
    out = sut(genQDeltaCoeffs, lst, nSweeps=total, form=form, dTau=True, **kw)
    same(out[0], np.array(refs), what)
    same(out[1], dT, what + ": dTau")
    if not case["more"]:
        same(sut(genQDeltaCoeffs, lst, form=form, **kw), np.array(refs), what)
    out = sut(genQDeltaCoeffs, name, form=form, dTau=True, **kw)
    same(out[0], conv(exp[name](None)), f"genQDeltaCoeffs({name!r}, {form})")
    same(out[1], taus[name], f"genQDeltaCoeffs({name!r}): dTau")
    out = sut(genQDeltaCoeffs, name, nSweeps=total, form=form, **kw)
    same(out, np.array([conv(exp[name](i + 1)) for i in range(total)]), f"genQDeltaCoeffs({name!r}, nSweeps={total}, {form})")


@st.composite
def customStrategy(draw):
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 9)))
    entry = st.one_of(st.integers(-9, 9), st.integers(-64, 64).map(lambda v: v / 16), st.sampled_from([0, 0, 1e-9, -1e6, 1e-3]))
    pattern = draw(st.sampled_from(["full", "full", "lower", "upper", "diag"]))
    keep = {"full": lambda i, j: True, "lower": lambda i, j: i >= j, "upper": lambda i, j: i <= j, "diag": lambda i, j: i == j}[pattern]
    mats = [[[draw(entry) if keep(i, j) else 0 for j in range(n)] for i in range(n)] for _ in range(draw(st.integers(1, 4)))]
    user = st.sampled_from(["PbtTable", "PbtTable", "PbtFixed", "PbtDouble", "PbtForward"])
    others = st.sampled_from(["PIC", "Exact", "GS", "QPar", "BE", "FE", "TRAP", "BEPAR", "TRAPAR", "MIN-SR-NS", "Jumper", "FB2", "DNODES-3", "PbtTable", "PbtFixed", "PbtDouble", "PbtForward"])
    ks = st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 400))
    ops = [[draw(st.sampled_from(["getQDelta", "getSDelta", "genCoeffs"])), draw(st.one_of(ks, st.lists(ks, min_size=1, max_size=6), st.none()))] for _ in range(draw(st.integers(1, 8)))]
    return {"mats": mats, "delta": [draw(entry) for _ in range(n)], "types": [draw(user)] + draw(st.lists(others, max_size=4)), "more": draw(st.integers(0, 6)),
            "ops": ops, "form": draw(st.sampled_from(["Z2N", "N2N"])), "style": draw(st.sampled_from(["qGen", "explicit"])),
            "tLeft": draw(st.sampled_from([None, None, 0, -1, 0.25])), "factor": draw(st.sampled_from([None, None, 2, -0.5]))}


SUBS = [
    Sub("generic", runGeneric, genericStrategy, genericCases, quick=1200, thorough=30000,
        nontrivial=lambda c: c["nSweeps"] is not None or isinstance(c["types"], list) or c["style"] != "explicit",
        classify=lambda c: [c["style"], "list" if isinstance(c["types"], list) else "name"], shards=8, chunks=8),
    Sub("object", runObject, objectStrategy, quick=1200, thorough=30000, nontrivial=lambda c: len(c["ops"]) > 1 or c["style"] != "kw",
        classify=lambda c: [c["style"]], shards=8),
    Sub("invalid", runInvalid, invalidStrategy, quick=500, thorough=8000, classify=lambda c: [c["kind"]]),
    Sub("tables", runRK, rkStrategy, quick=400, thorough=8000),
    Sub("custom", runCustom, customStrategy, quick=800, thorough=20000, nontrivial=lambda c: len(c["mats"]) > 1 or len(c["types"]) > 1, shards=8,
        classify=lambda c: [c["types"][0], c["style"]]),
]
