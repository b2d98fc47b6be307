"""C18: registries and registration (each history of registrations in its own process)."""
import os
import json
import numpy as np
from hypothesis import strategies as st

import core
from core import Sub, Violation, sut, rejects
from props.c17 import forked

RULE = ("cases are the keys of the registries, unknown names, and sequences of up to five class definitions (valid, or wrong in one way) that are "
        "registered one after the other; non-trivial: the sequence has a rejected and an accepted class, or a clash of names")
ASSUMPTIONS = ["documented names and aliases pinned in pbt/data/registry.json (more are allowed)",
               "after a rejected registration only entries that existed before are constrained"]

with open(os.path.join(core.HERE, "data", "registry.json")) as f:
    GOLD = json.load(f)


def registries():
    from qmat import Q_GENERATORS, QDELTA_GENERATORS
    from qmat.qcoeff.butcher import RK_SCHEMES
    return {"Q": Q_GENERATORS, "QD": QDELTA_GENERATORS, "RK": RK_SCHEMES}


# ----------------------------------------------------------------------------
def runExisting(case, ctx):
    regs = registries()
    reg = regs[case["reg"]]
    key = case["key"]
    cls = reg.get(key)
    what = f"{key!r} of registry {case['reg']}"
    if cls is None:
        raise Violation(f"{what} is missing")
    gold = GOLD[case["reg"]].get(key)
    if gold is not None and cls.__name__ != gold:
        raise Violation(f"{what} names class {cls.__name__}, documented {gold}")
    if reg.get(cls.__name__) is not cls:
        raise Violation(f"class {cls.__name__} ({what}) is not reachable by its own name")
    aliases = getattr(cls, "aliases", None) or []
    for a in aliases:
        if reg.get(a) is not cls:
            raise Violation(f"alias {a!r} of {cls.__name__} names {reg.get(a)}")
    if key != cls.__name__ and key not in aliases:
        raise Violation(f"{what} is neither the name nor an alias of {cls.__name__}")
    if case["reg"] == "RK" and regs["Q"].get(key) is not cls:
        raise Violation(f"{what} is not the same among the coefficient generators")
    if case["reg"] == "Q":
        from qmat import genQCoeffs
        gen = sut(cls.getInstance)
        if type(gen) is not cls:
            raise Violation(f"default instance of {cls.__name__} is a {type(gen).__name__}")
        p = getattr(cls, "DEFAULT_PARAMS", {})
        out = sut(genQCoeffs, key, **p)
        for a, b in zip(out, (gen.nodes, gen.weights, gen.Q)):
            if not np.array_equal(a, b):
                raise Violation(f"genQCoeffs({key!r}) is not the one of {cls.__name__}")


def existingCases(tier):
    regs = registries()
    return [{"reg": r, "key": k} for r in ("Q", "QD", "RK") for k in sorted(set(regs[r]) | set(GOLD[r]))]


def runClasses(case, ctx):
    from qmat.utils import getClasses
    reg = registries()[case["reg"]]
    mod = case["module"]
    out = sut(getClasses, reg, module=mod) if mod else sut(getClasses, reg)
    checkClasses(out, reg, mod)
    if not mod:
        # same through the keyword default
        checkClasses(sut(getClasses, reg, module=None), reg, None)


def checkClasses(out, reg, mod):
    vals = list(out.values())
    exp = []
    for c in reg.values():
        if c not in exp and (mod is None or c.__module__.endswith("." + mod)):
            exp.append(c)
    if len(vals) != len(set(map(id, vals))):
        raise Violation(f"getClasses(module={mod}) lists a class several times: {sorted(c.__name__ for c in vals)}")
    if set(map(id, vals)) != set(map(id, exp)):
        raise Violation(f"getClasses(module={mod}) gives {sorted(c.__name__ for c in vals)}, expected {sorted(c.__name__ for c in exp)}")
    for k, c in out.items():
        if reg.get(k) is not c:
            raise Violation(f"getClasses(module={mod}) gives {c.__name__} under the key {k!r}")


MODULES = [("Q", m) for m in (None, "collocation", "butcher", "nothing")] + [("RK", None), ("RK", "butcher")] + \
          [("QD", m) for m in (None, "timestepping", "algebraic", "diag", "nothing", "mincoeffs")]


def runUnknown(case, ctx):
    from qmat import genQCoeffs, genQDeltaCoeffs
    from qmat.qcoeff.collocation import Collocation
    regs = registries()
    s = case["name"]
    if s not in regs["Q"]:
        rejects(genQCoeffs, s, types=(ValueError,), what=f"genQCoeffs({s!r})")
        rejects(genQCoeffs, s, form="N2N", hCoeffs=True, types=(ValueError,), what=f"genQCoeffs({s!r}, ...)")
    if s not in regs["QD"]:
        coll = Collocation(2, "LEGENDRE", "GAUSS")
        rejects(genQDeltaCoeffs, s, qGen=coll, types=(ValueError,), what=f"genQDeltaCoeffs({s!r})")
        rejects(genQDeltaCoeffs, s, nSweeps=2, qGen=coll, types=(ValueError,), what=f"genQDeltaCoeffs({s!r}, nSweeps=2)")
        rejects(genQDeltaCoeffs, ["BE", s], qGen=coll, types=(ValueError,), what=f"genQDeltaCoeffs(['BE', {s!r}])")


def mangled():
    names = sorted(set(GOLD["Q"]) | set(GOLD["QD"]))
    return st.one_of(
        st.sampled_from(names).map(str.lower), st.sampled_from(names).map(str.upper), st.sampled_from(names).map(lambda s: s + " "),
        st.sampled_from(names).map(lambda s: " " + s), st.sampled_from(names).map(lambda s: s[:-1]), st.sampled_from(names).map(lambda s: s + s[-1]),
        st.sampled_from(names).map(lambda s: s.replace("-", "_")), st.sampled_from(names).map(lambda s: s.replace("_", "-")),
        st.text(max_size=8), st.sampled_from(names), st.sampled_from(["RK", "QGenerator", "QDeltaGenerator", "TimeStepping", "FromTable", "RK_SCHEMES", ""]))


# ----------------------------------------------------------------------------
# Histories of registrations
# ----------------------------------------------------------------------------
def makeQ(spec):
    from qmat.qcoeff import QGenerator
    v = spec["value"]
    d = {"nodes": property(lambda self: np.array([1.0 * self.v])), "weights": property(lambda self: np.array([1.0])),
         "Q": property(lambda self: np.array([[float(self.v)]])), "order": property(lambda self: 1), "v": v}
    defect = spec["defect"] or ""
    if defect.startswith("no-") and defect[3:] in d:
        del d[defect[3:]]
    if defect.startswith("method-"):
        nm = defect[7:]
        d[nm] = (lambda val: (lambda self: val))({"nodes": np.array([1.0]), "weights": np.array([1.0]), "Q": np.eye(1), "order": 1}[nm])
    if defect.startswith("attribute-"):
        nm = defect[10:]
        d[nm] = {"nodes": np.array([1.0]), "weights": np.array([1.0]), "Q": np.eye(1), "order": 1}[nm]
    if spec["ctor"] == "params" or "default" in defect:
        def __init__(self, n, quad):
            if not isinstance(n, int) or n <= 0:
                raise ValueError("bad n")
            self.n, self.quad = n, quad
        d["__init__"] = __init__
        params = {"n": 3, "quad": "A"}
        if defect == "bad-default":
            params = {"n": -1, "quad": "A"}
        elif defect == "missing-default":
            params = {"n": 3}
        elif defect == "surplus-default":
            params = {"n": 3, "quad": "A", "other": 1}
        if defect != "without-default":
            d["DEFAULT_PARAMS"] = params
    return type(spec["name"], (QGenerator,), d)


def makeQD(spec):
    from qmat.qdelta import QDeltaGenerator, QDELTA_GENERATORS
    v, defect = spec["value"], spec["defect"]
    d = {}
    if spec["ctor"] == "params":
        def __init__(self, nodes, scale=1, **kwargs):
            self.nodes = np.asarray(nodes)
            self.scale = scale
        d["__init__"] = __init__
        d["size"] = property(lambda self: self.nodes.size)
        d["extractParams"] = staticmethod(lambda qGen: {"nodes": qGen.nodes})
    if defect == "no-kwargs":
        def __init__(self, Q):
            self.Q = np.asarray(Q)
        d["__init__"] = __init__
    elif defect == "kwargs-positional":
        def __init__(self, Q, kwargs=None):
            self.Q = np.asarray(Q)
        d["__init__"] = __init__
    elif defect == "kwargs-keyword":
        def __init__(self, Q, *, kwargs=None):
            self.Q = np.asarray(Q)
        d["__init__"] = __init__
    elif defect == "kwargs-args":
        def __init__(self, Q, *kwargs):
            self.Q = np.asarray(Q)
        d["__init__"] = __init__
    if defect == "no-k":
        d["computeQDelta"] = lambda self: v * np.eye(self.size)
    elif defect == "k-keyword":
        def computeQDelta(self, *, k=None):
            return v * np.eye(self.size)
        d["computeQDelta"] = computeQDelta
    elif defect == "k-args":
        def computeQDelta(self, *k):
            return v * np.eye(self.size)
        d["computeQDelta"] = computeQDelta
    elif defect == "no-computeQDelta":
        pass
    elif spec["kdep"]:
        def computeQDelta(self, k=1):
            return (1 if k is None else k) * v * np.eye(self.size)
        d["computeQDelta"] = computeQDelta
    else:
        def computeQDelta(self, k=None):
            return v * np.eye(self.size)
        d["computeQDelta"] = computeQDelta
    base = QDeltaGenerator
    if spec["ctor"] == "derived" and not defect:
        base = QDELTA_GENERATORS["BE"]
        d.setdefault("aliases", [])
    return type(spec["name"], (base,), d)


def makeRK(spec):
    from qmat.qcoeff.butcher import RK
    defect = spec["defect"]
    d = {"A": [[0, 0], [spec["value"], 0]], "b": [0.5, 0.5], "c": [0, spec["value"]], "order": property(lambda self: 1)}
    if defect == "A-shape":
        d["A"] = [[0, 0, 0], [1, 0, 0]]
    elif defect == "A-rows":
        d["A"] = [[0, 0], [1, 0], [0.5, 0.5]]
    elif defect == "A-columns":
        d["A"] = [[0, 0]]
    elif defect == "A-vector":
        d["A"] = [0, 0]
    elif defect == "A-size":
        d["A"] = [[0]]
    elif defect == "b-size":
        d["b"] = [1, 0, 0]
    elif defect == "c-size":
        d["c"] = [0]
    elif defect == "no-order":
        del d["order"]
    elif defect == "order-none":
        d["order"] = None
    return type(spec["name"], (RK,), d)


QDEFECTS = [f"{k}-{n}" for k in ("no", "method", "attribute") for n in ("nodes", "weights", "Q", "order")] + \
           ["without-default", "bad-default", "missing-default", "surplus-default"]
QDDEFECTS = ["no-kwargs", "kwargs-positional", "kwargs-keyword", "kwargs-args", "no-k", "k-keyword", "k-args", "no-computeQDelta"]
RKDEFECTS = ["A-shape", "A-rows", "A-columns", "A-vector", "A-size", "b-size", "c-size", "no-order", "order-none"]


def history(case):
    """Runs in its own process; returns a message or None."""
    from qmat import genQCoeffs, genQDeltaCoeffs
    from qmat.qcoeff import register as registerQ
    from qmat.qdelta import register as registerQD
    from qmat.qcoeff.butcher import registerRK
    from qmat.qcoeff.collocation import Collocation
    from qmat.utils import getClasses
    regs = registries()
    uncertain = {"Q": set(), "QD": set(), "RK": set()}
    accepted = []
    for i, spec in enumerate(case["classes"]):
        fam = spec["family"]
        cls = {"Q": makeQ, "QD": makeQD, "RK": makeRK}[fam](spec)
        al = spec["aliases"]
        if al is not None:
            cls.aliases = {"tuple": tuple, "set": set, "str": lambda a: "".join(a), "dict": dict.fromkeys}.get(spec["aliasType"], list)(al)
        cls.__module__ = spec["module"]
        keys = [spec["name"]] + (al or [])
        used = ["QD"] if fam == "QD" else (["Q", "RK"] if fam == "RK" else ["Q"])
        before = {r: dict(regs[r]) for r in regs}
        clash = len(set(keys)) < len(keys) or any(k in before[r] and k not in uncertain[r] for k in keys for r in used)
        unsure = any(k in uncertain[r] for k in keys for r in used)
        wrongAliases = bool(al) and spec["aliasType"] != "list"
        reject = bool(spec["defect"]) or clash or wrongAliases
        what = f"class {i} {spec}"
        reg = {"Q": registerQ, "QD": registerQD, "RK": registerRK}[fam]
        try:
            res = reg(cls)
            ok = True
        except Exception as e:
            ok, err = False, e
        for r in regs:
            for k, c in before[r].items():
                if regs[r].get(k) is not c:
                    return f"{what}: entry {k!r} of registry {r} was replaced by {regs[r].get(k)}"
        new = {r: set(regs[r]) - set(before[r]) for r in regs}
        if ok and reject and not (unsure and not spec["defect"] and not wrongAliases):
            return f"{what} was accepted"
        if not ok and not reject and not unsure:
            return f"{what} was rejected: {type(err).__name__}: {err}"
        if not ok:
            for r in regs:
                uncertain[r] |= new[r]
            continue
        if res is not cls:
            return f"{what}: registration returns {res}"
        accepted.append((spec, cls, keys, used))
        for r in regs:
            if new[r] != (set(keys) if r in used else set()) and not unsure:
                return f"{what}: new entries of registry {r} are {new[r]}"
        for spec2, cls2, keys2, used2 in accepted:
            for r in used2:
                for k in keys2:
                    if regs[r].get(k) is not cls2:
                        return f"{k!r} of registry {r} is {regs[r].get(k)} after {what}"
                for mod in (None, "pbtmod", "butcher", "diag"):
                    lst = getClasses(regs[r], module=mod)
                    try:
                        checkClasses(lst, regs[r], mod)
                    except Violation as v:
                        return f"after {what}: {v}"
            v = spec2["value"]
            for k in keys2:
                if spec2["family"] == "QD":
                    coll = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
                    D = genQDeltaCoeffs(k, qGen=coll)
                    Ds = genQDeltaCoeffs(k, nSweeps=3, qGen=coll)
                    f = [1, 2, 3] if spec2["kdep"] else [1, 1, 1]
                    if not np.array_equal(D, v * np.eye(3)) or not np.array_equal(Ds, np.array([g * v * np.eye(3) for g in f])):
                        return f"genQDeltaCoeffs({k!r}) gives {D}, {Ds} after {what}"
                    kw = {"nodes": coll.nodes} if spec2["ctor"] in ("params", "derived") else {"Q": coll.Q}
                    if not np.array_equal(genQDeltaCoeffs(k, **kw, other=1), v * np.eye(3)):
                        return f"genQDeltaCoeffs({k!r}) with explicit parameters is wrong after {what}"
                    if bool(regs["QD"][k](**kw).isKDependent()) != bool(spec2["kdep"]):
                        return f"{k!r}: dependence on the sweep is not recognised"
                else:
                    p = {"n": 2, "quad": "B"} if "Q" == spec2["family"] and spec2["ctor"] == "params" else {}
                    n, w, Q = genQCoeffs(k, **p)
                    exp = v if spec2["family"] == "Q" else [0, v]
                    if not np.array_equal(n, np.ravel(exp)):
                        return f"genQCoeffs({k!r}) gives {n}, {w}, {Q} after {what}"
    return None


def runHistory(case, ctx):
    msg = forked(history, case)
    if msg:
        raise Violation(msg)


FREE = ["PbtA", "PbtB", "PbtC", "pbt-a", "pbt-b", "PBT 1", "P"]


@st.composite
def classStrategy(draw, i):
    fam = draw(st.sampled_from(["Q", "QD", "RK"]))
    # mostly free names
    key = lambda: draw(st.sampled_from(FREE)) if draw(st.integers(0, 5)) else draw(st.sampled_from(sorted(GOLD[fam]) + ["Collocation", "BE", "RK4", "LU"]))
    defect = None
    if draw(st.integers(0, 2)) == 0:
        defect = draw(st.sampled_from({"Q": QDEFECTS, "QD": QDDEFECTS, "RK": RKDEFECTS}[fam]))
    aliases = None if draw(st.integers(0, 2)) == 0 else [key() for _ in range(draw(st.integers(0, 3)))]
    if fam == "QD" and aliases is None:
        aliases = []
    aliasType = draw(st.sampled_from(["list"] * 8 + ["tuple", "set", "str", "dict"]))
    if aliases and aliasType in ("set", "dict"):
        aliases = sorted(set(aliases))
    if defect == "without-default":
        pass
    return {"family": fam, "name": draw(st.sampled_from(FREE)) if draw(st.integers(0, 3)) else key(), "defect": defect, "aliases": aliases,
            "aliasType": aliasType, "value": draw(st.integers(1, 9)), "kdep": draw(st.booleans()),
            "ctor": draw(st.sampled_from(["none", "none", "params", "derived"])), "module": draw(st.sampled_from(["pbt.pbtmod", "other.diag", "pbtmod", "x.notpbtmod"]))}


@st.composite
def historyStrategy(draw):
    return {"classes": [draw(classStrategy(i)) for i in range(draw(st.integers(1, 5)))]}


def historyCases(tier):
    out = []
    base = {"aliases": ["pbt-a"], "aliasType": "list", "value": 2, "kdep": True, "module": "pbt.pbtmod"}
    for fam, defects in (("Q", QDEFECTS), ("QD", QDDEFECTS), ("RK", RKDEFECTS)):
        for d in [None] + defects:
            for ctor in ("none", "params"):
                out.append({"classes": [{**base, "family": fam, "name": "PbtA", "defect": d, "ctor": ctor}]})
        have = sorted(GOLD[fam])
        for k in have[::1 if tier == "thorough" else 5]:
            out.append({"classes": [{**base, "family": fam, "name": k, "defect": None, "ctor": "none"}]})
            out.append({"classes": [{**base, "family": fam, "name": "PbtA", "aliases": ["pbt-b", k], "defect": None, "ctor": "none"}]})
        out.append({"classes": [{**base, "family": fam, "name": "PbtA", "aliases": ["PbtA"], "defect": None, "ctor": "none"}]})
        out.append({"classes": [{**base, "family": fam, "name": "PbtA", "aliases": ["P", "P"], "defect": None, "ctor": "none"}]})
        for t in ("tuple", "set", "str", "dict"):
            out.append({"classes": [{**base, "family": fam, "name": "PbtA", "aliasType": t, "defect": None, "ctor": "none"}]})
    return out


def nontrivial(c):
    return len(c["classes"]) > 1 or c["classes"][0]["defect"] is not None


SUBS = [
    Sub("existing", runExisting, cases=existingCases, classify=lambda c: [c["reg"]], chunks=4),
    Sub("classes", runClasses, cases=lambda tier: [{"reg": r, "module": m} for r, m in MODULES]),
    Sub("unknown", runUnknown, lambda: st.fixed_dictionaries({"name": mangled()}), quick=400, thorough=6000),
    Sub("history", runHistory, historyStrategy, historyCases, quick=800, thorough=20000, nontrivial=nontrivial, shards=8, chunks=4,
        classify=lambda c: sorted({x["family"] + ":" + (x["defect"] or "none") for x in c["classes"]})),
]
