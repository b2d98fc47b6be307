#!/usr/bin/env python3
"""
Entry point of all checks:  run.py C01 [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored (KNOWN-FINDING lines possible)
exit 1: violation, with a line "VIOLATION property=<id> replay=<path>"
exit 2: the harness itself failed
"""
import os
import sys

for _k, _v in {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
               "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}.items():
    os.environ[_k] = _v
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
VT = "/opt/veriftools/pyvenv/bin/python"
if os.environ.get("VERIF_PBT_STARTED") != "1" :
    # fixed interpreter and environment (hash seed, BLAS threads)
    os.environ["VERIF_PBT_STARTED"] = "1"
    os.execv(VT, [VT, "-B", os.path.abspath(__file__)] + sys.argv[1:])

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import argparse
import importlib
import json
import subprocess
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub", help="only this sub-check (development)")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import core

    # The code under test must be the one of the repository
    try:
        import qmat
        import qmat.lagrange, qmat.nodes, qmat.utils.sdc, qmat.utils.num
    except Exception as e:
        # importing the package is part of every property
        tb = traceback.format_exc()
        return importFailure(args, tier, seed, tb)
    where = os.path.realpath(qmat.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print(f"harness error: qmat imported from {where}", file=sys.stderr)
        return 2

    mod = importlib.import_module(f"props.{args.prop.lower()}")
    findings = core.loadFindings()
    subs = {s.name: s for s in mod.SUBS}

    if args.replay:
        return replay(core, args, subs, findings)

    tasks = []
    for sub in mod.SUBS:
        if args.sub and sub.name != args.sub:
            continue
        if sub.cases is not None:
            cases = list(sub.cases(tier))
            k = max(1, min(sub.chunks, len(cases)))
            for i in range(k):
                part = cases[i::k]
                if part:
                    tasks.append({"sub": sub.name, "kind": "cases", "cases": part, "n": len(part)})
        if sub.strategy is not None:
            n = int((4 * sub.quick if tier == "quick" else sub.thorough) * args.scale)
            if n <= 0:
                continue
            shards = sub.shards or (4 if tier == "quick" else 16)
            shards = max(1, min(shards, n))
            for s in range(shards):
                tasks.append({"sub": sub.name, "kind": "hyp", "shard": s, "n": max(1, n // shards)})

    results = []
    core.GLOBAL.update(prop=args.prop, subs=subs, findings=findings, seed=seed)
    ctxmp = mp.get_context("fork")
    with ProcessPoolExecutor(max_workers=args.jobs, mp_context=ctxmp) as pool:
        futs = [pool.submit(core.runTask, t) for t in tasks]
        for f in as_completed(futs):
            results.append(f.result())

    order = {s.name: i for i, s in enumerate(mod.SUBS)}
    results.sort(key=lambda r: (order[r["sub"]], r["kind"], -r["evaluations"]))

    errors = [r for r in results if r["error"]]
    viol = [r for r in results if r["violation"]]

    # ------------------------------------------------------------------ evidence
    hashes, classes, persub, samples, hit = set(), {}, {}, [], set()
    for r in results:
        hashes |= r["hashes"]
        hit |= r["hit"]
        d = persub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}, "wall_s": 0.0})
        d["evaluations"] += r["evaluations"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        d.setdefault("_h", set()).update(r["hashes"])
        for k, v in r["classes"].items():
            d["classes"][k] = d["classes"].get(k, 0) + v
    for name, d in persub.items():
        d["distinct_nontrivial"] = len(d.pop("_h"))
        d["classes"] = dict(sorted(d["classes"].items()))
    seen = {}
    for r in results:
        for s in r["samples"]:
            if seen.get(r["sub"], 0) < 2:
                seen[r["sub"]] = seen.get(r["sub"], 0) + 1
                text = core.canon(s)
                samples.append({"sub": r["sub"], "case": s if len(text) < 1500 else text[:1500] + "..."})
    evidence = {
        "property": args.prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples,
            "subchecks": persub,
            "known_findings_reproduced": sorted(hit),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not args.sub:
        writeEvidence(args.prop, evidence)

    for f in findings:
        if f["property"] == args.prop and f["id"] in hit:
            print(f"KNOWN-FINDING: property={args.prop} {f['what']}")

    # ------------------------------------------------------------------ verdict
    if viol:
        path, msg = confirm(core, args, viol[0])
        print(f"violated sub-check: {viol[0]['sub']}\n{msg}")
        print(f"VIOLATION property={args.prop} replay={path}", flush=True)
        return 1
    if errors:
        for r in errors:
            print(f"harness error in {args.prop}/{r['sub']}:\n{r['error']}", file=sys.stderr)
        return 2
    n = evidence["coverage"]["evaluations"]
    print(f"{args.prop} held on {n} cases ({len(hashes)} distinct non-trivial), tier={tier}, seed={seed}, "
          f"{evidence['wall_s']} s")
    return 0


def writeEvidence(prop, evidence):
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)


def saveReplay(prop, sub, case, msg):
    import hashlib
    text = json.dumps({"property": prop, "sub": sub, "case": case, "message": msg}, indent=1)
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def confirm(core, args, res):
    """Confirm the smallest failing case in a fresh process, and save it."""
    v = res["violation"]
    t0 = time.time()
    for case, msg in v["candidates"]:
        path = saveReplay(args.prop, res["sub"], case, msg)
        try:
            p = subprocess.run([VT, "-B", os.path.abspath(__file__), args.prop, "--replay", path],
                               capture_output=True, text=True, timeout=200)
            if p.returncode == 1:
                return path, msg
        except subprocess.TimeoutExpired:
            return path, msg
        os.unlink(path)
        if time.time() - t0 > 120:
            break
    case, msg = v["first"]
    path = saveReplay(args.prop, res["sub"], case, msg + " (needs the history of the run that found it)")
    return path, msg + "\n(seen in the run, not reproduced by the single case in a fresh process)"


def replay(core, args, subs, findings):
    with open(args.replay) as f:
        rep = json.load(f)
    if rep["sub"] == "import":
        print("replay: the package imports")
        return 0
    sub = subs[rep["sub"]]
    ctx = core.Ctx(args.prop, sub.name, findings)
    try:
        core.runOracle(sub, rep["case"], ctx)
    except core.Violation as v:
        print(f"violated sub-check: {sub.name}\n{v}")
        print(f"VIOLATION property={args.prop} replay={os.path.abspath(args.replay)}")
        return 1
    print(f"replay of {args.replay}: property {args.prop} holds")
    return 0


def importFailure(args, tier, seed, tb):
    evidence = {"property": args.prop, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "importing the package", "samples": [tb[-500:]]},
                "wall_s": 0.0, "violations": 1}
    if args.replay is None:
        writeEvidence(args.prop, evidence)
    path = args.replay or saveReplay(args.prop, "import", None, tb)
    print(tb)
    print(f"VIOLATION property={args.prop} replay={path}")
    return 1


if __name__ == "__main__":
    try:
        status = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        status = 2
    sys.stdout.flush()
    os._exit(status)
