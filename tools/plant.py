"""
Plants the bugs of tools/seeds.py: for each, writes /verif/seeded/<id>/ after having confirmed in a scratch
copy that it passes the stable tests and that its demonstration fails with it and passes without.

usage: plant.py [ID ...]     (existing folders are not redone unless named)
"""
import json, os, subprocess, sys, tempfile, shutil, importlib.util
V = "/verif"
PY = "/opt/venv/bin/python"
spec = importlib.util.spec_from_file_location("seeds", f"{V}/tools/seeds.py")
seeds = importlib.util.module_from_spec(spec); spec.loader.exec_module(seeds)
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO = """#!/bin/bash
# run with cwd /repo
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def demo(folder, cwd):
    r = sh(f"bash {folder}/demo.sh", cwd=cwd, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]

def tests(cwd):
    tmp = tempfile.mkdtemp(dir="/tmp")
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --randomly-seed=1 "
       f"--randomly-dont-reorganize -o junit_family=xunit2 -n 8 --junitxml={tmp}/tests.xml tests", cwd=cwd, env=env)
    sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --randomly-seed=1 "
       f"--randomly-dont-reorganize -o junit_family=xunit2 --nb-test-files --junitxml={tmp}/notebooks.xml docs/notebooks", cwd=cwd, env=env)
    sh(f"/usr/bin/python3 /opt/vp/results.py {tmp}/o.json junit:{tmp}/tests.xml junit:{tmp}/notebooks.xml", cwd=cwd)
    d = json.load(open(f"{tmp}/o.json"))
    shutil.rmtree(tmp)
    return sorted(set(STABLE) - set(d["passed"]))

def main():
    names = sys.argv[1:]
    for s in seeds.SEEDS:
        folder = f"{V}/seeded/{s['id']}"
        if names and s["id"] not in names: continue
        if not names and os.path.exists(folder + "/patch.diff"): continue
        work = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
        try:
            sh(f"cp -a /repo {work}/repo")
            repo = f"{work}/repo"
            ok = True
            for f, old, new in s["edits"]:
                txt = open(f"{repo}/{f}").read()
                if txt.count(old) != 1:
                    print(s["id"], "EDIT does not match once:", f, txt.count(old)); ok = False; break
                open(f"{repo}/{f}", "w").write(txt.replace(old, new))
            if not ok: continue
            diff = sh("git diff", cwd=repo).stdout
            tmpf = f"{work}/seed"; os.makedirs(tmpf)
            open(tmpf + "/patch.diff", "w").write(diff)
            open(tmpf + "/demo.sh", "w").write(DEMO)
            open(tmpf + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmpf + "/meta.json", "w"), indent=1)
            a, oa = demo(tmpf, "/repo"); b, ob = demo(tmpf, repo)
            if a != 0 or b == 0:
                print(s["id"], "DEMO", a, b, oa, ob); continue
            bad = tests(repo)
            if bad:
                print(s["id"], f"TESTS {len(bad)} fail:", bad[:3]); continue
            sh(f"rm -rf {folder}"); shutil.copytree(tmpf, folder)
            print(s["id"], "kept", ob.strip().splitlines()[-1][:150] if ob.strip() else "")
        finally:
            shutil.rmtree(work, ignore_errors=True)
main()
