"""Runs the check of each planted bug's property against a scratch copy with the bug (development aid). usage: caught.py [--all] [ID ...]"""
import json, os, subprocess, sys, tempfile, shutil
V = "/verif"
args = sys.argv[1:]
every = "--all" in args
args = [a for a in args if a != "--all"]
for i in sorted(os.listdir(f"{V}/seeded")):
    if args and i not in args: continue
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    work = tempfile.mkdtemp(prefix="caught_", dir="/tmp")
    subprocess.run(f"git clone -q /repo {work}/repo && git -C {work}/repo apply {d}/patch.diff", shell=True, check=True)
    res = []
    for p in ([f"C{k:02d}" for k in range(1, 24)] if every else [prop]):
        r = subprocess.run(f"python3 pbt/run.py {p} --tier quick", shell=True, cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=work + "/repo", VERIF_EVIDENCE=work))
        if r.returncode == 1:
            res.append(p)
        elif r.returncode:
            res.append(f"{p}:error{r.returncode}")
    print(i, prop, "CAUGHT" if prop in res else "MISSED", " ".join(res) if every else "", flush=True)
    shutil.rmtree(work)
