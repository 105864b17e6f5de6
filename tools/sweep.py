#!/usr/bin/env python3
"""Development aid (no check uses it): run the checks against the planted bugs in copies of /repo and /verif.
   sweep.py WORKERS OUT.json [ID...]      ID: planted bugs; refactorings: PATH.diff:CHECK,CHECK"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, OUT = int(sys.argv[1]), sys.argv[2]
ids = sys.argv[3:] or sorted(os.listdir(V + "/seeded"))
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
free = Queue()
for k in range(W):
    d = "/tmp/sw-%d/%d" % (os.getpid(), k)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    sh("git clone -q /repo %s/repo && cp -a /repo/Cargo.lock %s/repo/ 2>/dev/null; mkdir %s/verif; cp -a %s/[!s.]* %s/setup.sh %s/verif/" % (d, d, d, V, V, d))
    if os.path.isdir(d + "/verif/build"):
        shutil.rmtree(d + "/verif/build")
    free.put(d)


def one(job):
    d = free.get()
    try:
        if ":" in job:
            patch, checks = job.split(":")
            checks = checks.split(",")
        else:
            patch = V + "/seeded/%s/patch.diff" % job
            checks = [json.load(open(V + "/seeded/%s/meta.json" % job))["property"]]
        sh("git checkout -q -- .", cwd=d + "/repo")
        if patch != "none" and sh("git apply %s" % patch, cwd=d + "/repo").returncode:
            return job, "patch does not apply"
        res = []
        for c in checks:
            t = time.time()
            r = sh("timeout 900 ./check.py %s" % c, cwd=d + "/verif", env=dict(os.environ, VERIF_REPO=d + "/repo"))
            tail = r.stdout.strip().split("\n")
            st = [x for x in tail if re.match(r"C\d\d: ", x)]
            vio = [x for x in tail if x.startswith("VIOLATION")]
            why = tail[tail.index(vio[0]) - 1].strip()[:160] if vio else ""
            res.append({"check": c, "rc": r.returncode, "wall": round(time.time() - t), "summary": st[-1] if st else tail[-1][:200],
                        "nfi": bool(vio) and "no-failing-input" in vio[0], "why": why})
            print(job, c, "rc=%d" % r.returncode, "%ds" % (time.time() - t), st[-1][5:80] if st else "", "|", why[:100], flush=True)
        return job, res
    finally:
        sh("git checkout -q -- .", cwd=d + "/repo")
        free.put(d)


with ThreadPoolExecutor(W) as ex:
    out = dict(ex.map(one, ids))
json.dump(out, open(OUT, "w"), indent=1)
shutil.rmtree("/tmp/sw-%d" % os.getpid())
