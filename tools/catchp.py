#!/usr/bin/env python3
"""Like catch.sh, but leaves /repo alone and runs several at once: builds the
harness with go build -overlay against a patched copy of the package.
usage: catchp.py [-j N] [ID-pattern...]"""
import fnmatch, glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local")


def run(id):
    prop = json.load(open(f"{root}/seeded/{id}/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="catchp.")
    try:
        os.makedirs(tmp + "/r/gitdiff")
        os.makedirs(tmp + "/v")
        for f in glob.glob("/repo/gitdiff/*.go"):
            shutil.copy(f, tmp + "/r/gitdiff")
        shutil.copy(root + "/known-findings.txt", tmp + "/v")
        if subprocess.run(["patch", "-s", "-p1", "-d", tmp + "/r", "-i", f"{root}/seeded/{id}/patch.diff"], capture_output=True).returncode:
            return f"{id} DOES-NOT-APPLY"
        rep = {f"/repo/gitdiff/{os.path.basename(f)}": f for f in glob.glob(tmp + "/r/gitdiff/*.go")}
        json.dump({"Replace": rep}, open(tmp + "/o.json", "w"))
        race = ["-race"] if prop == "C18" else []
        e = dict(env, VERIF_DIR=tmp + "/v", TMPDIR=tmp)
        b = subprocess.run(["go", "build", *race, "-overlay", tmp + "/o.json", "-o", tmp + "/rvmon", "."], cwd=root + "/harness", capture_output=True, text=True, env=e)
        if b.returncode:
            return f"{id} DOES-NOT-BUILD {b.stderr[-200:]}"
        r = subprocess.run([tmp + "/rvmon", "run", prop], capture_output=True, text=True, env=e)
        hit = r.returncode == 1 and any(l.startswith(f"VIOLATION property={prop} ") for l in r.stdout.splitlines())
        return f"{id} {prop} " + ("CAUGHT" if hit else f"MISSED(rc={r.returncode})")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


args, jobs = sys.argv[1:], 2
if args[:1] == ["-j"]:
    jobs, args = int(args[1]), args[2:]
ids = sorted(os.path.basename(d.rstrip("/")) for d in glob.glob(root + "/seeded/*/"))
ids = [i for i in ids if not args or any(fnmatch.fnmatch(i, a) for a in args)]
with ThreadPoolExecutor(jobs) as ex:
    for line in ex.map(run, ids):
        print(line, flush=True)
