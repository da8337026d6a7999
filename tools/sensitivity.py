#!/usr/bin/env python3
"""Runs the check of its property on every planted bug (or those named) in a scratch copy of /repo.

tools/sensitivity.py [id ...]   prints one line per bug; exit status 1 when some bug is missed."""
import json, os, shutil, subprocess, sys, tempfile, time

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(here, "seeded")))
missed = 0
for i in ids:
    d = os.path.join(here, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="sens-")
    try:
        subprocess.run(["cp", "-a", "/repo/.", tmp], check=True)
        subprocess.run(["git", "-C", tmp, "apply", os.path.join(d, "patch.diff")], check=True)
        env = dict(os.environ, FBE_REPO=tmp, FBE_EVIDENCE=tmp + "/ev", FBE_REPLAYS=tmp + "/rp")
        t = time.time()
        r = subprocess.run(["bash", os.path.join(here, "run.sh"), meta["property"]], env=env, capture_output=True, text=True)
        lines = r.stdout.strip().splitlines()
        ok = r.returncode == 1 and lines and lines[-1].startswith("VIOLATION property=" + meta["property"])
        missed += not ok
        print(f"{i} | {meta['property']} | {'caught' if ok else 'MISSED rc=%d' % r.returncode} | {time.time() - t:.0f} s | {meta['what_it_breaks']}", flush=True)
    finally:
        shutil.rmtree(tmp)
sys.exit(1 if missed else 0)
