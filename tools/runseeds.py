#!/usr/bin/env python3
"""Run the check of each planted bug's property on a scratch copy with the bug: python3 tools/runseeds.py [id ...]"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")


def one(i):
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="rs_")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % tmp, shell=True)
        subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + tmp, os.path.join(S, i, "patch.diff")], cwd="/")
        r = subprocess.run([sys.executable, "check.py", prop, "--root", tmp, "--no-evidence"], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = r.stdout.strip().split("\n")
        return i, prop, r.returncode, [l for l in lines if l.startswith(("  ", "ERROR", "UNDECIDED"))][:2] or lines[-1:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ids = sys.argv[1:] or sorted(x for x in os.listdir(S) if os.path.isdir(os.path.join(S, x)))
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    for i, p, rc, l in ex.map(one, ids):
        print("%-20s %s rc=%d %s" % (i, p, rc, " | ".join(x.strip()[:200] for x in l)))
