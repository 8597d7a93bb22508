#!/usr/bin/env python3
"""Make and confirm planted bugs: python3 tools/mkseed.py [id ...]

For each entry of tools/seeds.py a scratch copy of /repo is changed, built and tested; the demonstration must pass on
the unchanged copy and fail on the changed one. Confirmed ones are written to seeded/<id>/."""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import seeds

COMMON = open(os.path.join(HERE, "tools", "demo_common.py")).read()
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(copy):
    """The repository's own tests, in the copy."""
    s = open("/opt/vp/test.sh").read().replace("/repo", copy)
    f = os.path.join(copy, ".t.sh")
    open(f, "w").write(s)
    out = os.path.join(copy, ".o.json")
    sh("bash %s %s" % (f, out), copy)
    os.remove(f)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    try:
        got = set(json.load(open(out))["passed"])
    except Exception as e:
        return ["no result: %s" % e]
    return [t for t in base if t not in got and t.replace("/repo", copy) not in got]


def main():
    want = sys.argv[1:]
    for sd in seeds.SEEDS:
        if want and sd["id"] not in want:
            continue
        d = os.path.join(HERE, "seeded", sd["id"])
        if not want and os.path.exists(os.path.join(d, "patch.diff")):
            continue
        tmp = tempfile.mkdtemp(prefix="seed_")
        copy = os.path.join(tmp, "repo")
        try:
            subprocess.check_call(["cp", "-a", "/repo", copy])
            sh("git checkout -q -- . && git clean -fdq", copy)
            dd = os.path.join(tmp, "demo")
            os.makedirs(dd)
            open(os.path.join(dd, "common.py"), "w").write(COMMON)
            open(os.path.join(dd, "demo.py"), "w").write(sd["demo"].lstrip("\n"))
            open(os.path.join(dd, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository\nexec %s -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' % PY)
            a = sh("bash %s/demo.sh" % dd, copy, timeout=250)
            if a.returncode != 0:
                print(sd["id"], "demo fails on the unchanged tree:\n", a.stdout[-1500:])
                continue
            for f, old, new in sd["edits"]:
                p = os.path.join(copy, f)
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    raise SystemExit("%s: text occurs %d times in %s:\n%s" % (sd["id"], n, f, old))
                open(p, "w").write(s.replace(old, new))
            diff = sh("git diff", copy).stdout
            b = sh("bash %s/demo.sh" % dd, copy, timeout=250)
            if b.returncode == 0:
                print(sd["id"], "demo passes on the changed tree")
                continue
            bad = tests(copy)
            if bad:
                print(sd["id"], "tests fail:", bad[:5])
                continue
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for f in os.listdir(dd):
                if f.endswith((".py", ".sh")):
                    shutil.copy(os.path.join(dd, f), d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            print(sd["id"], "ok:", b.stdout.strip().split("\n")[-1][:160])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
