"""Runs the command line program of the repository (the current directory) in a scratch directory."""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()


def run(command, texts, modules=None, env=None, extra=(), names=None, timeout=60, **opts):
    """Returns (exit status, {file name: content}, printed text)."""
    tmp = tempfile.mkdtemp(prefix="demo_")
    try:
        paths = []
        for i, t in enumerate(texts):
            p = os.path.join(tmp, (names[i] if names else "in%d.asn1" % i))
            with open(p, "w") as f:
                f.write(t)
            paths.append(p)
        out = os.path.join(tmp, "out")
        args = [sys.executable, "-B", os.path.join(REPO, "asn1_parser", "main.py"), command] + paths
        if modules is not None:
            args += ["--asn1-modules", modules]
        args += ["--output-dir", out] + list(extra)
        for k, v in opts.items():
            args += ["--" + k.replace("_", "-"), v]
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        e.update(env or {})
        r = subprocess.run(args, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        files = {}
        if os.path.isdir(out):
            for f in sorted(os.listdir(out)):
                with open(os.path.join(out, f), "rb") as h:
                    b = h.read()
                files[f] = b if f.endswith(".bin") else b.decode()
        return r.returncode, files, r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def mod(name, body, imports=""):
    return "Module-%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s%s\nEND\n" % (name, imports, body)


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)


def squash(s):
    return " ".join(s.split())
