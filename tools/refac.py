"""Self-test: rewrites of the code that keep its behaviour, on which every check must stay quiet.

A rewrite is a file refac/<name>.py of directives:
    #@ file PATH                 the following go to asn1_parser/PATH
    #@ def Class.name            replace this function or class by the text that follows
    #@ head                      insert the text after the last import of the file's head
    #@ sub                       old text, a line '#@ by', new text
usage: refac.py [names; a+b applies both to one copy] [--props C01,C02] [--notest]
"""
import ast
import os
import shutil
import subprocess
import sys
import json

HERE = os.path.dirname(os.path.abspath(__file__))


def find(tree, path):
    body = tree.body
    node = None
    for p in path.split("."):
        node = next(n for n in body if getattr(n, "name", None) == p)
        body = getattr(node, "body", [])
    return node


def apply(root, text):
    cur = None
    parts = []
    for l in text.split("\n"):
        if l.startswith("#@ "):
            w = l[3:].split()
            if w[0] == "file":
                cur = os.path.join(root, "asn1_parser", w[1])
            elif w[0] == "by":
                parts[-1][3] = []
            else:
                parts.append([cur, w, [], None])
        elif parts and cur:
            (parts[-1][2] if parts[-1][3] is None else parts[-1][3]).append(l)
    for f, w, body, by in parts:
        src = open(f, encoding="utf-8").read()
        new = "\n".join(body).rstrip("\n")
        if w[0] == "def":
            n = find(ast.parse(src), w[1])
            ls = src.split("\n")
            first = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            ls[first:n.end_lineno] = new.lstrip("\n").split("\n") if new.strip() else []
            src = "\n".join(ls)
        elif w[0] == "head":
            t = ast.parse(src)
            last = 0
            for n in t.body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    last = n.end_lineno
                elif not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    break
            ls = src.split("\n")
            ls[last:last] = new.strip("\n").split("\n")
            src = "\n".join(ls)
        elif w[0] == "sub":
            old = new.strip("\n")
            nw = "\n".join(by).strip("\n")
            if src.count(old) < 1:
                raise SystemExit("not found in %s:\n%s" % (f, old))
            src = src.replace(old, nw)
        elif w[0] == "all":
            src = new.lstrip("\n") + "\n"
        open(f, "w", encoding="utf-8").write(src)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    props = next((o.split("=")[1].split(",") for o in opts if o.startswith("--props=")), ["C%02d" % i for i in range(1, 29)])
    names = args or sorted(x[:-3] for x in os.listdir(HERE + "/refac") if x.endswith(".py"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for n in names:
        root = "/tmp/refac-" + n
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for part in n.split("+"):
            apply(root, open("%s/refac/%s.py" % (HERE, part), encoding="utf-8").read())
        if "--notest" not in opts:
            sh = open("/opt/vp/test.sh").read().replace("/repo", root)
            open(root + "/t.sh", "w").write(sh)
            p = subprocess.run(["bash", root + "/t.sh", root + "/o.json"], capture_output=True, text=True, timeout=600)
            try:
                ok = set(json.load(open(root + "/o.json"))["passed"])
                miss = [t for t in base if t not in ok]
            except Exception as e:
                miss = [repr(e), p.stdout[-500:], p.stderr[-500:]]
            print("%s: tests missing: %s" % (n, miss[:5] if miss else "none"), flush=True)
        res = []
        for c in props:
            p = subprocess.run([sys.executable, HERE + "/../check.py", c, "--root", root, "--no-evidence"], capture_output=True, text=True)
            o = p.stdout + p.stderr
            und = [l for l in o.split("\n") if " obligations, " in l]
            u = und[0].split(" undecided")[0].split()[-1] if und else "?"
            if p.returncode or u != "0":
                res.append("%s rc=%d undecided=%s" % (c, p.returncode, u))
                keep = [l for l in o.split("\n") if l.startswith(("UNDECIDED", "ERROR", "  ", "VIOLATION", "Trace"))]
                res += ["      " + l[:260] for l in keep[:2]]
        print("%s: %s" % (n, "all quiet and decided" if not res else ""), flush=True)
        for l in res:
            print("   " + l, flush=True)
        if "--keep" not in opts:
            shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
