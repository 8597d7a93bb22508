#!/usr/bin/env python3
"""Validates the interpreter on constructs of the language: each snippet's f() is interpreted and run, results compared.
Not a check.   usage: features.py [name part ...]"""
import os, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ["APGSA_WORKERS"] = "1"
from apgsa.run import Analyzer
from apgsa.scen import Scenario
from apgsa.terms import isK, kv
from apgsa.heap import LCell, DCell, OCell

SRC = open(os.path.join(HERE, "tools", "features.txt"), encoding="utf-8").read()
parts = re.split(r"(?m)^#### (.*)\n", SRC)
feats = list(zip(parts[1::2], parts[2::2]))


class No(Exception):
    pass


def conv(I, st, t):
    t = I.res(st, t)
    if isK(t):
        return kv(t)
    if t.op == "tup":
        return tuple(conv(I, st, x) for x in t.args)
    if t.op == "ref":
        c = st.heap[t.args[0]]
        if isinstance(c, LCell):
            out = []
            for s in c.items:
                if s[0] != "it":
                    raise No("segment %s" % (s[0],))
                out.append(conv(I, st, s[1]))
            return set(out) if c.kind in ("set", "frozenset") else tuple(out) if c.kind == "tuple" else out
        if isinstance(c, DCell):
            d = {}
            for e in c.ents:
                if e[0] == "del":
                    d.pop(conv(I, st, e[1]), None)
                    continue
                if e[0] != "kv":
                    raise No("entry %s" % e[0])
                d[conv(I, st, e[1])] = conv(I, st, e[2])
            return d
    raise No(str(t)[:200])


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {norm(k) if not isinstance(k, tuple) else k: norm(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted(map(repr, v))
    return v


bad = 0
for name, src in feats:
    if len(sys.argv) > 1 and not any(a in name for a in sys.argv[1:]):
        continue
    ns = {"__name__": "asn1_parser.main"}
    exec(compile(src, name, "exec"), ns)
    want = norm(ns["f"]())
    d = tempfile.mkdtemp(prefix="feat_")
    try:
        os.mkdir(d + "/asn1_parser")
        open(d + "/asn1_parser/__init__.py", "w").close()
        open(d + "/asn1_parser/main.py", "w").write(src + "\n\ndef main():\n    global R\n    R = f()\n")
        try:
            A = Analyzer(d)
            r = A.run(Scenario("x", [], {}))
            if r.error:
                raise No("error " + r.error)
            rs = [e for e in r.events if "raise" in str(getattr(e, "kind", ""))]
            if r.st.live is None:
                raise No("dead; %s" % [str(e.data)[:150] for e in r.events if e.kind == "raise"][-1:])
            t = r.st.heap[A.I.modcells["m:asn1_parser.main"]].fields["R"]
            got = norm(conv(A.I, r.st, t))
            if got != want or repr(got) != repr(want):
                print("WRONG %s: %r, expected %r  notes %s" % (name, got, want, list(r.notes)[:3]))
                bad += 1
            elif r.notes:
                print("note  %s: %s" % (name, list(r.notes)[:3]))
        except No as e:
            print("UNDEC %s: %s  notes %s" % (name, e, list(getattr(r, "notes", {}))[:3] if "r" in dir() else ""))
            bad += 1
        except Exception as e:
            print("CRASH %s: %r" % (name, e))
            bad += 1
            if os.environ.get("APGSA_DEBUG"):
                raise
    finally:
        shutil.rmtree(d, ignore_errors=True)
print("%d snippets, %d not right" % (len(feats), bad))
