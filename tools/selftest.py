"""Validates the analysis, not the code: abstract results against real runs of /repo on the same (spelled out) inputs.
Not a check; nothing in MANIFEST.json uses it.   usage: selftest.py PROP [max] [--root DIR] [--save]
Every n-th scenario of the rule of PROP is spelled as ASN.1 text and given to the program; acceptance and the bytes of
all files are compared with what the abstract run says for these very values."""
import os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("APGSA_WORKERS", "1")
from apgsa import core, rules, outp, ops
from apgsa.peg import Spell
from apgsa.terms import K, isK, kv, T, show
from apgsa.ground import ev, NoGround
from apgsa.core import OUT, OFN
root = sys.argv[sys.argv.index("--root") + 1] if "--root" in sys.argv else "/repo"
args = [a for a in sys.argv[1:] if not a.startswith("--") and a != root]
prop = args[0]
limit = int(args[1]) if len(args) > 1 else 60
HI = "--lo" not in sys.argv
PY = "/opt/venv/bin/python"


class Stop(Exception):
    pass


def collect():
    """All scenarios of the rule (without running them)."""
    ctx = core.Ctx(prop, "quick", root)
    got = []

    def rec(kind):
        def f(sc, name, *a, **k):
            ctx.tick += 1
            got.append((kind, sc, name))
        return f
    ctx.rejects, ctx.accepts, ctx.output = rec("rejects"), rec("accepts"), rec("output")
    ctx.mine = lambda: True
    try:
        rules.RULES[prop](ctx)
    except Exception as e:
        print("collection ended:", repr(e))
    return ctx, got


def concrete(sc):
    """Texts and the values of all symbols."""
    names, env, texts = {}, {}, []
    taken = set(core.POSIX)
    for p, m in sc.modules:
        iv = sc.facts.get("iv", {}) if sc.facts else {}
        s = Spell(iv, taken, hi=HI, names=names)
        s.module(m)
        t = s.text()
        for a, b, term in s.marks:
            x = t[a:b]
            k = term.args[1]
            env[term] = int(x) if k == "int" else float(x) if k == "float" else x
        texts.append(t)
    return texts, env, names


def term_value(t, env, names):
    if isK(t):
        return kv(t)
    if t in env:
        return env[t]
    if t in names:
        return names[t]
    s = Spell({}, set(core.POSIX), names=names)
    s.term(t)
    env[t] = s.text()
    return env[t]


def real(sc, tmp):
    texts, env, names = concrete(sc)
    paths = []
    for i, ((p, m), t) in enumerate(zip(sc.modules, texts)):
        f = os.path.join(tmp, "in%d.asn1" % i)
        open(f, "w").write(t)
        paths.append(f)
        env[p] = f
    out = os.path.join(tmp, "out")
    env[OUT] = out
    env[OFN] = "ofn-name"
    cl = [PY, "-B", os.path.join(root, "asn1_parser/main.py"), sc.command] + paths + ["--output-dir", out]
    for o, v in sc.options.items():
        if not o.startswith("--") or o == "--output-dir" or v is None:
            continue
        if isinstance(v, list):
            cl += [o, ",".join(str(term_value(x, env, names)) for x in v)]
        else:
            cl += [o, str(term_value(v, env, names))]
    r = subprocess.run(cl, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    files = {}
    if os.path.isdir(out):
        for f in sorted(os.listdir(out)):
            files[os.path.join(out, f)] = open(os.path.join(out, f), "rb").read()
    return r.returncode, files, r.stdout, env, texts


def holds(conds, env):
    return all(ev(c, env) for c in conds)


def value(t, env):
    if t.op == "cat":
        ps = [value(x, env) for x in t.args]
        if any(isinstance(p, bytes) for p in ps):
            return b"".join(p if isinstance(p, bytes) else str(p).encode() for p in ps if p != "")
        return "".join(str(p) for p in ps)
    return ev(t, env)


def pathval(t, env):
    d = outp.split_path(t)
    if d is None:
        return value(t, env)
    return os.path.join(value(d[0], env), value(d[1], env))


class Fs(dict):
    pass


def compare(ctx, sc, res):
    rc, files, text, env, texts = res
    r = ctx.run(sc)
    if r.error:
        return "undecided " + r.error
    if r.notes:
        return "undecided " + "; ".join(r.notes)
    o = outp.Out(r)
    acc = None
    rej = None
    try:
        for e in o.raises:
            cs = [outp.drop_fsq(c) for c in e.live]
            if all(ev(c, env) for c in cs):
                rej = e
        if r.st.live is not None and all(ev(outp.drop_fsq(c), env) for c in r.st.live):
            acc = True
    except NoGround as x:
        return "undecided NoGround %s" % x
    if (rc == 0) != (acc is True):
        return "MISMATCH real rc=%d, abstract accepted=%s (%s)\n%s" % (rc, acc, show(rej.data["exc"]) if rej else None, text[-600:])
    if rej is not None and acc:
        return "MISMATCH both accepted and rejected"
    if rc != 0:
        return "ok rejected"
    n = 0
    for c in o.cases():
        try:
            if not all(bool(ev(a, env)) == v for a, v in c.env.items()):
                continue
        except NoGround as x:
            return "undecided NoGround %s" % x
        n += 1
        got = {}
        for p, mode, t, e in c.files:
            try:
                v = value(t, env)
                q = pathval(p, env)
            except NoGround as x:
                return "undecided NoGround %s" % x
            if isinstance(v, str):
                v = v.encode()
            got[q] = v
        if set(got) != set(files):
            return "MISMATCH files %s against %s" % (sorted(got), sorted(files))
        for q in got:
            if got[q] != files[q]:
                a, b = got[q], files[q]
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return "MISMATCH content of %s at %d:\n abstract %r\n real     %r" % (os.path.basename(q), i, a[max(0, i - 60):i + 80], b[max(0, i - 60):i + 80])
    if n != 1:
        return "MISMATCH %d cases hold" % n
    return "ok same %d files" % len(files)


def main():
    ctx, got = collect()
    print(prop, len(got), "scenarios")
    if limit and len(got) > limit:
        got = random.Random(5).sample(got, limit)
    base = tempfile.mkdtemp(prefix="selftest_")
    try:
        def go(i):
            d = os.path.join(base, str(i))
            os.mkdir(d)
            try:
                return real(got[i][1], d)
            except Exception as e:
                return e
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(go, range(len(got))))
        stat = {}
        for (kind, sc, name), res in zip(got, rs):
            if isinstance(res, Exception):
                v = "skipped %r" % res
            else:
                try:
                    v = compare(ctx, sc, res)
                except Exception as e:
                    v = "undecided internal %r" % e
            k = v.split()[0]
            stat[k] = stat.get(k, 0) + 1
            if k != "ok":
                print(" ", kind, name, "::", v[:900])
                if k == "MISMATCH" and "--save" in sys.argv:
                    print("\n".join(res[4]))
        print(prop, stat)
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
