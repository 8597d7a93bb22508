"""C27: the last item of a list is treated like the others."""
import itertools

from .terms import K, show
from .build import *
from .core import COMMANDS, CLIKE
from . import spec
from .rules_c import binaries, scalar_kinds, support as csupport, LEN

MA, MB = low("modA"), low("modB")
T, F = K("TRUE"), K("FALSE")
WHERE = {"only": (0, 1), "first of two": (0, 2), "last of two": (1, 2), "middle of three": (1, 3), "last of three": (2, 3)}


def forms(l):
    """Every form of a comment, as a maker."""
    return {"none": lambda: None, "text": lambda: com(l), "unit": lambda: com(l, False, True), "text and unit": lambda: com(l, True, True),
            "mark": lambda: com(l, False, False, True), "text and mark": lambda: com(l, True, False, True),
            "unit and mark": lambda: com(l, False, True, True), "all": lambda: com(l, True, True, True), "empty": lambda: comment()}


def placed(pos, n, item, fill):
    return [item() if i == pos else fill(i) for i in range(n)]


def c27(ctx):
    P, S, N = cap("P"), cap("S"), cap("N")
    key = low("key")

    def d(k, t, c=None, wc=None):
        r = dict(key=k, t=t)
        if c is not None:
            r["comment"] = c
        if wc is not None:
            r["wc"] = wc
        return r
    fillm = lambda i: d(low("f%d" % i), u(8))
    kinds = scalar_kinds()
    pick = list(kinds) if ctx.thorough else ["u8", "bool", "string", "array of alias", "sequence", "enum"]

    def clike(cmd, mods, name, what=("fields", "types", "comments")):
        sc = ctx.scen(cmd, mods, facts=LEN)
        ctx.output(sc, "%s: %s" % (cmd, name), lambda fs, tx: spec.fields(fs, tx, cmd, sc, what))

    def cosmos(mods, name, msg=P):
        sc = ctx.scen("generate-cosmos", mods, facts=LEN, msgs=[msg])
        ctx.output(sc, "generate-cosmos: %s" % name, lambda fs, tx: spec.cosmos(fs, tx, sc, ("items", "attrs")))

    # members of sequences, with every form of comment
    for wn, (pos, n) in WHERE.items():
        for fn, f in forms("it").items():
            for kn in pick:
                if kn in ("array of sequence",):
                    continue
                ms = lambda: placed(pos, n, lambda: d(key, kinds[kn](), f()), fillm)
                nm = "member %s, %s, comment %s" % (wn, kn, fn)
                for cmd in CLIKE:
                    if ctx.thorough or kn in ("u8", "bool", "array of alias"):
                        clike(cmd, [module(MA, csupport() + [seq(P, ms())])], nm)
                cosmos([module(MA, csupport() + [seq(P, ms())])], nm)
    # constrained members, with every form of comment on member, list, component and nested list
    def wcs(vals, cs=(), c=None, nested=None, npos=0):
        items = [(low("k%d" % i), v, *([cs[i]] if i < len(cs) and cs[i] is not None else [])) for i, v in enumerate(vals)]
        return wcomp(items, c)
    defs = lambda: [seq(S, [d(low("k%d" % i), u(8)) for i in range(3)] + [d(low("kb%d" % i), boolean()) for i in range(3)] +
                        [d(low("n%d" % i), typ(N)) for i in range(3)]),
                    seq(N, [d(low("na"), u(8)), d(low("nb"), boolean()), d(low("nc"), u(16))])]

    def judge(mods, nm, cmds_=COMMANDS):
        for cmd in cmds_:
            sc = ctx.scen(cmd, mods(), msgs=[P] if cmd == "generate-cosmos" else None)
            if cmd == "generate-cosmos":
                f = lambda fs, tx: spec.cosmos(fs, tx, sc, ("items", "attrs"))
            elif cmd == "generate-c":
                f = lambda fs, tx: (spec.inits(fs, tx, cmd, sc), spec.fields(fs, tx, cmd, sc))
            elif cmd == "generate-binary":
                f = lambda fs, tx: (binaries(fs, tx, cmd, sc), spec.fields(fs, tx, cmd, sc))
            else:
                f = lambda fs, tx: spec.fields(fs, tx, cmd, sc)
            ctx.output(sc, "%s: %s" % (cmd, nm), f)
    BIN = ["generate-cfs", "generate-c", "generate-cosmos"]
    for wn, (pos, n) in WHERE.items():
        for fn, f in forms("it").items():
            if not ctx.thorough and fn in ("mark", "unit and mark", "empty"):
                continue
            # the member
            judge(lambda: [module(MA, defs() + [seq(P, placed(pos, n, lambda: d(key, typ(S), f(), wcs([isym("v")])), fillm))])],
                  "constrained member %s, comment %s" % (wn, fn))
            # the component
            for vn, (k, v) in {"number": ("k", lambda: isym("v")), "TRUE": ("kb", lambda: T), "FALSE": ("kb", lambda: F),
                               "zero": ("k", lambda: K(0))}.items():
                def mods():
                    it = []
                    for i in range(n):
                        if i == pos:
                            c = f()
                            it.append((low("%s%d" % (k, i)), v(), *([c] if c is not None else [])))
                        else:
                            it.append((low("k%d" % i), isym("w%d" % i)))
                    return [module(MA, defs() + [seq(P, [d(key, typ(S), None, wcomp(it))])])]
                judge(mods, "component %s %s, comment %s" % (vn, wn, fn), COMMANDS if k == "k" else BIN)

                # the component of a nested list, at each place of the outer one
                for on, (op, om) in WHERE.items():
                    if not ctx.thorough and (fn not in ("none", "text") or on == "middle of three"):
                        continue

                    def mods2():
                        names = {"k": ["na", "nc"], "kb": ["nb"]}[k]
                        others = [x for x in ("na", "nb", "nc") if x != names[0]]
                        it = []
                        for i in range(n):
                            if i == pos:
                                c = f()
                                it.append((low(names[0]), v(), *([c] if c is not None else [])))
                            else:
                                x = others.pop(0)
                                it.append((low(x), T if x == "nb" else isym("w%d" % i)))
                        o = [(low("n%d" % i), wcomp(it)) if i == op else (low("k%d" % i), isym("o%d" % i)) for i in range(om)]
                        return [module(MA, defs() + [seq(P, [d(key, typ(S), None, wcomp(o))])])]
                    judge(mods2, "nested component %s %s in a list that is %s, comment %s" % (vn, wn, on, fn),
                          COMMANDS if k == "k" and n == 1 else BIN)
            # the nested list itself
            for depth in (1, 2):
                def mods3():
                    inner = wcomp([(low("na"), isym("x"))], f())
                    it = [(low("n%d" % i), inner) if i == pos else (low("k%d" % i), isym("w%d" % i)) for i in range(n)]
                    return [module(MA, defs() + [seq(P, [d(key, typ(S), None, wcomp(it, f() if depth == 2 else None))])])]
                judge(mods3, "nested list %s, comment %s%s" % (wn, fn, ", also on the outer list" if depth == 2 else ""))
    # alternatives and items
    for wn, (pos, n) in WHERE.items():
        for fn, f in forms("it").items():
            for kn in pick:
                if kn in ("array of sequence",) or not ctx.thorough and kn not in ("u8", "string", "enum", "array of alias"):
                    continue
                for cmd in CLIKE:
                    sc = ctx.scen(cmd, [module(MA, csupport() + [choice(P, placed(pos, n, lambda: d(key, kinds[kn](), f()), fillm)), filler()])], facts=LEN)
                    ctx.output(sc, "%s: alternative %s, %s, comment %s" % (cmd, wn, kn, fn),
                               lambda fs, tx: spec.definitions(fs, tx, cmd, sc))
            for ps in ("none", "all", "reversed"):
                def it(i, c=None):
                    r = dict(key=low("e%d" % i))
                    if c is not None:
                        r["comment"] = c
                    if ps != "none":
                        r["pos"] = K(i if ps == "all" else n - 1 - i)
                    return r
                if n == 1:
                    continue
                mods = lambda: [module(MA, [seq(P, [d(low("m"), typ(cap("En")))]),
                                            enum(cap("En"), [it(i, f() if i == pos else None) for i in range(n)])])]
                for cmd in CLIKE:
                    sc = ctx.scen(cmd, mods())
                    ctx.output(sc, "%s: item %s, positions %s, comment %s" % (cmd, wn, ps, fn), lambda fs, tx: spec.enums(fs, tx, cmd, sc))
                cosmos(mods(), "item %s, positions %s, comment %s" % (wn, ps, fn))
    # the same items are refused
    bad = {"an undefined type": lambda: typ(cap("Undef")), "NULL": lambda: typ(K("NULL")), "a reversed range": lambda: integer(5, 3),
           "a reversed REAL range": lambda: real(5.0, 3.0), "an array of an undefined type": lambda: array(K(3), typ(cap("Undef"))),
           "an array of NULL": lambda: array(K(3), typ(K("NULL")))}
    for cmd in COMMANDS:
        for wn, (pos, n) in WHERE.items():
            for bn, b in bad.items():
                for mk_, kn in ((seq, "sequence"), (choice, "choice")):
                    ctx.rejects(ctx.scen(cmd, [module(MA, [filler(), mk_(P, placed(pos, n, lambda: d(key, b()), fillm))])]),
                                "%s: %s of a %s with %s" % (cmd, wn, kn, bn))
            for sign in ("[", "--"):
                c = lambda: comment(K("a" + sign + "b"))
                for kn, ds in {
                    "member": lambda: [seq(P, placed(pos, n, lambda: d(key, u(8), c()), fillm))],
                    "constrained member": lambda: defs() + [seq(P, placed(pos, n, lambda: d(key, typ(S), c(), wcs([K(1)])), fillm))],
                    "alternative": lambda: [choice(P, placed(pos, n, lambda: d(key, u(8), c()), fillm))],
                    "item": lambda: [enum(P, placed(pos, n, lambda: dict(key=key, comment=c()), lambda i: dict(key=low("e%d" % i))))],
                    "component": lambda: defs() + [seq(P, [d(key, typ(S), None, wcomp([(low("k%d" % i), K(1), *([c()] if i == pos else []))
                                                                                      for i in range(n)]))])],
                    "nested list": lambda: defs() + [seq(P, [d(key, typ(S), None, wcomp([
                        (low("n%d" % i), wcomp([(low("na"), K(2))], c())) if i == pos else (low("k%d" % i), K(1)) for i in range(n)]))])],
                }.items():
                    ctx.rejects(ctx.scen(cmd, [module(MA, [filler()] + ds())]), "%s: %s %s with a comment with %s" % (cmd, kn, wn, sign))
            ctx.rejects(ctx.scen(cmd, [module(MA, [filler()] + defs() + [seq(P, [d(key, typ(S), None, wcomp(
                [(low("wrong") if i == pos else low("k%d" % i), K(1)) for i in range(n)]))])])]),
                "%s: component %s names no member" % (cmd, wn))
            ctx.rejects(ctx.scen(cmd, [module(MA, [filler()] + defs() + [seq(P, [d(key, typ(S), None, wcomp([(low("n0"), wcomp(
                [(low("wrong") if i == pos else low(["na", "nb", "nc"][i]), K(1)) for i in range(n)]))]))])])]),
                "%s: nested component %s names no member" % (cmd, wn))


RULES = {"C27": c27}
