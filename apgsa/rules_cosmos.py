"""Rules about the COSMOS output."""
import itertools

from .terms import mk, K, isK, kv, show
from . import ops
from .build import *
from .core import COMMANDS, CLIKE, POSIX, CCSDS, Bad, Undecided, OUT, OFN
from . import spec

CMD = "generate-cosmos"
MA, MB, MC, MD = (low("mod" + c) for c in "ABCD")
APID = K("application-process-identifier")
LENF = {isym("len"): (1, 10**6)}
X, Y = fsym("x"), fsym("y")


def ref(n):
    return typ(n)


def kinds():
    return {
        "u8": lambda: u(8), "u3": lambda: u(3), "u sym": lambda: integer(isym("ub"), isym("ue")), "bool": boolean,
        "int": lambda: integer(-100, 100), "int16": lambda: integer(-100, 200),
        "float": lambda: real(-1.5, 2.5), "float full": lambda: real(-3.4e38, 3.4e38), "float half": lambda: real(0.0, 3.4e38),
        "float sym": lambda: real(X, Y), "double": lambda: real(-1e300, 1e300), "double full": lambda: real(-DMAX, DMAX),
        "double half": lambda: real(-DMAX, 0.0),
        "string": lambda: string(isym("len")), "numstring": lambda: string(isym("len"), "NumericString"),
        "array of bool": lambda: array(isym("len"), boolean()),
        "array of alias": lambda: array(isym("len"), ref(cap("Al"))),
        "array of posix": lambda: array(isym("len"), ref(K("Int16-t"))),
        "array of enum": lambda: array(isym("len"), ref(cap("En"))),
        "alias": lambda: ref(cap("Al")), "alias16": lambda: ref(cap("Al16")), "posix": lambda: ref(K("Int16-t")),
        "float alias": lambda: ref(K("Float")), "real alias": lambda: ref(cap("Ra")), "enum": lambda: ref(cap("En")),
        "sequence": lambda: ref(cap("In")), "deep": lambda: ref(cap("De")),
    }


FACTS = {"iv": {isym("len"): (1, 10**6), isym("ub"): (0, 100), isym("ue"): (512, 1023), X: (-5.0, 5.0), Y: (6.0, 10.0)}}


def support(pre=""):
    return [simple(cap("Al"), u(5)), simple(cap("Al16"), u(16)), posix("Int16-t"), posix("Float"), simple(cap("Ra"), real(-2.0, 9.0)),
            enum(cap("En"), [low("ea"), low("eb"), low("ec")]),
            seq(cap("In"), [dict(key=low("ia"), t=u(8), comment=com("ia", unit=True)), dict(key=low("ib"), t=boolean()),
                            dict(key=low("ic"), t=real(-2.0, 2.0), comment=com("ic", little=True))]),
            seq(cap("De"), [(low("da"), ref(cap("In"))), (low("db"), u(4)), (low("dc"), ref(cap("In")))])]


def go(ctx, mods, name, what, msgs=None, may_fail=False, facts=None, **kw):
    sc = ctx.scen(CMD, mods, facts=FACTS if facts is None else facts, msgs=msgs, **kw)
    ctx.output(sc, name, lambda fs, tx: spec.cosmos(fs, tx, sc, what), may_fail)


def mem(names, coms=()):
    kk = kinds()
    out = []
    for i, n in enumerate(names):
        d = dict(key=low("m%d" % i), t=kk[n]())
        if i in coms:
            d["comment"] = coms[i]()
        out.append(d)
    return out


def shapes(ctx):
    ks = list(kinds())
    for a in ks:
        yield [a]
    for i, a in enumerate(ks):
        for s in (range(len(ks)) if ctx.thorough else (0, 1, 7, 13)):
            yield [a, ks[(i + s) % len(ks)]]
    for s in range(0, len(ks), 1 if ctx.thorough else 5):
        yield ks[s:] + ks[:s]
        yield (ks[s:] + ks[:s])[::-1]


# ------------------------------------------------------------------- C20
def c20(ctx):
    P = cap("P")
    what = ("items",)
    for ns in shapes(ctx):
        go(ctx, [module(MA, support() + [seq(P, mem(ns))])], "members %s" % ns, what, [P])
    # definitions before and after, all of one module
    for ns in (["sequence", "alias", "enum"], ["deep", "u3"], ["array of alias", "real alias"]):
        for pos in range(0, 9, 1 if ctx.thorough else 2):
            ds = support()
            ds.insert(pos, seq(P, mem(ns)))
            go(ctx, [module(MA, ds)], "members %s, message defined at %d" % (ns, pos + 1), what, [P])
    # resolved in imported modules: directly, through others, in all file orders
    for order in itertools.permutations([0, 1, 2]):
        for n, (t, d) in {
            "alias": (ref(cap("Al")), lambda: [simple(cap("Al"), u(5))]),
            "array of alias": (array(isym("len"), ref(cap("Al"))), lambda: [simple(cap("Al"), u(5))]),
            "enum": (ref(cap("En")), lambda: [enum(cap("En"), [low("ea"), low("eb"), low("ec")])]),
            "posix": (ref(K("Int32-t")), lambda: [posix("Int32-t")]),
            "sequence": (ref(cap("In")), lambda: [seq(cap("In"), [(low("ia"), u(8)), (low("ib"), real(-1.0, 1.0))])]),
        }.items():
            nm = t.attrs["type_name"]
            nm = nm.attrs["asn_type"].attrs["type_name"] if isinstance(nm, Node) else nm
            # direct
            ms = [module(MA, [seq(P, [(low("m0"), copy(t)), (low("m1"), u(8))])], imports=[imp([nm], MB)]),
                  module(MB, [filler("Z", "z")] + d()), module(MC, [filler("W", "w")])]
            go(ctx, [ms[i] for i in order], "imported %s, files %s" % (n, order), what, [P], module=MA)
            # a sequence of the imported module uses a definition of a third
            S = cap("S")
            ms = [module(MA, [seq(P, [(low("m0"), ref(S)), (low("m1"), u(8))])], imports=[imp([S], MB)]),
                  module(MB, [seq(S, [(low("s0"), copy(t)), (low("s1"), boolean())])], imports=[imp([nm], MC)]), module(MC, d())]
            go(ctx, [ms[i] for i in order], "%s imported by an imported module, files %s" % (n, order), what, [P], module=MA)
            # ... or one of its own
            ms = [module(MA, [seq(P, [(low("m0"), u(8)), (low("m1"), ref(S))])], imports=[imp([S], MB)]),
                  module(MB, d() + [seq(S, [(low("s0"), copy(t)), (low("s1"), boolean())])]), module(MC, [filler("W", "w")])]
            go(ctx, [ms[i] for i in order], "%s of an imported module, used there, files %s" % (n, order), what, [P], module=MA)
            # both import it
            ms = [module(MA, [seq(P, [(low("m0"), ref(S)), (low("m1"), copy(t))])], imports=[imp([S], MB), imp([nm], MC)]),
                  module(MB, [seq(S, [(low("s0"), copy(t))])], imports=[imp([nm], MC)]), module(MC, d())]
            go(ctx, [ms[i] for i in order], "%s imported twice, files %s" % (n, order), what, [P], module=MA)
    # nested to a depth, and the same sequence several times
    for depth in range(1, 7 if ctx.thorough else 5):
        ds = [seq(cap("L%d" % i), [(low("a%d" % i), u(8))] + ([(low("b%d" % i), ref(cap("L%d" % (i + 1))))] if i < depth else []) +
                  [(low("c%d" % i), boolean())]) for i in range(depth + 1)]
        go(ctx, [module(MA, ds)], "nested to depth %d" % depth, what, [cap("L0")])
        go(ctx, [module(MA, ds2(ds))], "nested to depth %d, reversed" % depth, what, [cap("L0")])
    In = cap("In")
    for n in (2, 3):
        go(ctx, [module(MA, [seq(In, [(low("ia"), u(8)), (low("ib"), u(3))]), seq(P, [(low("m%d" % i), ref(In)) for i in range(n)])])],
           "one sequence %d times" % n, what, [P])
    # refused: choices
    Ch = cap("Ch")
    ch = lambda: choice(Ch, [(low("ca"), u(8)), (low("cb"), boolean())])
    for pos in range(3):
        ms = [(low("a"), u(8)), (low("b"), boolean())]
        ms.insert(pos, (low("x"), ref(Ch)))
        ctx.rejects(ctx.scen(CMD, [module(MA, [seq(P, ms), ch()])], msgs=[P]), "a member at %d is a CHOICE" % (pos + 1))
        ctx.rejects(ctx.scen(CMD, [module(MA, [seq(P, [(low("i"), ref(In))]), seq(In, ms2(ms)), ch()])], msgs=[P]),
                    "a nested member at %d is a CHOICE" % (pos + 1))
        ctx.rejects(ctx.scen(CMD, [module(MA, [seq(P, ms2(ms))], imports=[imp([Ch], MB)]), module(MB, [ch()])], msgs=[P], module=MA),
                    "a member at %d is an imported CHOICE" % (pos + 1))
        ms3 = [(low("a"), u(8)), (low("b"), boolean())]
        ms3.insert(pos, (low("x"), array(K(2), ref(Ch))))
        ctx.rejects(ctx.scen(CMD, [module(MA, [seq(P, ms3), ch()])], msgs=[P]), "a member at %d is an array of CHOICE" % (pos + 1))
    ctx.rejects(ctx.scen(CMD, [module(MA, [ch(), filler()])], msgs=[Ch]), "the message is a CHOICE")
    ctx.rejects(ctx.scen(CMD, [module(MA, [ch(), filler()])], msgs=[cap("Msg"), Ch]), "the second message is a CHOICE")
    # a type that is only defined in a module which the requested one does not import
    U = cap("U")
    ctx.rejects(ctx.scen(CMD, [module(MA, [seq(P, [(low("m0"), ref(U))])]), module(MB, [seq(U, [(low("a"), u(8))])])], msgs=[P], module=MA),
                "type of a module that is not imported")


def copy(n):
    if isinstance(n, Node):
        return Node(n.rule, **{k: copy(v) for k, v in n.attrs.items()})
    if isinstance(n, list):
        return [copy(x) for x in n]
    return n


def ds2(ds):
    return [copy(d) for d in ds[::-1]]


def ms2(ms):
    return [(k, copy(t)) for k, t in ms]


# ------------------------------------------------------------------- C21
def c21(ctx):
    P, In, De, J = cap("P"), cap("In"), cap("De"), cap("J")
    what = ("items", "attrs")
    T, F = K("TRUE"), K("FALSE")
    cvar = {"none": None, "text": lambda: com("c", True), "unit": lambda: com("c", False, True), "both": lambda: com("c", True, True),
            "mark": lambda: com("c", False, False, True), "mark text": lambda: com("c", True, False, True),
            "mark unit": lambda: com("c", False, True, True), "all": lambda: com("c", True, True, True)}
    for ns in shapes(ctx):
        go(ctx, [module(MA, support() + [seq(P, mem(ns))])], "members %s" % ns, what, [P])
    # comments of every form on every kind of leaf
    for a in kinds():
        if a in ("sequence", "deep"):
            continue
        for n, c in cvar.items():
            if c is None:
                continue
            go(ctx, [module(MA, support() + [seq(P, mem([a], {0: c}))])], "%s with comment: %s" % (a, n), what, [P])
    # comments belong to their own item
    for cs in itertools.product(["none", "unit", "all", "mark text"], repeat=3):
        if not ctx.thorough and cs.count("none") == 0:
            continue
        d = {i: (lambda i=i, n=n: rename(cvar[n](), "c%d" % i)) for i, n in enumerate(cs) if n != "none"}
        go(ctx, [module(MA, support() + [seq(P, mem(["u8", "sequence", "bool"], d), comment=com("def"))])],
           "comments %s around a nested sequence" % (cs,), what, [P])
    # limits
    for n, (b, e) in {"full float": (-3.4e38, 3.4e38), "lower": (-1.0, 3.4e38), "upper": (-3.4e38, 1.0), "both": (-1.0, 1.0), "point": (2.0, 2.0),
                      "positive": (0.0, 1.0), "full double": (-DMAX, DMAX), "lower double": (-1e300, DMAX), "upper double": (-DMAX, 1e300),
                      "both double": (-1e300, 1e300), "just double": (-3.4000001e38, 3.4e38), "zero": (0.0, 0.0)}.items():
        go(ctx, [module(MA, [seq(P, [(low("m0"), real(b, e)), (low("m1"), ref(cap("Al"))), (low("m2"), u(8))]), simple(cap("Al"), real(b, e))])],
           "limits of REAL, %s" % n, what, [P])
    for n, iv in {"inside float": {X: (-1e38, 0.0), Y: (1.0, 1e38)}, "lower at the limit": {X: (-3.4e38, -3.4e38), Y: (0.0, 3.39e38)},
                  "upper at the limit": {X: (-3.39e38, 0.0), Y: (3.4e38, 3.4e38)}, "inside double": {X: (-1e308, -1e39), Y: (1.0, 1e308)},
                  "double, lower at the limit": {X: (-DMAX, -DMAX), Y: (1.0, 1e308)},
                  "double, upper at the limit": {X: (-1e308, 5.0), Y: (DMAX, DMAX)}}.items():
        go(ctx, [module(MA, [seq(P, [(low("m0"), real(X, Y)), (low("m1"), ref(cap("Al")))]), simple(cap("Al"), real(X, Y))])],
           "limits of any REAL, %s" % n, what, [P], facts={"iv": iv, "rel": [(X, Y)]})
    # states
    for n in range(2, 7):
        for p in itertools.permutations(range(n)) if n < 4 or ctx.thorough and n < 5 else [range(n), list(range(n))[::-1]]:
            items = [dict(key=low("e%d" % i), pos=K(v)) for i, v in enumerate(p)]
            go(ctx, [module(MA, [seq(P, [(low("m0"), ref(cap("En"))), (low("m1"), u(8))]), enum(cap("En"), items)])],
               "states at positions %s" % (list(p),), what, [P])
    # id values: scalar kinds, positions, orders, depth, partial
    sc = {"int": (lambda: u(8), lambda i: isym("v%s" % i)), "neg": (lambda: integer(-100, 100), lambda i: isym("v%s" % i)),
          "zero": (lambda: u(8), lambda i: K(0)), "one": (lambda: u(8), lambda i: K(1)),
          "float": (lambda: real(-1e9, 1e9), lambda i: fsym("w%s" % i)), "true": (boolean, lambda i: T), "false": (boolean, lambda i: F),
          "alias": (lambda: ref(cap("Al")), lambda i: isym("v%s" % i))}
    al = lambda: simple(cap("Al"), u(5))

    def prog(inner, comps, more=(), key="top"):
        return [module(MA, [al(), seq(In, inner), seq(P, [dict(key=low(key), t=ref(In), wc=wcomp(comps))] + list(more))])]
    for a in sc:
        go(ctx, prog([(low("k0"), sc[a][0]())], [(low("k0"), sc[a][1](0))]), "value %s" % a, what, [P])
        go(ctx, prog([(low("k0"), sc[a][0]()), (low("k1"), sc[a][0]())], [(low("k1"), sc[a][1](1))]), "value %s, only the second" % a, what, [P])
        go(ctx, prog([(low("k0"), sc[a][0]()), (low("k1"), sc[a][0]())], [(low("k0"), sc[a][1](0))], [(low("k0"), sc[a][0]())]),
           "value %s, member of equal name outside" % a, what, [P])
    names = ["int", "true", "float", "false"]
    for r in (1, 2, 3, 4):
        for p in itertools.permutations(range(4), r):
            if r == 4 and not ctx.thorough and p[0] not in (0, 3):
                continue
            go(ctx, prog([(low("k%d" % i), sc[n][0]()) for i, n in enumerate(names)], [(low("k%d" % i), sc[names[i]][1](i)) for i in p]),
               "components written %s" % (p,), what, [P])
    k = low("same")
    # equal names at several levels: the value belongs to its own level
    for lab, comps in {
        "outer": [(k, isym("a"))], "inner": [(low("d"), wcomp([(k, isym("b"))]))],
        "outer then inner": [(k, isym("a")), (low("d"), wcomp([(k, isym("b"))]))],
        "inner then outer": [(low("d"), wcomp([(k, isym("b"))])), (k, isym("a"))],
    }.items():
        for lay in (0, 1):
            inner = [(k, u(8)), (low("d"), ref(De))]
            go(ctx, [module(MA, [seq(De, [(k, u(8)), (low("e"), u(8))]), seq(In, inner if lay else inner[::-1]),
                                 seq(P, [dict(key=low("t"), t=ref(In), wc=wcomp(comps)), (k, u(8)), (low("u"), ref(In)), (low("d"), ref(De))])])],
               "equal member names, constrained: %s (%d)" % (lab, lay), what, [P])
    # two constrained members, of one type
    for lab, (c1, c2) in {"both": ([(low("k0"), isym("a"))], [(low("k0"), isym("b"))]), "first": ([(low("k0"), isym("a"))], None),
                          "second": (None, [(low("k0"), isym("b"))]), "different": ([(low("k0"), isym("a"))], [(low("k1"), isym("b"))])}.items():
        ms = [dict(key=low("t%d" % i), t=ref(In)) for i in range(2)]
        for d, c in zip(ms, (c1, c2)):
            if c:
                d["wc"] = wcomp(c)
        go(ctx, [module(MA, [seq(In, [(low("k0"), u(8)), (low("k1"), u(8))]), seq(P, ms)])], "two members of one type, constrained: %s" % lab, what, [P])
    # a constraint inside a nested sequence, plus one from outside
    for lab, (o, i) in {"outer only": (1, 0), "inner only": (0, 1), "both": (1, 1)}.items():
        jm = dict(key=low("j"), t=ref(De))
        if i:
            jm["wc"] = wcomp([(low("e0"), isym("i0"))])
        pm = dict(key=low("p"), t=ref(J))
        if o:
            pm["wc"] = wcomp([(low("j"), wcomp([(low("e1"), isym("o1"))]))])
        go(ctx, [module(MA, [seq(De, [(low("e0"), u(8)), (low("e1"), u(8))]), seq(J, [jm, (low("jz"), u(8))]), seq(P, [pm, (low("pz"), u(8))])])],
           "nested constraints: %s" % lab, what, [P])
    # deep nesting
    for depth in (2, 3, 4):
        ds = [seq(cap("L%d" % i), [(low("a%d" % i), u(8)), (low("b%d" % i), ref(cap("L%d" % (i + 1))) if i < depth else boolean())])
              for i in range(depth + 1)]
        for upto in range(1, depth + 1):
            c = wcomp([(low("a%d" % upto), isym("v%d" % upto))])
            for i in range(upto - 1, 0, -1):
                c = wcomp([(low("a%d" % i), isym("v%d" % i)), (low("b%d" % i), c)] if i % 2 else [(low("b%d" % i), c)])
            top = seq(P, [dict(key=low("t"), t=ref(cap("L1")), wc=c), (low("z"), ref(cap("L1")))])
            go(ctx, [module(MA, [copy(d) for d in ds] + [top])], "depth %d, constrained to level %d" % (depth, upto), what, [P])
    # the application process identifier
    av = isym("apidv")
    for lab, c in {"given": [(APID, av)], "not given": [(low("o"), isym("b"))], "both": [(low("o"), isym("b")), (APID, av)]}.items():
        go(ctx, prog([(APID, u(11)), (low("o"), u(8))], c), "application process identifier %s" % lab, what, [P],
           facts={"iv": {av: (0, 2047)}})
    for v in (0, 1, 10, 15, 16, 255, 256, 2047):
        go(ctx, prog([(APID, u(11))], [(APID, K(v))]), "application process identifier %d" % v, what, [P])
    go(ctx, [module(MA, [seq(P, [(APID, u(11)), (low("o"), u(8))])])], "application process identifier not constrained", what, [P])
    # a member of array type is no id item, whatever is constrained
    go(ctx, prog([(low("a"), array(K(4), boolean())), (low("o"), u(8))], [(low("o"), isym("b"))]), "array beside a constrained member", what, [P])
    # imported, constrained
    for order in (0, 1):
        ms = [module(MA, [seq(P, [dict(key=low("t"), t=ref(In), wc=wcomp([(low("k1"), isym("b"))]))])], imports=[imp([In], MB)]),
              module(MB, [seq(In, [(low("k0"), u(8)), (low("k1"), u(8))])])]
        go(ctx, ms[::-1] if order else ms, "constrained sequence of another module, files %d" % order, what, [P], module=MA)
    # comments on components do not matter
    go(ctx, prog([(low("k0"), u(8)), (low("k1"), u(8))], [(low("k0"), isym("a"), com("x1", unit=True)), (low("k1"), isym("b"), com("x2", little=True))]),
       "comments on components", what, [P])


def rename(c, l):
    for a, p in (("comment", "c:"), ("unit", "u:")):
        if a in c.attrs and not isK(c.attrs[a]):
            c.attrs[a] = txt(p + l)
    return c


# ------------------------------------------------------------------- C22
def c22(ctx):
    what = ("packets", "items")
    N = [cap("N%d" % i) for i in range(4)]

    def defs(order, comments=()):
        ds = {n: seq(n, [(low("k%d" % i), u(8 + i)), (low("l%d" % i), boolean())], comment=com("d%d" % i) if i in comments else None)
              for i, n in enumerate(N[:3])}
        return [ds[n] for n in order]
    for r in (1, 2, 3):
        for req in itertools.permutations(N[:3], r):
            for order in itertools.permutations(N[:3]) if ctx.thorough or r < 3 else [N[:3], N[2::-1]]:
                go(ctx, [module(MA, defs(order))], "requested %s, defined %s" % ([show(x) for x in req], [show(x) for x in order]), what, list(req))
            for cs in ((0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2)):
                go(ctx, [module(MA, defs(N[:3], cs))], "requested %s, described %s" % ([show(x) for x in req], cs), what, list(req))
    # messages of one module among several
    for order in itertools.permutations([0, 1, 2]):
        ms = [module(MA, defs(N[:2], (0,))), module(MB, [seq(cap("Q"), [(low("q"), u(8))], comment=com("q"))]), module(MC, [filler("W", "w")])]
        ms = [ms[i] for i in order]
        go(ctx, ms, "three modules, files %s" % (order,), what, [N[1], N[0]], module=MA)
        go(ctx, [copy(m) for m in ms], "three modules, second requested, files %s" % (order,), what, [cap("Q")], module=MB)
        # defined elsewhere, not in the requested module
        ctx.rejects(ctx.scen(CMD, [copy(m) for m in ms], msgs=[cap("Q")], module=MA), "message of another module, files %s" % (order,))
        ctx.rejects(ctx.scen(CMD, [copy(m) for m in ms], msgs=[N[0], cap("Q")], module=MA), "second message of another module, files %s" % (order,))
        ctx.rejects(ctx.scen(CMD, [copy(m) for m in ms], msgs=[N[0]], module=low("nowhere")), "module not among the files %s" % (order,))
    for r in (1, 2, 3):
        for pos in range(r):
            req = list(N[:r])
            req[pos] = cap("Undef")
            ctx.rejects(ctx.scen(CMD, [module(MA, defs(N[:3]))], msgs=req), "undefined message at %d of %d" % (pos + 1, r))
    for kind in ("Enumerated", "SimpleDefinition", "Choice"):
        for req in ([cap("Kx")], [N[0], cap("Kx")], [cap("Kx"), N[0]]):
            ctx.rejects(ctx.scen(CMD, [module(MA, defs(N[:3]) + [definition(kind, cap("Kx"), "kx")])], msgs=req),
                        "message that is a %s (%s)" % (kind, [show(x) for x in req]))
    # comments without text
    go(ctx, [module(MA, [seq(N[0], [(low("k"), u(8))], comment=com("d", text=False, unit=True))])], "description is only a unit", ("items",), [N[0]])
    # imported sequences do not become packets
    go(ctx, [module(MA, [seq(N[0], [(low("k"), typ(N[1]))])], imports=[imp([N[1]], MB)]), module(MB, [seq(N[1], [(low("l"), u(8))], comment=com("x"))])],
       "imported sequence is no packet", what, [N[0]], module=MA)
    # messages that share a constrained sequence
    In = cap("In")
    ds = [seq(In, [(low("a"), u(8)), (low("b"), u(8))])] + [
        seq(N[i], [dict(key=low("t"), t=typ(In), wc=wcomp([(low("ab"[i]), isym("v%d" % i))]))]) for i in range(2)]
    for req in ([N[0], N[1]], [N[1], N[0]], [N[1]]):
        go(ctx, [module(MA, [copy(d) for d in ds])], "messages with a shared sequence %s" % [show(x) for x in req], ("packets", "items", "attrs"), req)


RULES = {"C20": c20, "C21": c21, "C22": c22}
