"""Rules about inputs that must be refused, and about those that must not."""
import itertools

from .terms import mk, K, show
from .build import *
from .core import COMMANDS, CLIKE, POSIX, CCSDS, Bad
from . import spec


def cmds(ctx, some=None):
    return COMMANDS if some is None else some


# ------------------------------------------------------------------- C02
def c02(ctx):
    ma, mb, mc = low("modA"), low("modB"), low("modC")
    X = cap("X")
    for cmd in COMMANDS:
        for k1, k2 in itertools.product(KINDS, KINDS):
            d1, d2 = (lambda: definition(k1, X, "p")), (lambda: definition(k2, X, "q"))
            z = [definition(k, cap("Z%d" % i), "z%d" % i) for i, k in enumerate(KINDS)]
            lay = {
                "adjacent in one module": [[filler(), d1(), d2()]],
                "far apart in one module": [[d1()] + z + [filler(), d2()]],
                "first and last module": [[filler(), d1()], [filler("Mb", "g")], [d2(), filler("Mc", "h")]],
                "second module then third": [[filler()], [d1(), filler("Mb", "g")], [filler("Mc", "h"), d2()]],
            }
            if ctx.thorough:
                lay["two modules, both last"] = [[filler(), d1()], [filler("Mb", "g"), d2()]]
                lay["two modules, both first"] = [[d1(), filler()], [d2(), filler("Mb", "g")]]
            elif (k1, k2) != ("Sequence", "Sequence") and cmd != COMMANDS[0]:
                lay = {n: lay[n] for n in ("far apart in one module", "first and last module")}
            for n, ms in lay.items():
                mods = [module(m, ds) for m, ds in zip((ma, mb, mc), ms)]
                ctx.rejects(ctx.scen(cmd, mods), "%s: %s and %s of one name, %s" % (cmd, k1, k2, n))
        mods = [module(ma, [filler()] + [definition(k, cap("A" + k[:2].lower()), "a" + k[:2].lower()) for k in KINDS]),
                module(mb, [definition(k, cap("B" + k[:2].lower()), "b" + k[:2].lower()) for k in KINDS]),
                module(mc, [definition(k, cap("C" + k[:2].lower()), "c" + k[:2].lower()) for k in KINDS])]
        ctx.accepts(ctx.scen(cmd, mods), "%s: all definition names differ" % cmd)
        for k in KINDS:
            ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), definition(k, X, "p"), definition(k, cap("Y"), "q")]),
                                       module(mb, [definition(k, cap("V"), "r")])]),
                        "%s: %ss of different names" % (cmd, k))
    # a member, an alternative or an enumeration item of equal name is no duplicate definition
    kk = low("kk")
    for cmd in COMMANDS:
        ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), seq(X, [(kk, u(8))]), seq(cap("Y"), [(kk, u(8))])])]),
                    "%s: equal member names in two sequences" % cmd)


# ------------------------------------------------------------------- C03
def c03(ctx):
    m = [low("mod" + c) for c in "ABCD"]

    def mods(names):
        return [module(n, [filler("Msg%d" % i, "k%d" % i)]) for i, n in enumerate(names)]
    for cmd in COMMANDS:
        for names in ([m[0], m[0]], [m[0], m[1], m[0]], [m[0], m[1], m[1]], [m[0], m[0], m[1]], [m[0], m[0], m[0]],
                      [m[0], m[1], m[2], m[0]], [m[1], m[0], m[2], m[0]], [m[1], m[0], m[0], m[1]]):
            req = list(dict.fromkeys(names))
            ctx.rejects(ctx.scen(cmd, mods(names), requested=req),
                        "%s: module names %s" % (cmd, [show(x) for x in names]))
            if cmd != "generate-cosmos":
                ctx.rejects(ctx.scen(cmd, mods(names), requested=names),
                            "%s: module names and requested names %s" % (cmd, [show(x) for x in names]))
        for k in (1, 2, 3, 4):
            ctx.accepts(ctx.scen(cmd, mods(m[:k])), "%s: %d modules, all requested" % (cmd, k))
    for cmd in CLIKE:
        for k in (1, 2, 3):
            names = m[:k]
            for r in range(0, k + 2):
                for req in itertools.product(m[:k + 1], repeat=r):
                    req = list(req)
                    if not req:
                        continue
                    sc = ctx.scen(cmd, mods(names), requested=req)
                    good = len(set(req)) == len(req) and set(req) == set(names)
                    if not ctx.thorough and k == 3 and r > 3 and cmd != "generate-c":
                        continue
                    if good:
                        ctx.accepts(sc, "%s: modules %s, requested %s" % (
                            cmd, [show(x) for x in names], [show(x) for x in req]))
                    else:
                        ctx.rejects(sc, "%s: modules %s, requested %s" % (
                            cmd, [show(x) for x in names], [show(x) for x in req]))


# ------------------------------------------------------------------- C04
def c04(ctx):
    ma, mb, mc, md = (low("mod" + c) for c in "ABCD")
    nowhere = low("nowhere")
    undef = cap("Undef")
    B = [cap("B%d" % i) for i in range(3)]
    C = [cap("C%d" % i) for i in range(3)]
    own = cap("Own")

    def bundle(imps, order):
        a = module(ma, [filler(), seq(own, [(low("o"), u(8))])], imports=imps)
        b = module(mb, [seq(x, [(low("b%d" % i), u(8))]) for i, x in enumerate(B)])
        c = module(mc, [enum(C[0], [low("c0"), low("c1")]), simple(C[1], u(4)), seq(C[2], [(low("c2"), u(8))])])
        return [dict(a=a, b=b, c=c)[o] for o in order]

    good = [[(B, mb), (C, mc)], [(B[:1], mb)], [(C[:2], mc), (B[1:], mb)], [(B[:1], mb), (B[1:], mb)], [(C[2:], mc)]]
    bad = {}
    for n in (1, 2, 3):
        for i in range(n):
            names = list(B[:n])
            names[i] = undef
            bad["undefined name at %d of %d" % (i + 1, n)] = [(names, mb)]
            bad["undefined name at %d of %d, second clause" % (i + 1, n)] = [(C[:2], mc), (names, mb)]
            bad["undefined name at %d of %d, first clause" % (i + 1, n)] = [(names, mb), (C[:2], mc)]
            names = list(B[:n])
            names[i] = C[0]
            bad["name of another module at %d of %d" % (i + 1, n)] = [(names, mb)]
            bad["name of another imported module at %d of %d" % (i + 1, n)] = [(C[:2], mc), (names, mb)]
            names = list(B[:n])
            names[i] = own
            bad["own name at %d of %d" % (i + 1, n)] = [(names, mb)]
    bad["same module twice, second wrong"] = [(B[:1], mb), ([B[1], undef], mb)]
    bad["same module twice, first wrong"] = [([undef], mb), (B[:1], mb)]
    bad["three clauses, middle wrong"] = [(B[:1], mb), ([undef], mc), (B[1:], mb)]
    for i in range(3):
        cl = [(B[:1], mb), (C[:1], mc)]
        cl.insert(i, ([undef], nowhere))
        bad["unknown module at clause %d of 3" % (i + 1)] = cl
        cl = [(B[:1], mb), (C[:1], mc)]
        cl.insert(i, ([B[1]], nowhere))
        bad["defined name from unknown module at clause %d of 3" % (i + 1)] = cl
    bad["only clause, unknown module"] = [([undef], nowhere)]
    orders = ["abc", "bca", "bac"] if ctx.thorough else ["abc", "bca"]
    for cmd in COMMANDS:
        for order in orders:
            kw = {}
            if cmd == "generate-cosmos":
                kw = dict(module=ma, msgs=[cap("Msg")])
            if not ctx.thorough and order != "abc" and cmd in ("generate-binary", "generate-c"):
                continue
            for n, cl in bad.items():
                ctx.rejects(ctx.scen(cmd, bundle([imp(x, y) for x, y in cl], order), **kw),
                            "%s: %s (file order %s)" % (cmd, n, order))
            for cl in good:
                ctx.accepts(ctx.scen(cmd, bundle([imp(x, y) for x, y in cl], order), **kw),
                            "%s: imports %s (file order %s)" % (
                                cmd, [(show(y), [show(z) for z in x]) for x, y in cl], order))
    # the wrong import in another module than the first
    for cmd in COMMANDS:
        for who in (1, 2):
            for nm, m in ((undef, ma), (undef, nowhere), (C[0], ma)):
                ms = [module(ma, [filler(), seq(B[0], [(low("b"), u(8))])]),
                      module(mb, [seq(B[1], [(low("c"), u(8))])]),
                      module(mc, [seq(B[2], [(low("d"), u(8))])]), module(md, [seq(C[0], [(low("e"), u(8))])])]
                ms[who].attrs["import_items"] = [imp([nm], m)]
                ctx.rejects(ctx.scen(cmd, ms), "%s: module %d of 4 imports %s from %s" % (
                    cmd, who + 1, show(nm), show(m)))
    # names that the named module itself only imports
    for cmd in COMMANDS:
        kw = dict(module=ma, msgs=[cap("Msg")]) if cmd == "generate-cosmos" else {}
        for order in ("abcd", "dcba", "bacd"):
            for n, (ia, ib, ic, ok) in {
                    "a name imported by the named module": ([([C[2]], mb)], [([C[2]], mc)], [], False),
                    "a name imported by the named module, among its own": ([([B[0], C[2]], mb)], [([C[2]], mc)], [], False),
                    "a name imported and used, in the second clause": ([([C[0]], mc), ([C[2]], mb)], [([C[1], C[2]], mc)], [], False),
                    "a name imported twice removed": ([([own], mb)], [([B[1]], mc)], [([own], md)], False),
                    "a name the importer also imports rightly": ([([C[2]], mc), ([C[2]], mb)], [([C[2]], mc)], [], False),
                    "own names of an importing module": ([(B, mb)], [([C[2]], mc)], [], True),
                    "own names of each of a chain": ([([B[0]], mb), ([C[0]], mc)], [([C[2]], mc)], [([own], md)], True)}.items():
                ims = {"a": ia, "b": ib, "c": ic, "d": []}
                ds = {"a": [filler()], "b": [seq(x, [(low("b%d" % i), u(8))]) for i, x in enumerate(B)],
                      "c": [enum(C[0], [low("c0"), low("c1")]), simple(C[1], u(4)), seq(C[2], [(low("c2"), u(8))])],
                      "d": [seq(own, [(low("o"), u(8))])]}
                ms = [module(dict(a=ma, b=mb, c=mc, d=md)[o], ds[o], imports=[imp(x, y) for x, y in ims[o]]) for o in order]
                (ctx.accepts if ok else ctx.rejects)(ctx.scen(cmd, ms, **kw), "%s: %s (file order %s)" % (cmd, n, order))


# ------------------------------------------------------------------- C05
def places(t, n=3, fillt=None):
    """The ways a module can use type t: (label, definitions)."""
    fillt = fillt or boolean
    out = []
    for pos in range(n):
        ms = [(low("m%d" % i), t() if i == pos else fillt()) for i in range(n)]
        out.append(("sequence member %d of %d" % (pos + 1, n), seq(cap("S"), ms)))
    for pos in range(n):
        ms = [(low("m%d" % i), t() if i == pos else fillt()) for i in range(n)]
        out.append(("choice alternative %d of %d" % (pos + 1, n), choice(cap("S"), ms)))
    out.append(("only sequence member", seq(cap("S"), [(low("m0"), t())])))
    out.append(("only choice alternative", choice(cap("S"), [(low("m0"), t())])))
    for pos in (0, n - 1):
        ms = [(low("m%d" % i), array(K(4), t()) if i == pos else fillt()) for i in range(n)]
        out.append(("array member %d of %d" % (pos + 1, n), seq(cap("S"), ms)))
        out.append(("array alternative %d of %d" % (pos + 1, n), choice(cap("S"), ms)))
    ms = [(low("m%d" % i), array(K(2), array(K(3), t())) if i == 0 else fillt()) for i in range(n)]
    out.append(("array of arrays member", seq(cap("S"), ms)))
    out.append(("simple type definition", simple(cap("S"), t())))
    out.append(("simple type definition of an array", simple(cap("S"), array(K(4), t()))))
    return out


def surround(d, k):
    """The definition between others of the module."""
    fs = [filler(), definition("Enumerated", cap("Zen"), "ze"), definition("SimpleDefinition", cap("Zsi"), "zs")]
    return fs[:k] + [d] + fs[k:]


def c05(ctx):
    ma, mb = low("modA"), low("modB")
    T_ = cap("Undef")
    other = lambda: module(mb, [seq(T_, [(low("b"), u(8))]), seq(cap("Two"), [(low("b2"), u(8))])])
    for cmd in COMMANDS:
        for lab, d in places(lambda: typ(T_)):
            for k in ((0, 3) if ctx.thorough or cmd == COMMANDS[0] else (1,)):
                ctx.rejects(ctx.scen(cmd, [module(ma, surround(d, k))]), "%s: undefined type as %s (%d)" % (cmd, lab, k))
            ctx.rejects(ctx.scen(cmd, [module(ma, surround(d, 1)), other()]),
                        "%s: type of another module, not imported, as %s" % (cmd, lab))
            ctx.rejects(ctx.scen(cmd, [module(ma, surround(d, 1), imports=[imp([cap("Two")], mb)]), other()]),
                        "%s: type of an imported module, itself not imported, as %s" % (cmd, lab))
            m2 = module(mb, surround(d, 2))
            m2.attrs["definitions"] = [x for x in m2.attrs["definitions"]]
            ctx.rejects(ctx.scen(cmd, [module(ma, [filler("Mx", "x"), seq(T_, [(low("b"), u(8))])]), m2]),
                        "%s: type defined only in an earlier module, as %s of a later one" % (cmd, lab))
        for lab, d in places(lambda: typ(T_)):
            tgt = lambda: seq(T_, [(low("b"), u(8))])
            ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), tgt(), d])]), "%s: type defined before, as %s" % (cmd, lab))
            ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), d, tgt()])]), "%s: type defined after, as %s" % (cmd, lab))
            ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), d], imports=[imp([T_], mb)]), other()]),
                        "%s: imported type, as %s" % (cmd, lab))
            ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), d], imports=[imp([cap("Two"), T_], mb)]), other()]),
                        "%s: type imported as the second of a clause, as %s" % (cmd, lab))
        for lab, d in places(lambda: u(8), fillt=lambda: string(K(3))) + places(lambda: string(K(3), "NumericString")) \
                + places(lambda: real(-1.0, 2.5)):
            if "array" in lab:
                continue
            if lab.startswith("simple") and "Asn1String" in repr(d):
                continue
            ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), d])]), "%s: built in type, as %s" % (cmd, lab))


# ------------------------------------------------------------------- C06
def c06(ctx):
    ma, mb, mc = low("modA"), low("modB"), low("modC")
    ks = [[low("k%d%d" % (d, i)) for i in range(3)] for d in range(4)]
    wrong = low("wrong")

    def seqs(depth):
        """Sequences S0..S<depth>; member 1 of Si is of type S(i+1)."""
        out = []
        for d in range(depth):
            ms = [(ks[d][0], u(8)), (ks[d][1], typ(cap("S%d" % (d + 1))) if d < depth - 1 else u(16)),
                  (ks[d][2], u(8))]
            out.append(seq(cap("S%d" % d), ms))
        return out

    def comps(depth, badat=None, badpos=0, badkey=wrong):
        def lvl(d):
            items = []
            for i in range(3):
                k = ks[d][i]
                if badat == d and badpos == i:
                    k = badkey
                v = K(3)
                if i == 1 and d < depth - 1:
                    v = lvl(d + 1)
                items.append((k, v))
            return wcomp(items)
        return lvl(0)

    def user(wc, pos=1, name="Use"):
        ms = [dict(key=low("ua"), t=u(8)), dict(key=low("ub"), t=u(8))]
        ms.insert(pos, dict(key=low("uw"), t=typ(cap("S0")), wc=wc))
        return seq(cap(name), ms)
    for cmd in COMMANDS:
        for depth in (1, 2, 3):
            layouts = ["before", "after", "imported"]
            for lay in layouts:
                if lay == "imported" and cmd == "generate-binary":
                    accept = False
                else:
                    accept = True

                def mods(us):
                    if lay == "before":
                        return [module(ma, [filler()] + seqs(depth) + us)]
                    if lay == "after":
                        return [module(ma, us + [filler()] + seqs(depth)[::-1])]
                    return [module(ma, [filler()] + us, imports=[imp([cap("S0")], mb)]),
                            module(mb, seqs(depth))]
                for at in range(depth):
                    for pos in range(3):
                        keys = [("an unknown name", wrong)]
                        # a name of the enclosing or of the nested level
                        if depth > 1:
                            keys.append(("a member of another level", ks[at + 1][0] if at + 1 < depth else ks[at - 1][0]))
                        keys.append(("a member of the constraining sequence", low("ua")))
                        for kn, key in keys:
                            if not ctx.thorough and (lay == "after" or cmd in CLIKE[1:]) and kn != "an unknown name":
                                continue
                            ctx.rejects(ctx.scen(cmd, mods([user(comps(depth, at, pos, key))])),
                                        "%s: depth %d, component %d of level %d is %s (%s)" % (
                                            cmd, depth, pos + 1, at + 1, kn, lay))
                # only the second of two constrained members / sequences is wrong
                two = seq(cap("Use"), [dict(key=low("w1"), t=typ(cap("S0")), wc=comps(depth)),
                                       dict(key=low("w2"), t=typ(cap("S0")), wc=comps(depth, depth - 1, 2))])
                ctx.rejects(ctx.scen(cmd, mods([two])), "%s: depth %d, second constraint wrong (%s)" % (cmd, depth, lay))
                ctx.rejects(ctx.scen(cmd, mods([user(comps(depth)), user(comps(depth, 0, 0), 0, "Later")])),
                            "%s: depth %d, second sequence wrong (%s)" % (cmd, depth, lay))
                for pos in (0, 2):
                    ctx.rejects(ctx.scen(cmd, mods([user(comps(depth, 0, 1), pos)])),
                                "%s: depth %d, wrong constraint of member %d (%s)" % (cmd, depth, pos + 1, lay))
                if accept:
                    for pos in (0, 1, 2):
                        ctx.accepts(ctx.scen(cmd, mods([user(comps(depth), pos)])),
                                    "%s: depth %d, all components exist, member %d (%s)" % (cmd, depth, pos + 1, lay))
        # subset and reordering of the members are fine
        for perm in itertools.permutations(range(3), 2):
            wc = wcomp([(ks[0][i], K(1)) for i in perm])
            ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), user(wc)] + seqs(1))]),
                        "%s: components %s of the members" % (cmd, perm))
        # the constrained type is not a sequence
        other = {"a choice": choice(cap("S0"), [(ks[0][0], u(8)), (ks[0][1], u(8))]),
                 "an enumeration": enum(cap("S0"), [ks[0][0], ks[0][1]]), "a simple type": simple(cap("S0"), u(8))}
        one = wcomp([(ks[0][0], K(1))])
        for lab, d in other.items():
            for pos in (0, 1, 2):
                ctx.rejects(ctx.scen(cmd, [module(ma, [filler(), user(one, pos), d])]),
                            "%s: constraint of %s, member %d" % (cmd, lab, pos + 1))
            ctx.rejects(ctx.scen(cmd, [module(ma, [filler(), user(one)], imports=[imp([cap("S0")], mb)]), module(mb, [d])]),
                        "%s: constraint of %s (imported)" % (cmd, lab))
            nest = seq(cap("Ns"), [(low("n0"), u(8)), (low("n1"), typ(cap("S0")))])
            us = seq(cap("Use"), [dict(key=low("uw"), t=typ(cap("Ns")), wc=wcomp([(low("n0"), K(1)), (low("n1"), one)]))])
            ctx.rejects(ctx.scen(cmd, [module(ma, [us, nest, d])]), "%s: nested constraint of %s" % (cmd, lab))
        # a wrong constraint in a module that is not the first
        ctx.rejects(ctx.scen(cmd, [module(ma, [filler()]), module(mb, seqs(1)),
                                   module(mc, [user(comps(1, 0, 0))], imports=[imp([cap("S0")], mb)])]),
                    "%s: wrong constraint in the last module" % cmd)


# ------------------------------------------------------------------- C07
def c07(ctx):
    ma, mb = low("modA"), low("modB")
    null = lambda: typ(K("NULL"))
    for cmd in COMMANDS:
        for lab, d in places(null):
            for k in ((0, 1, 3) if ctx.thorough or cmd == COMMANDS[0] else (3,)):
                ctx.rejects(ctx.scen(cmd, [module(ma, surround(d, k))]), "%s: NULL as %s (%d)" % (cmd, lab, k))
            ctx.rejects(ctx.scen(cmd, [module(ma, [filler("Mx", "x")]), module(mb, surround(d, 1))]),
                        "%s: NULL as %s of a later module" % (cmd, lab))
        for lab, d in places(null, 1) + places(null, 5):
            if ctx.thorough or cmd == COMMANDS[0]:
                ctx.rejects(ctx.scen(cmd, [module(ma, surround(d, 2))]), "%s: NULL as %s" % (cmd, lab))
        for n in (1, 3):
            for nm in (K("Null"), cap("Any")):
                for lab, d in places(lambda: typ(nm), n):
                    ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), seq(nm, [(low("b"), u(8))]), d])], reserved=POSIX + CCSDS),
                                "%s: type %s as %s" % (cmd, show(nm), lab))
        for lab, d in places(lambda: u(8)) + places(boolean) + places(lambda: real(-1.0, 1.0)):
            if "array" not in lab and not (lab.startswith("simple") and cmd == "x"):
                ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), d])]), "%s: built in type as %s" % (cmd, lab))


# ------------------------------------------------------------------- C08
def range_places(t, n=3):
    out = places(t, n)
    return out


def c08(ctx):
    ma = low("modA")
    b, e = isym("begin"), isym("end")
    big = 2**40
    # (label, interval of begin, interval of end), all with end < begin
    regs = [("both positive", (1, big), (0, big)), ("end zero", (1, big), (0, 0)), ("begin zero", (0, 0), (-big, -1)),
            ("both negative", (-big, -1), (-big, -1)), ("begin positive, end negative", (1, big), (-big, -1)),
            ("any", (-big, big), (-big, big))]
    okregs = [("unsigned", (1, big), (1, big)), ("begin zero", (0, 0), (1, big)), ("negative", (-big, -1), (-big, -1)),
              ("mixed", (-big, -1), (1, big)), ("end zero", (-big, -1), (0, 0)), ("negative to zero or more", (-big, -1), (0, big))]

    def term(s, iv):
        return K(iv[0]) if iv[0] == iv[1] else s

    def facts(bi, ei, bt, et, bad):
        f = {"iv": {}}
        if bt.op == "sym":
            f["iv"][bt] = bi
        if et.op == "sym":
            f["iv"][et] = ei
        if bt.op == "sym" or et.op == "sym":
            if bad:
                f["lt"] = [(et, bt)]
            else:
                f["rel"] = [(bt, et)]
        return f
    for cmd in COMMANDS:
        for lab, bi, ei in regs:
            bt, et = term(b, bi), term(e, ei)
            f = facts(bi, ei, bt, et, True)
            for pl, d in places(lambda: typ(INT, bt, et)):
                if not ctx.thorough and cmd != COMMANDS[3] and lab not in ("any", "begin zero", "end zero"):
                    continue
                if not ctx.thorough and cmd in CLIKE[1:] and lab != "any":
                    continue
                ctx.rejects(ctx.scen(cmd, [module(ma, [filler(), d])], facts=f),
                            "%s: INTEGER range with end < begin, %s, as %s" % (cmd, lab, pl))
    for cb, ce in [(1, 0), (0, -1), (-1, -2), (256, 255), (5, -5), (2**63, 2**63 - 1), (2, 1), (-1, -128)]:
        for pl, d in places(lambda: typ(INT, K(cb), K(ce))):
            ctx.rejects(ctx.scen("generate-cosmos", [module(ma, [filler(), d])]),
                        "INTEGER (%d..%d) as %s" % (cb, ce, pl))
    for cb, ce in [(1.0, 0.0), (0.0, -1.0), (-1.0, -2.0), (1e300, 1e299), (0.5, 0.25), (3.4e38, -3.4e38), (-0.5, -0.75)]:
        for pl, d in places(lambda: typ(REAL, K(cb), K(ce))):
            ctx.rejects(ctx.scen("generate-cosmos", [module(ma, [filler(), d])]), "REAL (%r .. %r) as %s" % (cb, ce, pl))
    for cb, ce in [(-INF, 0.0), (0.0, INF), (-INF, INF), (INF, INF), (-INF, -INF), (-1.0, INF), (-INF, -1.0),
                   (-DMAX, INF), (-INF, DMAX), (-FMAX, INF), (-INF, FMAX)]:
        for pl, d in places(lambda: typ(REAL, K(cb), K(ce))):
            if not ctx.thorough and "array" in pl and (cb, ce) != (0.0, INF):
                continue
            ctx.rejects(ctx.scen("generate-cosmos", [module(ma, [filler(), d])]),
                        "REAL (%r .. %r), beyond the doubles, as %s" % (cb, ce, pl))
    fb, fe = fsym("begin"), fsym("end")
    for cmd in COMMANDS:
        for pl, d in places(lambda: typ(REAL, fb, fe)):
            ctx.rejects(ctx.scen(cmd, [module(ma, [filler(), d])],
                                 facts={"iv": {fb: (-DMAX, DMAX), fe: (-DMAX, DMAX)}, "lt": [(fe, fb)]}),
                        "%s: REAL range with end < begin as %s" % (cmd, pl))
    # accepted: the message that is generated is another one, so only the
    # parser and the validator judge the range
    for lab, bi, ei in okregs:
        bt, et = term(b, bi), term(e, ei)
        f = facts(bi, ei, bt, et, False)
        for pl, d in places(lambda: typ(INT, bt, et)):
            ctx.accepts(ctx.scen("generate-cosmos", [module(ma, [filler(), d])], facts=f),
                        "INTEGER range with begin <= end, %s, as %s" % (lab, pl))
    for x in (-5, -1, 0, 1, 7, 255, 2**64 - 1, -2**63):
        for pl, d in places(lambda: typ(INT, K(x), K(x)), 1):
            ctx.accepts(ctx.scen("generate-cosmos", [module(ma, [filler(), d])]), "INTEGER (%d..%d) as %s" % (x, x, pl))
    for cb, ce in [(0.0, 0.0), (-1.0, 1.0), (-DMAX, DMAX), (DMAX, DMAX), (-DMAX, -DMAX), (-FMAX, FMAX), (-1.0, -1.0),
                   (0.0, DMAX), (-DMAX, 0.0), (3.5e38, 3.6e38), (-2.5, -1.5), (-FMAX, DMAX)]:
        for pl, d in places(lambda: typ(REAL, K(cb), K(ce)), 1):
            ctx.accepts(ctx.scen("generate-cosmos", [module(ma, [filler(), d])]), "REAL (%r .. %r) as %s" % (cb, ce, pl))
    for pl, d in places(lambda: typ(REAL, fb, fe)):
        ctx.accepts(ctx.scen("generate-cosmos", [module(ma, [filler(), d])],
                             facts={"iv": {fb: (-DMAX, DMAX), fe: (-DMAX, DMAX)}, "rel": [(fb, fe)]}),
                    "REAL range of doubles with begin <= end as %s" % pl)


# ------------------------------------------------------------------- C09
def c09(ctx):
    ma = low("modA")
    b, e = isym("begin"), isym("end")
    fb, fe = fsym("begin"), fsym("end")
    for cmd in COMMANDS:
        for name, (lo, hi) in RANGES.items():
            fl = name in ("Float", "Double")
            ty = REAL if fl else INT
            nm = K(name)

            def mod(t, k=1):
                ds = [filler(), seq(cap("Use"), [(low("p"), typ(nm))])]
                ds.insert(k, simple(nm, t))
                return [module(ma, ds)]
            ctx.accepts(ctx.scen(cmd, mod(typ(ty, K(lo), K(hi)))), "%s: %s with its range" % (cmd, name))
            ctx.accepts(ctx.scen(cmd, mod(typ(ty, K(lo), K(hi)), 2)), "%s: %s with its range, defined last" % (cmd, name))
            if not fl:
                wide = 2**70
                for lab, bt, et, f in [
                        ("lower begin", b, K(hi), {"iv": {b: (-wide, lo - 1)}}),
                        ("higher begin", b, K(hi), {"iv": {b: (lo + 1, hi)}}),
                        ("lower end", K(lo), e, {"iv": {e: (lo, hi - 1)}}),
                        ("higher end", K(lo), e, {"iv": {e: (hi + 1, wide)}}),
                        ("both wider", b, e, {"iv": {b: (-wide, lo - 1), e: (hi + 1, wide)}}),
                        ("both narrower", b, e, {"iv": {b: (lo + 1, hi - 1), e: (lo + 1, hi - 1)}, "rel": [(b, e)]}),
                        ("shifted up", b, e, {"iv": {b: (lo + 1, hi), e: (hi + 1, wide)}}),
                        ("shifted down", b, e, {"iv": {b: (-wide, lo - 1), e: (lo, hi - 1)}})]:
                    ctx.rejects(ctx.scen(cmd, mod(typ(INT, bt, et)), facts=f), "%s: %s, %s" % (cmd, name, lab))
                for cb, ce in {(lo - 1, hi), (lo + 1, hi), (lo, hi - 1), (lo, hi + 1), (lo + 1, hi - 1), (lo - 1, hi + 1),
                               (0, 0), (0, 1), (-hi if lo < 0 else 1, hi), (lo - 1, hi - 1), (lo + 1, hi + 1)}:
                    ctx.rejects(ctx.scen(cmd, mod(typ(INT, K(cb), K(ce)))), "%s: %s (%d..%d)" % (cmd, name, cb, ce))
                # the range of another POSIX type
                for other, (l2, h2) in RANGES.items():
                    if other != name and other not in ("Float", "Double"):
                        ctx.rejects(ctx.scen(cmd, mod(typ(INT, K(l2), K(h2)), 2)),
                                    "%s: %s with the range of %s" % (cmd, name, other))
            else:
                for cb, ce in [(lo, 0.0), (0.0, hi), (-1.0, 1.0), (lo / 2, hi), (lo, hi / 2), (0.0, 0.0),
                               RANGES["Double" if name == "Float" else "Float"]]:
                    ctx.rejects(ctx.scen(cmd, mod(typ(REAL, K(cb), K(ce)))), "%s: %s (%r .. %r)" % (cmd, name, cb, ce))
                import math
                ctx.rejects(ctx.scen(cmd, mod(typ(REAL, fb, K(hi))), facts={"iv": {fb: (math.nextafter(lo, 0), hi)}}),
                            "%s: %s, higher begin" % (cmd, name))
                ctx.rejects(ctx.scen(cmd, mod(typ(REAL, K(lo), fe)), facts={"iv": {fe: (lo, math.nextafter(hi, 0))}}),
                            "%s: %s, lower end" % (cmd, name))
            for lab, t in [("no range", typ(ty)), ("BOOLEAN", boolean()), ("string", string(K(8)))]:
                ctx.rejects(ctx.scen(cmd, mod(t)), "%s: %s, %s" % (cmd, name, lab))
        # other names are free
        other = cap("Other")
        for lab, t, f in [("unsigned", typ(INT, b, e), {"iv": {b: (0, 10), e: (10, 1000)}, "rel": [(b, e)]}),
                          ("signed", typ(INT, b, e), {"iv": {b: (-1000, -1), e: (10, 1000)}}),
                          ("real", typ(REAL, K(-2.5), K(7.5)), None)]:
            ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), simple(other, t)])], facts=f),
                        "%s: a definition of another name, %s" % (cmd, lab))
        for near in ("Int-t", "Uint24-t", "Int8", "Uint8", "Int128-t", "Float32", "Double-t", "Uint-t", "Real"):
            ctx.accepts(ctx.scen(cmd, [module(ma, [filler(), simple(K(near), integer(1, 6))])]),
                        "%s: a definition called %s" % (cmd, near))


# ------------------------------------------------------------------- C10
def c10(ctx):
    ma = low("modA")

    def mods(ps, cmd):
        items = [(low("e%d" % i), K(p) if p is not None else None) for i, p in enumerate(ps)]
        items = [(k, p) if p is not None else k for k, p in items]
        E = cap("En")
        return [module(ma, [seq(cap("Msg"), [(low("m"), typ(E))]), enum(E, items)])]

    def one(ps, cmds_):
        n = len(ps)
        written = [p for p in ps if p is not None]
        for cmd in cmds_:
            sc = ctx.scen(cmd, mods(ps, cmd))
            if not any(written):
                order = list(range(n))
                good = True
            else:
                good = sorted(written) == list(range(n)) and len(written) == n
                order = [ps.index(v) for v in range(n)] if good else None
            nm = "%s: positions %s" % (cmd, ps)
            if not good:
                ctx.rejects(sc, nm)
            else:
                want = [(low("e%d" % i), v) for v, i in enumerate(order)]
                ctx.output(sc, nm, lambda fs, tx: spec.enum_values(fs, tx, cmd, sc, want))
    full = 4 if not ctx.thorough else 5
    for n in range(1, 8):
        one([None] * n, COMMANDS)
        one([0] * n, COMMANDS[:2])
        one(list(range(n)), COMMANDS)
        one(list(range(n))[::-1], COMMANDS)
    for n in range(2, full):
        for ps in itertools.product(range(-1, n + 1), repeat=n):
            one(list(ps), ["generate-c"] if n > 2 else COMMANDS)
    for ps in itertools.permutations(range(4)):
        one(list(ps), ["generate-c", "generate-cosmos"])
    # sums that agree although the positions do not
    extra = [[0, 2, 2, 2], [0, 0, 3, 3], [1, 1, 1, 3], [3, 3, 0, 0], [2, 2, 1, 1], [0, 1, 1, 4], [-1, 1, 2, 4],
             [0, 0, 2, 4], [1, 1, 2, 2], [0, 2, 2, 2, 4], [4, 3, 3, 0, 0], [0, 1, 1, 3, 5], [-1, 0, 1, 2, 3],
             [-1, 2, 3, 2], [-2, 3, 2, 3], [0, 5, 0, 0, 5], [1, 2, 3, 4], [1, 2, 3, 4, 5], [4, 0, 2, 3],
             [-1, -1, 4, 4], [0, -1, 4, 3], [-3, 3], [-1, 1], [2, -1], [-1, 2, 2], [-1, 3, 1], [-2, -1, 3, 6]]
    for ps in extra:
        one(ps, COMMANDS)
    for ps in itertools.permutations(range(5)):
        if ctx.thorough or ps[0] > ps[4]:
            one(list(ps), ["generate-c"])


# ------------------------------------------------------------------- C28
def comment_places(c):
    """Modules with the comment at each place the grammar allows."""
    ma, mb = low("modA"), low("modB")
    S, I_ = cap("S"), cap("I")

    def base(**kw):
        g = lambda n: kw.get(n)
        wc = wcomp([(low("ca"), K(1), *([g("component")] if g("component") else [])),
                    (low("cb"), wcomp([(low("na"), K(2), *([g("inner component, last")] if g("inner component, last") else []))],
                                      g("inner WITH COMPONENTS"))),
                    (low("cc"), K(3), *([g("component, last")] if g("component, last") else []))], g("WITH COMPONENTS"))

        def d(k, t, c_=None, w=None):
            r = dict(key=low(k), t=t)
            if c_ is not None:
                r["comment"] = c_
            if w is not None:
                r["wc"] = w
            return r
        defs = [
            seq(cap("Nst"), [(low("na"), u(8))]),
            seq(S, [(low("ca"), u(8)), (low("cb"), typ(cap("Nst"))), (low("cc"), u(8))], g("sequence")),
            seq(cap("Use"), [d("ma", u(8), g("member")), d("mw", typ(S), g("constrained member"), wc),
                             d("mz", u(8), g("last member"))]),
            seq(cap("Usel"), [d("la", u(8)), d("lw", typ(S), g("last constrained member"), wcomp([(low("ca"), K(1))]))]),
            choice(cap("Ch"), [d("xa", u(8), g("alternative")), d("xz", boolean(), g("last alternative"))], g("choice")),
            enum(cap("En"), [dict(key=low("ea"), comment=g("item")), dict(key=low("ez"), comment=g("last item"))],
                 g("enumeration")),
            simple(cap("Si"), u(4), g("simple type")),
        ]
        return [module(ma, [filler()] + defs, imports=[imp([I_], mb, g("import clause"))], comment=g("module"),
                       comment_import=g("imports")),
                module(mb, [seq(I_, [(low("ia"), u(8))])])]
    names = ["module", "imports", "import clause", "sequence", "member", "constrained member", "last member",
             "last constrained member", "choice", "alternative", "last alternative", "enumeration", "item", "last item",
             "simple type", "WITH COMPONENTS", "component", "component, last", "inner WITH COMPONENTS",
             "inner component, last"]
    return [(n, base(**{n: c()})) for n in names], base()


def c28(ctx):
    p, q = txt("p"), txt("q")
    from .terms import Cat
    pats = {}
    for sign in ("[", "]", "--"):
        pats[sign + " in the middle"] = Cat(p, K(sign), q)
        pats[sign + " at the start"] = Cat(K(sign), q)
        pats[sign + " at the end"] = Cat(p, K(sign))
        pats["only " + sign] = K(sign)
    for t in ("a [b", "a]", "x -- y.", "[.", ".--", "a.]b.", "- --", "---", "a ]. ", "%]", "(--)", "1--2", "A[B]", "see [1]"):
        pats["the text '%s'" % t] = K(t)
    pats["two signs"] = Cat(p, K("]"), q, K("["))
    for cmd in COMMANDS:
        for lab, c in pats.items():
            pl, _ = comment_places(lambda: comment(c))
            for n, mods in pl:
                if not ctx.thorough and cmd in ("generate-c", "generate-binary") and "middle" not in lab:
                    continue
                ctx.rejects(ctx.scen(cmd, mods), "%s: comment with %s at the %s" % (cmd, lab, n))
            if lab.endswith("middle"):
                pl, _ = comment_places(lambda: comment(c, txt("un"), K(True)))
                for n, mods in pl:
                    ctx.rejects(ctx.scen(cmd, mods), "%s: comment with unit and %s at the %s" % (cmd, lab, n))
    for cmd in COMMANDS:
        for lab, mk_ in [("text", lambda: comment(p)), ("text and unit", lambda: comment(p, txt("un"))),
                         ("text, unit and mark", lambda: comment(p, txt("un"), K(True))), ("unit", lambda: comment(None, txt("un"))),
                         ("nothing", lambda: comment())]:
            pl, _ = comment_places(mk_)
            for n, mods in pl:
                ctx.accepts(ctx.scen(cmd, mods), "%s: comment of %s at the %s" % (cmd, lab, n))
        for t in ("a - b", "(x) a.b/c %: 3, d-e_f", "-", "- -", "a-", "a.", "...", "3", "TRUE", "A B  c", "_", "ENDIANNESS", "-a-"):
            pl, _ = comment_places(lambda: comment(K(t)))
            for n, mods in pl:
                if n in ("member", "last member", "item", "sequence") or ctx.thorough:
                    ctx.accepts(ctx.scen(cmd, mods), "%s: comment '%s' at the %s" % (cmd, t, n))
    for t in ("a - b", "a.", "...", "- a", "Mixed Case text", "ENDIANNESS", "x, y; z", "100%", "'q'", "(a)", "a-"):
        mods = [module(low("modA"), [seq(cap("Msg"), [dict(key=low("m%d" % i), t=u(8), comment=comment(K(t), K("m/s^2") if i else None))
                                                      for i in range(3)])])]
        sct = ctx.scen("generate-cosmos", mods)
        ctx.output(sct, "comment '%s' kept" % t, lambda fs, tx: spec.cosmos(fs, tx, sct, ("attrs",)))
        for cmd in CLIKE:
            sc2 = ctx.scen(cmd, mods)
            ctx.output(sc2, "%s: comment '%s' kept" % (cmd, t), lambda fs, tx: spec.fields(fs, tx, cmd, sc2, ("comments",)))
    # kept unchanged: unit, mark and text reach the COSMOS output
    sc = None
    for unit, little, text in itertools.product((0, 1), (0, 1), (0, 1)):
        for pos in range(3):
            ms = []
            for i in range(3):
                r = dict(key=low("m%d" % i), t=u(8))
                if i == pos:
                    r["comment"] = comment(p if text else None, txt("un") if unit else None, K(True) if little else None)
                ms.append(r)
            mods = [module(low("modA"), [seq(cap("Msg"), ms)])]
            sc = ctx.scen("generate-cosmos", mods)
            ctx.output(sc, "comment of member %d kept (unit %d, mark %d, text %d)" % (pos + 1, unit, little, text),
                       lambda fs, tx: spec.cosmos(fs, tx, sc, ("attrs",)))
            for cmd in CLIKE:
                sc2 = ctx.scen(cmd, mods)
                ctx.output(sc2, "%s: comment of member %d kept (unit %d, text %d)" % (cmd, pos + 1, unit, text),
                           lambda fs, tx: spec.fields(fs, tx, cmd, sc2, ("comments",)))


RULES = {"C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
         "C28": c28}
