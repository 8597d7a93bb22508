"""Rules about the C, cFS and binary outputs."""
import itertools

from .terms import mk, K, NONE, isK, kv, Cat, show
from . import ops
from .build import *
from .core import COMMANDS, CLIKE, POSIX, CCSDS, Bad, Undecided, need, same, OUT, OFN
from . import spec
from .spec import cn, header_name, Model, headers
from .ground import ev, syms, NoGround

MA, MB, MC, MD = (low("mod" + c) for c in "ABCD")


def ref(name):
    return typ(name)


def out(ctx, cmd, mods, name, fn, may_fail=False, **kw):
    sc = ctx.scen(cmd, mods, **kw)
    return ctx.output(sc, "%s: %s" % (cmd, name), lambda fs, tx: fn(fs, tx, cmd, sc), may_fail)


# ------------------------------------------------------------------- C12
def c12(ctx):
    P, Q, R, S, E, F, G = (cap(x) for x in "PQRSEFG")

    def k(i, n):
        return low("%s%d" % (n, i))

    def body(name, deps, how):
        ts = [u(8)]
        for i, d in enumerate(deps):
            ts.append(array(K(3), ref(d)) if how == "array" and i == 0 else ref(d))
        if how == "first":
            ts = ts[1:] + ts[:1]
        ms = [(k(i, "m"), t) for i, t in enumerate(ts)]
        return (choice if how == "choice" else seq)(name, ms)

    graphs = {
        "chain": {P: [Q], Q: [R], R: []},
        "fan": {P: [Q, R], Q: [], R: []},
        "enum below": {P: [Q, E], Q: [E], E: None},
        "alias below": {P: [Q, F], Q: [F], F: "alias"},
        "diamond": {P: [Q, R], Q: [S], R: [S], S: []},
        "independent": {P: [], Q: [], E: None, F: "alias"},
    }

    def make(name, deps, how):
        if deps is None:
            return enum(name, [low("ea"), low("eb"), low("ec")])
        if deps == "alias":
            return simple(name, u(5))
        return body(name, deps, how)
    for cmd in CLIKE:
        for gn, g in graphs.items():
            names = list(g)
            perms = list(itertools.permutations(names))
            if len(names) > 3 and not ctx.thorough:
                perms = [names, names[::-1], names[2:] + names[:2], [names[2], names[0], names[3], names[1]]] + (
                    perms if cmd == "generate-c" else [])
            hows = ["plain", "first", "array", "choice"] if ctx.thorough or gn == "chain" else ["plain"]
            for how in hows:
                for p in perms:
                    ds = [make(n, g[n], how) for n in p]
                    out(ctx, cmd, [module(MA, ds)], "%s (%s), order %s" % (gn, how, [show(x) for x in p]), spec.definitions)
        # choice among sequences: uses and is used
        for p in itertools.permutations([P, Q, R]):
            ds = {P: seq(P, [(k(0, "m"), ref(Q)), (k(1, "m"), u(8))]),
                  Q: choice(Q, [(k(0, "c"), u(8)), (k(1, "c"), ref(R))]),
                  R: seq(R, [(k(0, "n"), u(8))])}
            out(ctx, cmd, [module(MA, [ds[x] for x in p])], "sequence uses choice uses sequence, order %s" % [
                show(x) for x in p], spec.definitions)
        # members of every scalar kind before the reference
        for i, t in enumerate((boolean(), real(-1.0, 1.0), string(K(4)), integer(-5, 5), array(K(2), boolean()))):
            out(ctx, cmd, [module(MA, [seq(P, [(k(0, "m"), t), (k(1, "m"), ref(Q))]), seq(Q, [(k(0, "n"), u(8))])])],
                "member kind %d before a forward reference" % i, spec.definitions)
        # single definition of each kind, and all
        for kd in KINDS:
            out(ctx, cmd, [module(MA, [definition(kd, P, "x")])], "only a %s" % kd, spec.definitions)
        for perm in itertools.permutations(KINDS):
            out(ctx, cmd, [module(MA, [definition(kd, cap(kd[:2]), kd[:2].lower()) for kd in perm])],
                "kinds %s" % (perm,), spec.definitions)
        # several modules: every definition in its own header
        def three(order, imports):
            ms = {
                MA: module(MA, [seq(P, [(k(0, "m"), ref(Q) if MB in imports[MA] else u(8)),
                                        (k(1, "m"), ref(R) if MC in imports[MA] else u(8))]), enum(E, [low("ea"), low("eb")])],
                           imports=[imp([{MB: Q, MC: R}[x]], x) for x in imports[MA]]),
                MB: module(MB, [seq(Q, [(k(0, "n"), ref(R) if MC in imports[MB] else u(8))]), choice(G, [(k(0, "g"), u(8))])],
                           imports=[imp([{MA: P, MC: R}[x]], x) for x in imports[MB]]),
                MC: module(MC, [seq(R, [(k(0, "o"), u(8))]), simple(F, u(3)), seq(S, [(k(0, "p"), ref(F))])],
                           imports=[imp([{MA: P, MB: Q}[x]], x) for x in imports[MC]]),
            }
            return [ms[x] for x in order]
        imps = {"no imports": {MA: [], MB: [], MC: []}, "chain": {MA: [MB], MB: [MC], MC: []},
                "both": {MA: [MB, MC], MB: [], MC: []}, "triangle": {MA: [MC, MB], MB: [MC], MC: []},
                "shared": {MA: [MC], MB: [MC], MC: []}}
        for n, i in imps.items():
            for order in itertools.permutations([MA, MB, MC]):
                out(ctx, cmd, three(order, i), "three modules, %s, files %s" % (n, [show(x) for x in order]), spec.definitions)
                if ctx.thorough:
                    out(ctx, cmd, three(order, i), "three modules, %s, files %s, requested reversed" % (
                        n, [show(x) for x in order]), spec.definitions, requested=list(order)[::-1])
        # four modules in a chain
        for order in ([0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]):
            M4 = [MA, MB, MC, MD]
            T4 = [cap("T%d" % i) for i in range(4)]
            ms = [module(M4[i], [seq(T4[i], [(k(i, "m"), ref(T4[i + 1]) if i < 3 else u(8))])],
                         imports=[imp([T4[i + 1]], M4[i + 1])] if i < 3 else None) for i in range(4)]
            out(ctx, cmd, [ms[i] for i in order], "four modules in a chain, files %s" % order, spec.definitions)
        # circles
        for n, ds in {
            "self": [seq(P, [(k(0, "m"), ref(P))])],
            "self, second member": [seq(P, [(k(0, "m"), u(8)), (k(1, "m"), ref(P)), (k(2, "m"), u(8))])],
            "two": [seq(P, [(k(0, "m"), ref(Q))]), seq(Q, [(k(0, "n"), ref(P))])],
            "two, arrays": [seq(P, [(k(0, "m"), array(K(2), ref(Q)))]), seq(Q, [(k(0, "n"), ref(P))])],
            "three": [seq(P, [(k(0, "m"), ref(Q))]), seq(Q, [(k(0, "n"), ref(R))]), seq(R, [(k(0, "o"), ref(P))])],
            "through a choice": [choice(P, [(k(0, "m"), ref(Q))]), seq(Q, [(k(0, "n"), u(8)), (k(1, "n"), ref(P))])],
            "choice of itself": [choice(P, [(k(0, "m"), ref(P))])],
            "three, with others": [seq(S, [(k(0, "q"), u(8))]), seq(P, [(k(0, "m"), ref(Q))]), enum(E, [low("ea"), low("eb")]),
                                   seq(Q, [(k(0, "n"), ref(R))]), seq(R, [(k(0, "o"), ref(P))])],
        }.items():
            ctx.rejects(ctx.scen(cmd, [module(MA, ds)]), "%s: circular types, %s" % (cmd, n), writes_ok=True)
        for n, i in {"two": {MA: [MB], MB: [MA], MC: []}, "three": {MA: [MB], MB: [MC], MC: [MA]},
                     "two and one": {MA: [MB], MB: [MA], MC: [MA]}, "entered": {MA: [MB], MB: [MC], MC: [MB]}}.items():
            for order in itertools.permutations([MA, MB, MC]):
                ctx.rejects(ctx.scen(cmd, three(order, i)), "%s: circular imports, %s, files %s" % (
                    cmd, n, [show(x) for x in order]), writes_ok=True)


# ----------------------------------------------------------- C13, C14
def scalar_kinds():
    return {
        "u8": lambda: u(8), "u3": lambda: u(3), "bool": boolean, "int": lambda: integer(-100, 100),
        "float": lambda: real(-1.5, 2.5), "double": lambda: real(-1e300, 1e300),
        "string": lambda: string(isym("len")), "numstring": lambda: string(isym("len"), "NumericString"),
        "array of bool": lambda: array(isym("len"), boolean()),
        "array of alias": lambda: array(isym("len"), ref(cap("Al"))),
        "array of posix": lambda: array(isym("len"), ref(K("Int16-t"))),
        "array of enum": lambda: array(isym("len"), ref(cap("En"))),
        "array of sequence": lambda: array(isym("len"), ref(cap("In"))),
        "alias": lambda: ref(cap("Al")), "alias8": lambda: ref(cap("Al8")), "posix": lambda: ref(K("Int16-t")),
        "float alias": lambda: ref(K("Float")), "enum": lambda: ref(cap("En")), "sequence": lambda: ref(cap("In")),
    }


def support():
    return [simple(cap("Al"), u(5)), simple(cap("Al8"), u(16)), posix("Int16-t"), posix("Float"),
            enum(cap("En"), [low("ea"), low("eb"), low("ec")]), seq(cap("In"), [(low("ia"), u(8)), (low("ib"), boolean())])]


LEN = {"iv": {isym("len"): (1, 10**6)}}


def members_of(names, comments=()):
    kk = scalar_kinds()
    ms = []
    for i, n in enumerate(names):
        d = dict(key=low("m%d" % i), t=kk[n]())
        if i in comments:
            d["comment"] = comments[i]
        ms.append(d)
    return ms


def c13(ctx, what=("fields", "comments")):
    kinds = list(scalar_kinds())
    P = cap("P")

    def go(cmd, ms, name, com_=None, sup=None, more=()):
        sc = ctx.scen(cmd, [module(MA, (support() if sup is None else sup) + [seq(P, ms, comment=com_)] + list(more))], facts=LEN)
        ctx.output(sc, "%s: %s" % (cmd, name), lambda fs, tx: spec.fields(fs, tx, cmd, sc, what))
    for cmd in CLIKE:
        for a in kinds:
            go(cmd, members_of([a]), "one member: %s" % a)
            go(cmd, members_of([a], {0: com("c0")}), "one member with comment: %s" % a, com("def"))
            go(cmd, members_of([a], {0: com("c0", unit=True)}), "one member with unit and comment: %s" % a)
            go(cmd, members_of([a], {0: com("c0", text=False, unit=True)}), "one member with unit only: %s" % a)
        pairs = itertools.product(kinds, kinds) if ctx.thorough else [
            (a, kinds[(i + s) % len(kinds)]) for i, a in enumerate(kinds) for s in (1, 5, 11)]
        for a, b in pairs:
            go(cmd, members_of([a, b], {1: com("c1", unit=True)}), "%s, %s (second commented)" % (a, b))
            go(cmd, members_of([a, b], {0: com("c0", little=True)}), "%s, %s (first commented)" % (a, b))
        n = len(kinds)
        for s in range(0, n if ctx.thorough else 4):
            o = kinds[s:] + kinds[:s]
            go(cmd, members_of(o, {i: com("c%d" % i, unit=i % 2 == 0, text=i % 3 != 2) for i in range(0, n)}),
               "all kinds, rotated by %d, all commented" % s, com("def"))
            go(cmd, members_of(o), "all kinds, rotated by %d" % s)
        # equal member names in two sequences, equal types
        for i in range(3):
            c1, c2 = com("x1"), com("x2")
            go(cmd, [dict(key=low("m0"), t=u(8), comment=c1), dict(key=low("m1"), t=u(8))], "two sequences, %d" % i, com("d1"),
               sup=[seq(cap("Q"), [dict(key=low("m1"), t=u(8), comment=c2), dict(key=low("m0"), t=u(8))], comment=com("d2")
                        if i else None)][:1 if i != 2 else 0],
               more=[seq(cap("R"), [dict(key=low("m0"), t=boolean())])])
        # comments with particular texts
        for n_, t in {"word": "text", "a number": "1", "a field": "uint8_t x;", "slashes": "// not code",
                      "a directive": "#endif", "opening comment": "a /* b", "empty": ""}.items():
            c = comment(K(t), None, None)
            go(cmd, [dict(key=low("m0"), t=u(8), comment=c), dict(key=low("m1"), t=u(8))], "comment that is %s" % n_, None)
            if n_ != "slashes":
                go(cmd, [dict(key=low("m0"), t=u(8)), dict(key=low("m1"), t=u(8))], "definition comment that is %s" % n_, c)


def c13_findings(ctx):
    for cmd in CLIKE:
        c = comment(K("text\\"), None, None)
        sc = ctx.scen(cmd, [module(MA, [seq(cap("P"), [dict(key=low("m0"), t=u(8), comment=c), dict(key=low("m1"), t=u(8))])])])
        ctx.output(sc, "%s: member comment that ends in a backslash" % cmd, lambda fs, tx: spec.fields(
            fs, tx, cmd, sc, ("fields",)))
        c = comment(K("a */ b"), None, None)
        sc2 = ctx.scen(cmd, [module(MA, [seq(cap("P"), [dict(key=low("m0"), t=u(8))], comment=c)])])
        ctx.output(sc2, "%s: definition comment that contains */" % cmd, lambda fs, tx: spec.fields(
            fs, tx, cmd, sc2, ("fields",)))


def c13_all(ctx):
    c13(ctx)
    c13_findings(ctx)


def ranges(ctx):
    """(label, begin, end, facts) of unsigned types of each width."""
    out_ = []
    for b in range(1, 65):
        e, g = isym("e%d" % b), isym("b%d" % b)
        out_.append(("any range of %d bits" % b, g, e, {g: (0, 2**(b - 1) - 1 if b > 1 else 1), e: (2**(b - 1), 2**b - 1)}))
    return out_


def c14(ctx):
    P = cap("P")
    rs = ranges(ctx)

    def go(cmd, mods, name, iv=None, **kw):
        sc = ctx.scen(cmd, mods, facts={"iv": dict(iv or {}), "rel": []}, **kw)
        ctx.output(sc, "%s: %s" % (cmd, name), lambda fs, tx: spec.fields(fs, tx, cmd, sc, ("types",)))
    for cmd in CLIKE:
        for lab, g, e, iv in rs:
            go(cmd, [module(MA, [seq(P, [(low("m0"), integer(g, e)), (low("m1"), integer(0, e))])])], "member, " + lab, iv)
            A = cap("Al")
            go(cmd, [module(MA, [seq(P, [(low("m0"), ref(A))]), simple(A, integer(g, e))])], "alias, " + lab, iv)
            if ctx.thorough or lab.split()[-2] in ("1", "7", "8", "9", "16", "17", "32", "33", "64"):
                go(cmd, [module(MA, [seq(P, [(low("m0"), ref(A)), (low("m1"), u(8))])], imports=[imp([A], MB)]),
                         module(MB, [simple(A, integer(g, e)), filler("Z", "z")])], "imported alias, " + lab, iv)
        # extreme bounds
        for b in (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64):
            for e in sorted({2**b - 1, 2**(b - 1), max(1, 2**b - 2)}):
                go(cmd, [module(MA, [seq(P, [(low("m0"), integer(0, e)), (low("m1"), integer(e, e)), (low("m2"), ref(cap("Al")))]),
                                     simple(cap("Al"), integer(0, e))])], "0..%d" % e)
        # reals
        x, y = fsym("x"), fsym("y")
        for lab, iv in {"within float": {x: (-3.4e38, 3.4e38), y: (-3.4e38, 3.4e38)},
                        "lower beyond float": {x: (-DMAX, -3.5e38), y: (-3.4e38, 3.4e38)},
                        "upper beyond float": {x: (-3.4e38, 3.4e38), y: (3.5e38, DMAX)},
                        "both beyond float": {x: (-DMAX, -3.5e38), y: (3.5e38, DMAX)},
                        "lower beyond float, both negative": {x: (-DMAX, -3.5e38), y: (-3.4e38, -3.4e38)}}.items():
            sc_rel = {"iv": iv, "rel": [(x, y)]}
            sc = ctx.scen(cmd, [module(MA, [seq(P, [(low("m0"), real(x, y)), (low("m1"), ref(cap("Al")))]),
                                            simple(cap("Al"), real(x, y))])], facts=sc_rel)
            ctx.output(sc, "%s: REAL %s" % (cmd, lab), lambda fs, tx, sc=sc: spec.fields(fs, tx, cmd, sc, ("types",)))
        for b, e in ((-3.4e38, 3.4e38), (0.0, 3.4e38), (-3.4e38, 0.0), (-3.4000001e38, 0.0), (0.0, 3.4000001e38), (-DMAX, DMAX),
                     (0.0, 1.0)):
            go(cmd, [module(MA, [seq(P, [(low("m0"), real(b, e)), (low("m1"), ref(cap("Al")))]), simple(cap("Al"), real(b, e))])],
               "REAL %r..%r" % (b, e))
        # POSIX names
        for n in POSIX:
            go(cmd, [module(MA, [seq(P, [(low("m0"), ref(K(n)))]), posix(n)])], n)
            go(cmd, [module(MA, [posix(n), seq(P, [(low("m0"), boolean()), (low("m1"), array(K(4), ref(K(n))))])])], n + " array")
            go(cmd, [module(MA, [seq(P, [(low("m0"), ref(K(n)))])], imports=[imp([K(n)], MB)]),
                     module(MB, [posix(n), filler("Z", "z")])], n + " imported")
        # aliases from several modules, in several clauses, together with own ones
        A, B, C, D = (cap("Al%d" % i) for i in range(4))
        for order in itertools.permutations([MB, MC, MD]) if ctx.thorough else [(MB, MC, MD), (MD, MC, MB), (MC, MB, MD)]:
            for nc in (2, 3):
                defs = {MB: [simple(A, u(5))], MC: [simple(B, u(11))], MD: [simple(C, real(-1.0, 2.0)), posix("Uint16-t"), simple(D, u(20))]}
                imps = {MB: [A], MC: [B], MD: [C, K("Uint16-t"), D]}
                use = [x for m in order[:nc] for x in imps[m]]
                go(cmd, [module(MA, [seq(P, [(low("m%d" % i), ref(x)) for i, x in enumerate(use)] + [(low("own"), ref(cap("Own")))]),
                                     simple(cap("Own"), u(9))], imports=[imp(imps[m], m) for m in order[:nc]])] +
                   [module(m, defs[m] + [filler("Z%d" % i, "z%d" % i)]) for i, m in enumerate(order[:nc])],
                   "aliases imported from %s" % [show(x) for x in order[:nc]])
        go(cmd, [module(MA, [seq(P, [(low("m0"), ref(A)), (low("m1"), ref(B))])], imports=[imp([A], MB), imp([B], MB)]),
                 module(MB, [filler("Z", "z"), simple(A, u(5)), simple(B, u(11))])], "aliases imported from one module in two clauses")
        # strings, booleans, enumerations, other names
        for n in (1, 2, 3, 4, 5, 8, 9, 16, 17):
            items = [low("e%d" % i) for i in range(n)]
            if n == 1:
                continue
            go(cmd, [module(MA, [seq(P, [(low("m0"), ref(cap("En"))), (low("m1"), u(3))]), enum(cap("En"), items)])],
               "enumeration of %d" % n)
            go(cmd, [module(MA, [seq(P, [(low("m0"), ref(cap("En")))])], imports=[imp([cap("En")], MB)]),
                     module(MB, [enum(cap("En"), items)])], "imported enumeration of %d" % n)
        for a in scalar_kinds():
            sc = ctx.scen(cmd, [module(MA, support() + [seq(P, members_of([a]))])], facts=LEN)
            ctx.output(sc, "%s: kind %s" % (cmd, a), lambda fs, tx, sc=sc: spec.fields(fs, tx, cmd, sc, ("types",)))
            sc = ctx.scen(cmd, [module(MA, support() + [seq(P, members_of(["u3", a, "u3"]))])], facts=LEN)
            ctx.output(sc, "%s: kind %s in the middle" % (cmd, a), lambda fs, tx, sc=sc: spec.fields(fs, tx, cmd, sc, ("types",)))
        # stdint.h: needed by one definition only, first, middle or last
        for n, need_ in {"bool": boolean(), "u8": u(8), "posix": ref(K("Uint8-t")), "alias": ref(cap("Al"))}.items():
            other = [seq(cap("O%d" % i), [(low("o%d" % i), real(-1.0, 1.0))]) for i in range(2)]
            for pos in range(3):
                ds = list(other)
                ds.insert(pos, seq(P, [(low("m0"), need_)]))
                sup = {"posix": [posix("Uint8-t")], "alias": [simple(cap("Al"), u(5))]}.get(n, [])
                go(cmd, [module(MA, sup + ds)], "stdint.h needed by definition %d (%s)" % (pos + 1, n))
        # a module without need beside one with need
        go(cmd, [module(MA, [seq(P, [(low("m0"), u(8))])]), module(MB, [seq(cap("Q"), [(low("q"), real(-1.0, 1.0))])])],
           "two modules, one needs stdint.h")


# ------------------------------------------------------------------- C15
def c15(ctx):
    E = cap("En")
    for cmd in CLIKE:
        for n in range(1, 6 if ctx.thorough else 5):
            ks = [low("e%d" % i) for i in range(n)]
            perms = list(itertools.permutations(range(n)))
            for p in perms:
                if p == tuple(range(n)):
                    continue
                items = [dict(key=k, pos=K(v)) for k, v in zip(ks, p)]
                out(ctx, cmd, [module(MA, [filler(), enum(E, items)])], "positions %s" % (p,), spec.enums)
            for cs in itertools.product((0, 1, 2), repeat=n) if n < 4 else [(1,) * n, (2, 1) * 2 + (1,) * (n - 4)]:
                items = [dict(key=k, comment=None if c == 0 else com("c%d" % i, unit=c == 2, text=c != 2 or i % 2 == 0))
                         for i, (k, c) in enumerate(zip(ks, cs[:n]))]
                out(ctx, cmd, [module(MA, [filler(), enum(E, items, comment=com("d") if sum(cs) % 2 else None)])],
                    "%d items, comments %s" % (n, cs[:n]), spec.enums)
            items = [dict(key=k, pos=K(i)) for i, k in enumerate(ks)]
            out(ctx, cmd, [module(MA, [enum(E, items), filler()])], "%d items with positions in order" % n, spec.enums)
        for n in (7, 8, 9, 17):
            out(ctx, cmd, [module(MA, [filler(), enum(E, [low("e%d" % i) for i in range(n)])])], "%d items" % n, spec.enums)
        # several enumerations, also with equal item names
        ks = [low("e%d" % i) for i in range(3)]
        out(ctx, cmd, [module(MA, [enum(E, ks), enum(cap("Fn"), ks[::-1]), enum(cap("Gn"), [(ks[0], K(1)), (ks[1], K(0))])])],
            "three enumerations", spec.enums)
        out(ctx, cmd, [module(MA, [enum(E, ks)]), module(MB, [enum(cap("Fn"), [low("f0"), low("f1")])])],
            "two modules", spec.enums)


# ------------------------------------------------------------------- C16
def c16(ctx):
    P, Q, R = cap("P"), cap("Q"), cap("R")

    def wc(n):
        return wcomp([(low(n), isym("v" + n))])

    def constrained(name, inner, key, n):
        return [seq(inner, [(low(n), u(8))]), seq(name, [dict(key=low(key), t=ref(inner), wc=wc(n))])]
    for cmd in CLIKE:
        for n in (1, 2, 3):
            ms = [module(m, [filler("Msg%d" % i, "f%d" % i)]) for i, m in enumerate([MA, MB, MC][:n])]
            out(ctx, cmd, ms, "%d modules" % n, spec.guards)
        # header comments, import comments
        out(ctx, cmd, [module(MA, [filler()], comment=com("h"), imports=[imp([P], MB, comment=com("i"))], comment_import=com("ci")),
                       module(MB, [seq(P, [(low("p"), u(8))])])], "module and import comments", spec.guards)
        T = {MA: cap("Ta"), MB: cap("Tb"), MC: cap("Tc")}
        graphs = {"a imports b": {MA: [MB]}, "a imports b and c": {MA: [MB, MC]}, "a imports c and b": {MA: [MC, MB]},
                  "chain": {MA: [MB], MB: [MC]}, "triangle": {MA: [MB, MC], MB: [MC]}, "two import one": {MA: [MC], MB: [MC]}}
        for gn, g in graphs.items():
            for order in itertools.permutations([MA, MB, MC]) if ctx.thorough or cmd == "generate-c" else [[MA, MB, MC], [MC, MB, MA]]:
                ms = [module(m, [seq(T[m], [(low("t"), u(8))])] + ([seq(cap("U"), [(low("u"), ref(T[g[m][0]]))])] if m is MA else []),
                             imports=[imp([T[x]], x) for x in g.get(m, ())]) for m in order]
                out(ctx, cmd, ms, "%s, files %s" % (gn, [show(x) for x in order]), spec.guards)
        out(ctx, cmd, [module(MA, [filler()], imports=[imp([P], MB), imp([Q], MB)]),
                       module(MB, [seq(P, [(low("p"), u(8))]), seq(Q, [(low("q"), u(8))])])], "two clauses for one module", spec.guards)
        for lab, d in {"an enumeration": enum(cap("En"), [low("ea"), low("eb")]), "a simple type": simple(cap("Si"), u(8)),
                       "a choice": choice(cap("Ch"), [(low("ca"), ref(P))])}.items():
            for o in (0, 1):
                ms = [module(MA, [d], imports=[imp([P], MB)]), module(MB, [seq(P, [(low("p"), u(8))])])]
                out(ctx, cmd, ms[::-1] if o else ms, "importing module of %s only, files %d" % (lab, o), spec.guards)
        # structs packed
        out(ctx, cmd, [module(MA, support() + [seq(P, members_of(list(scalar_kinds())))])], "all member kinds", spec.guards, facts=LEN)
    cmd = "generate-c"
    I1, I2 = cap("Ia"), cap("Ib")
    base = {"constrained": constrained(P, I1, "k", "x"), "second": constrained(Q, I2, "l", "y"), "plain": [filler()],
            "enum": [enum(cap("En"), [low("ea"), low("eb")])], "choice": [choice(cap("Ch"), [(low("ca"), u(8))])]}
    for r in range(1, 5 if ctx.thorough else 4):
        for p in itertools.permutations(base, r):
            if "constrained" in p:
                ds = [d for n in p for d in base[n]]
                out(ctx, cmd, [module(MA, ds)], "definitions %s" % (p,), spec.guards)
    for p in itertools.permutations([(MA, "constrained"), (MB, "plain"), (MC, "second")]):
        out(ctx, cmd, [module(m, base[n]) for m, n in p], "modules with %s" % [n for _, n in p], spec.guards)


# ------------------------------------------------------------------- C17
KEYS = {"ver": "packet-version-number", "typ": "packet-type-is-cmd", "sec": "sec-hdr-flag-is-present",
        "apid": "application-process-identifier"}
HV = isym("ver"), isym("apid")


def ccsds():
    """Primary header types."""
    return [seq(K("Ident"), [(K(KEYS["ver"]), u(3)), (K(KEYS["typ"]), boolean()), (K(KEYS["sec"]), boolean()),
                             (K(KEYS["apid"]), u(11))]),
            seq(K("Prim"), [(K("packet-identification"), typ(K("Ident"))), (low("len"), u(16))]),
            seq(K("Head"), [(K("primary"), typ(K("Prim")))])]


def mid(vals, order, extra=()):
    ident = wcomp([(K(KEYS[k]), vals[k]) for k in order if k in vals] + list(extra))
    return wcomp([(K("primary"), wcomp([(K("packet-identification"), ident)]))])


def c17_spec(want):
    """want: [(symbol term, value function or term)] in any order"""
    def f(fs, tx, cmd, sc):
        m = Model(sc)
        for mod in m.mods:
            got, where = spec.defines(fs, tx, sc, mod)
            w = want.get(mod.attrs["module_name"], [])
            left = list(got)
            for name, val in w:
                n = tx.render(name)
                hit = [d for d in left if spec.eq(tx, d[0], n)]
                if not hit:
                    raise Bad("no definition of %s (defined: %s)" % (n, [d[0] for d in got]), where)
                if callable(val):
                    ok = False
                    errs = []
                    for d in hit:
                        e = val(tx, d[1])
                        if e is None:
                            left.remove(d)
                            ok = True
                            break
                        errs.append(e)
                    if not ok:
                        raise Bad("%s is %s: %s" % (n, hit[0][1], errs[0]), where)
                else:
                    v = "(" + (val if isinstance(val, str) else tx.render(ops.StrOf(val))) + ")"
                    ok = [d for d in hit if spec.eq(tx, d[1], v)]
                    if not ok:
                        raise Bad("%s is defined as %s, expected %s" % (n, hit[0][1], v), where)
                    left.remove(ok[0])
            if left:
                raise Bad("%s also defines %s" % (show(mod.attrs["module_name"]), left), where)
    return f


def mid_value(ctx, vals):
    """The value text is (0x....) of the CCSDS layout, for all values of the fields."""
    def f(tx, text):
        if not (text.startswith("(") and text.endswith(")")):
            return "not in parentheses"
        body = text[1:-1]
        if not body.startswith("0x"):
            return "not hexadecimal"
        tag = body[2:]
        ver = range(8)
        ap = range(2048)
        vs = {k: v for k, v in vals.items()}
        terms = [tx.term(c) for c in tag if tx.is_ph(c)]
        symbols = syms(terms) if terms else []

        def num(k, env):
            v = vs.get(k)
            if v is None:
                return 0
            if v is K("TRUE"):
                return 1
            if v is K("FALSE"):
                return 0
            return ev(v, env)
        allv = [x for x in (vs.get("ver"), vs.get("apid")) if x is not None and x.op == "sym"]
        doms = [(ver if s.args[0] == "ver" else ap) for s in allv]
        step = 1
        pts = itertools.product(*doms)
        n = 0
        for pt in pts:
            env = dict(zip(allv, pt))
            try:
                got = "".join(str(ev(tx.term(c), env)) if tx.is_ph(c) else c for c in tag)
            except NoGround as e:
                raise Undecided("message id %s" % e)
            want = (num("ver", env) << 13) | (num("typ", env) << 12) | (num("sec", env) << 11) | num("apid", env)
            if got != "%04X" % want:
                return "value 0x%s for %s, expected 0x%04X" % (got, {show(k): v for k, v in env.items()}, want)
            n += 1
        ctx.points = getattr(ctx, "points", 0) + n
        return None
    return f


def c17(ctx):
    cmd = "generate-cfs"
    P = cap("P")
    T, F = K("TRUE"), K("FALSE")
    ver, apid = HV
    iv = {"iv": {ver: (0, 7), apid: (0, 2047)}}
    MID = Cat(ops.Upper(cn(P)), K("_MID"))

    def prog(wc, more=(), key="h", name=P):
        return ccsds() + [seq(name, [dict(key=low(key), t=typ(K("Head")), wc=wc)] + list(more))]
    for order in itertools.permutations(KEYS):
        for t, s in itertools.product((T, F), (T, F)):
            vals = {"ver": ver, "typ": t, "sec": s, "apid": apid}
            out(ctx, cmd, [module(MA, prog(mid(vals, order)))], "order %s, type %s, flag %s" % (order, kv(t), kv(s)),
                c17_spec({MA: [(MID, mid_value(ctx, vals))]}), facts=iv)
    # only some components are written
    for r in (1, 2, 3):
        for sub in itertools.combinations(KEYS, r):
            vals = {k: {"ver": ver, "typ": T, "sec": T, "apid": apid}[k] for k in sub}
            out(ctx, cmd, [module(MA, prog(mid(vals, sub)))], "only %s" % (sub,), c17_spec({MA: [(MID, mid_value(ctx, vals))]}), facts=iv)
    full = {"ver": ver, "typ": T, "sec": F, "apid": apid}
    # unknown component of the identification or of the primary header
    un = low("unknown")
    defs = [seq(K("Ident"), [(K(KEYS["ver"]), u(3)), (K(KEYS["typ"]), boolean()), (K(KEYS["sec"]), boolean()),
                             (K(KEYS["apid"]), u(11)), (un, u(8))]),
            seq(K("Prim"), [(K("packet-identification"), typ(K("Ident"))), (un, u(16))]),
            seq(K("Head"), [(K("primary"), typ(K("Prim")))])]
    for pos in range(5):
        items = [(K(KEYS[k]), full[k]) for k in KEYS]
        items.insert(pos, (un, isym("uv")))
        wc = wcomp([(K("primary"), wcomp([(K("packet-identification"), wcomp(items))]))])
        ctx.rejects(ctx.scen(cmd, [module(MA, defs + [seq(P, [dict(key=low("h"), t=typ(K("Head")), wc=wc)])])], facts=iv),
                    "unknown component at %d of the identification" % (pos + 1), writes_ok=True)
    for pos in range(2):
        items = [(K("packet-identification"), wcomp([(K(KEYS[k]), full[k]) for k in KEYS]))]
        items.insert(pos, (un, isym("uv")))
        wc = wcomp([(K("primary"), wcomp(items))])
        ctx.rejects(ctx.scen(cmd, [module(MA, defs + [seq(P, [dict(key=low("h"), t=typ(K("Head")), wc=wc)])])], facts=iv),
                    "unknown component at %d of the primary header" % (pos + 1), writes_ok=True)
    # other scalar components, at all levels, before and after the header
    kx, ky, kz = low("x"), low("y"), low("z")
    vx, vy, vz = isym("vx"), fsym("vy"), isym("vz")

    def sym(k):
        return ops.Upper(Cat(cn(P), K("_"), cn(k)))
    prim = (K("primary"), wcomp([(K("packet-identification"), wcomp([(K(KEYS[k]), full[k]) for k in KEYS]))]))
    heads = [seq(K("Ident"), [(K(KEYS["ver"]), u(3)), (K(KEYS["typ"]), boolean()), (K(KEYS["sec"]), boolean()),
                              (K(KEYS["apid"]), u(11))]),
             seq(K("Prim"), [(K("packet-identification"), typ(K("Ident")))]),
             seq(K("Inner"), [(kx, u(8)), (ky, real(-1e9, 1e9)), (kz, boolean())]),
             seq(K("Head"), [(K("primary"), typ(K("Prim"))), (kx, u(8)), (ky, real(-1e9, 1e9)), (kz, boolean()), (low("in"), typ(K("Inner")))])]
    scal = {"x": ((kx, vx), (sym(kx), vx)), "y": ((ky, vy), (sym(ky), vy)), "z": ((kz, T), (sym(kz), "true")),
            "zf": ((kz, F), (sym(kz), "false"))}
    for r in (1, 2, 3):
        for p in itertools.permutations(["p"] + list(scal), r):
            if {"z", "zf"} <= set(p):
                continue
            items = [prim if i == "p" else scal[i][0] for i in p]
            want = [(MID, mid_value(ctx, full)) if i == "p" else scal[i][1] for i in p]
            if r == 3 and not ctx.thorough and "p" not in p:
                continue
            out(ctx, cmd, [module(MA, heads + [seq(P, [dict(key=low("h"), t=typ(K("Head")), wc=wcomp(items))])])],
                "components %s" % (p,), c17_spec({MA: want}), facts=iv)
            inner = [i for i in p if i != "p"]
            if inner:
                items2 = [(low("in"), wcomp([scal[i][0] for i in inner]))]
                if "p" in p:
                    items2.insert(p.index("p") and 1, prim)
                out(ctx, cmd, [module(MA, heads + [seq(P, [dict(key=low("h"), t=typ(K("Head")), wc=wcomp(items2))])])],
                    "nested components %s" % (p,), c17_spec({MA: want}), facts=iv)
    # several messages and modules: each gets its own symbols
    Q = cap("Q")
    MIDQ = Cat(ops.Upper(cn(Q)), K("_MID"))
    v2 = {"ver": ver, "typ": F, "sec": T, "apid": apid}
    for ds in ([P, Q], [Q, P]):
        defs = ccsds() + [seq(n, [dict(key=low("h"), t=typ(K("Head")), wc=mid(full if n is P else v2, KEYS))]) for n in ds]
        out(ctx, cmd, [module(MA, defs)], "two messages %s" % [show(x) for x in ds],
            c17_spec({MA: [(MID, mid_value(ctx, full)), (MIDQ, mid_value(ctx, v2))]}), facts=iv)
    for order in ((MA, MB), (MB, MA)):
        ms = {MA: module(MA, ccsds() + [seq(P, [dict(key=low("h"), t=typ(K("Head")), wc=mid(full, KEYS))])]),
              MB: module(MB, [seq(Q, [dict(key=low("h"), t=typ(K("Head")), wc=mid(v2, KEYS))])], imports=[imp([K("Head")], MA)])}
        out(ctx, cmd, [ms[x] for x in order], "two modules, files %s" % [show(x) for x in order],
            c17_spec({MA: [(MID, mid_value(ctx, full))], MB: [(MIDQ, mid_value(ctx, v2))]}), facts=iv)
    # a member before and after the constrained one; no constraint, no symbol
    out(ctx, cmd, [module(MA, ccsds() + [seq(P, [(low("a"), u(8)), dict(key=low("h"), t=typ(K("Head")), wc=mid(full, KEYS)), (low("b"), u(8))])])],
        "constrained member in the middle", c17_spec({MA: [(MID, mid_value(ctx, full))]}), facts=iv)
    out(ctx, cmd, [module(MA, ccsds() + [filler()])], "no constraint", c17_spec({MA: []}), facts=iv)


# ------------------------------------------------------------------- C18
def c18(ctx):
    cmd = "generate-c"
    P, Q = cap("P"), cap("Q")
    T, F = K("TRUE"), K("FALSE")
    ks = [low("k%d" % i) for i in range(5)]
    vals = {"int": lambda i: isym("v%s" % i), "float": lambda i: fsym("w%s" % i), "true": lambda i: T, "false": lambda i: F}
    types = {"int": lambda: integer(-5, 5), "float": lambda: real(-1.0, 1.0), "true": boolean, "false": boolean}

    def nested(kinds, d, tag):
        """kinds: list of a value kind or a list (nested); returns (defs, sequence name, components)"""
        name = cap("N" + tag)
        ms, cs, defs = [], [], []
        for i, k in enumerate(kinds):
            key = low("k%s%d" % (tag, i))
            if isinstance(k, (list, tuple)):
                ds, n, c = nested(k, d + 1, tag + str(i))
                defs += ds
                ms.append((key, ref(n)))
                cs.append((key, c))
            else:
                ms.append((key, types[k]()))
                cs.append((key, vals[k](tag + str(i)) if k in ("int", "float") else vals[k](0)))
        defs.append(seq(name, ms))
        return defs, name, wcomp(cs)

    def go(kinds, label, order=None, more=()):
        ds, n, c = nested(kinds, 0, "r")
        if order:
            it = c.attrs["components"]
            c = wcomp([(it[i].attrs["key"], it[i].attrs["value"]) for i in order if i < len(it)])
        out(ctx, cmd, [module(MA, ds + [seq(P, [dict(key=low("top"), t=ref(n), wc=c)] + list(more))])], label, spec.inits)
    flat = ["int", "float", "true", "false"]
    for r in (1, 2, 3):
        for ks_ in itertools.product(flat, repeat=r):
            if r == 3 and not ctx.thorough and ks_[0] != ks_[2] and ks_[1] != "int":
                continue
            go(list(ks_), "values %s" % (ks_,))
    trees = [[["int"]], [["int"], "int"], ["int", ["int"]], ["int", ["true", "int"], "false"], [["int"], ["int"]],
             [[["int"]]], [[["int"], "true"], "int"], ["int", [["float"]], "int"], [[["int"], ["int"]], ["int"]],
             [[[["int"]]]], ["int", [["int", ["true"]], "int"], "int"], [["int", "float", "true", "false"], "int"],
             [["true"], ["false"], ["int"]], [[[[["int"]]]]], ["int", "int", "int", "int", "int"]]
    for t in trees:
        go(t, "tree %s" % (t,))
    for p in itertools.permutations(range(3)):
        go(["int", "true", ["int", "false"]], "written in the order %s" % (p,), order=p)
    for sub in ([0], [1], [2], [0, 2], [2, 0], [1, 2]):
        go(["int", "true", ["int", "false"]], "only components %s" % (sub,), order=sub)
    go(["int"], "member after", more=[(low("z"), u(8))])
    # components of equal names on different levels and in siblings
    k = low("same")
    I, J = cap("I"), cap("J")
    out(ctx, cmd, [module(MA, [seq(I, [(k, u(8))]), seq(J, [(k, ref(I)), (low("o"), u(8))]),
                               seq(P, [dict(key=k, t=ref(J), wc=wcomp([(k, wcomp([(k, isym("a"))])), (low("o"), isym("b"))]))])])],
        "equal names on all levels", spec.inits)
    out(ctx, cmd, [module(MA, [seq(I, [(k, u(8)), (low("z"), boolean())]), seq(J, [(low("a"), ref(I)), (low("b"), ref(I))]),
                               seq(P, [dict(key=low("t"), t=ref(J), wc=wcomp([
                                   (low("a"), wcomp([(k, isym("x")), (low("z"), T)])),
                                   (low("b"), wcomp([(low("z"), F), (k, isym("y"))]))]))])])], "siblings of equal type", spec.inits)
    # comments on components do not matter
    out(ctx, cmd, [module(MA, [seq(I, [(k, u(8)), (low("z"), boolean())]),
                               seq(P, [dict(key=low("t"), t=ref(I), comment=com("m"), wc=wcomp([
                                   (k, isym("x"), com("c1")), (low("z"), T, com("c2"))], comment=com("c3")))])])], "comments", spec.inits)
    # several sequences, several modules
    for order in itertools.permutations([0, 1, 2]):
        ds = [[seq(cap("I%d" % i), [(low("k%d" % i), u(8))]),
               seq(cap("P%d" % i), [dict(key=low("t%d" % i), t=ref(cap("I%d" % i)), wc=wcomp([(low("k%d" % i), isym("v%d" % i))]))])]
              for i in range(3)]
        out(ctx, cmd, [module(MA, [d for i in order for d in ds[i]] + [filler()])], "three sequences, order %s" % (order,), spec.inits)
        out(ctx, cmd, [module([MA, MB, MC][i], ds[i]) for i in order], "three modules, order %s" % (order,), spec.inits)
    out(ctx, cmd, [module(MA, [seq(P, [dict(key=low("t"), t=ref(I), wc=wcomp([(k, isym("x"))]))])], imports=[imp([I], MB)]),
                   module(MB, [seq(I, [(k, u(8))])])], "constrained sequence of another module", spec.inits)
    out(ctx, cmd, [module(MA, [filler(), enum(cap("En"), [low("ea"), low("eb")])])], "nothing constrained", spec.inits)
    for v in (0, 1, 2, -1, 255):
        out(ctx, cmd, [module(MA, [seq(I, [(k, integer(-5, 255)), (low("z"), u(8))]),
                                   seq(P, [dict(key=low("t"), t=ref(I), wc=wcomp([(k, K(v)), (low("z"), K(1))]))])])],
            "value %d" % v, spec.inits)
    for v in (0.0, 1.0, 1.5, -0.5, 1e20):
        out(ctx, cmd, [module(MA, [seq(I, [(k, real(-1e30, 1e30))]),
                                   seq(P, [dict(key=low("t"), t=ref(I), wc=wcomp([(k, K(v))]))])])], "value %r" % v, spec.inits)


# ------------------------------------------------------------------- C19
FMT = {("INT", 8): "b", ("INT", 16): "h", ("INT", 32): "i", ("INT", 64): "q",
       ("UINT", 8): "B", ("UINT", 16): "H", ("UINT", 32): "I", ("UINT", 64): "Q",
       ("FLOAT", 32): "f", ("DOUBLE", 64): "d"}
ALT = {"i": "il", "I": "IL", "q": "q", "Q": "Q", "b": "b", "B": "B", "h": "h", "H": "H", "f": "f", "d": "d"}


def packs(m, d, wc, out_):
    """(category, bits, value) of the scalar components, depth first in written order"""
    for c in wc.attrs["components"]:
        v = c.attrs["value"]
        mem = [p for p in d.attrs["seq"] if p.attrs["key"] is c.attrs["key"]][0]
        if isinstance(v, Node):
            packs(m, m.lookup(mem.attrs["asn_type"].attrs["type_name"])[1], v, out_)
        else:
            cat, bits = m.width(mem.attrs["asn_type"])
            out_.append((cat, kv(bits), v))
    return out_


def flat_pack(t):
    """Terms of a bytes concatenation."""
    parts = list(t.args) if t.op == "cat" else [t]
    return [p for p in parts if not (isK(p) and kv(p) in ("", b""))]


def binaries(fs, tx, cmd, sc):
    m = Model(sc)
    order = {"little-endian": "<", "big-endian": ">"}[kv(sc.options["--endianness"])]
    want = {}
    for mod in m.mods:
        for d, p in spec.constrained(m, mod):
            n = Cat(ops.Lower1(cn(d.attrs["type_name"])), K(".bin"))
            inner = m.lookup(p.attrs["asn_type"].attrs["type_name"])[1]
            want.setdefault(tx.render(n), (n, []))[1].extend(packs(m, inner, p.attrs["with_components"], []))
    for nm, (n, vals) in want.items():
        f = fs.get(n)
        got = flat_pack(f[3])
        seq_ = []
        for t in got:
            if t.op == "call" and t.args[0] == "struct.pack":
                fm = t.args[1]
                if not isK(fm):
                    raise Undecided("format of %s" % nm)
                s = kv(fm)
                a = list(t.args[2:])
                o = s[0] if s[:1] in "<>=!@" else "@"
                body = s[1:] if s[:1] in "<>=!@" else s
                if o == "!":
                    o = ">"
                if len(body) != len(a):
                    raise Undecided("format %s" % s)
                for ch, v in zip(body, a):
                    seq_.append((o, ch, v))
            elif t.op == "call" and t.args[0] == "int.to_bytes":
                raise Undecided("int.to_bytes in %s" % nm)
            elif isK(t) and isinstance(kv(t), bytes):
                raise Undecided("literal bytes in %s" % nm)
            else:
                raise Undecided("content of %s: %s" % (nm, show(t)))
        if len(seq_) != len(vals):
            raise Bad("%s holds %d values (%s), expected %d" % (
                nm, len(seq_), ", ".join("%s%s %s" % (o, c, show(v)) for o, c, v in seq_), len(vals)), f[4].where)
        for i, ((o, ch, v), (cat, bits, wv)) in enumerate(zip(seq_, vals)):
            w = FMT.get((cat, bits))
            if w is None:
                raise Bad("value %d of %s has no binary form (%s, %s bits)" % (i + 1, nm, cat, bits), f[4].where)
            if ch not in ALT[w]:
                raise Bad("value %d of %s is packed as '%s', expected '%s' (%s, %d bits)" % (i + 1, nm, ch, w, cat, bits), f[4].where)
            if o != order and bits > 8:
                raise Bad("value %d of %s has byte order '%s', requested %s" % (
                    i + 1, nm, o, kv(sc.options["--endianness"])), f[4].where)
            if v is not wv:
                need(tx, tx.render(ops.StrOf(v)), tx.render(ops.StrOf(wv)), "value %d of %s" % (i + 1, nm), f[4].where)
    for f in fs.files:
        if f[1].endswith(".bin") and not any(spec.eq(tx, f[1], n) for n in want):
            raise Bad("unexpected file %s" % f[1], f[4].where)


def c19(ctx):
    cmd = "generate-binary"
    P = cap("P")
    prims = {
        "i8": (lambda: integer(-128, 127), None), "i16": (lambda: integer(-129, 127), None), "i32": (lambda: integer(-1, 32768), None),
        "i64": (lambda: integer(-2**31 - 1, 0), None), "u8": (lambda: u(8), None), "u16": (lambda: u(16), None), "u32": (lambda: u(32), None), "u64": (lambda: u(64), None),
        "u16 low": (lambda: integer(0, 2**15), None), "float": (lambda: real(-1.0, 1.0), None), "double": (lambda: real(-1e39, 1.0), None),
    }
    aliases = {"alias u16": (lambda: ref(cap("A16")), simple(cap("A16"), u(16))), "alias i8": (lambda: ref(cap("B8")), simple(cap("B8"), integer(-1, 1))),
               "alias double": (lambda: ref(cap("Dd")), simple(cap("Dd"), real(-1e300, 1e300)))}
    for n in POSIX:
        aliases[n] = (lambda n=n: ref(K(n)), posix(n))
    allk = dict(prims)
    allk.update(aliases)

    def val(k, i):
        return fsym("w%s" % i) if k in ("float", "double", "alias double", "Float", "Double") else isym("v%s" % i)

    def nested(kinds, tag):
        name = cap("N" + tag)
        ms, cs, defs = [], [], {}
        for i, k in enumerate(kinds):
            key = low("k%s%d" % (tag, i))
            if isinstance(k, (list, tuple)):
                ds, n, c = nested(k, tag + str(i))
                defs.update(ds)
                ms.append((key, ref(n)))
                cs.append((key, c))
            else:
                t, d = allk[k]
                if d is not None:
                    defs[k] = d
                ms.append((key, t()))
                cs.append((key, val(k, tag + str(i))))
        defs[name] = seq(name, ms)
        return defs, name, wcomp(cs)

    def go(kinds, label, order=None, ends=("little-endian", "big-endian"), more=(), pre=()):
        for en in ends:
            ds, n, c = nested(kinds, "r")
            if order:
                it = c.attrs["components"]
                c = wcomp([(it[i].attrs["key"], it[i].attrs["value"]) for i in order])
            out(ctx, cmd, [module(MA, list(pre) + list(ds.values()) + [seq(P, [dict(key=low("top"), t=ref(n), wc=c)] + list(more))])],
                "%s, %s" % (label, en), binaries, endian=en, may_fail="alias" in label)
    for k in allk:
        go([k], "one value: %s" % k)
    ks = list(allk)
    for i, a in enumerate(ks):
        for s in (range(1, len(ks)) if ctx.thorough else (1, 7)):
            go([a, ks[(i + s) % len(ks)]], "values %s, %s" % (a, ks[(i + s) % len(ks)]), ends=("big-endian",) if s != 1 else
               ("little-endian", "big-endian"))
    for t in ([["u16"]], [["u16"], "i8"], ["i8", ["u16"]], ["u8", ["u16", "i32"], "float"], [["u16"], ["i16"]], [[["u32"]]],
              [[["u16"], "i8"], "double"], ["u8", [["float"]], "u8"], [[["u8"], ["u16"]], ["u32"]], [[[["i64"]]]],
              ["u16 low", [["i16", ["u64"]], "u8"], "i8"], [k for k in ks if not k.startswith("alias")]):
        go(t, "tree %s" % (t,))
    for p in itertools.permutations(range(3)):
        go(["u8", "i16", ["u32", "float"]], "written in the order %s" % (p,), order=p)
    for sub in ([0], [1], [2], [0, 2], [2, 0]):
        go(["u8", "i16", ["u32", "float"]], "only components %s" % (sub,), order=sub)
    go(["u16"], "a member after", more=[(low("z"), u(8))])
    go(["u16", ["u32"]], "an enumeration and a choice beside", pre=[enum(cap("En"), [low("ea"), low("eb")]), choice(cap("Ch"), [(low("c"), boolean())])])
    # equal names in different sequences
    k = low("same")
    I, J = cap("I"), cap("J")
    for en in ("little-endian", "big-endian"):
        for t1, t2 in ((u(8), integer(-1000, 0)), (u(32), real(-1.0, 1.0)), (integer(-1, 1), u(64))):
            out(ctx, cmd, [module(MA, [seq(I, [(k, t1)]), seq(J, [(low("o"), ref(I)), (k, t2)]),
                                       seq(P, [dict(key=low("t"), t=ref(J), wc=wcomp([(low("o"), wcomp([(k, isym("a"))])), (k, isym("b"))]))])])],
                "equal member names in nested sequences, %s" % en, binaries, endian=en)
        # several sequences and modules
        for order in itertools.permutations([0, 1, 2]):
            ts = [u(8), integer(-1000, 5), u(64)]
            ds = [[seq(cap("I%d" % i), [(low("k%d" % i), ts[i])]),
                   seq(cap("P%d" % i), [dict(key=low("t%d" % i), t=ref(cap("I%d" % i)), wc=wcomp([(low("k%d" % i), isym("v%d" % i))]))])]
                  for i in range(3)]
            out(ctx, cmd, [module(MA, [d for i in order for d in ds[i]] + [filler()])], "three sequences, order %s, %s" % (order, en),
                binaries, endian=en)
            out(ctx, cmd, [module([MA, MB, MC][i], ds[i]) for i in order], "three modules, order %s, %s" % (order, en), binaries, endian=en)
    out(ctx, cmd, [module(MA, [filler()])], "nothing constrained", binaries)
    # several constrained members of one sequence
    for en in ("little-endian", "big-endian"):
        for n in (2, 3):
            for order in itertools.permutations(range(n)):
                ts = [u(8), integer(-1000, 5), u(64)]
                ds = [seq(cap("I%d" % i), [(low("k%d" % i), ts[i]), (low("h%d" % i), u(32))]) for i in range(n)]
                ms = [dict(key=low("t%d" % i), t=ref(cap("I%d" % i)), wc=wcomp([(low("h%d" % i), isym("w%d" % i)), (low("k%d" % i), isym("v%d" % i))])) for i in order]
                ms.insert(1, (low("z"), u(8)))
                out(ctx, cmd, [module(MA, ds + [seq(P, ms)])], "%d constrained members, order %s, %s" % (n, order, en), binaries, endian=en)
        out(ctx, cmd, [module(MA, [seq(I, [(low("a"), u(8)), (low("b"), u(16))]),
                                   seq(P, [dict(key=low("t%d" % i), t=ref(I), wc=wcomp([(low("ab"[i]), isym("v%d" % i))])) for i in range(2)])])],
            "two members of one type constrained, %s" % en, binaries, endian=en)
    # values that cannot be encoded
    bad = {"boolean true": (boolean(), K("TRUE")), "boolean false": (boolean(), K("FALSE"))}
    for b in list(range(1, 65)) if ctx.thorough else (1, 2, 3, 4, 5, 6, 7, 9, 12, 15, 17, 24, 31, 33, 40, 48, 56, 63):
        if b not in (8, 16, 32, 64):
            bad["%d bits" % b] = (u(b), isym("v"))
    bad["string"] = (string(K(2)), isym("v"))
    for n, (t, v) in bad.items():
        for pos in range(3):
            items = [(low("a"), isym("va")), (low("b"), isym("vb"))]
            items.insert(pos, (low("x"), v))
            if pos and n.endswith("bits") and not ctx.thorough and n not in ("7 bits", "24 bits"):
                continue
            ctx.rejects(ctx.scen(cmd, [module(MA, [seq(I, [(low("a"), u(8)), (low("b"), u(16)), (low("x"), t)]),
                                                   seq(P, [dict(key=low("t"), t=ref(I), wc=wcomp(items))])])]),
                        "%s at component %d" % (n, pos + 1), writes_ok=True)
            ctx.rejects(ctx.scen(cmd, [module(MA, [seq(I, [(low("a"), u(8)), (low("b"), u(16)), (low("x"), t)]), seq(J, [(low("i"), ref(I))]),
                                                   seq(P, [dict(key=low("t"), t=ref(J), wc=wcomp([(low("i"), wcomp(items))]))])])]),
                        "%s at nested component %d" % (n, pos + 1), writes_ok=True)


# ------------------------------------------------------------------- C11
def c11(ctx):
    P = cap("P")

    def value(r, node, meth):
        """Abstract result of a query method of the object made for a node."""
        I = r.I
        st = r.st
        obj = node.ref
        if obj is None:
            return None
        return I.query(st, obj, meth)

    def query(sc, name, node, meth, want):
        if ctx.late():
            return
        r = ctx.run(sc)
        why = ctx.precise(r)
        nm = "size: " + name
        if r.st.live is None or r.error:
            return ctx.ob(nm, "undecided", why or "no path to the end", None, sc)
        v, where = value(r, node, meth) or (None, None)
        if v is None:
            return ctx.ob(nm, "undecided", "no method %s" % meth, None, sc)
        w = K(want) if not hasattr(want, "op") else want
        e = ops.Eq(v, w)
        if isK(e) and kv(e) is True:
            return ctx.ob(nm, "discharged", "", where, sc)
        if isK(e) and kv(e) is False:
            return ctx.ob(nm, "undecided" if why else "violated", "%s gives %s, expected %s" % (meth, show(v), show(w)), where, sc)
        return ctx.ob(nm, "undecided", "%s gives %s, expected %s" % (meth, show(v), show(w)), where, sc)
    cmd = "generate-cosmos"

    def cos(mods, name, iv=None, rel=(), **kw):
        sc = ctx.scen(cmd, mods, facts={"iv": dict(iv or {}), "rel": list(rel)}, msgs=[P], **kw)
        ctx.output(sc, name, lambda fs, tx: spec.cosmos(fs, tx, sc, ("items",)))
    # unsigned: any range of each width; as member, alias and imported alias
    A = cap("Al")
    for b in range(1, 65):
        e, g = isym("e%d" % b), isym("b%d" % b)
        iv = {g: (0, 2**(b - 1) - 1 if b > 1 else 1), e: (2**(b - 1), 2**b - 1)}
        cos([module(MA, [seq(P, [(low("m"), integer(g, e)), (low("n"), ref(A))]), simple(A, integer(0, e))])],
            "any unsigned range of %d bits" % b, iv)
        for x in sorted({2**(b - 1), 2**b - 1}):
            cos([module(MA, [seq(P, [(low("m"), integer(0, x)), (low("n"), integer(x, x)), (low("o"), integer(x // 2, x))])])],
                "unsigned up to %d" % x)
    for b in (65, 70, 128):
        e = isym("e%d" % b)
        cos([module(MA, [seq(P, [(low("m"), integer(0, e))])])], "any unsigned range of %d bits" % b, {e: (2**(b - 1), 2**b - 1)})
    cos([module(MA, [seq(P, [(low("m"), integer(0, 0))])])], "unsigned 0..0")
    # signed: the smallest width
    pw = {8: (0, 7), 16: (7, 15), 32: (15, 31), 64: (31, 63)}
    for w, (l, h) in pw.items():
        g, e = isym("g"), isym("e")
        lo, hi = -2**h, 2**h - 1
        cases = {"lower needs it": {g: (lo, -2**l - 1 if l else -1), e: (-2**l if l else -1, hi)},
                 "both need it": {g: (lo, -2**l - 1 if l else -1), e: (2**l if l else 0, hi)},
                 "at the bounds": {g: (lo, lo), e: (hi, hi)}}
        if l:
            cases["upper needs it"] = {g: (-2**l, -1), e: (2**l, hi)}
            cases["upper only, from -1"] = {g: (-1, -1), e: (2**l, 2**l)}
            cases["lower only, to 0"] = {g: (-2**l - 1, -2**l - 1), e: (0, 0)}
            cases["negative only"] = {g: (lo, -2**l - 1), e: (lo, -1)}
        for n, iv in cases.items():
            cos([module(MA, [seq(P, [(low("m"), integer(g, e)), (low("n"), ref(A))]), simple(A, integer(g, e))])],
                "signed, %d bits, %s" % (w, n), iv, rel=[(g, e)])
        if w == 64:
            for n, iv in {"lower too low": {g: (-2**80, -2**63 - 1), e: (0, 5)}, "upper too high": {g: (-5, -1), e: (2**63, 2**80)},
                          "both": {g: (-2**80, -2**63 - 1), e: (2**63, 2**80)}}.items():
                sc = ctx.scen(cmd, [module(MA, [seq(P, [(low("m"), integer(g, e))])])], facts={"iv": iv, "rel": [(g, e)]}, msgs=[P])
                ctx.rejects(sc, "signed beyond 64 bits, %s" % n)
    x, y = fsym("x"), fsym("y")
    for lab, iv in {"within float": {x: (-3.4e38, 3.4e38), y: (-3.4e38, 3.4e38)},
                    "lower beyond float": {x: (-DMAX, -3.4000001e38), y: (-3.4e38, 3.4e38)},
                    "upper beyond float": {x: (-3.4e38, 3.4e38), y: (3.4000001e38, DMAX)},
                    "both beyond float": {x: (-DMAX, -3.4000001e38), y: (3.4000001e38, DMAX)},
                    "both above float": {x: (3.4000001e38, DMAX), y: (3.4000001e38, DMAX)},
                    "both below float": {x: (-DMAX, -3.4000001e38), y: (-DMAX, -3.4000001e38)}}.items():
        cos([module(MA, [seq(P, [(low("m"), real(x, y)), (low("n"), ref(A))]), simple(A, real(x, y))])], "REAL " + lab, iv, rel=[(x, y)])
    cos([module(MA, [seq(P, [(low("m"), typ(REAL)), (low("n"), ref(A))]), simple(A, typ(REAL))])], "REAL without range") if False else None
    n = isym("len")
    cos([module(MA, [seq(P, [(low("m"), boolean()), (low("n"), string(n)), (low("o"), string(n, "NumericString"))])])],
        "booleans and strings", {n: (1, 10**6)})
    for k in range(2, 34):
        cos([module(MA, [seq(P, [(low("m"), ref(cap("En")))]), enum(cap("En"), [low("e%d" % i) for i in range(k)])])], "enumeration of %d" % k)
    # the same through the query methods of the model, and sums of members
    I, J, En = cap("I"), cap("J"), cap("En")
    e, g = isym("e"), isym("g")
    iv = {"iv": {e: (512, 1023), g: (0, 3), n: (1, 1000)}}
    for cmd2 in COMMANDS:
        en = enum(En, [low("e%d" % i) for i in range(5)])
        al = simple(A, integer(g, e))
        kinds = {"unsigned": (lambda: integer(g, e), K(10)), "bool": (boolean, K(1)), "signed": (lambda: integer(-200, 5), K(16)),
                 "float": (lambda: real(-1.0, 1.0), K(32)), "double": (lambda: real(-1e39, 1.0), K(64)),
                 "string": (lambda: string(n), ops.Mul(K(8), n)), "alias": (lambda: ref(A), K(10)), "enum": (lambda: ref(En), K(3))}
        for a, (t, w) in kinds.items():
            p = seq(P, [(low("m"), t())])
            sc = ctx.scen(cmd2, [module(MA, [en, al, p])], facts=iv, msgs=[P])
            query(sc, "%s: sequence of one %s" % (cmd2, a), p, "get_size_bits", w)
        names = list(kinds)
        for s in range(len(names)):
            o = names[s:] + names[:s]
            for r in (2, 3, len(o)):
                tot = K(0)
                for a in o[:r]:
                    tot = ops.Add(tot, kinds[a][1])
                p = seq(P, [(low("m%d" % i), kinds[a][0]()) for i, a in enumerate(o[:r])])
                sc = ctx.scen(cmd2, [module(MA, [en, al, p])], facts=iv, msgs=[P])
                query(sc, "%s: sequence of %s" % (cmd2, o[:r]), p, "get_size_bits", tot)
        for order in itertools.permutations([0, 1, 2]):
            i_ = seq(I, [(low("a"), u(8)), (low("b"), u(3))])
            j_ = seq(J, [(low("a"), ref(I)), (low("b"), u(5))])
            p = seq(P, [(low("a"), ref(J)), (low("b"), ref(I)), (low("c"), u(1))])
            ds = [i_, j_, p]
            sc = ctx.scen(cmd2, [module(MA, [ds[i] for i in order])], msgs=[P])
            query(sc, "%s: nested sequences, order %s" % (cmd2, order), p, "get_size_bits", 11 + 5 + 11 + 1)
        p = seq(P, [dict(key=low("a"), t=ref(I), wc=wcomp([(low("a"), K(1))]), comment=com("x")), dict(key=low("c"), t=u(1)),
                    dict(key=low("d"), t=ref(I), wc=wcomp([(low("b"), K(1)), (low("a"), K(2))]))])
        sc = ctx.scen(cmd2, [module(MA, [p, seq(I, [(low("a"), u(8)), (low("b"), u(8))])])], msgs=[P])
        query(sc, "%s: sequence of constrained members" % cmd2, p, "get_size_bits", 33)
        p = seq(P, [(low("a"), ref(I)), (low("c"), u(1))])
        for order in (0, 1):
            ms = [module(MA, [p], imports=[imp([I], MB)]), module(MB, [seq(I, [(low("a"), u(8)), (low("b"), u(3))])])]
            sc = ctx.scen(cmd2, ms[::-1] if order else ms, msgs=[P], module=MA)
            query(sc, "%s: imported sequence, files %d" % (cmd2, order), p, "get_size_bits", 12)
    # bits to bytes: through the binary generator
    c19_bytes(ctx)


def c19_bytes(ctx):
    cmd = "generate-binary"
    P, I = cap("P"), cap("I")
    for b in range(1, 65):
        sc = ctx.scen(cmd, [module(MA, [seq(I, [(low("x"), u(b))]), seq(P, [dict(key=low("t"), t=ref(I), wc=wcomp([(low("x"), isym("v"))]))])])])
        if b in (8, 16, 32, 64):
            ctx.accepts(sc, "%d bits are converted to bytes" % b)
        elif b % 8:
            ctx.rejects(sc, "%d bits are not converted to bytes" % b, writes_ok=True)


# ------------------------------------------------------------------- C26
def c26(ctx):
    def everything(fs, tx, cmd, sc):
        spec.definitions(fs, tx, cmd, sc)
        spec.fields(fs, tx, cmd, sc, ("types",))
        spec.enums(fs, tx, cmd, sc)
        spec.guards(fs, tx, cmd, sc, ("guard", "include"))
        if cmd == "generate-c":
            spec.inits(fs, tx, cmd, sc)
        unions(fs, tx, cmd, sc)
        spelled(fs, tx, cmd, sc)

    def unions(fs, tx, cmd, sc):
        for m, mod, h in headers(fs, tx, cmd, sc):
            for d in m.own(mod):
                if d.rule == "Choice":
                    x = spec.decl(tx, h, ("union",), cn(d.attrs["type_name"]))
                    ms = d.attrs["choice"]
                    if len(ms) != len(x.fields):
                        raise Bad("union %s has %d members for %d alternatives" % (x.name, len(x.fields), len(ms)), h.where)
                    for p, f in zip(ms, x.fields):
                        need(tx, f.name, tx.render(cn(p.attrs["key"])), "name of an alternative of " + x.name, h.where)
                        t = p.attrs["asn_type"].attrs["type_name"]
                        if not isinstance(t, Node) and not isK(t):
                            need(tx, f.typ, tx.render(cn(t)), "type of an alternative of " + x.name, h.where)

    def spelled(fs, tx, cmd, sc):
        """No dash of a name reaches C code, file names included."""
        for f in fs.files:
            if f[1].endswith((".h", ".c", ".bin")):
                for c in f[1]:
                    if tx.is_ph(c):
                        al = ops.alphabet(tx.term(c))
                        if al is not None and "-" in al:
                            raise Bad("file name %s keeps dashes" % f[1], f[4].where)
    P, Q, E, Ch, Al, In = cap("P"), cap("Q"), cap("En"), cap("Ch"), cap("Al"), cap("In")
    for cmd in CLIKE:
        for order in (0, 1):
            a = module(MA, [seq(P, [dict(key=low("top"), t=ref(In), wc=wcomp([(low("ia"), isym("v"))])), (low("ma"), ref(E)), (low("mb"), ref(Al)),
                                    (low("mc"), u(8)), (low("md"), array(K(3), ref(Q))), (low("me"), string(K(4))), (low("mf"), ref(K("Uint8-t")))]),
                            enum(E, [low("ea"), low("eb"), low("ec")]), posix("Uint8-t"),
                            choice(Ch, [(low("ca"), ref(In)), (low("cb"), ref(E))]), seq(Q, [(low("qa"), boolean())]),
                            seq(In, [(low("ia"), u(8)), (low("ib"), u(16))])],
                       imports=[imp([Al], MB)])
            b = module(MB, [simple(Al, u(5)), seq(cap("R"), [(low("ra"), u(8))]), enum(cap("Fn"), [low("fa"), low("fb")])])
            ms = [a, b] if not order else [b, a]
            out(ctx, cmd, ms, "all kinds of names, files %d" % order, everything)
        # literal names with several dashes, and names that look like others
        for lab, nm in {"several dashes": ("a-b-c-d", "e-f-g", "Ab-c-d", "Ef-g-h-i"), "digits": ("a1-2-3", "b-4-5", "A1-b2", "B-1"),
                        "type words": ("uint8-t", "char", "Uint-8-t", "Char"), "no dash": ("abc", "def", "Abc", "Def"),
                        "mixed length": ("x", "y-x", "X", "Y-x"), "mid": ("mid", "msgids", "Mid", "Msg-ids")}.items():
            l1, l2, c1, c2 = (K(x) for x in nm)
            mm = K(nm[0] + "-" + nm[1])
            out(ctx, cmd, [module(mm, [seq(c1, [(l1, u(8)), (l2, ref(c2)), (K("z-" + nm[0]), ref(K("En-" + nm[1])))]),
                                       seq(c2, [(l2, boolean()), (l1, u(3))]),
                                       enum(K("En-" + nm[1]), [l1, l2, K("q-" + nm[1])])])], "names with %s" % lab, everything)
    if not ctx.late():
        grammar_names(ctx)


def grammar_names(ctx):
    """The names of the grammar: letters, digits and single dashes."""
    g = ctx.A.I.tx.grammar if getattr(ctx.A.I.tx, "grammar", None) else None
    from .scen import regex_alphabet
    import re
    if g is None:
        sc = ctx.scen("generate-c", [module(MA, [filler()])])
        ctx.run(sc)
        g = ctx.A.I.tx.grammar
    used = {}
    for r in g.rules.values():
        for a, i in r.attrs.items():
            if a in ("key", "module_name", "type_name", "definitions"):
                for t in i["types"]:
                    q = g.rules.get(t)
                    if q is not None and q.kind == "match" and g.regex(t):
                        used.setdefault(t, []).append(r.name + "." + a)
    if not used:
        ctx.ob("grammar: names", "undecided", "no pattern of names found")
    for n, at in sorted(used.items()):
        rx = g.regex(n)
        al = regex_alphabet(rx)
        lab = "grammar: alphabet of %s (%s)" % (n, ", ".join(sorted(at)))
        if al is None:
            ctx.ob(lab, "undecided", "pattern %s" % rx)
            continue
        bad = sorted(c for c in al if not (c.isascii() and (c.isalnum() or c == "-")))
        if bad:
            ctx.ob(lab, "violated", "names may contain %s, so that different names have the same C name or none "
                   "(pattern %s)" % (bad, rx), "asn1_parser/asn1/grammar.py")
        else:
            ctx.ob(lab, "discharged")


RULES = {"C11": c11, "C12": c12, "C13": c13_all, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C26": c26}
