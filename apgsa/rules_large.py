"""Large bundles: more members, enumerators, definitions, modules, messages
and levels than any example has, so that a limit in the code shows."""
from .terms import K, show
from .build import *
from .core import COMMANDS, CLIKE
from .interp import Interp
from .rules_mix import SPEC, msgids

MEMBERS, ENUMS, CHAIN, MODULES, MESSAGES, LEVELS = 300, 300, 40, 40, 70, 24


def u8():
    return integer(0, 255)


def enumerators(order=None):
    n = ENUMS
    return [dict(key=K("s%d" % j), pos=K(j) if order else None) for j in (order or range(n))]


def mixed_order(n):
    return [j * 101 % n for j in range(n)]


def wide(cmd, defect=None):
    """One sequence with many members, one large enumeration."""
    ps = [(K("m%d" % i), u8()) for i in range(MEMBERS)]
    ps[7] = (K("m7"), typ(K("Modes")))
    ps[MEMBERS - 3] = (K("late"), typ(K("Order")))
    es = enumerators(mixed_order(ENUMS))
    if defect == "C05":
        ps[MEMBERS - 2] = (K("undef"), typ(K("Missing")))
    if defect == "C07":
        ps[MEMBERS - 2] = (K("nothing"), typ(K("NULL")))
    if defect == "C08":
        ps[MEMBERS - 2] = (K("odd"), integer(9, 8))
    if defect == "C10":
        es[-2]["pos"] = es[3]["pos"]
    if defect == "C28":
        ps[MEMBERS - 2] = dict(key=K("cm"), t=u8(), comment=comment(K("long text " * 300 + "[ end"), None, None))
    ps = [p if isinstance(p, dict) else dict(key=p[0], t=p[1]) for p in ps]
    defs = [seq(K("Wide"), ps), enum(K("Modes"), enumerators()), enum(K("Order"), es)]
    return [module(K("widemod"), defs)], [K("Wide")]


def chain(cmd, defect=None):
    """Definitions in the reverse of the order they are needed in."""
    n = CHAIN
    defs = []
    for i in reversed(range(n)):
        ps = [(K("a%d" % i), u8())]
        if i:
            ps.append((K("n%d" % i), typ(K("T%d" % (i - 1)))))
        if i == 0 and defect == "C05":
            ps.append((K("undef"), typ(K("Missing"))))
        defs.append(seq(K("T%d" % i), ps))
    if defect == "C02":
        defs.append(seq(K("T%d" % (n - 1)), [(K("z"), u8())]))
    return [module(K("chainmod"), defs)], [K("T%d" % (n - 1)), K("T3")]


def deep(cmd, defect=None):
    """Nested WITH COMPONENTS."""
    n = LEVELS
    defs = [seq(K("T0"), [(K("a0"), u8()), (K("b0"), u8())])]
    w = wcomp([(K("a0"), K(3)), (K("wrong" if defect == "C06" else "b0"), K(9))])
    for i in range(1, n):
        defs.append(seq(K("T%d" % i), [(K("a%d" % i), u8()), (K("n%d" % i), typ(K("T%d" % (i - 1))))]))
        w = wcomp([(K("a%d" % i), K(i)), (K("n%d" % i), w)])
    defs.append(seq(K("P"), [dict(key=K("body"), t=typ(K("T%d" % (n - 1))), wc=w)]))
    return [module(K("deepmod"), defs)], [K("P")]


def modules(cmd, defect=None):
    """A chain of imports, against the order of the files."""
    n = MODULES
    out = []
    for i in reversed(range(n)):
        ps = [(K("a%d" % i), u8())]
        im = []
        if i:
            ps.append((K("n%d" % i), typ(K("T%d" % (i - 1)))))
            names = [K("T%d" % (i - 1))]
            if i == 2 and defect == "C04":
                names.append(K("T7"))
            im = [imp(names, K("mod%d" % (i - 1)))]
        out.append(module(K("mod%d" % i), [seq(K("T%d" % i), ps)], imports=im))
    if defect == "C02":
        out[-1].attrs["definitions"] = out[-1].attrs["definitions"] + [seq(K("T%d" % (n - 1)), [(K("z"), u8())])]
    return out, [K("T%d" % (n - 1))]


def messages(cmd, defect=None):
    n = MESSAGES
    defs = [seq(K("M%d" % i), [(K("x"), u8()), (K("y"), u8())]) for i in range(n)]
    ms = [K("M%d" % (i * 11 % n)) for i in range(n)]
    return [module(K("msgmod"), defs)], ms


def names(cmd, defect=None):
    """Long names that differ in their last letters only."""
    l = lambda t: K("long" + "-word" * 24 + t)
    c = lambda t: K("Long" + "-word" * 24 + t)
    bad = lambda q, t, u: u if defect == q else t
    defs = [seq(c("a"), [(l("a"), u8()), (l("b"), integer(0, 65535))]),
            enum(c("b"), [l("x"), l("y"), l("z")]),
            seq(c("d"), [(l("a"), typ(c(bad("C05", "a", "aa")))), (l("b"), typ(c("b"))), (l("c"), u8())]),
            seq(c("e"), [dict(key=l("a"), t=typ(c("a")), wc=wcomp([(l("a"), K(1)), (l(bad("C06", "b", "c")), K(2))]))])]
    second = [seq(c(bad("C02", "f", "d")), [(l("a"), typ(c("d"))), (l("b"), u8())])]
    mods = [module(l("p"), second, imports=[imp([c("d"), c(bad("C04", "a", "f"))], l("q"))]), module(l("q"), defs)]
    return (mods[::-1], [c("d"), c("e"), c("a")]) if cmd == "generate-cosmos" else (mods, None)


KINDS = [wide, chain, deep, modules, messages]
REJECT = {"C02": [chain, modules, names], "C04": [modules, names], "C05": [wide, chain, names], "C06": [deep, names], "C07": [wide], "C08": [wide],
          "C10": [wide], "C28": [wide]}
# which kinds say something about a property
OF = {"C10": [wide], "C11": [wide], "C12": [chain, modules, messages, names], "C13": [wide, messages, names], "C14": [wide, names],
      "C15": [wide, names], "C16": [modules, names], "C18": [deep, names], "C20": [wide, chain, deep, names],
      "C21": [wide, deep, names], "C22": [messages, names], "C26": [modules, names]}


def scen_of(ctx, kind, cmd, defect=None):
    mods, ms = kind(cmd, defect)
    kw = dict(module=mods[0].attrs["module_name"], msgs=ms) if cmd == "generate-cosmos" else {}
    return ctx.scen(cmd, mods, **kw), "%s: large bundle (%s)%s" % (cmd, kind.__name__, " with a defect" if defect else "")


def large(ctx):
    p = ctx.prop
    old = Interp.MAXREC, Interp.MAXDEPTH, Interp.MAXSTEPS
    Interp.MAXREC, Interp.MAXDEPTH, Interp.MAXSTEPS = 60, 260, 3000000
    try:
        for cmd, f in [(c, SPEC[p][1]) for c in (SPEC[p][0] if p in OF else ())]:
            for k in OF[p]:
                if k is modules and cmd == "generate-cosmos":
                    continue
                if not ctx.mine():
                    ctx.late()
                    continue
                sc, lab = scen_of(ctx, k, cmd)
                ctx.output(sc, lab, lambda fs, tx: f(fs, tx, cmd, sc))
        for k in REJECT.get(p, ()):
            for cmd in COMMANDS:
                if not ctx.mine():
                    ctx.late()
                    continue
                ctx.rejects(*scen_of(ctx, k, cmd, p))
        if p == "C17":
            if not ctx.mine():
                ctx.late()
            else:
                sc, lab = scen_of(ctx, deep, "generate-cfs")
                g = msgids(ctx, sc)
                ctx.output(sc, lab, lambda fs, tx: g(fs, tx, "generate-cfs", sc))
        if p == "C19":
            from .rules_c import binaries
            for k in (deep, names):
                if not ctx.mine():
                    ctx.late()
                    continue
                sc, lab = scen_of(ctx, k, "generate-binary")
                ctx.output(sc, lab, lambda fs, tx: binaries(fs, tx, "generate-binary", sc))
        if p in ("C23", "C25"):
            from .rules_misc import unchanged, where_written
            for cmd in COMMANDS:
                for k in (wide, chain, deep, names):
                    if not ctx.mine():
                        ctx.late()
                        continue
                    sc, lab = scen_of(ctx, k, cmd)
                    (unchanged if p == "C23" else where_written)(ctx, sc, lab)
        if p == "C03":
            for cmd in CLIKE:
                if not ctx.mine():
                    ctx.late()
                    continue
                mods, _ = modules(cmd)
                req = [m.attrs["module_name"] for m in mods]
                ctx.rejects(ctx.scen(cmd, mods, requested=req[:-1]), "%s: large bundle, the last of %d modules is not requested" % (cmd, len(req)))
            for cmd in CLIKE:
                if not ctx.mine():
                    ctx.late()
                    continue
                mods, _ = modules(cmd)
                mods.append(module(mods[0].attrs["module_name"], [seq(K("Again"), [(K("a"), u8())])]))
                ctx.rejects(ctx.scen(cmd, mods, requested=[m.attrs["module_name"] for m in mods[:-1]]), "%s: large bundle, the first module again at the end" % cmd)
    finally:
        Interp.MAXREC, Interp.MAXDEPTH, Interp.MAXSTEPS = old
