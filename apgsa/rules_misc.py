"""Rules about effects: what is written where and when, what may change, what the result may depend on."""
import itertools

from .terms import T, mk, K, NONE, isK, kv, show, subterms, Cat
from . import ops
from .build import *
from .build import txt
from .core import (timed, timed_quiet, COMMANDS, CLIKE, POSIX, CCSDS, Bad, Undecided, OUT, OFN, FileSet, need, same, reset)
from .outp import Out, Text, feasible, env_text, has_unknown, is_write, split_path, TooMany
from .heap import LCell, DCell, OCell, State
from .loader import ClassInfo, AnalysisError
from . import spec
from .spec import cn
from .rules_reject import places
from .scen import Scenario
from .peg import Obj

MA, MB, MC, MD = (low("mod" + c) for c in "ABCD")
P, Q, In, De, En, Al, Ch, Ra = (cap(x) for x in ("P", "Q", "In", "De", "En", "Al", "Ch", "Ra"))


def ref(n):
    return typ(n)


def header_defs():
    """A CCSDS primary header and a packet that constrains it."""
    return [seq(cap("Hdr"), [(K("packet-version-number"), u(3)), (K("packet-identification"), ref(cap("Pid")))]),
            seq(cap("Pid"), [(K("packet-type-is-cmd"), boolean()), (K("sec-hdr-flag-is-present"), boolean()),
                             (K("application-process-identifier"), u(11))])]


def header_wc(apid="apid", cmd="TRUE"):
    return wcomp([(K("packet-version-number"), K(1)),
                  (K("packet-identification"), wcomp([(K("packet-type-is-cmd"), K(cmd)), (K("sec-hdr-flag-is-present"), K("FALSE")),
                                                      (K("application-process-identifier"), isym(apid))]))])


FACTS = {"iv": {isym("apid"): (0, 2047), isym("apid2"): (0, 2047), isym("v"): (0, 200), isym("w"): (0, 200), isym("len"): (1, 99)}}


def bundles(cmd):
    """Bundles that use every kind of element: (label, modules, options)."""
    leaf = lambda: [(low("ia"), u(8)), (low("ib"), integer(-5, 200)), (low("ic"), u(16))]
    yield "plain", lambda: [module(MA, [filler()])], {}
    if cmd != "generate-binary":
        yield "every kind of definition and member", lambda: [module(MA, [
            seq(P, [dict(key=low("ma"), t=u(8), comment=com("ma", unit=True)), dict(key=low("mb"), t=boolean(), comment=com("mb", little=True)),
                    (low("mc"), ref(En)), (low("md"), ref(Al)), (low("me"), ref(In)), (low("mf"), string(isym("len"))),
                    (low("mg"), array(isym("len"), ref(Al))), (low("mh"), real(-1.0, 2.0)), (low("mi"), ref(K("Uint8-t"))),
                    (low("mj"), integer(-1000, 1000)), (low("mk"), ref(Q))], comment=com("p")),
            enum(En, [dict(key=low("ea"), comment=com("ea")), low("eb"), low("ec")], comment=com("en")), simple(Al, u(5), comment=com("al")),
            seq(In, leaf(), comment=com("in")), posix("Uint8-t"), seq(Q, [(low("qa"), ref(In)), (low("qb"), ref(En))])] + (
                [choice(Ch, [(low("ca"), ref(In)), dict(key=low("cb"), t=u(8), comment=com("cb"))], comment=com("ch"))] if cmd != "generate-cosmos" else []),
            comment=com("mod"))], dict(msgs=[P, Q, In])
    cons = lambda: [module(MA, [
        seq(P, [dict(key=low("pa"), t=ref(In), wc=wcomp([(low("ia"), isym("v")), (low("ic"), isym("w"))]), comment=com("pa")), (low("pb"), u(8)),
                dict(key=low("pc"), t=ref(De), wc=wcomp([(low("da"), wcomp([(low("ic"), isym("w")), (low("ib"), isym("v"))]))]))]),
        seq(Q, [dict(key=low("qa"), t=ref(De), wc=wcomp([(low("db"), isym("v")), (low("da"), wcomp([(low("ia"), isym("w"))]))])),
                dict(key=low("qb"), t=ref(In), wc=wcomp([(low("ib"), isym("v"))]))]),
        seq(De, [(low("da"), ref(In)), (low("db"), u(32)), (low("dc"), ref(In))]), seq(In, leaf())])]
    yield "constraints", cons, dict(msgs=[P, Q, De, In])
    if cmd != "generate-binary":
        yield "CCSDS headers", lambda: [module(MA, header_defs() + [
            seq(P, [dict(key=K("primary"), t=ref(cap("Hdr")), wc=header_wc()), (low("pa"), u(8))]),
            seq(Q, [dict(key=K("primary"), t=ref(cap("Hdr")), wc=header_wc("apid2", "FALSE")),
                    dict(key=low("qa"), t=ref(In), wc=wcomp([(low("ia"), isym("v"))]))]), seq(In, leaf())])], dict(msgs=[P, Q])
    if cmd not in ("generate-binary",):
        yield "imports", lambda: [
            module(MA, [seq(P, [(low("pa"), ref(In)), (low("pb"), ref(Al)), (low("pc"), ref(En)), (low("pd"), ref(K("Int16-t"))),
                                dict(key=low("pe"), t=ref(De), wc=wcomp([(low("db"), isym("v"))]))]), simple(Ra, real(-2.0, 3.0))],
                   imports=[imp([In, En], MB, com("i1")), imp([Al, K("Int16-t"), De], MC)], comment_import=com("ci")),
            module(MB, [seq(In, leaf() + [(low("id"), ref(De))]), enum(En, [low("ea"), low("eb"), low("ec")])], imports=[imp([De], MC)]),
            module(MC, [simple(Al, u(5)), posix("Int16-t"), seq(De, [(low("da"), ref(Al)), (low("db"), u(8))])])], dict(msgs=[P], module=MA)
        yield "aliases used in several modules", lambda: [
            module(MA, [seq(P, [(low("pa"), ref(Al)), (low("pb"), ref(Ra)), (low("pc"), ref(K("Uint16-t")))])], imports=[imp([Al, Ra, K("Uint16-t")], MD)]),
            module(MB, [seq(Q, [(low("qa"), ref(Al)), (low("qb"), ref(Ra))])], imports=[imp([Al, Ra], MD)]),
            module(MC, [seq(De, [(low("da"), ref(Al)), (low("db"), ref(K("Uint16-t")))])], imports=[imp([Al, K("Uint16-t")], MD)]),
            module(MD, [simple(Al, u(5)), simple(Ra, real(-1.0, 1.0)), posix("Uint16-t")])], dict(msgs=[P], module=MA)
    else:
        yield "aliases used in several modules", lambda: [
            module(MA, [seq(P, [(low("pa"), ref(Al)), (low("pb"), ref(Ra))])], imports=[imp([Al, Ra], MD)]),
            module(MB, [seq(Q, [(low("qa"), ref(Al)), (low("qb"), ref(Ra))])], imports=[imp([Al, Ra], MD)]),
            module(MC, [seq(De, [(low("da"), ref(Al))])], imports=[imp([Al], MD)]),
            module(MD, [simple(Al, u(5)), simple(Ra, real(-1.0, 1.0))])], {}
    # definitions written before those they use, several of them
    yield "unsorted definitions", lambda: [module(MA, [
        seq(P, [(low("pa"), ref(Q)), (low("pb"), ref(De))]), seq(Q, [(low("qa"), ref(De)), (low("qb"), ref(In))]),
        seq(De, [(low("da"), ref(In)), (low("db"), u(8))]), enum(En, [low("ea"), low("eb")]), seq(In, leaf()), seq(cap("Z"), [(low("za"), ref(En))])]),
        module(MB, [seq(cap("Y"), [(low("ya"), u(8))])])], dict(msgs=[P, Q], module=MA)


def scen(ctx, cmd, mods, opts, facts=True, **kw):
    o = {k: v for k, v in opts.items() if cmd == "generate-cosmos"}
    o.update(kw)
    return ctx.scen(cmd, mods, facts=FACTS if facts else None, **o)


# ------------------------------------------------------------------- C01
def bad_modules():
    """One module per kind of error: (label, extra definitions of the offending module, imports)."""
    out = {}
    pl = dict(places(lambda: typ(K("NULL"))))
    out["NULL type"] = [pl["sequence member 3 of 3"]], None
    pl = dict(places(lambda: typ(cap("Undef"))))
    out["undefined type"] = [pl["sequence member 2 of 3"]], None
    out["range in wrong order"] = [seq(cap("S"), [(low("sa"), integer(5, 4))])], None
    out["range beyond the doubles"] = [seq(cap("S"), [(low("sa"), real(0.0, INF))])], None
    out["wrong POSIX range"] = [simple(K("Int8-t"), integer(0, 5))], None
    out["wrong positions"] = [enum(cap("S"), [(low("ea"), K(0)), (low("eb"), K(2))])], None
    out["forbidden sign"] = [seq(cap("S"), [(low("sa"), u(8))], comment(Cat(txt("p"), K("["), txt("q"))))], None
    out["unknown component"] = [seq(cap("S"), [(low("sa"), u(8))]),
                                seq(cap("U"), [dict(key=low("ua"), t=typ(cap("S")), wc=wcomp([(low("wrong"), K(1))]))])], None
    out["duplicate definition"] = [seq(cap("S"), [(low("sa"), u(8))]), seq(cap("S"), [(low("sb"), u(8))])], None
    out["unknown module"] = [seq(cap("S"), [(low("sa"), u(8))])], lambda: [imp([cap("Undef")], low("nowhere"))]
    return out


def c01(ctx):
    kinds = list(bad_modules())
    for cmd in COMMANDS:
        for n in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4):
            for pos in range(n):
                for k in kinds:
                    ms = []
                    for i in range(n):
                        ds = [filler("Msg%d" % i, "k%d" % i)]
                        im = None
                        if i == pos:
                            ex, im = bad_modules()[k]
                            ds = ds + ex
                        ms.append(module((MA, MB, MC, MD)[i], ds, imports=im() if im else None))
                    kw = dict(msgs=[cap("Msg0")]) if cmd == "generate-cosmos" else {}
                    ctx.rejects(ctx.scen(cmd, ms, **kw), "%s: %s in module %d of %d" % (cmd, k, pos + 1, n))
                ms = [module((MA, MB, MC, MD)[i], [filler("Msg%d" % i, "k%d" % i)]) for i in range(n)]
                nm = [m.attrs["module_name"] for m in ms]
                ms[pos] = Node("!syntax", module_name=nm[pos], definitions=[])
                kw = dict(msgs=[cap("Msg%d" % (1 if pos == 0 and n > 1 else 0))], module=nm[1 if pos == 0 and n > 1 else 0]) \
                    if cmd == "generate-cosmos" else {}
                ctx.rejects(ctx.scen(cmd, ms, **kw), "%s: text %d of %d is not a module" % (cmd, pos + 1, n))
                if cmd != "generate-cosmos" and n > 1:
                    ctx.rejects(ctx.scen(cmd, ms, requested=[x for i, x in enumerate(nm) if i != pos]),
                                "%s: text %d of %d is not a module, the others are requested" % (cmd, pos + 1, n))
                # a file that does not exist
                ms = [module((MA, MB, MC, MD)[i], [filler("Msg%d" % i, "k%d" % i)]) for i in range(n)]
                sc = ctx.scen(cmd, ms, **kw)
                sc.modules = [(p, m) for i, (p, m) in enumerate(sc.modules) if i != pos]
                gone = sc.options["input_paths"][pos]
                for q in ("exists", "isfile", "lexists", "is_file"):
                    sc.assume[mk("fsq", q, gone)] = K(False)
                sc.missing = gone
                ctx.rejects(sc, "%s: file %d of %d does not exist" % (cmd, pos + 1, n))
        # errors of the bundle as a whole
        two = lambda a, b: [module(a, [filler("Msg0", "k0")]), module(b, [filler("Msg1", "k1")])]
        ctx.rejects(ctx.scen(cmd, two(MA, MA), requested=[MA]), "%s: two modules of one name" % cmd)
        if cmd != "generate-cosmos":
            ctx.rejects(ctx.scen(cmd, two(MA, MB), requested=[MA]), "%s: module not requested" % cmd)
            ctx.rejects(ctx.scen(cmd, two(MA, MB), requested=[MA, MB, MC]), "%s: module not found" % cmd)
            ctx.rejects(ctx.scen(cmd, two(MA, MB), requested=[MA, MB, MB]), "%s: module requested twice" % cmd)
        else:
            ctx.rejects(ctx.scen(cmd, two(MA, MB), msgs=[cap("Undef")]), "%s: message not found" % cmd)
            ctx.rejects(ctx.scen(cmd, two(MA, MB), msgs=[cap("Msg0"), cap("Undef")]), "%s: second message not found" % cmd)
        # an error that only the comparison of modules shows
        S = cap("S")
        for n in (2, 3):
            for pos in range(n):
                ms = [module((MA, MB, MC)[i], [filler("Msg%d" % i, "k%d" % i), seq(cap("S%d" % i), [(low("sa%d" % i), u(8))])]) for i in range(n)]
                oth = (pos + 1) % n
                ms[pos].attrs["import_items"] = [imp([cap("Undef")], (MA, MB, MC)[oth])]
                ctx.rejects(ctx.scen(cmd, ms, msgs=[cap("Msg0")], module=MA), "%s: module %d of %d imports an undefined name" % (cmd, pos + 1, n))
                ms = [module((MA, MB, MC)[i], [filler("Msg%d" % i, "k%d" % i), seq(cap("S%d" % i), [(low("sa%d" % i), u(8))])]) for i in range(n)]
                ms[pos].attrs["import_items"] = [imp([cap("S%d" % oth)], (MA, MB, MC)[oth])]
                ms[pos].attrs["definitions"].append(seq(cap("U"), [dict(key=low("ua"), t=typ(cap("S%d" % oth)), wc=wcomp([(low("wrong"), K(1))]))]))
                ctx.rejects(ctx.scen(cmd, ms, msgs=[cap("Msg0")], module=MA), "%s: module %d of %d constrains an unknown member of another" % (cmd, pos + 1, n))
        for lab, mods, o in bundles(cmd):
            ctx.accepts(scen(ctx, cmd, mods(), o), "%s: %s" % (cmd, lab))


# ------------------------------------------------------------------- C23
class Deep:
    """Structural comparison of values in two heaps."""

    def __init__(self, r, h1, h2):
        self.h1, self.h2 = h1, h2
        self.watch = r.watch
        self.seen = set()

    def eq(self, a, b):
        if a is b and not any(x.op == "ref" for x in subterms(a)):
            return True
        if a.op == "ref" and b.op == "ref":
            x, y = a.args[0], b.args[0]
            if str(self.watch.get(x, "")).startswith("ir:") and self.watch.get(x) != "ir:list":
                return x == y
            if (x, y) in self.seen:
                return True
            self.seen.add((x, y))
            c, d = self.h1.get(x), self.h2.get(y)
            if c is d:
                return self.inner(c)
            if type(c) is not type(d):
                return False
            if isinstance(c, LCell):
                return self.segs(c.items, d.items) if c.kind != "set" else len(c.items) == len(d.items)
            if isinstance(c, DCell):
                return self.segs(c.ents, d.ents)
            if isinstance(c, OCell):
                return c.cls is d.cls and all(k in d.fields and self.eq(v, d.fields[k]) for k, v in c.fields.items())
            return True
        if a.op != b.op or len(a.args) != len(b.args):
            return a is b
        return all(self.arg(x, y) for x, y in zip(a.args, b.args))

    def inner(self, c):
        """The same cell in both heaps: compare what it refers to."""
        if isinstance(c, LCell):
            return self.segs(c.items, c.items)
        if isinstance(c, DCell):
            return self.segs(c.ents, c.ents)
        if isinstance(c, OCell):
            return all(self.eq(v, v) for v in c.fields.values() if isinstance(v, T))
        return True

    def arg(self, x, y):
        if isinstance(x, T) and isinstance(y, T):
            return self.eq(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return self.segs(x, y)
        return x == y

    def segs(self, a, b):
        return len(a) == len(b) and all(self.arg(x, y) for x, y in zip(a, b))


def nodes(n):
    if isinstance(n, (Node, Obj)):
        yield n
        for v in n.attrs.values():
            yield from nodes(v)
    elif isinstance(n, (list, tuple)):
        for x in n:
            yield from nodes(x)


@timed
def unchanged(ctx, sc, name):
    """The parsed objects are, to every accessor, what they were when generation began."""
    if ctx.late():
        return
    r = ctx.run(sc)
    why = ctx.precise(r)
    lab = "model unchanged: " + name
    if r.error or r.st.live is None:
        o = Out(r)
        return ctx.ob(lab, "undecided", why or "no path to the end: %s" % ", ".join(show(e.data["exc"]) for e in o.raises)[:200], None, sc)
    if r.snap is None:
        return ctx.ob(lab, "undecided", "no generator function reached", None, sc)
    I = r.I
    before, after = State({}, dict(r.snap), ()), State({}, dict(r.st.heap), ())
    count = 0
    for m, _ in r.models:
        for n in nodes(m):
            if n.ref is None:
                continue
            a = n.ref.args[0]
            c, d = before.heap.get(a), after.heap.get(a)
            if not isinstance(c, OCell):
                continue
            what = []
            rule = I.tx.grammar.rules.get(n.rule)
            for k in (rule.order if rule else []):
                for q in (k, "_" + k):
                    if q in c.fields:
                        count += 1
                        if q not in d.fields or not Deep(r, before.heap, after.heap).eq(c.fields[q], d.fields[q]):
                            what.append(("attribute " + q, None))
            if isinstance(c.cls, ClassInfo):
                for meth in sorted(methods(c.cls)):
                    b1, b2 = before.fork(), after.fork()
                    ev, ph, hi = len(I.events), I.phase, dict(I.notes)
                    I.phase = "query"
                    try:
                        x, y = I.query(b1, n.ref, meth), I.query(b2, n.ref, meth)
                    except Exception:
                        x = y = None
                    del I.events[ev:]
                    I.phase, I.notes = ph, hi
                    if x is None or y is None or x[0] is None:
                        continue
                    count += 1
                    if y[0] is None or not qeq(ctx, r, b1, x[0], b2, y[0]):
                        what.append(("result of %s()" % meth, None))
            if what:
                muts = [e for e in r.events if e.kind in ("mut", "genwrite") and any("generators" in str(f) or f for f in e.stack)
                        and str(e.data.get("tag", "")).startswith("ir:") and in_gen(I, e)]
                w = muts[-1] if muts else None
                nm = [x for x in (n.attrs.get(y) for y in ("type_name", "key", "module_name")) if isinstance(x, T)]
                det = "%s of %s %s differs after generation" % (", ".join(x for x, _ in what[:4]), n.rule, show(nm[0]) if nm else "")
                return ctx.ob(lab, "undecided" if why else "violated", det, w.where if w else None, sc, w.stack if w else None)
    ctx.ob(lab, "discharged", "%d attributes and accessors compared" % count, None, sc)


def in_gen(I, e):
    return any(q in GENFNS(I) for q in e.stack)


def GENFNS(I):
    return {f.qual for f in I.fns.values() if f.module.name.startswith(I.GEN_PREFIX)}


def methods(ci):
    out = set()
    seen = []
    todo = [ci]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.append(c)
        for b in getattr(c, "node", None).body if getattr(c, "node", None) is not None else []:
            if type(b).__name__ == "FunctionDef" and len(b.args.args) == 1 and not b.args.vararg and not b.args.kwarg \
                    and not b.name.startswith("_") and not b.decorator_list and b.name.startswith(("get", "is", "has")):
                out.add(b.name)
        todo += [x for x in getattr(c, "bases", []) if isinstance(x, ClassInfo)]
    return out


def qeq(ctx, r, s1, a, s2, b):
    d = Deep(r, s1.heap, s2.heap)
    return d.eq(a, b)


class Nothing:
    notes = {}
    error = "not decided in time"
    events = ()


def contents(ctx, sc, **kw):
    return contents1(ctx, sc, **kw) or (Nothing(), "not decided in time", None)


@timed_quiet
def contents1(ctx, sc, **kw):
    """[(case, {file name: [content]})] of a run, or the reason there is none."""
    for _, m in sc.modules:
        reset(m)
    r = ctx.A.run(sc, **kw)
    why = ctx.precise(r)
    if why:
        return r, why, None
    o = Out(r)
    for e in o.raises:
        if feasible(e.live)[0] != "no":
            return r, "%s raised" % show(e.data["exc"]), None
    if r.st.live is None:
        return r, "no path to the end", None
    try:
        cs = list(o.cases())
    except TooMany:
        return r, "too many cases", None
    return r, None, cs


def compare(ctx, name, sc, a, b, text):
    """Two lists of cases are the same files with the same contents."""
    if len(a) != len(b):
        return ctx.ob(name, "undecided", "different case splits", None, sc)
    und = None
    for x, y in zip(a, b):
        if x.env != y.env:
            und = "different case splits"
            continue
        tx = Text()
        fx, fy = FileSet(x, tx), FileSet(y, tx)
        v, det, where = cmp_files(tx, fx, fy, text)
        if v == "violated":
            return ctx.ob(name, v, tx.show(det), where, sc)
        und = und or det
    if und:
        return ctx.ob(name, "undecided", und, None, sc)
    return ctx.ob(name, "discharged", "", None, sc)


def cmp_files(tx, fx, fy, text):
    kx = {f[1]: f for f in fx.files}
    ky = {f[1]: f for f in fy.files}
    if len(kx) != len(fx.files) or len(ky) != len(fy.files):
        return "undecided", "a file is written more than once", None
    if fx.unknown() or fy.unknown():
        return "undecided", "text not fully determined", None
    for n in list(kx) + [n for n in ky if n not in kx]:
        if n not in kx or n not in ky:
            f = kx.get(n) or ky.get(n)
            return "violated", "file %s is written only %s" % (n, text[0] if n in kx else text[1]), f[4].where
    for n in kx:
        a, b = tx.render(kx[n][3]), tx.render(ky[n][3])
        s = same(tx, a, b)
        if s is None:
            return "undecided", "contents of %s" % n, None
        if s is False:
            i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
            return "violated", "%s differs: '%s' %s, '%s' %s" % (n, a[max(0, i - 30):i + 50], text[0], b[max(0, i - 30):i + 50], text[1]), kx[n][4].where
    return "discharged", None, None


def c23(ctx):
    for cmd in COMMANDS:
        for lab, mods, o in bundles(cmd):
            unchanged(ctx, scen(ctx, cmd, mods(), o), "%s: %s" % (cmd, lab))
            if cmd == "generate-cosmos" and len(o.get("msgs", ())) > 1:
                unchanged(ctx, scen(ctx, cmd, mods(), dict(o, msgs=o["msgs"][::-1])), "%s: %s, messages reversed" % (cmd, lab))
            n = len(mods())
            if n > 1:
                for order in itertools.permutations(range(n)):
                    if not ctx.thorough and n > 2 and order not in (tuple(range(n)), tuple(range(n))[::-1], (1, 2, 0), (1, 2, 3, 0)):
                        continue
                    ms = mods()
                    unchanged(ctx, scen(ctx, cmd, [ms[i] for i in order], o), "%s: %s, files %s" % (cmd, lab, order))
    # more constraints in one sequence, of the same and of different types, for the generators that walk them
    for cmd in COMMANDS:
        for k in range(1, 4):
            # (a constrained member inside a constrained type has no binary form)
            for inner in ((0, 1) if cmd != "generate-binary" else (0,)):
                def mods():
                    return [module(MA, [
                        seq(P, [dict(key=low("p%d" % i), t=ref(De), wc=wcomp([(low("db"), isym("v")), (low("da"), wcomp([(low("ia"), isym("w"))]))][::-1 if i % 2 else 1])) for i in range(k)]
                            + [(low("pz"), u(8))]),
                        seq(De, [dict(key=low("da"), t=ref(In), **(dict(wc=wcomp([(low("ib"), isym("w"))])) if inner else {})), (low("db"), u(32))]),
                        seq(In, [(low("ia"), u(8)), (low("ib"), u(16))]),
                        seq(Q, [dict(key=low("qa"), t=ref(In), wc=wcomp([(low("ib"), isym("v"))])), (low("qb"), ref(De))])])]
                for msgs in ([P, Q, De], [De, Q, P], [Q, P]):
                    if cmd != "generate-cosmos" and msgs[0] is not P:
                        continue
                    unchanged(ctx, scen(ctx, cmd, mods(), dict(msgs=msgs)), "%s: %d constrained members, nested constraint %d, messages %s" % (
                        cmd, k, inner, [show(x) for x in msgs]))
    independence(ctx)


def independence(ctx):
    """What is written for one message or module does not depend on the others generated before."""
    cmd = "generate-cosmos"
    for lab, mods, o in bundles(cmd):
        msgs = o.get("msgs")
        if not msgs or len(msgs) < 2:
            continue
        single = Lazy(lambda m: contents(ctx, scen(ctx, cmd, mods(), dict(o, msgs=[m]))))
        orders = list(itertools.permutations(msgs, 2)) + [tuple(msgs), tuple(msgs[::-1])]
        for seq_ in orders:
            if ctx.late():
                continue
            sc = scen(ctx, cmd, mods(), dict(o, msgs=list(seq_)))
            name = "independent messages: %s, %s" % (lab, [show(x) for x in seq_])
            r, why, cs = contents(ctx, sc)
            bad = why or next((single[m][1] for m in seq_ if single[m][1]), None)
            if bad:
                ctx.ob(name, "undecided", bad, None, sc)
                continue
            if len(cs) != 1 or any(len(single[m][2]) != 1 for m in seq_):
                ctx.ob(name, "undecided", "several cases", None, sc)
                continue
            tx = Text()
            whole = FileSet(cs[0], tx)
            parts = [FileSet(single[m][2][0], tx) for m in seq_]
            if whole.unknown() or any(p.unknown() for p in parts):
                ctx.ob(name, "undecided", "text not fully determined", None, sc)
                continue
            a = squeeze("".join(tx.render(f[3]) for f in whole.files))
            b = squeeze("".join(tx.render(f[3]) for p in parts for f in p.files))
            s = same(tx, a, b)
            if s is False:
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                ctx.ob(name, "violated", tx.show("the messages together give '%s', one by one '%s'" % (
                    a[max(0, i - 40):i + 60], b[max(0, i - 40):i + 60])), whole.files[0][4].where if whole.files else None, sc)
            else:
                ctx.ob(name, "discharged" if s else "undecided", "", None, sc)
    for cmd in CLIKE:
        for lab, mods, o in bundles(cmd):
            n = len(mods())
            if n < 2:
                continue
            base = Lazy(lambda k: contents(ctx, scen(ctx, cmd, mods(), o, paths=None)))
            for order in itertools.permutations(range(n)):
                if not ctx.thorough and n > 3 and order[0] > order[1] or order == tuple(range(n)) or ctx.late():
                    continue
                ms = mods()
                sc = scen(ctx, cmd, [ms[i] for i in order], o, paths=None)
                r, why, cs = contents(ctx, sc)
                name = "independent of the order of files: %s: %s, %s" % (cmd, lab, order)
                if why or base[0][1]:
                    ctx.ob(name, "undecided", why or base[0][1], None, sc)
                    continue
                compare(ctx, name, sc, base[0][2], cs, ("in the first order", "in this one"))


class Lazy(dict):
    def __init__(self, f):
        self.f = f

    def __missing__(self, k):
        self[k] = v = self.f(k)
        return v


def squeeze(s):
    """Without blank lines and comment lines."""
    return "\n".join(x for x in s.split("\n") if x.strip() and not x.lstrip().startswith("#"))


# ------------------------------------------------------------------- C24
def c24(ctx):
    for cmd in COMMANDS:
        for lab, mods, o in bundles(cmd):
            n = len(mods())
            orders = [None]
            if n > 1:
                orders = list(itertools.permutations(range(n)))
                if not ctx.thorough:
                    orders = [orders[0], orders[-1]] if n == 2 else [orders[0], orders[-1], orders[len(orders) // 2]]
            for order in orders:
                if ctx.late():
                    continue
                ms = mods()
                sc = scen(ctx, cmd, [ms[i] for i in order] if order else ms, o)
                nm = "%s: %s%s" % (cmd, lab, ", files %s" % (order,) if order else "")
                nondet(ctx, sc, "no clock, randomness, identity or environment: " + nm)
                a = contents(ctx, sc, set_order="fwd")
                b = contents(ctx, sc, set_order="rev")
                name = "independent of the order of sets: " + nm
                if a[1] or b[1]:
                    if bool(a[1]) != bool(b[1]) and not (a[0].notes or b[0].notes or a[0].error or b[0].error):
                        ctx.ob(name, "violated", "fails only in one iteration order of sets: %s" % (a[1] or b[1]), where_raise(a[0] if a[1] else b[0]), sc)
                    else:
                        ctx.ob(name, "undecided", a[1] or b[1], None, sc)
                    continue
                compare(ctx, name, sc, a[2], b[2], ("in one iteration order of a set", "in another"))
    history(ctx)


def where_raise(r):
    o = Out(r)
    return o.raises[-1].where if o.raises else None


def nondet(ctx, sc, name):
    r = ctx.run(sc)
    why = ctx.precise(r)
    hit = None
    for e in r.events:
        if e.kind == "file":
            for k in ("path", "content"):
                for x in subterms(e.data[k]):
                    if x.op == "nondet":
                        hit = (x, e)
    if hit:
        f, env = feasible(hit[1].live)
        st = "violated" if f == "yes" else "undecided"
        return ctx.ob(name, st, "the output contains %s" % show(hit[0]), hit[1].where, sc, hit[1].stack)
    ctx.ob(name, "undecided" if r.error else "discharged", why or "", None, sc)


def history(ctx):
    """A run after another one in the same process gives what it gives alone."""
    lst = []
    for cmd in COMMANDS:
        for lab, mods, o in bundles(cmd):
            lst.append((cmd, lab, mods, o, "little-endian"))
    lst.append(("generate-binary", "constraints", [m for l, m, o in bundles("generate-binary") if l == "constraints"][0], {}, "big-endian"))

    def alone(i):
        cmd, lab, mods, o, en = lst[i]
        return contents(ctx, scen(ctx, cmd, mods(), o, endian=en))
    fresh = Lazy(alone)
    for i, (cmd, lab, mods, o, en) in enumerate(lst):
        for j, (cmd1, lab1, mods1, o1, en1) in enumerate(lst):
            if not ctx.thorough and cmd1 != cmd and (i + j) % 4 or ctx.late():
                continue
            name = "independent of an earlier run: %s: %s (%s) after %s: %s (%s)" % (cmd, lab, en, cmd1, lab1, en1)
            r1 = ctx.A.run(fixed(ctx, scen(ctx, cmd1, mods1(), o1, endian=en1)))
            if r1.error or r1.st.live is None:
                continue
            sc = scen(ctx, cmd, mods(), o, endian=en)
            r, why, cs = contents(ctx, sc, after=r1)
            f = fresh[i]
            if f[1]:
                ctx.ob(name, "undecided", f[1], None, sc)
                continue
            if why:
                if r.notes or r.error:
                    ctx.ob(name, "undecided", why, None, sc)
                else:
                    ctx.ob(name, "violated", "fails after an earlier run: %s" % why, where_raise(r), sc)
                continue
            compare(ctx, name, sc, f[2], cs, ("alone", "after the earlier run"))


def fixed(ctx, sc):
    for _, m in sc.modules:
        reset(m)
    return sc


# ------------------------------------------------------------------- C25
def c25(ctx):
    for cmd in COMMANDS:
        for lab, mods, o in bundles(cmd):
            n = len(mods())
            for order in ([tuple(range(n))] if n == 1 else [tuple(range(n)), tuple(range(n))[::-1]]):
                ms = mods()
                where_written(ctx, scen(ctx, cmd, [ms[i] for i in order], o), "%s: %s, files %s" % (cmd, lab, order))
        # every subset of options is passed on: other values of each option
        for lab, mods, o in itertools.islice(bundles(cmd), 1):
            for opt, v in {"--output-dir": mk("sym", "elsewhere", "str:path"), "--output-file-name": mk("sym", "otherfile", "str:text")}.items():
                sc = scen(ctx, cmd, mods(), o)
                if opt in sc.options:
                    sc.options[opt] = v
                    where_written(ctx, sc, "%s: %s given as another value" % (cmd, opt))
            sc = scen(ctx, cmd, mods(), o)
            sc.options["--output-dir"] = None
            where_written(ctx, sc, "%s: default output directory" % cmd, default=True)


@timed
def where_written(ctx, sc, name, default=False):
    if ctx.late():
        return
    r = ctx.run(sc)
    why = ctx.precise(r)
    cmd = sc.command
    o = Out(r)
    lab = "written: " + name
    if r.error:
        return ctx.ob(lab, "undecided", why, None, sc)
    out = sc.options["--output-dir"]
    inputs = list(sc.options["input_paths"])

    def bad(det, e):
        f, env = feasible(e.live)
        st = "violated" if f == "yes" and not why else "undecided"
        ctx.ob(lab, st, det, e.where, sc, e.stack)
    dirs = set()
    for e in r.events:
        if e.kind == "open" and is_write(e.data["mode"]):
            p = e.data["path"]
            if has_unknown(p):
                return ctx.ob(lab, "undecided", "path %s" % show(p), e.where, sc)
            if p in inputs:
                return bad("an input file is opened for writing (mode %s)" % e.data["mode"], e)
            d = split_path(p)
            if d is None:
                return bad("%s is not directly in the output directory" % show(p), e)
            dirs.add(d[0])
            if not default and d[0] is not out:
                return bad("written to %s, not to the output directory" % show(p), e)
        elif e.kind == "mkdir":
            p = e.data["path"]
            if has_unknown(p):
                return ctx.ob(lab, "undecided", "path %s" % show(p), e.where, sc)
            if p.op == "call" and p.args[0] == "os.path.dirname" and split_path(p.args[1]):
                p = split_path(p.args[1])[0]
            if not default and p is not out:
                return bad("directory %s created" % show(p), e)
        elif e.kind == "fsop":
            return bad("file system operation %s%s" % (e.data["name"], tuple(show(a) for a in e.data["args"] if isinstance(a, T))), e)
        elif e.kind == "open":
            if e.data["path"] not in inputs:
                pass
    if default and len(dirs) > 1:
        return ctx.ob(lab, "violated" if not why else "undecided", "files in several directories", None, sc)
    for e in o.raises:
        if feasible(e.live)[0] != "no":
            return ctx.ob(lab, "undecided", "%s raised" % show(e.data["exc"]), e.where, sc)
    m = spec.Model(sc)
    try:
        for c in o.cases():
            tx = Text()
            fs = FileSet(c, tx)
            want = expected_files(m, cmd, sc, tx)
            got = [f[1] for f in fs.files]
            left = list(want)
            for f in fs.files:
                hit = [w for w in left if same(tx, f[1], w) is True]
                if not hit:
                    opt = [w for w in optional_files(m, cmd, sc, tx) if same(tx, f[1], w) is True]
                    if opt:
                        continue
                    if any(same(tx, f[1], w) is None for w in left):
                        return ctx.ob(lab, "undecided", tx.show("file %s" % f[1]), None, sc)
                    if any(same(tx, f[1], w) is True for w in want):
                        return ctx.ob(lab, "violated" if not why else "undecided", tx.show("file %s is written twice" % f[1]), f[4].where, sc)
                    return ctx.ob(lab, "violated" if not why else "undecided", tx.show("file %s is written, expected %s" % (f[1], want)), f[4].where, sc)
                left.remove(hit[0])
            if left:
                return ctx.ob(lab, "violated" if not why else "undecided", tx.show("file %s is not written (written: %s)" % (left[0], got)), None, sc)
    except TooMany:
        return ctx.ob(lab, "undecided", "too many cases", None, sc)
    ctx.ob(lab, "discharged", "", None, sc)


def expected_files(m, cmd, sc, tx):
    out = []
    if cmd == "generate-cosmos":
        return [tx.render(Cat(sc.options["--output-file-name"], K(".txt")))]
    for mod in m.mods:
        n = cn(mod.attrs["module_name"])
        if cmd == "generate-cfs":
            out += [Cat(n, K("_msg.h"))]
            if spec.constrained(m, mod):
                out += [Cat(n, K("_msgids.h"))]
        elif cmd == "generate-c":
            out += [Cat(n, K(".h"))]
            if spec.constrained(m, mod):
                out += [Cat(n, K(".c"))]
        else:
            out += [Cat(n, K(".h"))]
            for d in m.own(mod):
                if d.rule == "Sequence" and any("with_components" in p.attrs for p in d.attrs["seq"]):
                    out += [Cat(ops.Lower1(cn(d.attrs["type_name"])), K(".bin"))]
    return [tx.render(x) for x in out]


def optional_files(m, cmd, sc, tx):
    out = []
    for mod in m.mods:
        n = cn(mod.attrs["module_name"])
        if cmd == "generate-cfs":
            out += [Cat(n, K("_msgids.h"))]
        elif cmd == "generate-c":
            out += [Cat(n, K(".c"))]
    return [tx.render(x) for x in out]


RULES = {"C01": c01, "C23": c23, "C24": c24, "C25": c25}
