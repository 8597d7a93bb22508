"""Mixed bundles: inputs of random shape (reproducible from the seed), many
elements at once, over which the same specification functions decide the
properties, and the same inputs with one defect planted for the properties
about rejection.  Names and values stay symbolic in half of them."""
import copy as _copy
import itertools
import os
import random

from .terms import T as Term, mk, K, isK, kv, Cat, show
from . import ops
from .build import *
from .core import COMMANDS, CLIKE, POSIX, CCSDS, Bad
from . import spec
from .spec import cn, Model

WORDS = ["alpha", "beta", "core", "data", "echo", "flag", "gain", "hk", "id", "job", "key", "link", "mode", "node", "opt",
         "pkt", "quat", "rate", "seq", "temp", "unit", "volt", "word", "x", "y1", "z2", "int", "uint8-t", "char", "mid",
         "a-b-c", "msg", "to-do", "n0", "string", "primary-x", "len", "size", "true", "type"]
TEXTS = ["a", "the state", "A value, e.g. 3.", "...", "x - y", "(see 4.2)", "100%", "ENDIANNESS", "TRUE", "Mixed Case", "a_b",
         "-", "- a", "1: on, 0: off", "struct", "int x;", "'q'", "a=b", "#1", "A/B"]
UNITS = ["m/s", "V", "%", "deg", "m/s^2", "1"]
FILES = ["tlm", "a.b", "v1.2", "My-Target", "x_y", "t.txt", ".hid", "UPPER", "x,y", "q-1(2)", "tlm.", "a_-b", "Ünit"]
BLANKS = ["a b", " lead", "t  m.2", "q-1 (2)"]  # no name of a COSMOS target, but a name of a file
BINTY = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "float", "double", "posix"]


class Gen:
    def __init__(self, rng, cmd, ground=False, small=False):
        self.r, self.cmd, self.ground = rng, cmd, ground
        self.n = 0
        self.iv = {}
        self.used = set()
        self.keys = []
        self.mods = []
        self.binary = cmd == "generate-binary"
        self.cosmos = cmd == "generate-cosmos"
        self.nmods = rng.choice([1, 1, 2, 2, 3] if small else [1, 2, 2, 3, 3, 4, 5])
        self.maxdefs = 4 if small else 7
        self.header = False
        self.build()

    # ---- names and values
    def fresh(self, kind, label):
        self.n += 1
        if not self.ground:
            return (cap if kind == "cap" else low)("%s%d" % (label, self.n))
        while True:
            w = "-".join(self.r.choice(WORDS) for _ in range(self.r.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 9])))
            if self.r.random() < 0.3:
                w += str(self.r.randrange(20))
            if kind == "cap":
                w = w[0].upper() + w[1:]
            if w.lower() not in self.used and w not in POSIX and w not in CCSDS and w not in RESERVED:
                self.used.add(w.lower())
                return K(w)

    def key(self, taken):
        free = [k for k in self.keys if k not in taken]
        if free and self.r.random() < 0.3:
            k = self.r.choice(free)
        else:
            k = self.fresh("low", "k")
            self.keys.append(k)
        taken.append(k)
        return k

    def length(self):
        if self.r.random() < 0.5:
            return K(self.r.choice([1, 2, 3, 8, 100, 4096]))
        self.n += 1
        s = isym("len%d" % self.n)
        self.iv[s] = (1, 10**6)
        return s

    def com(self, p=0.35):
        if self.r.random() > p:
            return None
        self.n += 1
        l = "c%d" % self.n
        t, un, li = self.r.random() < 0.8, self.r.random() < 0.4, self.r.random() < 0.2
        if not (t or un or li):
            t = True
        if self.ground:
            # texts of different elements differ, and none contains another
            return comment(K("q%dz %s" % (self.n, self.r.choice(TEXTS))) if t else None,
                           K("u%dz%s" % (self.n, self.r.choice(UNITS))) if un else None, K(True) if li else None)
        return com(l, text=t, unit=un, little=li)

    # ---- types
    def unsigned(self, b=None):
        b = b or self.r.choice([1, 2, 3, 5, 7, 8, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, self.r.randrange(1, 65)])
        if self.r.random() < 0.5:
            e = self.r.choice([2**b - 1, 2**(b - 1), self.r.randrange(2**(b - 1), 2**b)])
            return integer(self.r.choice([0, 0, min(1, e), e // 2, e]) if e else 0, e)
        self.n += 1
        g, e = isym("g%d" % self.n), isym("e%d" % self.n)
        self.iv[g] = (0, 2**(b - 1) - 1 if b > 1 else 1)
        self.iv[e] = (2**(b - 1), 2**b - 1)
        return integer(g if self.r.random() < 0.5 else 0, e)

    def signed(self, w=None):
        w = w or self.r.choice([8, 16, 32, 64])
        l = {8: 0, 16: 128, 32: 2**15, 64: 2**31}[w]
        h = 2**(w - 1)
        if self.r.random() < 0.5:
            return integer(-self.r.randrange(l + 1, h + 1), self.r.choice([-1, 0, 5, h - 1]) if l else self.r.choice([0, 5, 127]))
        return integer(-self.r.randrange(1, h + 1), self.r.randrange(l, h))

    def real(self, double=False):
        r = self.r
        if double:
            return real(*r.choice([(-1e300, 1e300), (-DMAX, DMAX), (0.0, 1e39), (-4e38, -1.0)]))
        return real(*r.choice([(-1.5, 2.5), (-FMAX, FMAX), (0.0, FMAX), (-FMAX, 0.0), (0.0, 0.0), (-10.0, -2.5), (0.25, 1e30)]))

    def bintype(self, m):
        k = self.r.choice(BINTY)
        if k[0] in "ui":
            return (self.unsigned if k[0] == "u" else self.signed)(int(k[1:]))
        if k == "posix":
            return self.posix(m)
        return self.real(k == "double")

    def posix(self, m):
        n = self.r.choice(POSIX)
        for j, o in enumerate(self.mods):
            if any(d.attrs["type_name"] is K(n) for d in o["defs"]):
                if o is not m:
                    self.use(m, o, K(n))
                return typ(K(n))
        m["defs"].append(posix(n))
        m["nosort"].append(K(n))
        return typ(K(n))

    def use(self, m, o, name):
        if o is not m:
            m["imports"].setdefault(o["name"], [])
            if name not in m["imports"][o["name"]]:
                m["imports"][o["name"]].append(name)

    def visible(self, m, rules):
        out = []
        for o in self.mods:
            if o is m or o["level"] < m["level"]:
                for d in o["defs"]:
                    if d.rule in rules and d.attrs["type_name"] not in POSIXK:
                        if self.binary and o is not m and d.rule == "Sequence":
                            continue
                        out.append((o, d))
        return out

    def ref(self, m, rules):
        v = self.visible(m, rules)
        if not v:
            return None
        o, d = self.r.choice(v)
        self.use(m, o, d.attrs["type_name"])
        return typ(d.attrs["type_name"])

    def member_type(self, m, depth_ok=True, simple_only=False):
        r = self.r
        k = r.choice(["u", "u", "u", "bool", "int", "real", "double", "string", "array", "alias", "posix", "enum", "seq", "seq"])
        if simple_only and k in ("seq", "array"):
            k = "u"
        if k == "bool":
            return boolean()
        if k == "int":
            return self.signed()
        if k in ("real", "double"):
            return self.real(k == "double")
        if k == "string":
            return string(self.length(), r.choice(["IA5String", "NumericString"]))
        if k == "posix":
            return self.posix(m)
        if k == "alias":
            return self.ref(m, ["SimpleDefinition"]) or self.unsigned()
        if k == "enum":
            return self.ref(m, ["Enumerated"]) or boolean()
        if k == "seq":
            return self.ref(m, ["Sequence"]) or self.unsigned()
        if k == "array":
            e = r.choice(["bool", "alias", "posix", "enum", "seq"])
            t = None
            if e == "alias":
                t = self.ref(m, ["SimpleDefinition"])
            elif e == "posix":
                t = self.posix(m)
            elif e == "enum":
                t = self.ref(m, ["Enumerated"])
            elif e == "seq" and not self.cosmos:
                t = self.ref(m, ["Sequence"])
            return array(self.length(), t or boolean())
        return self.unsigned()

    # ---- definitions
    def enumeration(self):
        n = self.r.choice([2, 2, 3, 4, 5, 8, 9, 17])
        taken = []
        ps = [None] * n
        x = self.r.random()
        if x < 0.35:
            ps = list(range(n))
            if x < 0.25:
                self.r.shuffle(ps)
        items = []
        for p in ps:
            it = dict(key=self.key(taken))
            if p is not None:
                it["pos"] = K(p)
            c = self.com(0.2)
            if c is not None:
                it["comment"] = c
            items.append(it)
        return enum(self.fresh("cap", "E"), items, comment=self.com())

    def value(self, t):
        """A value for a component of type node t, or None if the type takes none."""
        n = t.attrs["type_name"]
        if isinstance(n, Node):
            return None
        if n is BOOL:
            return None if self.binary else K(self.r.choice(["TRUE", "FALSE"]))
        if n is INT or n is REAL:
            b, e = t.attrs.get("begin"), t.attrs.get("end")
            self.n += 1
            if n is INT:
                if self.r.random() < 0.4:
                    v = isym("v%d" % self.n)
                    lo, hi = ops.interval(b), ops.interval(e)
                    if lo is None or hi is None:
                        lo, hi = self.iv.get(b, (kv(b),) * 2 if isK(b) else (0, 0)), self.iv.get(e, (kv(e),) * 2 if isK(e) else (1, 1))
                    self.iv[v] = (max(lo[0], -2**63), max(hi[1], lo[0]))
                    return v
                return K(self.r.choice([0, 1, 2, 3, 7])) if self.r.random() < 0.8 or not isK(b) else b
            return K(self.r.choice([0.0, 1.5, -2.25, 100.0])) if self.r.random() < 0.5 else fsym("w%d" % self.n)
        if n in POSIXK:
            self.n += 1
            if kv(n) in ("Float", "Double"):
                return K(0.5)
            return K(self.r.choice([0, 1, 5]))
        return None

    def find(self, name):
        for o in self.mods:
            for d in o["defs"]:
                if d.attrs["type_name"] is name:
                    return d
        return None

    def comps(self, d, depth=0):
        """A constraint for a sequence, or None."""
        items = []
        if self.cmd == "generate-cfs" and d.attrs["type_name"] in HEADK:
            return None
        for p in d.attrs["seq"]:
            if p.attrs.get("with_components") is not None:
                continue
            t = p.attrs["asn_type"]
            n = t.attrs["type_name"]
            s = self.find(n) if isinstance(n, Term) and n not in POSIXK else None
            if s is not None and s.rule == "Sequence":
                if depth < 3 and self.r.random() < 0.6:
                    c = self.comps(s, depth + 1)
                    if c is not None:
                        items.append((p.attrs["key"], c) + self.ccom())
                continue
            if self.r.random() < 0.7:
                v = self.value(t)
                if v is not None:
                    items.append((p.attrs["key"], v) + self.ccom())
        if not items:
            return None
        if self.r.random() < 0.5:
            self.r.shuffle(items)
        return wcomp(items, comment=self.com(0.1))

    def ccom(self):
        c = self.com(0.15)
        return (c,) if c is not None else ()

    def encodable(self, d):
        """Can each component of this sequence be given in binary?"""
        return d.attrs["type_name"] in self.plain

    def sequence(self, m):
        taken = []
        ms = []
        plain = self.binary and self.r.random() < 0.6
        seqs = 0
        for _ in range(self.r.choice([1, 2, 2, 3, 3, 4, 5, 6])):
            if plain:
                t = self.bintype(m) if self.r.random() < 0.7 else None
                if t is None:
                    own = [d for d in m["defs"] if d.rule == "Sequence" and self.encodable(d)]
                    t = typ(self.r.choice(own).attrs["type_name"]) if own and seqs < 2 else self.bintype(m)
            else:
                t = self.member_type(m, simple_only=seqs >= 2)
            n = t.attrs["type_name"]
            s = self.find(n) if isinstance(n, Term) else None
            d = dict(key=self.key(taken), t=t)
            if s is not None and s.rule == "Sequence":
                seqs += 1
                if not plain and self.r.random() < 0.6 and (not self.binary or self.encodable(s)):
                    c = self.comps(s)
                    if c is not None:
                        d["wc"] = c
            c = self.com()
            if c is not None:
                d["comment"] = c
            ms.append(d)
        name = self.fresh("cap", "S")
        if plain:
            self.plain.add(name)
        return seq(name, ms, comment=self.com())

    def alternatives(self, m):
        taken = []
        ms = []
        for _ in range(self.r.choice([1, 2, 3, 4])):
            t = self.r.choice([lambda: self.unsigned(), boolean, lambda: self.ref(m, ["Sequence", "Enumerated"]) or boolean()])()
            d = dict(key=self.key(taken), t=t)
            c = self.com()
            if c is not None:
                d["comment"] = c
            ms.append(d)
        return choice(self.fresh("cap", "C"), ms, comment=self.com())

    def ccsds(self, m):
        r = self.r
        KEYS = CCSDS
        m["defs"] += [
            seq(K("Ident"), [(K("packet-version-number"), u(3)), (K("packet-type-is-cmd"), boolean()),
                             (K("sec-hdr-flag-is-present"), boolean()), (K("application-process-identifier"), u(11))]),
            seq(K("Prim"), [(K("packet-identification"), typ(K("Ident"))), (low("hlen") if not self.ground else K("hlen"), u(16))]),
            seq(K("Head"), [(K("primary"), typ(K("Prim")))])]
        self.header = m

    def message(self, m):
        r = self.r
        ks = ["packet-version-number", "packet-type-is-cmd", "sec-hdr-flag-is-present", "application-process-identifier"]
        r.shuffle(ks)
        items = []
        for k in ks[:r.choice([4, 4, 4, 3, 1])]:
            if k in ("packet-type-is-cmd", "sec-hdr-flag-is-present"):
                v = K(r.choice(["TRUE", "FALSE"]))
            else:
                v = K(r.randrange(8 if k.startswith("packet") else 2048))
            items.append((K(k), v) + self.ccom())
        wc = wcomp([(K("primary"), wcomp([(K("packet-identification"), wcomp(items))]))])
        taken = []
        ms = [dict(key=self.key(taken), t=self.member_type(m)) for _ in range(r.choice([0, 1, 2, 3]))]
        d = dict(key=self.key(taken), t=typ(K("Head")), wc=wc)
        c = self.com()
        if c is not None:
            d["comment"] = c
        ms.insert(r.randrange(len(ms) + 1), d)
        self.use(m, self.header, K("Head"))
        return seq(self.fresh("cap", "M"), ms, comment=self.com())

    def build(self):
        r = self.r
        self.plain = set()
        for i in range(self.nmods):
            m = dict(name=self.fresh("low", "mod"), defs=[], imports={}, level=i, nosort=[])
            self.mods.append(m)
            if not self.binary and not self.header and r.random() < 0.3:
                self.ccsds(m)
            for _ in range(r.randrange(1, self.maxdefs + 1)):
                k = r.choice(["seq", "seq", "seq", "seq", "enum", "alias", "choice", "msg"])
                if k == "enum":
                    m["defs"].append(self.enumeration())
                elif k == "alias":
                    t = r.choice([self.unsigned, self.unsigned, self.signed, self.real, lambda: self.real(True)])()
                    m["defs"].append(simple(self.fresh("cap", "A"), t, comment=self.com()))
                elif k == "choice":
                    m["defs"].append(self.alternatives(m))
                elif k == "msg" and self.header and (self.header is m or not self.binary):
                    m["defs"].append(self.message(m))
                else:
                    m["defs"].append(self.sequence(m))
            if not any(d.rule == "Sequence" for d in m["defs"]) and r.random() < 0.6 or not m["defs"] or i == self.nmods - 1:
                m["defs"].append(self.sequence(m))
            # names that are imported and not used
            for o in self.mods[:-1]:
                if r.random() < 0.15:
                    self.use(m, o, r.choice(o["defs"]).attrs["type_name"])
        for m in self.mods:
            if r.random() < 0.8:
                r.shuffle(m["defs"])
        self.order = list(self.mods)
        r.shuffle(self.order)

    # ---- result
    def modules(self):
        out = []
        for m in self.order:
            its = []
            names = list(m["imports"].items())
            self.r.shuffle(names)
            for n, ds in names:
                ds = list(ds)
                self.r.shuffle(ds)
                if len(ds) > 1 and self.r.random() < 0.1:
                    its.append(imp(ds[:1], n, comment=self.com(0.2)))
                    ds = ds[1:]
                its.append(imp(ds, n, comment=self.com(0.2)))
            kw = {}
            if its:
                c = self.com(0.2)
                if c is not None:
                    kw["comment_import"] = c
            out.append(module(m["name"], m["defs"], imports=its, comment=self.com(0.3), **kw))
        return out

    def facts(self):
        return {"iv": dict(self.iv)}


HEADK = {K("Ident"), K("Prim"), K("Head")}
POSIXK = {K(x) for x in POSIX}
RESERVED = {"Ident", "Prim", "Head", "hlen", "Null", "Boolean"}


def scenario(ctx, cmd, i, tag="", change=None, endian=None, small=None):
    """The i-th mixed bundle of a command (with a change, if one is given): (scenario, label) or None."""
    for t in range(20):
        rng = random.Random("%s/%s/%s/%d/%d" % (ctx.seed, tag, cmd, i, t))
        g = Gen(rng, cmd, ground=i % 2 == 1, small=bool(small) or i % 3 == 0)
        mods = g.modules()
        kw = {}
        lab = ""
        if cmd == "generate-cosmos":
            cand = [m for m in mods if any(d.rule == "Sequence" for d in m.attrs["definitions"])]
            m = rng.choice(cand)
            ss = [d.attrs["type_name"] for d in m.attrs["definitions"] if d.rule == "Sequence"]
            rng.shuffle(ss)
            kw = dict(module=m.attrs["module_name"], msgs=ss[:rng.randrange(1, len(ss) + 1)])
            if g.ground and rng.random() < 0.7:
                kw["options"] = {"--output-file-name": K(rng.choice(FILES + BLANKS if tag == "C25" else FILES))}
        else:
            req = [m.attrs["module_name"] for m in mods]
            rng.shuffle(req)
            kw = dict(requested=req)
            if cmd == "generate-binary":
                kw["endian"] = rng.choice(["little-endian", "big-endian"])
        if change is not None:
            res = change(rng, g, mods, kw)
            if res is None:
                continue
            lab = res
        sc = ctx.scen(cmd, mods, facts=g.facts(), **kw)
        sc.gen = g
        return sc, "%s: mixed bundle %d%s" % (cmd, i, " with " + lab if lab else "")
    return None


# --------------------------------------------------------- planted defects
def all_types(mods, arrays=True):
    """(module, holder node) of every type node of members, alternatives, array elements and simple definitions"""
    for m in mods:
        for d in m.attrs["definitions"]:
            for p in list(d.attrs.get("seq", ())) + list(d.attrs.get("choice", ())):
                yield m, d, p
            if d.rule == "SimpleDefinition" and d.attrs["type_name"] not in POSIXK:
                yield m, d, d


def set_type(rng, h, t):
    a = h.attrs["asn_type"].attrs["type_name"]
    if isinstance(a, Node) and a.rule == "Array" and rng.random() < 0.7:
        a.attrs["asn_type"] = t
        return "array element"
    h.attrs["asn_type"] = t
    h.attrs.pop("with_components", None)
    return "type of %s" % show(h.attrs.get("key") or h.attrs.get("type_name"))


def dup_definition(rng, g, mods, kw):
    src = rng.choice([(m, d) for m in mods for d in m.attrs["definitions"]])
    dst = rng.choice(mods)
    n = src[1].attrs["type_name"]
    if isK(n) and n in POSIXK:
        d = posix(kv(n))
    else:
        d = definition(rng.choice(KINDS), n, "dup")
    ds = list(dst.attrs["definitions"])
    ds.insert(rng.randrange(len(ds) + 1), d)
    dst.attrs["definitions"] = ds
    return "a second definition of %s in %s" % (show(n), show(dst.attrs["module_name"]))


def dup_module(rng, g, mods, kw):
    o = rng.choice(mods).attrs["module_name"]
    mods.insert(rng.randrange(len(mods) + 1), module(o, [filler("Extra", "ex")]))
    return "a second module %s" % show(o)


def bad_request(rng, g, mods, kw):
    req = list(kw["requested"])
    k = rng.choice(["missing", "more", "twice", "other"])
    x = low("nomodule")
    if k == "missing":
        if len(req) == 1:
            return None
        req.pop(rng.randrange(len(req)))
    elif k == "more":
        req.insert(rng.randrange(len(req) + 1), x)
    elif k == "twice":
        req.insert(rng.randrange(len(req) + 1), rng.choice(req))
    else:
        req[rng.randrange(len(req))] = x
    kw["requested"] = req
    return "requested modules: %s" % k


def bad_import(rng, g, mods, kw):
    m = rng.choice(mods)
    its = list(m.attrs.get("import_items", ()))
    k = rng.choice(["unknown module", "undefined name", "name of another module", "two undefined names"])
    U = cap("Undef")
    if k == "unknown module":
        its.insert(rng.randrange(len(its) + 1), imp([U], low("nomodule")))
    else:
        if its and rng.random() < 0.7:
            it = rng.choice(its)
        else:
            o = [x for x in mods if x is not m]
            if not o:
                return None
            it = imp([], rng.choice(o).attrs["module_name"])
            its.insert(rng.randrange(len(its) + 1), it)
        src = it.attrs["module_name"]
        ds = list(it.attrs["definitions"])
        new = [U]
        if k == "two undefined names":
            new = [U, cap("Undeg")]
        elif k == "name of another module":
            c = [d.attrs["type_name"] for x in mods if x.attrs["module_name"] is not src for d in x.attrs["definitions"]
                 if d.attrs["type_name"] not in ds]
            if not c:
                return None
            new = [rng.choice(c)]
        for n in new:
            ds.insert(rng.randrange(len(ds) + 1), n)
        it.attrs["definitions"] = ds
    m.attrs["import_items"] = its
    return "%s imported by %s" % (k, show(m.attrs["module_name"]))


def bad_reference(rng, g, mods, kw):
    c = list(all_types(mods))
    if not c:
        return None
    m, d, h = rng.choice(c)
    vis = {x.attrs["type_name"] for x in m.attrs["definitions"]}
    for it in m.attrs.get("import_items", ()):
        vis |= set(it.attrs["definitions"])
    k = rng.choice(["undefined", "undefined POSIX", "of another module"])
    if k == "undefined":
        n = cap("Undef")
    elif k == "undefined POSIX":
        c = [x for x in sorted(POSIX) if K(x) not in vis]
        if not c:
            return None
        n = K(rng.choice(c))
    else:
        c = [x.attrs["type_name"] for o in mods for x in o.attrs["definitions"] if x.attrs["type_name"] not in vis]
        if not c:
            return None
        n = rng.choice(c)
    return "%s type %s as %s" % (k, show(n), set_type(rng, h, typ(n)))


def constraints(mods):
    for m in mods:
        for d in m.attrs["definitions"]:
            for p in d.attrs.get("seq", ()):
                w = p.attrs.get("with_components")
                if w is not None:
                    yield from subconstraints(w)


def subconstraints(w):
    for c in w.attrs["components"]:
        yield w, c
        if isinstance(c.attrs["value"], Node):
            yield from subconstraints(c.attrs["value"])


def bad_component(rng, g, mods, kw):
    c = list(constraints(mods))
    if not c:
        return None
    w, x = rng.choice(c)
    k = low("wrongkey")
    if rng.random() < 0.6:
        x.attrs["key"] = k
        return "an unknown component"
    its = list(w.attrs["components"])
    n = wcomp([(k, K(1))]).attrs["components"][0]
    pos = rng.randrange(len(its) + 1)
    its.insert(pos, n)
    w.attrs["components"] = [retag(y, j == len(its) - 1) for j, y in enumerate(its)]
    return "one component too many"


def retag(n, last):
    n.rule = "ComponentsItemLast" if last else "ComponentsItemNotLast"
    return n


def null_type(rng, g, mods, kw):
    c = list(all_types(mods))
    if not c:
        return None
    m, d, h = rng.choice(c)
    return "NULL as %s" % set_type(rng, h, typ(K("NULL")))


def bad_range(rng, g, mods, kw):
    c = [x for x in all_types(mods)]
    if not c:
        return None
    m, d, h = rng.choice(c)
    b, e = isym("rb"), isym("re")
    lo = rng.choice([(-2**20, -1), (0, 0), (1, 2**20)])
    k = rng.choice(["int", "int", "real", "inf"])
    if k == "int":
        x = rng.randrange(lo[0], lo[1] + 1)
        t = typ(INT, K(x), K(x - rng.choice([1, 1, 2, 100])))
    elif k == "real":
        x = rng.choice([0.0, 1.5, -1.5, 1e30, -1e300])
        t = typ(REAL, K(x), K(x - abs(x) * 0.5 - 0.25))
    else:
        t = typ(REAL, *rng.choice([(K(-INF), K(0.0)), (K(0.0), K(INF)), (K(-INF), K(INF))]))
    h.attrs["asn_type"] = t
    h.attrs.pop("with_components", None)
    return "the range %s .. %s" % (show(t.attrs["begin"]), show(t.attrs["end"]))


def bad_posix(rng, g, mods, kw):
    have = {d.attrs["type_name"]: d for m in mods for d in m.attrs["definitions"]}
    n = rng.choice(sorted(POSIX))
    fl = n in ("Float", "Double")
    lo, hi = RANGES[n]
    if fl:
        b, e = rng.choice([(lo / 2, hi), (lo, hi / 2), (0.0, hi), (lo, 0.0)])
    else:
        b, e = rng.choice([(lo + 1, hi), (lo, hi - 1), (lo - 1, hi), (lo, hi + 1), (0, 1), (lo - 1, hi + 1)])
    t = typ(REAL if fl else INT, K(b), K(e))
    if K(n) in have:
        have[K(n)].attrs["asn_type"] = t
    else:
        m = rng.choice(mods)
        ds = list(m.attrs["definitions"])
        ds.insert(rng.randrange(len(ds) + 1), simple(K(n), t, comment=g.com()))
        m.attrs["definitions"] = ds
    return "%s (%s..%s)" % (n, b, e)


def bad_positions(rng, g, mods, kw):
    c = [d for m in mods for d in m.attrs["definitions"] if d.rule == "Enumerated"]
    if not c:
        return None
    d = rng.choice(c)
    it = d.attrs["enum"]
    n = len(it)
    ps = list(range(n))
    rng.shuffle(ps)
    k = rng.choice(["gap", "repeated", "negative", "shifted"])
    i = rng.randrange(n)
    if k == "gap":
        ps[i] = n + rng.randrange(3)
    elif k == "repeated":
        j = rng.randrange(n)
        if j == i:
            return None
        ps[i] = ps[j]
    elif k == "negative":
        ps[i] = -ps[i] - rng.choice([0, 1])
    else:
        ps = [p + 1 for p in ps]
    if sorted(ps) == list(range(n)) or not any(ps):
        return None
    for x, p in zip(it, ps):
        x.attrs["pos"] = K(p)
    return "positions %s (%s)" % (ps, k)


def bad_comment(rng, g, mods, kw):
    c = []
    for m in mods:
        c.append((m, "comment"))
        if m.attrs.get("import_items"):
            c.append((m, "comment_import"))
        for i in m.attrs.get("import_items", ()):
            c.append((i, "comment"))
        for d in m.attrs["definitions"]:
            c.append((d, "comment"))
            for a in ("seq", "choice", "enum"):
                for p in d.attrs.get(a, ()):
                    c.append((p, "comment"))
    for w, x in constraints(mods):
        c.append((x, "comment"))
        c.append((w, "comment"))
    n, a = rng.choice(c)
    s = rng.choice(["[", "]", "--"])
    t = rng.choice([Cat(txt("bp"), K(s), txt("bq")), Cat(txt("bp"), K(s)), Cat(K(s), txt("bq")), K(s), K("x %s y" % s)])
    un = txt("bu") if rng.random() < 0.3 else None
    n.attrs[a] = comment(t, un, K(True) if rng.random() < 0.2 else None)
    return "'%s' in the %s of a %s" % (s, a, n.rule)


DEFECT = {"C02": [dup_definition], "C03": [dup_module, bad_request], "C04": [bad_import], "C05": [bad_reference],
          "C06": [bad_component], "C07": [null_type], "C08": [bad_range], "C09": [bad_posix], "C10": [bad_positions],
          "C28": [bad_comment]}
DEFECT["C01"] = [f for x in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C28") for f in DEFECT[x]]


# ------------------------------------------------------- specifications
def c_enum(fs, tx, cmd, sc):
    if cmd == "generate-cosmos":
        spec.cosmos(fs, tx, sc, ("attrs",))
    else:
        spec.enums(fs, tx, cmd, sc)


def msgids(ctx, sc):
    from .rules_c import c17_spec, mid_value
    m = Model(sc)
    want = {}
    short = {"packet-version-number": "ver", "packet-type-is-cmd": "typ", "sec-hdr-flag-is-present": "sec",
             "application-process-identifier": "apid"}

    def walk(P, w, out):
        for c in w.attrs["components"]:
            k, v = c.attrs["key"], c.attrs["value"]
            if k is K("primary"):
                for i in v.attrs["components"]:
                    vals = {short[kv(x.attrs["key"])]: x.attrs["value"] for x in i.attrs["value"].attrs["components"]}
                    out.append((Cat(ops.Upper(cn(P)), K("_MID")), mid_value(ctx, vals)))
            elif isinstance(v, Node):
                walk(P, v, out)
            else:
                val = "true" if v is K("TRUE") else "false" if v is K("FALSE") else v
                out.append((ops.Upper(Cat(cn(P), K("_"), cn(k))), val))
    for mod in m.mods:
        out = []
        for d, p in spec.constrained(m, mod):
            walk(d.attrs["type_name"], p.attrs["with_components"], out)
        if out:
            want[mod.attrs["module_name"]] = out
    f = c17_spec(want)

    def g(fs, tx, cmd, sc_):
        for mod in m.mods:
            if not want.get(mod.attrs["module_name"]):
                # nothing constrained: the file may be absent
                n = tx.render(Cat(cn(mod.attrs["module_name"]), K("_msgids.h")))
                if n not in fs.names():
                    want.pop(mod.attrs["module_name"], None)
        f(fs, tx, cmd, sc_)
    return g


def everything(fs, tx, cmd, sc):
    spec.definitions(fs, tx, cmd, sc)
    spec.fields(fs, tx, cmd, sc, ("fields", "types"))
    spec.enums(fs, tx, cmd, sc)
    spec.guards(fs, tx, cmd, sc, ("guard", "include"))
    if cmd == "generate-c":
        spec.inits(fs, tx, cmd, sc)


SPEC = {
    "C10": (COMMANDS, c_enum),
    "C11": (["generate-cosmos"], lambda fs, tx, cmd, sc: spec.cosmos(fs, tx, sc, ("items",))),
    "C12": (CLIKE, spec.definitions),
    "C13": (CLIKE, lambda fs, tx, cmd, sc: spec.fields(fs, tx, cmd, sc, ("fields", "comments"))),
    "C14": (CLIKE, lambda fs, tx, cmd, sc: spec.fields(fs, tx, cmd, sc, ("types",))),
    "C15": (CLIKE, spec.enums),
    "C16": (CLIKE, spec.guards),
    "C18": (["generate-c"], spec.inits),
    "C20": (["generate-cosmos"], lambda fs, tx, cmd, sc: spec.cosmos(fs, tx, sc, ("items",))),
    "C21": (["generate-cosmos"], lambda fs, tx, cmd, sc: spec.cosmos(fs, tx, sc, ("attrs",))),
    "C22": (["generate-cosmos"], lambda fs, tx, cmd, sc: spec.cosmos(fs, tx, sc, ("packets",))),
    "C26": (CLIKE, everything),
    "C28": (COMMANDS, lambda fs, tx, cmd, sc: spec.cosmos(fs, tx, sc, ("attrs",)) if cmd == "generate-cosmos"
            else spec.fields(fs, tx, cmd, sc, ("comments",))),
}
# (quick, thorough) number of bundles per command
COUNT = {"default": (160, 1500), "C24": (120, 800), "C23": (120, 800), "C27": (80, 400)}


def number(ctx):
    q = os.environ.get("APGSA_MIX")
    if q:
        return int(q)
    a, b = COUNT.get(ctx.prop, COUNT["default"])
    return b if ctx.deep else a


def mixed(ctx):
    p = ctx.prop
    n = number(ctx)
    if p in SPEC:
        cs, f = SPEC[p]
        k = n * 4 // len(cs) if len(cs) < 3 else n
        for cmd in cs:
            for i in range(k):
                if not ctx.mine():
                    ctx.late()
                    continue
                s = scenario(ctx, cmd, i)
                if s is None:
                    ctx.late()
                    continue
                sc, lab = s
                ctx.output(sc, lab, lambda fs, tx: f(fs, tx, cmd, sc))
    if p in DEFECT:
        for cmd in COMMANDS:
            fs_ = [f for f in DEFECT[p] if not (f is bad_request and cmd == "generate-cosmos")]
            for i in range(n):
                if not ctx.mine():
                    ctx.late()
                    continue
                s = scenario(ctx, cmd, i, tag="bad", change=fs_[i % len(fs_)] if len(fs_) < 3 else fs_[(i // 2) % len(fs_)])
                if s is None:
                    ctx.late()
                    continue
                ctx.rejects(s[0], s[1])
        if p != "C01" and p not in SPEC:
            for cmd in COMMANDS:
                for i in range(n // 2):
                    if not ctx.mine():
                        ctx.late()
                        continue
                    s = scenario(ctx, cmd, i)
                    if s is None:
                        ctx.late()
                        continue
                    ctx.accepts(s[0], s[1])
    if p == "C17":
        for i in range(n * 4):
            if not ctx.mine():
                ctx.late()
                continue
            sc, lab = scenario(ctx, "generate-cfs", i)
            g = msgids(ctx, sc)
            ctx.output(sc, lab, lambda fs, tx: g(fs, tx, "generate-cfs", sc))
    if p == "C19":
        from .rules_c import binaries
        for i in range(n * 4):
            if not ctx.mine():
                ctx.late()
                continue
            sc, lab = scenario(ctx, "generate-binary", i)
            ctx.output(sc, lab, lambda fs, tx: binaries(fs, tx, "generate-binary", sc))
    if p == "C23":
        from .rules_misc import unchanged
        for cmd in COMMANDS:
            for i in range(n // 2):
                if not ctx.mine():
                    ctx.late()
                    continue
                sc, lab = scenario(ctx, cmd, i)
                unchanged(ctx, sc, lab)
    if p == "C24":
        from .rules_misc import nondet, contents, compare, where_raise
        for cmd in COMMANDS:
            for i in range(n // 4):
                if ctx.late():
                    continue
                sc, lab = scenario(ctx, cmd, i)
                sets(ctx, sc, lab)
    if p == "C25":
        from .rules_misc import where_written
        for cmd in COMMANDS:
            for i in range(n):
                if not ctx.mine():
                    ctx.late()
                    continue
                sc, lab = scenario(ctx, cmd, i, tag="C25")
                where_written(ctx, sc, lab)


def sets(ctx, sc, nm):
    from .rules_misc import nondet, contents, compare, where_raise
    nondet(ctx, sc, "no clock, randomness, identity or environment: " + nm)
    a = contents(ctx, sc, set_order="fwd")
    b = contents(ctx, sc, set_order="rev")
    name = "independent of the order of sets: " + nm
    if a[1] or b[1]:
        if bool(a[1]) != bool(b[1]) and not (a[0].notes or b[0].notes or a[0].error or b[0].error):
            ctx.ob(name, "violated", "fails only in one iteration order of sets: %s" % (a[1] or b[1]),
                   where_raise(a[0] if a[1] else b[0]), sc)
        else:
            ctx.ob(name, "undecided", a[1] or b[1], None, sc)
        return
    compare(ctx, name, sc, a[2], b[2], ("in one iteration order of a set", "in another"))
