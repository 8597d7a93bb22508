"""What the outputs have to be, computed from the scenario alone, and the
comparison with the analysed output."""
from .terms import T, mk, K, isK, kv, Cat, show
from . import ops
from .ops import Replace, Upper, Lower1, StrOf, BitLen
from .textxm import Node
from .core import Bad, Undecided, need, same, OUT, OFN
from .cparse import parse_c, parse_cosmos

US, DASH = K("_"), K("-")
POSIX_INT = {"Int8-t": "int8_t", "Int16-t": "int16_t", "Int32-t": "int32_t", "Int64-t": "int64_t",
             "Uint8-t": "uint8_t", "Uint16-t": "uint16_t", "Uint32-t": "uint32_t", "Uint64-t": "uint64_t"}
FMAX = 3.4e38
STDINT = set(POSIX_INT.values())


def cn(t):
    return Replace(t, DASH, US)


def header_name(cmd, m):
    return Cat(cn(m), K("_msg.h" if cmd == "generate-cfs" else ".h"))


def at(n, a, d=None):
    return n.attrs.get(a, d)


class Model:
    """The bundle a scenario describes."""

    def __init__(self, sc):
        self.sc = sc
        self.mods = [m for _, m in sc.modules]
        self.byname = {m.attrs["module_name"]: m for m in self.mods}
        self.defs = {}
        for m in self.mods:
            for d in m.attrs["definitions"]:
                self.defs[d.attrs["type_name"]] = (m, d)

    def own(self, m):
        return m.attrs["definitions"]

    def lookup(self, name):
        return self.defs.get(name)

    # ---- numbers
    def bounds(self, t):
        return at(t, "begin"), at(t, "end")

    def unsigned(self, b):
        iv = ops.interval(b)
        if iv is None:
            raise Undecided("sign of %s" % show(b))
        if iv[0] >= 0:
            return True
        if iv[1] < 0:
            return False
        raise Undecided("sign of %s" % show(b))

    def width(self, t):
        """(category, bits) of a scalar type node; bits is an int."""
        n = at(t, "type_name")
        if isinstance(n, Node):
            if n.rule == "Asn1String":
                return "STRING", ops.Mul(K(8), n.attrs["length"])
            return self.width(n.attrs["asn_type"])
        b, e = self.bounds(t)
        if n is K("INTEGER"):
            if self.unsigned(b):
                return "UINT", BitLen(e)
            lo, hi = ops.interval(b)[0], ops.interval(e)[1]
            for w in (8, 16, 32, 64):
                if lo >= -2**(w - 1) and hi <= 2**(w - 1) - 1:
                    return "INT", K(w)
            return "INT", None
        if n is K("REAL"):
            lo, hi = ops.interval(b), ops.interval(e)
            if lo[0] >= -FMAX and hi[1] <= FMAX:
                return "FLOAT", K(32)
            if lo[1] < -FMAX or hi[0] > FMAX:
                return "DOUBLE", K(64)
            raise Undecided("REAL range")
        if n is K("BOOLEAN"):
            return "BOOL", K(1)
        d = self.lookup(n)
        if d is None:
            return None, None
        d = d[1]
        if d.rule == "SimpleDefinition":
            return self.width(d.attrs["asn_type"])
        if d.rule == "Enumerated":
            return "UINT", K((len(d.attrs["enum"]) - 1).bit_length())
        return d.rule, None

    def enum_items(self, d):
        """(key term, value) in order of value."""
        it = d.attrs["enum"]
        pos = [at(i, "pos") for i in it]
        if any(p is not None and kv(p) for p in pos):
            o = sorted(range(len(it)), key=lambda i: kv(pos[i]))
        else:
            o = range(len(it))
        return [(it[i].attrs["key"], v) for v, i in enumerate(o)]

    # ---- C
    def cfield(self, t):
        """(type term or None, bits: None / text / 'free', dimension term or None, uses stdint)"""
        n = at(t, "type_name")
        if isinstance(n, Node):
            if n.rule == "Asn1String":
                return K("char"), None, n.attrs["length"], False
            inner = n.attrs["asn_type"]
            ty, bits, _, std = self.cfield(inner)
            m = at(inner, "type_name")
            d = self.lookup(m) if isinstance(m, T) else None
            if d is not None and d[1].rule == "Enumerated":
                bits = None
            return ty, bits, n.attrs["length"], std
        if n is K("BOOLEAN"):
            return K("uint8_t"), "1", None, True
        if n is K("INTEGER"):
            return self.cnum(t)
        if n is K("REAL"):
            return self.cnum(t)
        if isK(n) and kv(n) in POSIX_INT:
            return K(POSIX_INT[kv(n)]), None, None, True
        d = self.lookup(n)
        if d is not None and d[1].rule == "SimpleDefinition":
            st = d[1].attrs["asn_type"]
            sn = at(st, "type_name")
            if sn is K("INTEGER") or sn is K("REAL"):
                return self.cnum(st)
            return None, "free", "free", None
        if d is not None and d[1].rule == "Enumerated":
            return cn(n), str(kv(self.width(t)[1])), None, False
        return cn(n), None, None, False

    def cnum(self, t):
        c, w = self.width(t)
        if c in ("FLOAT", "DOUBLE"):
            return K(c.lower()), None, None, False
        if c == "INT":
            return None, "free", None, None
        if not isK(w):
            raise Undecided("width of %s" % show(at(t, "end")))
        w = kv(w)
        for x in (8, 16, 32, 64):
            if w <= x:
                return K("uint%d_t" % x), None if w == x else str(w), None, True
        return None, "free", None, None


def headers(fs, tx, cmd, sc):
    m = Model(sc)
    out = []
    for mod in m.mods:
        s, where = fs.text(header_name(cmd, mod.attrs["module_name"]))
        h = parse_c(s, where)
        h.where = where
        h.text = s
        out.append((m, mod, h))
    return out


def eq(tx, a, b):
    r = same(tx, a, b)
    if r is None:
        raise Undecided("%s against %s" % (a, b))
    return r


def decl(tx, h, kinds, name):
    n = tx.render(name)
    hit = [d for d in h.decls if d.kind in kinds and eq(tx, d.name, n)]
    if not hit:
        raise Bad("no %s %s in the header" % ("/".join(kinds), n), h.where)
    if len(hit) > 1:
        raise Bad("%s %s is declared %d times" % ("/".join(kinds), n, len(hit)), h.where)
    return hit[0]


KIND = {"Sequence": ("struct",), "Enumerated": ("enum",), "Choice": ("union",)}


# --------------------------------------------------------------- C12
def uses(d):
    """Names a definition refers to."""
    out = []
    for a in ("seq", "choice"):
        for p in d.attrs.get(a, ()):
            n = p.attrs["asn_type"].attrs["type_name"]
            while isinstance(n, Node) and n.rule == "Array":
                n = n.attrs["asn_type"].attrs["type_name"]
            if isinstance(n, T):
                out.append(n)
    return out


def definitions(fs, tx, cmd, sc):
    """Every definition once, after what it uses, nothing else."""
    for m, mod, h in headers(fs, tx, cmd, sc):
        got = [d for d in h.decls if d.kind in ("struct", "enum", "union")]
        place = {}
        for d in m.own(mod):
            if d.rule == "SimpleDefinition":
                continue
            x = decl(tx, h, ("struct", "enum", "union"), cn(d.attrs["type_name"]))
            if x.kind not in KIND[d.rule]:
                raise Bad("%s is written as a %s" % (x.name, x.kind), h.where)
            place[d.attrs["type_name"]] = got.index(x)
        if len(got) != len(place):
            names = [tx.render(cn(n)) for n in place]
            more = [d.name for d in got if d.name not in names]
            raise Bad("header of %s also declares %s" % (show(mod.attrs["module_name"]), ", ".join(more)), h.where)
        for d in m.own(mod):
            for n in uses(d):
                if n in place and d.attrs["type_name"] in place and n is not d.attrs["type_name"]:
                    if place[n] > place[d.attrs["type_name"]]:
                        raise Bad("%s is declared before %s, which it uses" % (
                            tx.render(cn(d.attrs["type_name"])), tx.render(cn(n))), h.where)


# --------------------------------------------------------- C13, C14
def words(tx, node):
    """Texts of a comment node that have to appear."""
    c = at(node, "comment")
    if c is None:
        return []
    return [tx.render(x) for x in (at(c, "unit"), at(c, "comment")) if x is not None and x is not K("")]


def all_words(tx, m):
    out = {}
    for mod in m.mods:
        for d in m.own(mod):
            for w in words(tx, d):
                out.setdefault(w, []).append(d)
            for a in ("seq", "choice", "enum"):
                for p in d.attrs.get(a, ()):
                    for w in words(tx, p):
                        out.setdefault(w, []).append(p)
    return out


def fields(fs, tx, cmd, sc, what=("fields", "types", "comments")):
    for m, mod, h in headers(fs, tx, cmd, sc):
        allw = all_words(tx, m)
        std = False
        for d in m.own(mod):
            if d.rule != "Sequence":
                continue
            x = decl(tx, h, ("struct",), cn(d.attrs["type_name"]))
            ms = d.attrs["seq"]
            if len(x.fields) != len(ms):
                raise Bad("struct %s has %d fields (%s) for %d members" % (
                    x.name, len(x.fields), ", ".join(f.name for f in x.fields), len(ms)), h.where)
            for i, (p, f) in enumerate(zip(ms, x.fields)):
                lab = "field %d of %s" % (i + 1, x.name)
                need(tx, f.name, tx.render(cn(p.attrs["key"])), "name of " + lab, h.where)
                ty, bits, dim, st = m.cfield(p.attrs["asn_type"])
                if "fields" in what and dim != "free":
                    wd = [] if dim is None else [tx.render(StrOf(dim))]
                    if len(wd) != len(f.dims):
                        raise Bad("%s has dimensions %s, expected %s" % (lab, f.dims, wd), h.where)
                    for a, b in zip(f.dims, wd):
                        need(tx, a, b, "array length of " + lab, h.where)
                if "types" in what:
                    std = std or bool(st)
                    if ty is not None:
                        need(tx, f.typ, tx.render(ty), "type of " + lab, h.where)
                    if bits != "free":
                        if (f.bits is None) != (bits is None):
                            raise Bad("%s is %s, expected %s" % (
                                lab, "a bit-field of %s" % f.bits if f.bits else "no bit-field",
                                "a bit-field of %s" % bits if bits else "none"), h.where)
                        if bits is not None:
                            need(tx, f.bits, bits, "bit-field width of " + lab, h.where)
                    if f.typ in STDINT:
                        std = True
                if "comments" in what:
                    text = "\n".join(c.v for c in f.comments)
                    own = words(tx, p)
                    for w in own:
                        if w not in text:
                            raise Bad("the comment before %s lacks '%s'" % (lab, w), h.where)
                    for w, o in allw.items():
                        if w in text and w not in own and p not in o:
                            raise Bad("the comment before %s is that of another element ('%s')" % (lab, w), h.where)
            if "comments" in what:
                text = "\n".join(c.v for c in x.comments)
                own = words(tx, d)[-1:] if at(d, "comment") is not None and at(at(d, "comment"), "comment") is not None else []
                for w in own:
                    if w not in text:
                        raise Bad("the comment before struct %s lacks '%s'" % (x.name, w), h.where)
                for w, o in allw.items():
                    if w in text and d not in o:
                        raise Bad("the comment before struct %s is that of another element ('%s')" % (x.name, w), h.where)
        if "types" in what and std:
            if not any(p[0] == "include" and p[1] == "<stdint.h>" for p in h.pp):
                raise Bad("header of %s uses fixed-width types without stdint.h" % show(mod.attrs["module_name"]), h.where)


# --------------------------------------------------------------- C15
def enums(fs, tx, cmd, sc):
    for m, mod, h in headers(fs, tx, cmd, sc):
        for d in m.own(mod):
            if d.rule != "Enumerated":
                continue
            x = decl(tx, h, ("enum",), cn(d.attrs["type_name"]))
            want = m.enum_items(d)
            check_items(tx, x, want, h.where)
            if "packed" not in x.attrs:
                raise Bad("enum %s is not packed" % x.name, h.where)


def check_items(tx, x, want, where):
    if len(x.items) != len(want):
        raise Bad("enum %s has %d enumerators (%s), expected %d" % (
            x.name, len(x.items), ", ".join(str(i) for i in x.items), len(want)), where)
    for i, ((k, v), (wk, wv)) in enumerate(zip(x.items, want)):
        need(tx, k, tx.render(cn(wk)), "name of enumerator %d of %s" % (i + 1, x.name), where)
        if v is None:
            raise Bad("enumerator %s has no value" % k, where)
        need(tx, v, str(wv), "value of enumerator %s" % k, where)


def enum_values(fs, tx, cmd, sc, want):
    """C10: the values, read off the output of any command."""
    m = Model(sc)
    d = [d for mod in m.mods for d in m.own(mod) if d.rule == "Enumerated"][0]
    if cmd == "generate-cosmos":
        s, where = fs.text(Cat(OFN, K(".txt")))
        ps = parse_cosmos(s, where)
        if len(ps) != 1 or len(ps[0].items) != 1:
            raise Bad("expected one packet with one item", where)
        it = ps[0].items[0]
        if len(it.states) != len(want):
            raise Bad("%d states, expected %d" % (len(it.states), len(want)), where)
        for (a, v), (k, wv) in zip(it.states, want):
            need(tx, a, tx.render(k), "state name", where)
            need(tx, v, str(wv), "value of state %s" % a, where)
        return
    for _, mod, h in headers(fs, tx, cmd, sc):
        if any(x is d for x in m.own(mod)):
            check_items(tx, decl(tx, h, ("enum",), cn(d.attrs["type_name"])), want, h.where)


# --------------------------------------------------------------- C16
def guards(fs, tx, cmd, sc, what=("guard", "include", "packed")):
    seen = {}
    m = Model(sc)
    for f in fs.files:
        name = f[1]
        if not name.endswith(".h"):
            continue
        s, where = tx.render(f[3]), f[4].where
        h = parse_c(s, where)
        if "guard" in what:
            pp = [p for p in h.pp]
            if len(pp) < 3 or pp[0][0] != "ifndef" or pp[1][0] != "define" or pp[-1][0] != "endif":
                raise Bad("%s is not enclosed in an include guard" % name, where)
            if pp[0][3] != 0 or pp[1][3] != 0 or pp[-1][3] != len(h.decls):
                raise Bad("the include guard of %s does not enclose its declarations" % name, where)
            need(tx, pp[1][1], pp[0][1], "guard defined by " + name, where)
            n = split_name(fs, f)
            want = tx.render(Upper(Replace(cn(n), K("."), US)))
            g = pp[0][1]
            if not contains(tx, g, want):
                raise Bad("guard %s of %s is not derived from its file name (%s)" % (g, name, want), where)
            for g2, n2 in seen.items():
                if eq(tx, g, g2):
                    raise Bad("%s and %s have the same guard %s" % (name, n2, g), where)
            seen[g] = name
            if sum(p[0] == "endif" for p in pp) != sum(p[0] in ("ifndef", "ifdef", "if") for p in pp):
                raise Bad("unbalanced conditionals in %s" % name, where)
    for mm, mod, h in headers(fs, tx, cmd, sc):
        if "include" in what:
            inc = [p[1] for p in h.pp if p[0] == "include"]
            for i in mod.attrs.get("import_items", ()):
                w = tx.render(Cat(K('"'), header_name(cmd, i.attrs["module_name"]), K('"')))
                if not any(eq(tx, x, w) for x in inc):
                    raise Bad("header of %s does not include %s" % (show(mod.attrs["module_name"]), w), h.where)
            for x in inc:
                if x.startswith('"'):
                    if not any(eq(tx, x, tx.render(Cat(K('"'), header_name(cmd, i.attrs["module_name"]), K('"'))))
                               for i in mod.attrs.get("import_items", ())):
                        raise Bad("header of %s includes %s, which it does not import" % (
                            show(mod.attrs["module_name"]), x), h.where)
        if "packed" in what:
            for d in h.decls:
                if d.kind == "struct" and "packed" not in d.attrs:
                    raise Bad("struct %s is not packed" % d.name, h.where)
        if "include" in what and cmd == "generate-c":
            s, where = fs.text(Cat(cn(mod.attrs["module_name"]), K(".c")))
            c = parse_c(s, where)
            if any(d.kind == "init" for d in c.decls):
                w = tx.render(Cat(K('"'), header_name(cmd, mod.attrs["module_name"]), K('"')))
                if not any(p[0] == "include" and eq(tx, p[1], w) for p in c.pp):
                    raise Bad("C file of %s does not include its own header (%s)" % (
                        show(mod.attrs["module_name"]), [p[1] for p in c.pp]), where)
                for p in c.pp:
                    if p[0] == "include" and p[1].startswith('"') and not eq(tx, p[1], w):
                        raise Bad("C file of %s includes %s" % (show(mod.attrs["module_name"]), p[1]), where)


def split_name(fs, f):
    from .outp import split_path
    d = split_path(f[5])
    if d is None:
        raise Undecided("path %s" % f[1])
    return d[1]


def contains(tx, s, part):
    if part in s:
        return True
    from .ground import sample, syms
    from .core import expand
    terms = [tx.term(c) for c in s + part if tx.is_ph(c)]
    if not terms:
        return False
    ss = syms(terms)
    try:
        for i in range(8):
            env = {x: sample(x, i) for x in ss}
            if expand(tx, part, env) not in expand(tx, s, env):
                return False
        return True
    except Exception:
        raise Undecided("%s in %s" % (part, s))


# --------------------------------------------------------------- C18
def constrained(m, mod):
    """(sequence, member) pairs with WITH COMPONENTS, in order."""
    return [(d, p) for d in m.own(mod) if d.rule == "Sequence" for p in d.attrs["seq"]
            if at(p, "with_components") is not None]


def tree(tx, wc):
    out = []
    for c in wc.attrs["components"]:
        v = c.attrs["value"]
        k = tx.render(cn(c.attrs["key"]))
        out.append((k, tree(tx, v) if isinstance(v, Node) else cvalue(tx, v)))
    return out


def cvalue(tx, v):
    if v is K("TRUE"):
        return "1"
    if v is K("FALSE"):
        return "0"
    return tx.render(StrOf(v))


def inits(fs, tx, cmd, sc):
    for m, mod, h in headers(fs, tx, cmd, sc):
        s, where = fs.text(Cat(cn(mod.attrs["module_name"]), K(".c")))
        c = parse_c(s, where)
        got = [d for d in c.decls if d.kind == "init"]
        want = constrained(m, mod)
        if len(got) != len(want):
            raise Bad("C file of %s has %d initialisers (%s), expected %d" % (
                show(mod.attrs["module_name"]), len(got), ", ".join(d.name for d in got), len(want)), where)
        used = []
        for d, p in want:
            tn = cn(d.attrs["type_name"])
            t, v = tx.render(tn), tx.render(Lower1(tn))
            exp = [(tx.render(cn(p.attrs["key"])), tree(tx, p.attrs["with_components"]))]
            hit = [x for x in got if x not in used and eq(tx, x.typ, t) and eq(tx, x.name, v) and isinstance(x.value, list)
                   and len(x.value) == 1 and eq(tx, x.value[0][0], exp[0][0])]
            if not hit:
                raise Bad("no initialiser '%s %s' for the member %s" % (t, v, exp[0][0]), where)
            used.append(hit[0])
            cmp_tree(tx, hit[0].value, exp, v, where)
            if not any(x.kind == "var" and eq(tx, x.name, v) and eq(tx, x.typ.replace("extern ", ""), t) for x in h.decls):
                raise Bad("header of %s does not declare '%s %s'" % (show(mod.attrs["module_name"]), t, v), h.where)


def cmp_tree(tx, got, want, path, where):
    if isinstance(got, list) != isinstance(want, list):
        raise Bad("%s is %s, expected %s" % (path, got, want), where)
    if not isinstance(want, list):
        need(tx, got, want, "value of %s" % path, where)
        return
    if len(got) != len(want):
        raise Bad("%s initialises %s, expected %s" % (path, [g[0] for g in got], [w[0] for w in want]), where)
    for (k, v), (wk, wv) in zip(got, want):
        need(tx, k, wk, "designator in %s" % path, where)
        cmp_tree(tx, v, wv, path + "." + k, where)


# ------------------------------------------------------------ C17 helper
def defines(fs, tx, sc, mod):
    s, where = fs.text(Cat(cn(mod.attrs["module_name"]), K("_msgids.h")))
    h = parse_c(s, where)
    return [(p[1], p[2]) for p in h.pp[2:] if p[0] == "define"], where


# ------------------------------------------------------------- COSMOS
class Leaf:
    def __init__(self, member, typ, value, array):
        self.member, self.typ, self.value, self.array = member, typ, value, array


def leaves(m, d, comps):
    """Leaf members of a sequence, with the value a constraint gives them."""
    out = []
    for p in d.attrs["seq"]:
        t = p.attrs["asn_type"]
        n = t.attrs["type_name"]
        mine = [c.attrs["value"] for c in comps if c.attrs["key"] is p.attrs["key"]]
        inner = []
        if at(p, "with_components") is not None:
            inner += p.attrs["with_components"].attrs["components"]
        for v in mine:
            if isinstance(v, Node):
                inner += v.attrs["components"]
        arr = None
        st = t
        if isinstance(n, Node) and n.rule == "Array":
            arr = n.attrs["length"]
            st = n.attrs["asn_type"]
        sn = st.attrs["type_name"]
        if isinstance(sn, T):
            q = m.lookup(sn)
            if q is not None and q[1].rule == "Sequence":
                out += leaves(m, q[1], inner)
                continue
        val = [v for v in mine if not isinstance(v, Node)]
        out.append(Leaf(p, st, val[0] if val else None, arr))
    return out


COS = {"UINT": "UINT", "INT": "INT", "FLOAT": "FLOAT", "DOUBLE": "FLOAT", "STRING": "STRING", "BOOL": "UINT"}


def cosmos(fs, tx, sc, what=("items", "attrs", "packets")):
    m = Model(sc)
    s, where = fs.text(Cat(sc.options["--output-file-name"], K(".txt")))
    ps = parse_cosmos(s, where)
    msgs = sc.options["--asn1-messages"]
    mod = m.byname.get(sc.options["--asn1-module"])
    if "packets" in what:
        if len(ps) != len(msgs):
            raise Bad("%d packets (%s) for %d messages" % (len(ps), ", ".join(p.name for p in ps), len(msgs)), where)
        for i, (p, n) in enumerate(zip(ps, msgs)):
            need(tx, p.name, tx.render(n), "message of packet %d" % (i + 1), where)
            need(tx, p.target, tx.render(sc.options["--output-file-name"]), "target of packet %s" % p.name, where)
            need(tx, p.endian, "BIG_ENDIAN", "byte order of packet %s" % p.name, where)
            d = m.lookup(n)[1]
            c = at(d, "comment")
            ct = at(c, "comment") if c is not None else None
            need(tx, p.text, tx.render(ct) if ct is not None else "", "description of packet %s" % p.name, where)
    for n in msgs:
        hit = [p for p in ps if eq(tx, p.name, tx.render(n))]
        if not hit:
            raise Bad("no packet %s" % tx.render(n), where)
        p = hit[0]
        want = leaves(m, m.lookup(n)[1], [])
        if len(p.items) != len(want):
            raise Bad("packet %s has %d items (%s) for %d leaf members" % (
                p.name, len(p.items), ", ".join(i.name for i in p.items), len(want)), where)
        for i, (it, lf) in enumerate(zip(p.items, want)):
            item(tx, m, it, lf, "item %d of %s" % (i + 1, p.name), what, where)


def item(tx, m, it, lf, lab, what, where):
    key = lf.member.attrs["key"]
    need(tx, it.name, tx.render(key), "name of " + lab, where)
    cat, bits = m.width(lf.typ)
    if "items" in what:
        if bits is None:
            raise Undecided("width of " + lab)
        need(tx, it.bits, tx.render(StrOf(bits)), "bit width of " + lab, where)
        need(tx, it.typ, COS[cat], "type of " + lab, where)
        if (it.kind == "APPEND_ARRAY_ITEM") != (lf.array is not None):
            raise Bad("%s is written as %s" % (lab, it.kind), where)
        if lf.array is not None:
            need(tx, it.value or "", tx.render(StrOf(ops.Mul(lf.array, bits))), "array size of " + lab, where)
    if "attrs" in what:
        if lf.array is None:
            v = lf.value
            if (it.kind == "APPEND_ID_ITEM") != (v is not None):
                raise Bad("%s is written as %s although it is %s" % (
                    lab, it.kind, "constrained" if v is not None else "not constrained"), where)
            if v is not None:
                need(tx, it.value, idvalue(tx, key, v), "id value of " + lab, where)
        states = []
        tn = lf.typ.attrs["type_name"]
        if tn is K("BOOLEAN"):
            states = [("False", "0"), ("True", "1")]
        elif isinstance(tn, T):
            d = m.lookup(tn)
            if d is not None and d[1].rule == "Enumerated":
                states = [(tx.render(k), str(v)) for k, v in m.enum_items(d[1])]
        if len(states) != len(it.states):
            raise Bad("%s has states %s, expected %s" % (lab, it.states, states), where)
        for (a, b), (wa, wb) in zip(it.states, states):
            need(tx, a, wa, "state name of " + lab, where)
            need(tx, b, wb, "value of state %s of %s" % (a, lab), where)
        lim = limits(tx, m, lf.typ)
        if lim is None:
            if it.limits:
                raise Bad("%s has limits %s, expected none" % (lab, it.limits), where)
        elif lim != "free":
            if len(it.limits) != 1:
                raise Bad("%s has %d limits, expected one" % (lab, len(it.limits)), where)
            g = it.limits[0]
            w = ["DEFAULT", "5", "ENABLED", lim[0], lim[0], lim[1], lim[1]]
            if len(g) != len(w):
                raise Bad("limits of %s are %s" % (lab, g), where)
            for a, b in zip(g, w):
                need(tx, a, b, "limits of " + lab, where)
        c = at(lf.member, "comment")
        unit = at(c, "unit") if c is not None else None
        wu = [] if unit is None else [[tx.render(unit)] * 2]
        if len(wu) != len(it.units):
            raise Bad("%s has units %s, expected %s" % (lab, it.units, wu), where)
        for a, b in zip(it.units, wu):
            if len(a) != 2:
                raise Bad("units of %s are %s" % (lab, a), where)
            for x, y in zip(a, b):
                need(tx, x, y, "unit of " + lab, where)
        le = c is not None and at(c, "is_little_endian") is not None
        if (it.mark == "LITTLE_ENDIAN") != le or (it.mark is not None and not le):
            raise Bad("%s has the mark %s, expected %s" % (lab, it.mark, "LITTLE_ENDIAN" if le else "none"), where)
        t = at(c, "comment") if c is not None else None
        need(tx, it.text, tx.render(t) if t is not None else "", "description of " + lab, where)


def idvalue(tx, key, v):
    if key is K("application-process-identifier"):
        return "0x" + tx.render(ops.Fmt(v, "02X"))
    return cvalue(tx, v)


def limits(tx, m, t):
    c, w = m.width(t)
    if c not in ("FLOAT", "DOUBLE"):
        return None
    n = t.attrs["type_name"]
    while n is not K("REAL"):
        t = m.lookup(n)[1].attrs["asn_type"]
        n = t.attrs["type_name"]
    b, e = m.bounds(t)
    mx = FMAX if c == "FLOAT" else 1.7976931348623157e308
    ib, ie = ops.interval(b), ops.interval(e)
    if ib[0] > -mx or ie[1] < mx:
        return tx.render(StrOf(b)), tx.render(StrOf(e))
    if ib == (-mx, -mx) and ie == (mx, mx):
        return None
    return "free"
