"""Reader for the C texts the generators produce (with placeholder characters
standing for symbolic names) and for COSMOS packet files."""
import re

from .core import Bad

IDENT = re.compile(r"[A-Za-z_0-9.\ue000-\uf8ff+]")


class Tok:
    __slots__ = ("k", "v", "line")

    def __init__(self, k, v, line):
        self.k, self.v, self.line = k, v, line

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


def tokens(s, where):
    s = s.replace("\\\n", "")
    out = []
    i, n, line = 0, len(s), 1
    bol = True
    while i < n:
        c = s[i]
        if c == "\n":
            line += 1
            bol = True
            i += 1
        elif c in " \t\r":
            i += 1
        elif s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            out.append(Tok("lc", s[i + 2:j].strip(), line))
            i = j
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise Bad("unterminated comment", where)
            out.append(Tok("bc", s[i + 2:j].strip(), line))
            line += s.count("\n", i, j)
            i = j + 2
        elif c == "#" and bol:
            j = s.find("\n", i)
            j = n if j < 0 else j
            out.append(Tok("pp", s[i + 1:j].strip(), line))
            i = j
        elif IDENT.match(c) or (c == "-" and i + 1 < n and (s[i + 1].isdigit() or ord(s[i + 1]) >= 0xE000)):
            j = i + 1
            while j < n and (IDENT.match(s[j]) or (s[j] in "+-" and s[j - 1] in "eE" and s[i].isdigit())):
                j += 1
            out.append(Tok("id", s[i:j], line))
            bol = False
            i = j
        else:
            out.append(Tok("p", c, line))
            bol = False
            i += 1
    return out


class Header:
    def __init__(self):
        self.pp = []            # ("include", text) / ("define", name, value) / ("ifndef", x) / ("endif", rest)
        self.decls = []         # Decl
        self.notes = []         # free comments
        self.first = None


class Decl:
    def __init__(self, kind, name, comments, **kw):
        self.kind, self.name, self.comments = kind, name, comments
        self.__dict__.update(kw)


class Field:
    def __init__(self, typ, name, bits, dims, comments):
        self.typ, self.name, self.bits, self.dims, self.comments = typ, name, bits, dims, comments


def parse_c(s, where):
    ts = tokens(s, where)
    h = Header()
    pos = 0
    pend = []

    def err(msg):
        t = ts[pos] if pos < len(ts) else None
        raise Bad("C text: %s near %s" % (msg, t), where)

    def peek(k=0):
        j = pos
        while True:
            while j < len(ts) and ts[j].k in ("lc", "bc"):
                j += 1
            if k == 0 or j >= len(ts):
                return ts[j] if j < len(ts) else None
            k -= 1
            j += 1

    def nxt():
        nonlocal pos
        com = []
        while pos < len(ts) and ts[pos].k in ("lc", "bc"):
            com.append(ts[pos])
            pos += 1
        if pos >= len(ts):
            return None, com
        t = ts[pos]
        pos += 1
        return t, com

    def expect(v):
        t, com = nxt()
        if t is None or t.v != v:
            err("expected '%s'" % v)
        return com

    def attrs():
        out = []
        while peek() is not None and peek().v == "__attribute__":
            nxt()
            expect("(")
            expect("(")
            t, _ = nxt()
            out.append(t.v)
            expect(")")
            expect(")")
        return out

    def fields():
        out = []
        com = []
        while True:
            t, c = nxt()
            com += c
            if t is None:
                err("struct not closed")
            if t.v == "}":
                return out, com
            part = [t]
            inner = []
            while part[-1].v != ";":
                t, c = nxt()
                if t is None or t.v == "}":
                    err("field not closed")
                inner += c
                part.append(t)
            part.pop()
            out.append(field(part, com + inner, err))
            com = []
            # a comment on the line of the field belongs to it
    while True:
        t, com = nxt()
        pend += com
        if t is None:
            h.tail = pend
            return h
        if t.k == "pp":
            w = t.v.split(None, 1)
            d = w[0] if w else ""
            rest = w[1] if len(w) > 1 else ""
            if d == "define":
                x = rest.split(None, 1)
                h.pp.append(("define", x[0] if x else "", x[1].strip() if len(x) > 1 else "", len(h.decls)))
            else:
                h.pp.append((d, rest.strip(), None, len(h.decls)))
            if d != "include":
                pend = []
            continue
        if t.v == "typedef":
            t, c = nxt()
            if t is None:
                err("typedef")
            pend += c
            if t.v == "struct" or t.v == "union":
                k = t.v
                a = attrs()
                if peek() is not None and peek().v != "{":
                    nxt()
                    a += attrs()
                expect("{")
                fs, _ = fields()
                a += attrs()
                nm, _ = nxt()
                if nm is None or nm.k != "id":
                    err("struct name")
                a += attrs()
                expect(";")
                h.decls.append(Decl(k, nm.v, pend, fields=fs, attrs=a))
            elif t.v == "enum":
                a = attrs()
                if peek() is not None and peek().v != "{":
                    nxt()
                    a += attrs()
                expect("{")
                items = []
                while True:
                    t, _ = nxt()
                    if t is None:
                        err("enum not closed")
                    if t.v == "}":
                        break
                    if t.k != "id":
                        err("enumerator")
                    val = None
                    if peek() is not None and peek().v == "=":
                        nxt()
                        v, _ = nxt()
                        val = v.v
                    items.append((t.v, val))
                    if peek() is not None and peek().v == ",":
                        nxt()
                    elif peek() is None or peek().v != "}":
                        err("enumerator separator")
                a += attrs()
                nm, _ = nxt()
                if nm is None or nm.k != "id":
                    err("enum name")
                a += attrs()
                expect(";")
                h.decls.append(Decl("enum", nm.v, pend, items=items, attrs=a))
            else:
                err("typedef of unknown kind")
            pend = []
        elif t.v in ("union", "struct"):
            k = t.v
            nm, _ = nxt()
            expect("{")
            # comments between the members are dropped
            fs, _ = fields()
            var, _ = nxt()
            if var is not None and var.v != ";":
                expect(";")
            h.decls.append(Decl(k, nm.v, pend, fields=fs, attrs=[]))
            pend = []
        elif t.k == "id":
            part = [t]
            while peek() is not None and peek().v not in (";", "="):
                part.append(nxt()[0])
            t, _ = nxt()
            if t is None:
                err("declaration not closed")
            if t.v == ";":
                h.decls.append(Decl("var", part[-1].v, pend, typ=" ".join(x.v for x in part[:-1])))
            else:
                val = initval(nxt, peek, err)
                expect(";")
                h.decls.append(Decl("init", part[-1].v, pend, typ=" ".join(x.v for x in part[:-1]), value=val))
            pend = []
        else:
            err("unexpected token")


def initval(nxt, peek, err):
    t, _ = nxt()
    if t is None:
        err("initialiser")
    if t.v != "{":
        return t.v
    out = []
    while True:
        t, _ = nxt()
        if t is None:
            err("initialiser not closed")
        if t.v == "}":
            return out
        # ".name" is lexed as one word (dots belong to numbers)
        if t.k != "id" or not t.v.startswith("."):
            err("designator")
        name = t.v[1:]
        t, _ = nxt()
        if t is None or t.v != "=":
            err("designator value")
        out.append((name, initval(nxt, peek, err)))
        if peek() is not None and peek().v == ",":
            nxt()
        elif peek() is None or peek().v != "}":
            err("initialiser separator")


def field(part, comments, err):
    vs = [x.v for x in part]
    bits = None
    dims = []
    i = 0
    ids = []
    while i < len(vs):
        if vs[i] == ":":
            if i + 1 >= len(vs):
                err("bit-field")
            bits = vs[i + 1]
            i += 2
        elif vs[i] == "[":
            j = vs.index("]", i) if "]" in vs[i:] else None
            if j is None:
                err("array field")
            dims.append("".join(vs[i + 1:j]))
            i = j + 1
        elif part[i].k == "id":
            ids.append(vs[i])
            i += 1
        else:
            err("field")
    if len(ids) < 2:
        err("field without type")
    return Field(" ".join(ids[:-1]), ids[-1], bits, dims, comments)


# ----------------------------------------------------------------- COSMOS
class Item:
    def __init__(self, kind, name, bits, typ, value, text, mark, line):
        self.kind, self.name, self.bits, self.typ, self.value = kind, name, bits, typ, value
        self.text, self.mark, self.line = text, mark, line
        self.states, self.limits, self.units = [], [], []


class Packet:
    def __init__(self, target, name, endian, text):
        self.target, self.name, self.endian, self.text = target, name, endian, text
        self.items = []


def quoted(line, where):
    i = line.find('"')
    j = line.rfind('"')
    if i < 0 or j <= i:
        raise Bad("no quoted text in the line '%s'" % line.strip(), where)
    return line[:i].split(), line[i + 1:j], line[j + 1:].split()


def parse_cosmos(s, where):
    packs = []
    for line in s.split("\n"):
        w = line.strip()
        if not w or w.startswith("#"):
            continue
        head = w.split()[0]
        if head == "TELEMETRY":
            a, t, r = quoted(w, where)
            if len(a) != 4 or r:
                raise Bad("malformed packet line '%s'" % w, where)
            packs.append(Packet(a[1], a[2], a[3], t))
        elif head in ("APPEND_ITEM", "APPEND_ID_ITEM", "APPEND_ARRAY_ITEM"):
            if not packs:
                raise Bad("item before the first packet: '%s'" % w, where)
            a, t, r = quoted(w, where)
            want = 4 if head == "APPEND_ITEM" else 5
            if len(a) != want or len(r) > 1:
                raise Bad("malformed item line '%s'" % w, where)
            packs[-1].items.append(Item(head, a[1], a[2], a[3], a[4] if want == 5 else None, t,
                                        r[0] if r else None, w))
        elif head in ("STATE", "LIMITS", "UNITS"):
            if not packs or not packs[-1].items:
                raise Bad("attribute before the first item: '%s'" % w, where)
            it = packs[-1].items[-1]
            a = w.split()
            if head == "STATE":
                if len(a) != 3:
                    raise Bad("malformed line '%s'" % w, where)
                it.states.append((a[1], a[2]))
            elif head == "LIMITS":
                it.limits.append(a[1:])
            else:
                it.units.append(a[1:])
        else:
            raise Bad("unknown line '%s'" % w, where)
    return packs
