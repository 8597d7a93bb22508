"""Application of the textX grammar text to the canonical ASN.1 text of a
scenario.

The grammar is data of the analysed program: it is read from the source and
applied here as the parsing expression grammar it denotes (textX / Arpeggio
semantics: ordered choice, white space skipping per rule, assignments,
separators, object creation).  The text is the canonical spelling of the
scenario, in which each symbolic name, number or free text is represented by
a sample; which part of the text stands for which symbol is known by
position, so that the objects hold the symbols and not the samples."""
import re

from .terms import T, mk, K, NONE, TRUE, FALSE, EMPTY, isK, kv, Cat
from . import ops
from .loader import AnalysisError

BASE_RX = {
    "ID": r"[^\d\W]\w*\b",
    "BOOL": r"(True|true|False|false|0|1)\b",
    "INT": r"[-+]?[0-9]+\b",
    "FLOAT": r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?(?<=[\w\.])(?![\w\.])",
    "STRICTFLOAT": r"[+-]?(((\d+\.(\d*)?|\.\d+)([eE][+-]?\d+)?)|((\d+)([eE][+-]?\d+)))(?<=[\w\.])(?![\w\.])",
    "STRING": r"(\"(\\\"|[^\"])*\")|('(\\'|[^'])*')",
}
BASE_ALT = {"NUMBER": ["STRICTFLOAT", "INT"], "BASETYPE": ["NUMBER", "FLOAT", "BOOL", "ID", "STRING"]}
BASE_NAMES = list(BASE_RX) + list(BASE_ALT)


class Imprecise(Exception):
    pass


class PE:
    __slots__ = ("kind", "nodes", "name", "root", "ws", "skipws", "sep", "suppress", "attr", "to", "rx", "cls", "eol", "ref")

    def __init__(self, kind, nodes=(), to=None):
        self.kind = kind
        self.nodes = list(nodes)
        self.name = ""
        self.root = False
        self.ws = self.skipws = self.sep = self.attr = self.rx = self.cls = None
        self.suppress = self.eol = False
        self.to = to

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.name, self.to or "")


class Term:
    __slots__ = ("pe", "pos", "end", "name")

    def __init__(self, pe, pos, end):
        self.pe, self.pos, self.end, self.name = pe, pos, end, pe.name


class Non:
    __slots__ = ("pe", "kids", "name")

    def __init__(self, pe, kids):
        self.pe, self.kids, self.name = pe, kids, pe.name

    @property
    def pos(self):
        return self.kids[0].pos if self.kids else 0

    @property
    def end(self):
        return self.kids[-1].end if self.kids else 0


FAIL = object()


class MetaAttr:
    __slots__ = ("name", "cls", "mult", "ref", "boolean")

    def __init__(self, name):
        self.name, self.cls, self.mult, self.ref, self.boolean = name, None, "one", False, False


class MetaCls:
    __slots__ = ("name", "attrs", "kind", "peg")

    def __init__(self, name):
        self.name, self.attrs, self.kind, self.peg = name, {}, "match", None


class Peg:
    """Parsing expressions and meta classes of a grammar."""

    def __init__(self, grammar, opts=None):
        self.g = grammar
        o = opts or {}
        self.skipws = o.get("skipws", True)
        self.ws = o.get("ws") or "\t\n\r "
        self.ignore_case = bool(o.get("ignore_case"))
        self.autokwd = bool(o.get("autokwd"))
        self.auto_init = o.get("auto_init_attributes", True)
        self.cls = {}
        for n, r in BASE_RX.items():
            p = PE("re", to=r)
            p.rx = re.compile(r, re.MULTILINE)
            self._base(n, p)
        for n, rs in BASE_ALT.items():
            self._base(n, PE("alt", [PE("ref", to=x) for x in rs]))
        c = MetaCls("OBJECT")
        c.kind = "abstract"
        self.cls["OBJECT"] = c
        for name, r in grammar.rules.items():
            c = self.cls[name] = MetaCls(name)
            self.cur = c
            root = self.conv(r.alts)
            ps = self.params(r.mods)
            if root.attr or (root.kind in ("str", "re", "ref") and ps):
                root = PE("seq", [root])
                root.name, root.root = name, True
                for k, v in ps.items():
                    setattr(root, k, v)
            elif root.kind != "ref":
                root.name, root.root = name, True
                for k, v in ps.items():
                    setattr(root, k, v)
            c.peg = root
            self.mults(c, root, root, set(), None)
        for name in grammar.rules:
            self.resolve_alias(name, set())
        for c in self.cls.values():
            if c.peg is not None and c.peg.kind != "ref":
                if c.peg.cls is None:
                    c.peg.cls = c
        seen = set()
        for c in self.cls.values():
            if c.peg is not None:
                self.link(c.peg, seen)
        ch = True
        while ch:
            ch = False
            for c in self.cls.values():
                if c.kind == "match" and c.peg is not None and c.name not in BASE_NAMES:
                    if c.attrs:
                        c.kind, ch = "common", True
                    elif c.peg.name != c.name and c.peg.cls is not None and c.peg.cls is not c:
                        if c.peg.cls.kind != "match":
                            c.kind, ch = "abstract", True
                    elif self.nonmatch(c.peg):
                        c.kind, ch = "abstract", True
        self.start = self.cls[next(iter(grammar.rules))]
        self.comments = self.cls["Comment"].peg if "Comment" in grammar.rules else None

    def _base(self, n, p):
        p.name, p.root = n, True
        c = self.cls[n] = MetaCls(n)
        c.peg = p
        p.cls = c

    def params(self, mods):
        out = {}
        i = 0
        while i < len(mods):
            m = mods[i]
            if m == ",":
                i += 1
                continue
            v = True
            if i + 2 < len(mods) and mods[i + 1] == "=":
                v = mods[i + 2][1:-1]
                if "\\" in v:
                    v = "".join(c for e, c in (("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), (" ", " ")) if e in v)
                i += 2
            elif m.startswith("no"):
                m, v = m[2:], False
            if m not in ("skipws", "ws"):
                raise AnalysisError("grammar: rule modifier %s" % m)
            out[m] = v
            i += 1
        return out

    def conv(self, e):
        t = e[0]
        if t == "alt":
            return PE("alt", [self.conv(x) for x in e[1]])
        if t == "seq":
            xs = [self.conv(x) for x in e[1]]
            return xs[0] if len(xs) == 1 else PE("seq", xs)
        if t == "grp":
            return self.conv(e[1])
        if t == "str":
            p = PE("str", to=e[1])
            if self.autokwd and re.fullmatch(r"[^\d\W]\w*", e[1]):
                p = PE("re", to=e[1] + r"\b")
                p.rx = re.compile(p.to, re.MULTILINE | (re.I if self.ignore_case else 0))
            return p
        if t == "re":
            p = PE("re", to=e[1])
            try:
                p.rx = re.compile(e[1], re.MULTILINE | (re.I if self.ignore_case else 0))
            except re.error as x:
                raise AnalysisError("grammar: regular expression %s: %s" % (e[1], x))
            return p
        if t == "ref":
            return PE("ref", to=e[1])
        if t == "rpt":
            x = self.conv(e[2])
            if e[1] == "#":
                p = PE("unord", x.nodes)
            else:
                p = PE({"?": "opt", "*": "star", "+": "plus"}[e[1]], [x])
            return p
        if t == "mod":
            p = self.conv(e[2])
            self.modify(p, e[1])
            return p
        if t == "sup":
            p = self.conv(e[1])
            p.suppress = True
            return p
        if t == "pred":
            return PE("not" if e[1] == "!" else "and", [self.conv(e[2])])
        if t == "asg":
            _, name, op, rhs = e[:4]
            p0 = self.conv(rhs)
            a = self.cur.attrs.get(name)
            if a is None:
                a = self.cur.attrs[name] = MetaAttr(name)
            base = rhs[1] if rhs[0] == "ref" else "STRING"
            if op == "+=":
                p = PE("plus", [p0])
                a.mult = "many"
            elif op == "*=":
                p = PE("star", [p0])
                a.mult = "many"
            elif op == "?=":
                p = PE("opt", [p0])
                a.boolean = True
                base = "BOOL"
            else:
                p = PE("seq", [p0])
            if len(e) > 4 and e[4] == "xref":
                a.ref = True
            p.attr = (op, name)
            p.root = True
            p.name = "__asgn"
            a.cls = base if a.cls in (None, base) else "OBJECT"
            return p
        raise AnalysisError("grammar: " + t)

    def modify(self, p, mods):
        for m in mods:
            if m[0] in "'\"":
                p.sep = PE("str", to=m[1:-1])
                p.sep.name = "sep"
            elif m[0] == "/":
                p.sep = PE("re", to=m[1:-1])
                p.sep.rx = re.compile(m[1:-1], re.MULTILINE)
                p.sep.name = "sep"
            elif m == "eolterm":
                p.eol = True

    def mults(self, c, rule, root, branch, mult):
        if rule.kind == "ref":
            return
        if rule.kind == "alt":
            for x in rule.nodes:
                self.mults(c, x, root, set(), mult)
            return
        if rule.kind in ("plus", "star") and rule.attr is None:
            mult = "many"
        if rule.attr:
            a = c.attrs[rule.attr[1]]
            if mult == "many" or rule.attr[0] in ("+=", "*="):
                a.mult = "many"
            elif a.name in branch:
                a.mult = "many"
            else:
                branch.add(a.name)
        if rule is root or not rule.root:
            for x in rule.nodes:
                self.mults(c, x, root, branch, mult)

    def resolve_alias(self, name, seen):
        c = self.cls[name]
        if c.peg.kind == "ref":
            if name in seen:
                raise AnalysisError("grammar: rule %s refers to itself" % name)
            t = c.peg.to
            if t not in self.cls:
                raise Missing(t)
            c.peg = self.resolve_alias(t, seen | {name})
        return c.peg

    def link(self, p, seen):
        if id(p) in seen:
            return
        seen.add(id(p))
        for i, x in enumerate(p.nodes):
            if x.kind == "ref":
                if x.to not in self.cls or self.cls[x.to].peg is None:
                    raise Missing(x.to)
                q = self.cls[x.to].peg
                if x.suppress:
                    s = PE("seq", [q])
                    s.name, s.suppress = x.to, True
                    s.cls = q.cls
                    q = s
                p.nodes[i] = q
            self.link(p.nodes[i], seen)

    def nonmatch(self, p, top=True):
        for x in p.nodes:
            if x.root and x.attr is None:
                if x.cls is not None and x.cls.kind != "match":
                    return True
            elif self.nonmatch(x, False):
                return True
        return False

    # ------------------------------------------------------------ matching
    def parse(self, text):
        return Parser(self, text).run()


class Missing(Exception):
    pass


class Parser:
    def __init__(self, peg, text):
        self.g = peg
        self.s = text
        self.n = len(text)
        self.memo = {}
        self.far = 0
        self.incomment = False
        self.eol = False

    def run(self):
        """The parse tree, or the furthest position reached."""
        r, p = self.p(self.g.start.peg, 0, self.g.skipws, self.g.ws)
        if r is not FAIL:
            p = self.skip(p, self.g.skipws, self.g.ws)
            if p == self.n:
                if isinstance(r, list):
                    r = r[0] if len(r) == 1 else Non(self.g.start.peg, r)
                return r
            self.far = max(self.far, p)
        return self.far

    def skip(self, pos, sk, ws):
        if sk:
            w = ws.replace("\n", "") if self.eol else ws
            while pos < self.n and self.s[pos] in w:
                pos += 1
        if self.g.comments is not None and not self.incomment:
            self.incomment = True
            while True:
                r, q = self.p(self.g.comments, pos, sk, ws)
                if r is FAIL or q == pos:
                    break
                pos = q
                while sk and pos < self.n and self.s[pos] in ws:
                    pos += 1
            self.incomment = False
        return pos

    def p(self, e, pos, sk, ws):
        k = e.kind
        if k == "str":
            q = self.skip(pos, sk, ws)
            f = self.s[q:q + len(e.to)]
            if f == e.to or (self.g.ignore_case and f.lower() == e.to.lower()):
                return (None if e.suppress else Term(e, q, q + len(e.to))), q + len(e.to)
            self.far = max(self.far, q)
            return FAIL, pos
        if k == "re":
            q = self.skip(pos, sk, ws)
            m = e.rx.match(self.s, q)
            if m is None:
                self.far = max(self.far, q)
                return FAIL, pos
            if m.end() == q:
                return None, q
            return (None if e.suppress else Term(e, q, m.end())), m.end()
        key = (id(e), pos, sk, ws, self.eol, self.incomment)
        r = self.memo.get(key)
        if r is None:
            r = self.comp(e, pos, sk, ws)
            self.memo[key] = r
        return r

    def comp(self, e, pos, sk, ws):
        r, q = self.comp0(e, pos, sk, ws)
        if r is FAIL:
            return FAIL, pos
        if e.suppress:
            return None, q
        if e.root and r:
            if not isinstance(r, Term):
                r = Non(e, r)
        return r, q

    def add(self, out, r):
        if isinstance(r, list):
            out.extend(r)
        elif r is not None:
            out.append(r)

    def comp0(self, e, pos, sk, ws):
        k = e.kind
        if k in ("seq", "alt"):
            if e.ws is not None:
                ws = e.ws
            if e.skipws is not None:
                sk = e.skipws
        if k == "seq":
            out = []
            q = pos
            for x in e.nodes:
                r, q = self.p(x, q, sk, ws)
                if r is FAIL:
                    return FAIL, pos
                self.add(out, r)
            return (out or None), q
        if k == "alt":
            for x in e.nodes:
                r, q = self.p(x, pos, sk, ws)
                if r is not FAIL and r is not None:
                    out = []
                    self.add(out, r)
                    return out, q
            return FAIL, pos
        if k == "opt":
            r, q = self.p(e.nodes[0], pos, sk, ws)
            if r is FAIL:
                return None, pos
            out = []
            self.add(out, r)
            return (out or None), q
        if k in ("star", "plus"):
            old = self.eol
            self.eol = self.eol or e.eol
            try:
                out = []
                q = pos
                first = True
                while True:
                    c = q
                    s = None
                    if e.sep is not None and not first:
                        s, c = self.p(e.sep, q, sk, ws)
                        if s is FAIL:
                            break
                    r, c = self.p(e.nodes[0], c, sk, ws)
                    if r is FAIL:
                        if first and k == "plus":
                            return FAIL, pos
                        break
                    if s is not None:
                        self.add(out, s)
                    if not r:
                        q = c
                        break
                    self.add(out, r)
                    if c == q:
                        break
                    q = c
                    first = False
                return out, q
            finally:
                self.eol = old
        if k == "not":
            r, q = self.p(e.nodes[0], pos, sk, ws)
            return (None, pos) if r is FAIL else (FAIL, pos)
        if k == "and":
            r, q = self.p(e.nodes[0], pos, sk, ws)
            return (FAIL, pos) if r is FAIL else (None, pos)
        if k == "unord":
            todo = list(e.nodes)
            out = []
            q = pos
            first = True
            while todo:
                c = q
                s = None
                if e.sep is not None and not first:
                    s, c = self.p(e.sep, q, sk, ws)
                hit = False
                for x in todo:
                    if s is FAIL:
                        break
                    r, d = self.p(x, c, sk, ws)
                    if r is not FAIL and r:
                        if s is not None:
                            self.add(out, s)
                        self.add(out, r)
                        todo.remove(x)
                        q, hit, first = d, True, False
                        break
                if not hit:
                    break
            for x in todo:
                r, d = self.p(x, q, sk, ws)
                if r is FAIL:
                    return FAIL, pos
            return (out or None), q
        raise AnalysisError("grammar: " + k)


# ------------------------------------------------------------------ objects
class Obj:
    """An object of the parsed text: class name, attributes (terms, Obj,
    lists), span."""

    def __init__(self, rule, pos, end):
        self.rule = rule
        self.attrs = {}
        self.pos, self.end = pos, end
        self.ref = None
        self.vals = None
        self.src = None


class Semantic(Exception):
    pass


def text_of(tree):
    return tree.pos, tree.end


class Builder:
    """Objects from a parse tree, as textX makes them."""

    def __init__(self, peg, text, convert):
        self.g = peg
        self.text = text
        self.convert = convert          # (start, end, rule name) -> term
        self.matchproc = lambda name, v: v

    def build(self, tree):
        self.stack = []
        return self.node(tree)

    def default(self, c):
        out = {}
        for a in c.attrs.values():
            if a.mult == "many":
                out[a.name] = []
            elif a.cls in BASE_NAMES:
                if self.g.auto_init:
                    out[a.name] = {"ID": EMPTY, "BOOL": FALSE, "INT": K(0), "FLOAT": K(0.0), "STRICTFLOAT": K(0.0), "STRING": EMPTY,
                                   "NUMBER": K(0.0), "BASETYPE": EMPTY}[a.cls]
                else:
                    out[a.name] = FALSE if a.boolean else NONE
            else:
                out[a.name] = NONE
        return out

    def match(self, t):
        if isinstance(t, Term):
            return self.convert(t.pos, t.end, t.name)
        if len(t.kids) > 1:
            # the texts of the parts, without what lies between them
            v = Cat(*[self.astext(k) for k in t.kids])
        else:
            v = self.match(t.kids[0])
        return self.matchproc(t.name, v)

    def astext(self, t):
        if isinstance(t, Term):
            return self.convert(t.pos, t.end, "")
        return Cat(*[self.astext(k) for k in t.kids])

    def node(self, t):
        if isinstance(t, Term):
            v = self.convert(t.pos, t.end, t.name)
            return v
        if t.pe.attr is None:
            c = t.pe.cls
            if c.kind == "abstract":
                for n in t.kids:
                    if not isinstance(n, Term) or len(t.kids) == 1:
                        return self.node(n)
                return Cat(*[self.astext(k) for k in t.kids])
            if c.kind == "match":
                return self.match(t)
            o = Obj(c.name, t.pos, t.end)
            o.attrs = self.default(c)
            self.stack.append((o, c))
            for n in t.kids:
                if isinstance(n, Term):
                    continue
                self.node(n)
            self.stack.pop()
            return o
        op, name = t.pe.attr
        o, c = self.stack[-1]
        a = c.attrs[name]
        if a.ref:
            raise AnalysisError("grammar: cross reference %s.%s" % (c.name, name))
        if op == "?=":
            o.attrs[name] = TRUE
        elif op == "=":
            old = o.attrs[name]
            if not isinstance(old, list):
                if isinstance(old, Obj) or (isinstance(old, T) and not isK(old)) or (isinstance(old, T) and kv(old)):
                    raise Semantic("Multiple assignments to attribute %s" % name)
            v = self.node(t.kids[0])
            if isinstance(old, list):
                old.append(v)
            else:
                o.attrs[name] = v
        else:
            for n in t.kids:
                if n.name != "sep":
                    v = self.node(n)
                    if not isinstance(o.attrs[name], list):
                        o.attrs[name] = []
                    o.attrs[name].append(v)
        return o


# ----------------------------------------------------------------- spelling
LOW = ["%s", "%s1b", "%s-b2", "%s-7", "%sz-x-y"]


class Spell:
    """Canonical ASN.1 text of a scenario module, and what its parts stand for."""

    def __init__(self, iv, taken=(), hi=False, names=None):
        self.out = []
        self.pos = 0
        self.marks = []              # (start, end, term)
        self.starts = {}             # start -> scenario node
        self.iv = iv
        self.hi = hi
        self.names = names if names is not None else {}
        self.taken = set(taken)
        self.used = set(self.names.values())
        self.forced = []

    def w(self, s):
        self.out.append(s)
        self.pos += len(s)

    def text(self):
        return "".join(self.out)

    def fresh(self, t):
        if t in self.names:
            return self.names[t]
        capital = t.args[1] == "str:NameCapital"
        i = len(self.names)
        while True:
            base, k = "", i
            while True:
                base = chr(97 + k % 23) + base
                k //= 23
                if not k:
                    break
            s = LOW[i % len(LOW)] % ("w" + base)
            if capital:
                s = s[0].upper() + s[1:]
            if s not in self.used and s not in self.taken:
                break
            i += 1
        self.used.add(s)
        self.names[t] = s
        return s

    def num(self, t, isfloat):
        lo, hi = self.iv.get(t, (None, None))
        if isfloat:
            if lo is None:
                return "1.5"
            v = hi if self.hi else lo
            if v == float("inf") or v == float("-inf"):
                v = lo if v == hi else hi
            return repr(float(v))
        if lo is None:
            return "3" if self.hi else "-3"
        v = hi if self.hi else lo
        if isinstance(v, float):
            v = int(v) if abs(v) != float("inf") else (int(lo) if abs(lo) != float("inf") else 7)
        return str(int(v))

    def term(self, t, how="name"):
        """Write a term of a scenario."""
        if t.op == "cat":
            for x in t.args:
                self.term(x, how)
            return
        if isK(t):
            v = kv(t)
            if isinstance(v, bool):
                self.w("TRUE" if v else "FALSE")
            elif isinstance(v, float):
                if v != v or abs(v) == float("inf"):
                    self.w("-1.0e999" if v < 0 else "1.0e999")
                else:
                    r = repr(v)
                    if "e" in r and "." not in r:
                        r = r.replace("e", ".0e")
                    self.w(r)
            else:
                self.w(str(v))
            return
        k = t.args[1] if t.op == "sym" else ops.kind(t)
        if t.op != "sym":
            raise Imprecise("spelling of %s" % (t,))
        s0 = self.pos
        if k in ("str:NameLower", "str:NameCapital"):
            self.w(self.fresh(t))
        elif k == "int":
            self.w(self.num(t, how == "float"))
        elif k == "float":
            self.w(self.num(t, True))
        elif k.startswith("str"):
            self.w("m/s^2" if how == "unit" else "A text, (%d) of 50% 2.5/x" .replace("%d", str(len(self.marks))) if how == "text" else "w" + str(len(self.marks)))
        else:
            raise Imprecise("spelling of %s" % k)
        self.marks.append((s0, self.pos, t))

    def mark(self, n):
        self.starts.setdefault(self.pos, []).append(n)

    # -- elements
    def comment(self, n, first=" "):
        if n is None:
            self.w("\n")
            return
        self.mark(n)
        self.w(" --")
        a = n.attrs
        if "is_little_endian" in a and kv(a["is_little_endian"]) is True:
            self.w(" ENDIANNESS(LITTLE)")
        if "unit" in a:
            self.w(" [")
            self.term(a["unit"], "unit")
            self.w("]")
        if "comment" in a and not (isK(a["comment"]) and kv(a["comment"]) == ""):
            self.w(" ")
            self.term(a["comment"], "text")
        self.w("\n")

    def type(self, n):
        self.mark(n)
        self.w(" ")
        t = n.attrs["type_name"]
        if not isinstance(t, T):
            self.mark(t)
            if t.rule == "Asn1String":
                self.term(t.attrs["type_name"])
                self.w(" (SIZE (")
                self.term(t.attrs["length"])
                self.w("))")
            else:
                self.w("SEQUENCE (SIZE (")
                self.term(t.attrs["length"])
                self.w(")) OF")
                self.type(t.attrs["asn_type"])
            return
        self.term(t)
        if "begin" in n.attrs and n.attrs["begin"] is not None:
            f = isK(t) and kv(t) == "REAL"
            self.w("(")
            self.term(n.attrs["begin"], "float" if f else "int")
            self.w(" .. " if f else "..")
            self.term(n.attrs["end"], "float" if f else "int")
            self.w(")")

    def pair(self, n, last):
        a = n.attrs
        self.w("  ")
        self.mark(n)
        self.term(a["key"])
        self.type(a["asn_type"])
        wc = a.get("with_components")
        if wc is not None:
            self.comment(a.get("comment"))
            self.w("  ")
            self.wcomp(wc)
            self.w("\n" if last else ",\n")
        else:
            self.w("" if last else ",")
            self.comment(a.get("comment"))

    def wcomp(self, n):
        self.mark(n)
        self.w("(WITH COMPONENTS {")
        self.comment(n.attrs.get("comment"))
        cs = n.attrs["components"]
        for i, c in enumerate(cs):
            self.w("    ")
            self.mark(c)
            self.term(c.attrs["key"])
            v = c.attrs["value"]
            self.w(" ")
            if isinstance(v, T):
                self.w("(")
                self.term(v, "int" if not (v.op == "sym" and v.args[1] == "float") else "float")
                self.w(")")
            else:
                self.wcomp(v)
            self.w("" if i == len(cs) - 1 else ",")
            self.comment(c.attrs.get("comment"))
        self.w("  })")

    def defn(self, n):
        a = n.attrs
        self.mark(n)
        self.term(a["type_name"])
        if n.rule == "SimpleDefinition":
            self.w(" ::=")
            self.type(a["asn_type"])
            self.comment(a.get("comment"))
            return
        self.w({"Sequence": " ::= SEQUENCE {", "Choice": " ::= CHOICE {", "Enumerated": " ::= ENUMERATED {"}[n.rule])
        self.comment(a.get("comment"))
        if n.rule == "Enumerated":
            for i, e in enumerate(a["enum"]):
                self.w("  ")
                self.mark(e)
                self.term(e.attrs["key"])
                if "pos" in e.attrs:
                    self.w("(")
                    self.term(e.attrs["pos"])
                    self.w(")")
                self.w("" if i == len(a["enum"]) - 1 else ",")
                self.comment(e.attrs.get("comment"))
        else:
            ps = a["seq" if n.rule == "Sequence" else "choice"]
            for i, p in enumerate(ps):
                self.pair(p, i == len(ps) - 1)
        self.w("}\n")

    def module(self, n):
        a = n.attrs
        self.mark(n)
        self.w("Module-")
        self.term(a["module_name"])
        self.w(" DEFINITIONS AUTOMATIC TAGS ::= BEGIN")
        self.comment(a.get("comment"))
        im = a.get("import_items")
        if im:
            self.w("IMPORTS\n")
            for i, x in enumerate(im):
                self.w("  ")
                self.mark(x)
                for j, d in enumerate(x.attrs["definitions"]):
                    if j:
                        self.w(", ")
                    self.term(d)
                self.w(" FROM Module-")
                self.term(x.attrs["module_name"])
                if i == len(im) - 1 and x.attrs.get("comment") is None:
                    pass
                else:
                    self.comment(x.attrs.get("comment"))
            self.w(";")
            self.comment(a.get("comment_import"))
        for d in a["definitions"]:
            self.defn(d)
        self.w("END\n")


def piece(marks, text, a, b):
    """The term that text[a:b] stands for."""
    out = []
    pos = a
    for s, e, t in marks:
        if e <= a or s >= b:
            continue
        if s < a or e > b:
            raise Imprecise("the grammar splits '%s'" % text[s:e])
        if s > pos:
            out.append(K(text[pos:s]))
        out.append(t)
        pos = e
    if pos < b:
        out.append(K(text[pos:b]))
    return out
