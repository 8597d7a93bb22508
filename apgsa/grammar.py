"""Reader for the textX grammar text: rules, attributes, types, optionality.

Only the subset of the textX meta-language that describes structure is
needed: rules, ordered choice, sequences, groups, assignments, string and
regex matches, repetitions."""
import re

from .loader import AnalysisError

TOK = re.compile(r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<str>'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*")
  | (?P<re>/(?:\\/|[^/])+/)
  | (?P<asg>\?=|\+=|\*=|=)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<p>[:;|()\[\]*+?#,.!&-])
""", re.X | re.S)

BASE = {"INT": "int", "STRICTFLOAT": "float", "FLOAT": "float", "NUMBER": "num",
        "BOOL": "bool", "ID": "str", "STRING": "str", "BASETYPE": "any"}


class Rule:
    def __init__(self, name, mods, alts):
        self.name = name
        self.mods = mods
        self.alts = alts          # expression tree
        self.attrs = {}           # name -> dict(types=set, mult, opt, bool)
        self.order = []
        self.kind = None          # common / abstract / match

    def __repr__(self):
        return "rule:" + self.name


class Grammar:
    def __init__(self, text):
        self.text = text
        self.toks = []
        pos = 0
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                raise AnalysisError("grammar: cannot read %r" % text[pos:pos + 30])
            pos = m.end()
            if m.lastgroup != "ws":
                self.toks.append((m.lastgroup, m.group()))
        self.i = 0
        self.rules = {}
        while self.i < len(self.toks):
            r = self._rule()
            self.rules[r.name] = r
        for r in self.rules.values():
            self._collect(r, r.alts, False, False)
        for r in self.rules.values():
            if r.attrs:
                r.kind = "common"
            elif self._is_abstract(r.alts):
                r.kind = "abstract"
            else:
                r.kind = "match"

    # -- parsing
    def _peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def _next(self):
        t = self._peek()
        self.i += 1
        return t

    def _expect(self, v):
        t = self._next()
        if t[1] != v:
            raise AnalysisError("grammar: expected %r, found %r" % (v, t[1]))

    def _rule(self):
        k, name = self._next()
        if k != "id":
            raise AnalysisError("grammar: rule name expected, found %r" % (name,))
        mods = []
        if self._peek()[1] == "[":
            self._next()
            while self._peek()[1] != "]":
                mods.append(self._next()[1])
            self._next()
        self._expect(":")
        e = self._choice()
        self._expect(";")
        return Rule(name, mods, e)

    def _choice(self):
        alts = [self._seq()]
        while self._peek()[1] == "|" and self._peek()[0] == "p":
            self._next()
            alts.append(self._seq())
        return ("alt", alts) if len(alts) > 1 else alts[0]

    def _seq(self):
        items = []
        while True:
            k, v = self._peek()
            if k is None or (k == "p" and v in (";", "|", ")")):
                break
            items.append(self._item())
        return ("seq", items)

    def _item(self):
        return self._suffix(self._primary())

    def _primary(self):
        k, v = self._next()
        if k == "p" and v == "(":
            e = self._choice()
            self._expect(")")
            node = ("grp", e)
        elif k == "p" and v in ("!", "&"):
            node = ("pred", v, self._primary())
        elif k == "str":
            node = ("str", _unq(v))
        elif k == "re":
            node = ("re", v[1:-1])
        elif k == "id":
            if self._peek()[0] == "asg":
                op = self._next()[1]
                k2, v2 = self._next()
                if k2 == "str":
                    rhs = ("str", _unq(v2))
                elif k2 == "re":
                    rhs = ("re", v2[1:-1])
                elif k2 == "id":
                    rhs = ("ref", v2)
                elif v2 == "[":
                    k3, v3 = self._next()
                    rhs = ("ref", v3)
                    while self._next()[1] != "]":
                        pass
                    return ("asg", v, op, rhs, "xref")
                else:
                    raise AnalysisError("grammar: bad assignment of %s" % v)
                node = ("asg", v, op, rhs)
            else:
                node = ("ref", v)
        else:
            raise AnalysisError("grammar: unexpected %r" % (v,))
        return node

    def _suffix(self, node):
        while True:
            k, v = self._peek()
            if k == "p" and v in "*+?#":
                self._next()
                node = ("rpt", v, node)
            elif k == "p" and v == "[":
                # repetition modifier, e.g. [','] or [eolterm]
                self._next()
                m = []
                while self._peek()[1] != "]":
                    m.append(self._next()[1])
                self._next()
                node = ("mod", m, node)
            elif k == "p" and v == "-":
                self._next()
                node = ("sup", node)
            else:
                break
        return node

    # -- attribute collection
    def _collect(self, r, e, opt, many):
        t = e[0]
        if t == "alt":
            before = dict((k, v["seen"]) for k, v in r.attrs.items())
            for a in e[1]:
                self._collect(r, a, True, many)
            del before
        elif t == "seq":
            for x in e[1]:
                self._collect(r, x, opt, many)
        elif t == "grp":
            self._collect(r, e[1], opt, many)
        elif t == "rpt":
            self._collect(r, e[2], opt or e[1] in "*?", many or e[1] in "*+")
        elif t == "mod":
            self._collect(r, e[2], opt, many)
        elif t == "sup":
            self._collect(r, e[1], opt, many)
        elif t == "asg":
            _, name, op, rhs = e[:4]
            a = r.attrs.setdefault(name, {"types": set(), "mult": "one", "opt": opt, "bool": False, "seen": 0, "lits": set()})
            if name not in r.order:
                r.order.append(name)
            a["seen"] += 1
            if op == "?=":
                a["bool"] = True
                a["types"].add("bool")
            elif rhs[0] == "ref":
                a["types"].add(rhs[1])
            elif rhs[0] == "str":
                a["types"].add("str")
                a["lits"].add(rhs[1])
            else:
                a["types"].add("str")
            if op in ("+=", "*=") or many:
                a["mult"] = "many"
            a["opt"] = a["opt"] and opt

    def _is_abstract(self, e):
        if e[0] == "alt":
            return all(self._is_abstract(x) for x in e[1])
        if e[0] == "seq":
            return len(e[1]) == 1 and self._is_abstract(e[1][0])
        if e[0] == "grp":
            return self._is_abstract(e[1])
        if e[0] == "ref" and e[1] != "":
            x = self.rules.get(e[1])
            return x is not None and (bool(x.attrs) or self._is_abstract(x.alts))
        return False

    # -- queries
    def concrete(self, name):
        """Concrete (common) rules an abstract or common rule can produce."""
        r = self.rules.get(name)
        if r is None:
            return []
        if r.kind == "common":
            return [name]
        if r.kind == "abstract":
            out = []
            todo = [r.alts]
            while todo:
                e = todo.pop(0)
                if e[0] == "alt" or e[0] == "seq":
                    todo = list(e[1]) + todo
                elif e[0] == "grp":
                    todo.insert(0, e[1])
                elif e[0] == "ref":
                    for x in self.concrete(e[1]):
                        if x not in out:
                            out.append(x)
            return out
        return []

    def attr_rules(self, rule, attr):
        """Concrete rules that can be the value (or list element) of attr."""
        a = self.rules[rule].attrs.get(attr)
        out = []
        if a:
            for t in sorted(a["types"]):
                for c in self.concrete(t):
                    if c not in out:
                        out.append(c)
        return out

    def attr_scalars(self, rule, attr):
        a = self.rules[rule].attrs.get(attr)
        out = set()
        if a:
            for t in a["types"]:
                if t in BASE:
                    out.add(BASE[t])
                elif t in ("str", "bool"):
                    out.add(t)
                elif t in self.rules and self.rules[t].kind == "match":
                    out.add("str")
        return out

    def regex(self, rule):
        """The regular expression of a match rule made of one regex."""
        e = self.rules[rule].alts
        while e[0] in ("seq", "grp"):
            if e[0] == "grp":
                e = e[1]
            elif len(e[1]) == 1:
                e = e[1][0]
            else:
                return None
        return e[1] if e[0] == "re" else None


def _unq(s):
    return s[1:-1]
