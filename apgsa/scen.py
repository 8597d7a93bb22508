"""Scenarios: the shape of the inputs (command line, modules) over which one
abstract run of main() is made, and the facts assumed about them."""
import re

try:
    import re._parser as sre_parse
except ImportError:          # older interpreters
    import sre_parse

from .terms import T, mk, K, NONE, TRUE, FALSE, EMPTY, isK, kv, B, Not, And, Or, Cat, subterms
from . import ops
from .ops import Eq
from .textxm import Node, Others
from .loader import AnalysisError

GENERIC = ("elem", "others", "first", "last", "lastw", "modof", "attr", "fld")

# attributes that are names of definitions / members in their own scope
OWN_NAME = {"type_name", "module_name", "key"}


def regex_alphabet(rx):
    out = set()

    def walk(p):
        for op, av in p:
            o = str(op)
            if o == "LITERAL":
                out.add(chr(av))
            elif o == "NOT_LITERAL" or o == "ANY":
                raise ValueError
            elif o == "IN":
                for x, y in av:
                    x = str(x)
                    if x == "LITERAL":
                        out.add(chr(y))
                    elif x == "RANGE":
                        out.update(chr(c) for c in range(y[0], y[1] + 1))
                    elif x == "CATEGORY" and str(y).endswith("CATEGORY_DIGIT"):
                        out.update("0123456789")
                    elif x == "CATEGORY" and str(y).endswith("CATEGORY_SPACE"):
                        out.update(" \t\n\r\f\v")
                    else:
                        raise ValueError
            elif o in ("MAX_REPEAT", "MIN_REPEAT"):
                walk(av[2])
            elif o == "SUBPATTERN":
                walk(av[3])
            elif o == "BRANCH":
                for q in av[1]:
                    walk(q)
            elif o == "AT":
                pass
            else:
                raise ValueError
    try:
        walk(sre_parse.parse(rx.pattern if hasattr(rx, "pattern") else rx))
    except ValueError:
        return None
    return frozenset(out)


def syms_of(t):
    return [x for x in subterms(t) if x.op == "sym"]


class Scenario:
    """One abstract input.

    modules   list of (path symbol, Node Asn1Module)
    options   {long option or positional: value}; value is a term, a list of
              terms (lists and comma separated options) or None (omitted)
    reserved  constants a rigid name is assumed different from
    """

    def __init__(self, command, modules, options, reserved=(), facts=None, assume=None, label=""):
        self.command = command
        self.modules = modules
        self.options = options
        self.reserved = set(reserved)
        self.facts = facts
        self.assume = assume or {}
        self.label = label
        self.csv = {}
        self.unused = set()
        self.shapes = {}

    # -- command line
    def option(self, I, st, names, kw):
        for n in names:
            if n in self.options:
                v = self.options[n]
                if v is None:
                    return None
                if isinstance(v, list):
                    nargs = kw.get("nargs")
                    if nargs is not None and isK(nargs) and kv(nargs) not in (None, "?"):
                        return I.newlist(st, tuple(self.items(v)))
                    its = tuple(self.items(v))
                    if its and all(s[0] == "it" for s in its):
                        t = Cat(*[y for s in its for y in (K(","), s[1])][1:])
                    else:
                        t = mk("sym", "csv:" + n, "str:csv")
                    self.csv[t] = its
                    return t
                return v
        if "default" in kw or not any(isK(x) and kv(x) for x in [kw.get("required", FALSE)]):
            act = kw.get("action")
            if act is not None and isK(act) and kv(act) == "store_true":
                kw.setdefault("default", FALSE)
            return None
        # a required option this analysis does not know
        return mk("sym", "opt:" + (names[0] if names else "?"), "str:text")

    def items(self, v):
        return [x if isinstance(x, tuple) else ("sp", x.term) if isinstance(x, Others) else ("it", x)
                for x in v]

    def split(self, v, sep):
        if v in self.csv and isK(sep) and kv(sep) == ",":
            return self.csv[v]
        return None

    # -- modules
    def module_for(self, I, st, text):
        t = text
        while t.op == "call" and t.args[0] in ("read",):
            t = t.args[1]
        for p, m in self.modules:
            if p is t:
                return m
        if t.op == "elem":
            return mk("modof", t)
        return None

    def shape(self, t):
        return self.shapes.get(t)

    # -- facts
    def decide(self, I, st, c):
        r = self.assume.get(c)
        if r is not None:
            return r
        o = c.op
        if o == "fsq":
            if any(c.args[1] is p for p, _ in self.modules):
                return B(c.args[0] in ("exists", "isfile", "lexists"))
            if not any(x.op == "sym" and not x.args[0].startswith("file:") for x in subterms(c.args[1])):
                return TRUE                    # the installation directory
            return None
        if o == "truthy":
            t = c.args[0]
            if t.op == "elem":
                return TRUE
            if t.op == "attr" and kindobj(t):
                return self.required(I, t)
            return None
        if o == "contains":
            t, x = c.args
            if t.op == "sym" and t.args[1] == "str:text" and isK(x) and (
                    kv(x) in ("[", "]", "--")):
                return FALSE              # a clean comment text
            return None
        if o == "eq":
            return self.equal(I, st, *c.args)
        if o == "exists":
            return None
        return None

    def required(self, I, t):
        g = I.tx.grammar
        rules = [r for r in g.rules.values() if t.args[1] in r.attrs]
        if rules and all(not r.attrs[t.args[1]]["opt"] for r in rules) or t.args[1] == "parent":
            return TRUE
        return None

    def equal(self, I, st, a, b):
        if isK(b):
            a, b = b, a
        if isK(a):
            c = kv(a)
            if not isinstance(c, str):
                return None
            r = ops.preimages(b, c)
            if r is None:
                if len(syms_of(b)) == 1 and c == "" and ops.kind(b) == "str":
                    return None
                return None
            s, xs = r
            if s.op != "sym":
                return None
            k = s.args[1]
            rx = ops.REGEX.get(k)
            left = []
            for x in xs:
                if rx is not None and not rx.fullmatch(x):
                    continue
                if x in self.reserved:
                    continue
                left.append(x)
            if not left:
                return FALSE
            return None
        sa, sb = syms_of(a), syms_of(b)
        ga = any(x.op in GENERIC for x in subterms(a))
        gb = any(x.op in GENERIC for x in subterms(b))
        if not ga and not gb:
            ia, ib = ops.injective(a), ops.injective(b)
            if ia and ib:
                if ia[0] is ib[0] and ia[1] == ib[1]:
                    return TRUE
                if ia[0] is not ib[0] and self.names(ia[0]) and self.names(ib[0]):
                    if ia[1] == ib[1] and ia[0].args[1] == ib[0].args[1]:
                        return FALSE
                    if not ia[1] and not ib[1]:
                        return FALSE
            return None
        if ga != gb:
            g, f = (a, b) if ga else (b, a)
            if len(syms_of(f)) == 1 and f.op == "sym" and self.names(f):
                if g.op == "attr" and g.args[1] in OWN_NAME and g.args[0].op in ("elem", "first", "modof"):
                    return FALSE
                if g.op == "elem" and g.args[0].op == "others":
                    return FALSE
        return None

    def names(self, s):
        return s.args[1].startswith("str:") and s.args[1] not in ("str:text", "str:csv", "str:free")


def kindobj(t):
    return ops.kind(t) == "obj"


# ------------------------------------------------------------ constructors
def low(label):
    return mk("sym", label, "str:NameLower")


def cap(label):
    return mk("sym", label, "str:NameCapital")


def path(label):
    return mk("sym", label, "str:path")


def comment(text=None, unit=None, little=None):
    a = {}
    if text is not None:
        a["comment"] = text
    if unit is not None:
        a["unit"] = unit
    if little is not None:
        a["is_little_endian"] = little
    return Node("Asn1Comment", **a)


def typ(name, begin=None, end=None):
    a = {"type_name": name}
    if begin is not None:
        a["begin"] = begin
        a["end"] = end
    return Node("Asn1Type", **a)


def string(length, name="IA5String"):
    return Node("Asn1Type", type_name=Node("Asn1String", type_name=K(name), length=length))


def array(length, t):
    return Node("Asn1Type", type_name=Node("Array", length=length, asn_type=t))


def pair(key, t, last=False, comment=None, wc=None):
    a = dict(key=key, asn_type=t)
    if comment is not None:
        a["comment"] = comment
    if wc is not None:
        a["with_components"] = wc
    return Node("KeyTypePairLast" if last else "KeyTypePairNotLast", **a)


def members(ps):
    """Mark the last of a list of (key, type, ...) as the last item."""
    out = []
    for i, p in enumerate(ps):
        if isinstance(p, dict):
            out.append(pair(last=i == len(ps) - 1, **p))
        else:
            out.append(pair(*p, last=i == len(ps) - 1))
    return out


def seq(name, ps, comment=None, others=()):
    a = dict(type_name=name, seq=list(others) + members(ps))
    if comment is not None:
        a["comment"] = comment
    return Node("Sequence", **a)


def choice(name, ps, comment=None):
    a = dict(type_name=name, choice=members(ps))
    if comment is not None:
        a["comment"] = comment
    return Node("Choice", **a)


def enum(name, items, comment=None):
    out = []
    for i, it in enumerate(items):
        if not isinstance(it, dict):
            it = dict(zip(("key", "pos"), it if isinstance(it, tuple) else (it,)))
        it = {k: v for k, v in it.items() if v is not None}
        out.append(Node("EnumeratedItemLast" if i == len(items) - 1 else "EnumeratedItemNotLast", **it))
    a = dict(type_name=name, enum=out)
    if comment is not None:
        a["comment"] = comment
    return Node("Enumerated", **a)


def simple(name, t, comment=None):
    a = dict(type_name=name, asn_type=t)
    if comment is not None:
        a["comment"] = comment
    return Node("SimpleDefinition", **a)


def wcomp(items, comment=None):
    out = []
    for i, (k, v, *c) in enumerate(items):
        a = dict(key=k, value=v)
        if c:
            a["comment"] = c[0]
        out.append(Node("ComponentsItemLast" if i == len(items) - 1 else "ComponentsItemNotLast", **a))
    a = dict(components=out)
    if comment is not None:
        a["comment"] = comment
    return Node("WithComponents", **a)


def imp(names, module, comment=None):
    a = dict(definitions=list(names), module_name=module)
    if comment is not None:
        a["comment"] = comment
    return Node("ImportItem", **a)


def module(name, defs, imports=None, comment=None, comment_import=None):
    a = dict(module_name=name, definitions=list(defs))
    if imports:
        a["import_items"] = list(imports)
    if comment is not None:
        a["comment"] = comment
    if comment_import is not None:
        a["comment_import"] = comment_import
    return Node("Asn1Module", **a)
