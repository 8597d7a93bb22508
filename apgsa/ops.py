"""Operations on terms: kinds, equality, order, arithmetic, strings, truth."""
import re
from .terms import (T, mk, K, NONE, TRUE, FALSE, EMPTY, isK, kv, B, Not, And, Or,
                    Ite, Cat, subterms, subst, REBUILD, is_bool)
from . import terms

STR_OPS = {"cat", "str", "fmt", "repstr", "ordstr", "lower1", "repr"}
NUM_OPS = {"lin", "cnt", "len", "mul", "shl", "shr", "bor", "band", "mod", "div",
           "fdiv", "pow", "neg", "bitlen", "idx", "count", "sumof", "max", "min"}

# kinds registered for opaque terms (car, elem, ...)
KIND = {}


def kind(t):
    """str / int / float / num / bool / none / list / obj / bytes / ? """
    o = t.op
    if o == "K":
        v = t.args[0]
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, float):
            return "float"
        if isinstance(v, str):
            return "str"
        if isinstance(v, bytes):
            return "bytes"
        return "?"
    if o in STR_OPS:
        return "str"
    if o == "sym":
        return t.args[1].split(":")[0]
    if o == "ref" or o == "tup":
        return "obj"
    if o in ("fn", "cls", "mod", "ext", "bm", "xm"):
        return "obj"
    if o == "enum":
        return "enum"
    if is_bool(t):
        return "bool"
    if o == "lin" or o in ("cnt", "len", "bitlen", "idx", "count", "shl", "shr", "bor", "band"):
        return "int"
    if o in NUM_OPS:
        return "num"
    if o == "ite":
        a, b = kind(t.args[1]), kind(t.args[2])
        return a if a == b else "?"
    if o == "call":
        n = t.args[0]
        if n.startswith("str."):
            if n[4:] in ("split", "rsplit", "splitlines", "partition"):
                return "list"
            if n[4:] in ("find", "index", "count", "rfind"):
                return "int"
            if n[4:] == "encode":
                return "bytes"
            return "str"
        if n in ("os.path.join", "os.path.dirname", "os.path.basename", "os.path.abspath", "read"):
            return "str"
        if n == "struct.pack":
            return "bytes"
        return KIND.get(t, "?")
    if o in ("attr", "fld", "elem", "others", "modof"):
        return gkind(t).split(":")[0]
    if o in ("slice", "index"):
        return "str" if kind(t.args[0]) == "str" else KIND.get(t, "?")
    if o in ("last", "first", "lastw"):
        return kind(t.args[-1])
    return KIND.get(t, "?")


def gkind(t):
    """Full kind of a generic input term, e.g. obj:Sequence|Choice, list:str:NameLower."""
    o = t.op
    if o in ("attr", "fld"):
        return t.args[2]
    if o == "others":
        return "list:" + t.args[1]
    if o == "sym":
        return t.args[1]
    if o == "modof":
        return "obj:Asn1Module"
    if o == "elem":
        k = gkind(t.args[0])
        return k[5:] if k.startswith("list:") else "?"
    if o in ("first", "last", "lastw"):
        return gkind(t.args[-1])
    return "?"


def is_str(t):
    return kind(t) == "str"


def is_num(t):
    return kind(t) in ("int", "float", "num", "bool")


# -------------------------------------------------------------- intervals
# facts about numeric inputs: term -> (lo, hi), set per scenario
class Facts:
    def __init__(self):
        self.iv = {}
        self.rel = []      # (a, b): a <= b
        self.lt = []       # (a, b): a < b


FACTS = Facts()


def set_facts(f):
    global FACTS
    FACTS = f
    _ivmemo.clear()


_ivmemo = {}
INF = float("inf")


def interval(t):
    r = _ivmemo.get(t)
    if r is None:
        r = _interval(t)
        _ivmemo[t] = r
    return r


def _interval(t):
    if isK(t):
        v = kv(t)
        if isinstance(v, (int, float)):
            return (v, v)
        return None
    f = FACTS.iv.get(t)
    if f is not None:
        return f
    o = t.op
    if o in ("cnt", "len", "bitlen", "idx", "count"):
        return (0, INF)
    if o == "lin":
        lo = hi = t.args[0]
        for c, x in t.args[1]:
            i = interval(x)
            if i is None:
                return None
            a, b = (i[0] * c, i[1] * c)
            if a > b:
                a, b = b, a
            lo += a
            hi += b
        return (lo, hi)
    if o == "mul":
        i, j = interval(t.args[0]), interval(t.args[1])
        if i and j and INF not in (i[1], j[1]) and -INF not in (i[0], j[0]):
            ps = [x * y for x in i for y in j]
            return (min(ps), max(ps))
        if i and j and i[0] >= 0 and j[0] >= 0:
            return (i[0] * j[0], INF)
        return None
    if o == "neg":
        i = interval(t.args[0])
        return (-i[1], -i[0]) if i else None
    if o == "ite":
        i, j = interval(t.args[1]), interval(t.args[2])
        if i and j:
            return (min(i[0], j[0]), max(i[1], j[1]))
    if is_bool(t):
        return (0, 1)
    return None


# -------------------------------------------------------------- arithmetic

def _linparts(t):
    if isK(t) and isinstance(kv(t), (int, float)):
        return kv(t), {}
    if t.op == "lin":
        return t.args[0], {x: c for c, x in t.args[1]}
    return 0, {t: 1}


def mklin(c0, d):
    d = {x: c for x, c in d.items() if c != 0}
    if not d:
        return K(c0)
    if c0 == 0 and len(d) == 1:
        (x, c), = d.items()
        if c == 1:
            return x
    items = tuple((c, x) for x, c in sorted(d.items(), key=lambda p: p[0].uid))
    return mk("lin", c0, items)


def Add(a, b, sign=1):
    if a.op == "ite":
        return Ite(a.args[0], Add(a.args[1], b, sign), Add(a.args[2], b, sign))
    if b.op == "ite":
        return Ite(b.args[0], Add(a, b.args[1], sign), Add(a, b.args[2], sign))
    c1, d1 = _linparts(a)
    c2, d2 = _linparts(b)
    d = dict(d1)
    for x, c in d2.items():
        d[x] = d.get(x, 0) + sign * c
    return mklin(c1 + sign * c2, d)


def Sub(a, b):
    return Add(a, b, -1)


def Mul(a, b):
    if isK(a) and isK(b):
        return K(kv(a) * kv(b))
    if isK(b):
        a, b = b, a
    if isK(a) and isinstance(kv(a), (int, float)) and not isinstance(kv(a), bool):
        k = kv(a)
        if k == 0:
            return K(0)
        if k == 1:
            return b
        c, d = _linparts(b)
        return mklin(c * k, {x: y * k for x, y in d.items()})
    if a.uid > b.uid:
        a, b = b, a
    return mk("mul", a, b)


def Bor(a, b):
    k = 0
    parts = []
    for t in (a, b):
        for p in (t.args if t.op == "bor" else (t,)):
            if isK(p) and isinstance(kv(p), int):
                k |= int(kv(p))
            elif p not in parts:
                parts.append(p)
    if not parts:
        return K(k)
    if k:
        parts.append(K(k))
    if len(parts) == 1:
        return parts[0]
    return mk("bor", *sorted(parts))


def Shl(a, b):
    if isK(a) and isK(b):
        return K(kv(a) << kv(b))
    if b is K(0):
        return a
    return mk("shl", a, b)


def BitLen(t):
    if isK(t) and isinstance(kv(t), int):
        return K(kv(t).bit_length())
    i = interval(t)
    if i and i[0] != -INF and i[1] != INF and isinstance(i[0], int) and isinstance(i[1], int) \
            and i[0] >= 0 and i[0].bit_length() == i[1].bit_length():
        return K(i[0].bit_length())
    return mk("bitlen", t)


# ------------------------------------------------------------- comparisons

def Eq(a, b):
    if a is b:
        return TRUE
    if isK(a) and isK(b):
        try:
            return B(kv(a) == kv(b))
        except Exception:
            return FALSE
    if isK(a):
        a, b = b, a
    if a.op == "ite" and (isK(b) or b.op in ("sym", "enum", "ref") or isK(a.args[1]) or isK(a.args[2])):
        return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
    if b.op == "ite" and (isK(a) or a.op in ("sym", "enum", "ref") or isK(b.args[1]) or isK(b.args[2])):
        return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
    if a.op == "enum" or b.op == "enum":
        if a.op != "enum":
            a, b = b, a
        if b.op == "enum":
            return FALSE
        if isK(b):
            # str-valued enumerations compare equal to their value
            return B(a.args[2] and a.args[3] is b)
        if kind(b) in ("int", "float", "none", "bool", "obj"):
            return FALSE
    if a.op in ("fn", "cls", "mod", "ext") and b.op in ("fn", "cls", "mod", "ext"):
        return FALSE
    ka, kb = kind(a), kind(b)
    if a.op == "tup" and b.op == "tup":
        if len(a.args) != len(b.args):
            return FALSE
        return And(*[Eq(x, y) for x, y in zip(a.args, b.args)])
    if kb == "none":
        if ka in ("int", "float", "num", "str", "bool", "bytes", "enum"):
            if a.op not in ("attr", "elem", "fld"):
                return FALSE
        if ka == "obj" and a.op in ("attr", "elem", "fld", "modof"):
            return Not(Truth(a))
        if a.op in ("ref", "tup", "cls", "fn"):
            return FALSE
        if a.op == "enum":
            return FALSE
    simple = ("int", "float", "num", "bool", "str", "none", "bytes")
    if ka in simple and kb in simple:
        num = ("int", "float", "num", "bool")
        if (ka in num) != (kb in num) and "none" not in (ka, kb):
            return FALSE
        if ka == "str" and kb == "bytes" or ka == "bytes" and kb == "str":
            return FALSE
    if (a.op == "ref") != (b.op == "ref"):
        o = b if a.op == "ref" else a
        if kind(o) in simple or o.op in ("tup", "cls", "fn", "enum"):
            return FALSE
    if a.op == "ref" and b.op == "ref":
        return FALSE
    if ka == "bool" and kb == "bool" and isK(b):
        return a if kv(b) else Not(a)
    if ka == "str" and b is EMPTY:
        return Not(Truth(a))
    if a.op == "str" and isK(b) and isinstance(kv(b), str):
        x, kx, s = a.args[0], kind(a.args[0]), kv(b)
        if kx == "int":
            import re
            return Eq(x, K(int(s))) if re.fullmatch(r"0|-?[1-9][0-9]*", s) else FALSE
        if kx == "bool":
            return x if s == "True" else Not(x) if s == "False" else FALSE
        if kx in ("float", "num"):
            try:
                float(s)
            except ValueError:
                return FALSE
    if a.op in ("lin", "cnt", "len", "count", "idx", "bitlen") or b.op in ("lin", "cnt", "len"):
        r = _cmp_lin(a, b, "eq")
        if r is not None:
            return r
    i, j = interval(a), interval(b)
    if i and j and (i[1] < j[0] or j[1] < i[0]):
        return FALSE
    if FACTS.lt and ((a, b) in FACTS.lt or (b, a) in FACTS.lt):
        return FALSE
    if a.op == "call" and a.args[0] in ("str.find", "str.rfind") and isK(b) and kv(b) == -1:
        return Not(Contains(a.args[1], a.args[2]))
    if a.op == "cat" or b.op == "cat":
        r = _eq_cat(a, b)
        if r is not None:
            return r
    if a.uid > b.uid:
        a, b = b, a
    return mk("eq", a, b)


def _parts(t):
    return list(t.args) if t.op == "cat" else [t]


def _eq_cat(a, b):
    pa, pb = _parts(a), _parts(b)
    # strip common prefix/suffix
    ch = False
    while pa and pb:
        if pa[0] is pb[0]:
            pa.pop(0), pb.pop(0)
            ch = True
            continue
        if isK(pa[0]) and isK(pb[0]):
            x, y = kv(pa[0]), kv(pb[0])
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return FALSE
            pa[0:1] = [K(x[n:])] if x[n:] else []
            pb[0:1] = [K(y[n:])] if y[n:] else []
            ch = True
            continue
        break
    while pa and pb:
        if pa[-1] is pb[-1]:
            pa.pop(), pb.pop()
            ch = True
            continue
        if isK(pa[-1]) and isK(pb[-1]):
            x, y = kv(pa[-1]), kv(pb[-1])
            n = min(len(x), len(y))
            if x[len(x) - n:] != y[len(y) - n:]:
                return FALSE
            pa[-1:] = [K(x[:len(x) - n])] if x[:len(x) - n] else []
            pb[-1:] = [K(y[:len(y) - n])] if y[:len(y) - n] else []
            ch = True
            continue
        break
    if not ch:
        # literal text a symbolic part cannot contain
        return None
    if not pa and not pb:
        return TRUE
    return Eq(Cat(*pa), Cat(*pb))


def _cmp_lin(a, b, op):
    """Comparisons of counts: canonical forms on n >= 0."""
    d = Sub(a, b)
    if isK(d):
        return B(kv(d) == 0) if op == "eq" else B(kv(d) < 0)
    if d.op == "ite":
        c, x, y = d.args
        z = K(0)
        if op == "eq":
            return Ite(c, Eq(x, z), Eq(y, z))
        return Ite(c, Lt(x, z), Lt(y, z))
    i = interval(d)
    if i:
        if op == "eq" and (i[0] > 0 or i[1] < 0):
            return FALSE
        if op == "lt":
            if i[1] < 0:
                return TRUE
            if i[0] >= 0:
                return FALSE
    c0, ds = _linparts(d)
    if len(ds) == 1:
        (x, c), = ds.items()
        if x.op in ("cnt", "len", "count", "idx") and c in (1, -1):
            # c*x + c0 (op) 0
            if op == "eq":
                n = -c0 * c
                if n < 0:
                    return FALSE
                if n == 0:
                    return Not(NonZero(x))
            else:
                if c == 1:          # x < -c0
                    n = -c0
                    if n <= 0:
                        return FALSE
                    if n == 1:
                        return Not(NonZero(x))
                else:               # -x + c0 < 0  <=> x > c0
                    if c0 < 0:
                        return TRUE
                    if c0 == 0:
                        return NonZero(x)
    elif op == "eq" and c0 == 0 and all(c > 0 for c in ds.values()) and \
            all(x.op in ("cnt", "len", "count") for x in ds):
        return And(*[Not(NonZero(x)) for x in ds])
    elif op == "lt" and c0 == 0 and all(c < 0 for c in ds.values()) and \
            all(x.op in ("cnt", "len", "count") for x in ds):
        return Or(*[NonZero(x) for x in ds])
    return None


def NonZero(x):
    if x.op == "cnt":
        return Exists(x.args[0], x.args[1], x.args[2])
    if x.op == "len":
        return Truth(x.args[0]) if kind(x.args[0]) == "str" else Exists(x.args[0], 0, TRUE)
    return mk("truthy", x)


def Lt(a, b):
    if a is b:
        return FALSE
    if isK(a) and isK(b):
        try:
            return B(kv(a) < kv(b))
        except Exception:
            return mk("lt", a, b)
    if a.op == "ite" and (isK(b) or b.op == "sym"):
        return Ite(a.args[0], Lt(a.args[1], b), Lt(a.args[2], b))
    if b.op == "ite" and (isK(a) or a.op == "sym"):
        return Ite(b.args[0], Lt(a, b.args[1]), Lt(a, b.args[2]))
    if a.op == "call" and a.args[0] in ("str.find", "str.rfind") and isK(b):
        if kv(b) == 0:
            return Not(Contains(a.args[1], a.args[2]))
        if kv(b) <= -1:
            return FALSE
    if b.op == "call" and b.args[0] in ("str.find", "str.rfind") and isK(a):
        if kv(a) == -1:
            return Contains(b.args[1], b.args[2])
        if kv(a) < -1:
            return TRUE
    if b.op == "call" and b.args[0] == "str.count" and a is K(0):
        return Contains(b.args[1], b.args[2])
    if {a.op, b.op} & {"lin", "cnt", "len", "count", "idx"}:
        r = _cmp_lin(a, b, "lt")
        if r is not None:
            return r
    i, j = interval(a), interval(b)
    if i and j:
        if i[1] < j[0]:
            return TRUE
        if i[0] >= j[1]:
            return FALSE
    if FACTS.lt and (a, b) in FACTS.lt:
        return TRUE
    if (b, a) in FACTS.rel or (b, a) in FACTS.lt:
        return FALSE
    return mk("lt", a, b)


def Le(a, b):
    return Not(Lt(b, a))


def Contains(s, x):
    """x in s for strings."""
    if isK(s) and isK(x) and isinstance(kv(x), str) and isinstance(kv(s), str):
        return B(kv(x) in kv(s))
    if x is EMPTY:
        return TRUE
    if s.op == "cat" and isK(x) and isinstance(kv(x), str) and any(
            isK(p) and isinstance(kv(p), str) and kv(x) in kv(p)
            for p in s.args):
        return TRUE
    if isK(x) and isinstance(kv(x), str) and len(kv(x)) == 1:
        if s.op == "cat":
            return Or(*[Contains(p, x) for p in s.args])
        al = alphabet(s)
        if al is not None and kv(x) not in al:
            return FALSE
    if s.op == "ite":
        return Ite(s.args[0], Contains(s.args[1], x), Contains(s.args[2], x))
    return mk("contains", s, x)


# ----------------------------------------------------------------- exists

def binder(src, d):
    return mk("elem", src, d)


def Exists(src, d, c):
    if c is FALSE:
        return FALSE
    e = binder(src, d)
    if c is TRUE:
        return mk("nonempty", src)
    if c.op == "or":
        return Or(*[Exists(src, d, x) for x in c.args])
    cs = list(c.args) if c.op == "and" else [c]
    inner, outer = [], []
    for x in cs:
        (inner if e in subterms(x) else outer).append(x)
    if not inner:
        return And(*outer, mk("nonempty", src))
    body = And(*inner)
    # witness: an enclosing element of the same source
    for y in subterms(body):
        if y.op == "elem" and y.args[0] is src and y.args[1] != d:
            w = subst(body, lambda t: y if t is e else None)
            if w is TRUE:
                return And(*outer)
    return And(*outer, mk("exists", src, d, body))


def _rb_exists(src, d, c):
    return Exists(src, d, c)


# ------------------------------------------------------------------ truth

def Truth(t):
    if isK(t):
        return B(bool(kv(t)))
    if is_bool(t):
        return t
    o = t.op
    if o == "ite":
        return Ite(t.args[0], Truth(t.args[1]), Truth(t.args[2]))
    if o == "cat":
        return Or(*[Truth(p) for p in t.args])
    if o == "str":
        k = kind(t.args[0])
        if k == "str":
            return Truth(t.args[0])
        return TRUE
    if o == "repr":
        return TRUE
    if o == "fmt":
        spec = t.args[1]
        if re.search(r"[1-9]", spec) or kind(t.args[0]) in ("int", "float", "num"):
            return TRUE
        return Truth(t.args[0])
    if o == "sym":
        if t.args[1].startswith("str:"):
            return TRUE            # a non-empty name or text
        if t.args[1] in ("int", "float", "num"):
            return Not(Eq(t, K(0)))
    if o == "lower1":
        return Truth(t.args[0])
    if o == "call" and t.args[0] in ("str.replace", "str.upper", "str.lower", "str.title"):
        if t.args[0] != "str.replace" or (isK(t.args[3]) and kv(t.args[3])):
            return Truth(t.args[1])
    if o in ("lin", "cnt", "count", "bitlen", "idx"):
        return Not(Eq(t, K(0)))
    if o == "len":
        return NonZero(t)
    if o == "bor":
        if any(isK(p) for p in t.args):
            return TRUE
        return Or(*[Truth(p) for p in t.args])
    if o == "shl":
        return Truth(t.args[0])
    if o == "tup":
        return B(len(t.args) > 0)
    if o in ("fn", "cls", "mod", "ext", "bm", "xm"):
        return TRUE
    if o == "enum":
        return TRUE
    if o == "ordstr":
        return Truth(t.args[1])
    if o == "repstr":
        return Exists(t.args[0], t.args[1], And(t.args[2], Truth(t.args[3])))
    return mk("truthy", t)


# ---------------------------------------------------------------- strings

ALPHABETS = {}      # sym kind -> frozenset of characters
REGEX = {}          # sym kind -> compiled regex of the names of that kind
RESERVED = set()    # names the scenario excludes as values of rigid names


def alphabet(t):
    """Characters t can contain, or None if unknown."""
    if isK(t):
        v = kv(t)
        return frozenset(v) if isinstance(v, str) else frozenset(str(v))
    o = t.op
    if o == "sym":
        return ALPHABETS.get(t.args[1])
    if o == "cat":
        out = frozenset()
        for p in t.args:
            a = alphabet(p)
            if a is None:
                return None
            out |= a
        return out
    if o == "lower1":
        a = alphabet(t.args[0])
        return a | frozenset(c.lower() for c in a) if a is not None else None
    if o == "call":
        n = t.args[0]
        if n == "str.replace" and isK(t.args[2]) and isK(t.args[3]):
            a = alphabet(t.args[1])
            if a is None:
                return None
            x = kv(t.args[2])
            if len(x) == 1:
                if x in a:
                    return (a - {x}) | frozenset(kv(t.args[3]))
                return a
            return a | frozenset(kv(t.args[3]))
        if n == "str.upper":
            a = alphabet(t.args[1])
            return frozenset(c.upper() for c in a) if a is not None else None
        if n == "str.lower":
            a = alphabet(t.args[1])
            return frozenset(c.lower() for c in a) if a is not None else None
    if o == "str" and kind(t.args[0]) in ("int",):
        return frozenset("-0123456789")
    if o == "ite":
        a, b = alphabet(t.args[1]), alphabet(t.args[2])
        return a | b if a is not None and b is not None else None
    if o == "attr" and t.args[2] == "str":
        return ALPHABETS.get("attr:" + t.args[1])
    return None


def Replace(s, x, y):
    if isK(s) and isK(x) and isK(y):
        return K(kv(s).replace(kv(x), kv(y)))
    if s.op == "ite":
        return Ite(s.args[0], Replace(s.args[1], x, y), Replace(s.args[2], x, y))
    if isK(x) and isinstance(kv(x), str) and len(kv(x)) == 1:
        if s.op == "cat":
            return Cat(*[Replace(p, x, y) for p in s.args])
        a = alphabet(s)
        if a is not None and kv(x) not in a:
            return s
        if s.op == "repstr":
            return RepStr(s.args[0], s.args[1], s.args[2], Replace(s.args[3], x, y))
        if s.op == "ordstr":
            return mk("ordstr", s.args[0], Replace(s.args[1], x, y))
    elif isK(x) and isK(y) and kv(x).strip() == "" and kv(y).strip() == "" and s.op == "cat":
        # white space only: apply to the literal parts
        ps = [K(kv(p).replace(kv(x), kv(y))) if isK(p) and isinstance(kv(p), str) else p for p in s.args]
        return Cat(*ps)
    elif isK(x) and isK(y) and kv(x).strip() == "" and kv(y).strip() == "":
        return s
    if s.op == "lower1" and isK(x) and not kv(x).isalpha():
        return Lower1(Replace(s.args[0], x, y))
    return mk("call", "str.replace", s, x, y)


def Upper(s):
    if isK(s):
        return K(kv(s).upper())
    if s.op == "cat":
        return Cat(*[Upper(p) for p in s.args])
    if s.op == "ite":
        return Ite(s.args[0], Upper(s.args[1]), Upper(s.args[2]))
    if s.op == "call" and s.args[0] == "str.upper":
        return s
    if s.op == "call" and s.args[0] == "str.lower" or s.op == "lower1":
        return Upper(s.args[1] if s.op == "call" else s.args[0])
    if s.op == "call" and s.args[0] == "str.replace" and isK(s.args[2]) and isK(s.args[3]) \
            and not kv(s.args[2]).isalpha() and kv(s.args[3]).upper() == kv(s.args[3]):
        u = Upper(s.args[1])
        if u.op == "call" and u.args[0] == "str.upper" and u.args[1] is s.args[1]:
            return mk("call", "str.upper", s)
    if s.op == "str" and kind(s.args[0]) in ("int",):
        return s
    return mk("call", "str.upper", s)


def Lower(s):
    if isK(s):
        return K(kv(s).lower())
    if s.op == "cat":
        return Cat(*[Lower(p) for p in s.args])
    if s.op == "ite":
        return Ite(s.args[0], Lower(s.args[1]), Lower(s.args[2]))
    if s.op == "call" and s.args[0] in ("str.lower", "str.upper"):
        return Lower(s.args[1]) if s.args[0] == "str.upper" else s
    return mk("call", "str.lower", s)


def Lower1(s):
    if isK(s):
        v = kv(s)
        return K(v[:1].lower() + v[1:])
    if s.op == "cat" and Truth(s.args[0]) is TRUE:
        return Cat(Lower1(s.args[0]), *s.args[1:])
    if s.op == "lower1":
        return s
    if s.op == "ite":
        return Ite(s.args[0], Lower1(s.args[1]), Lower1(s.args[2]))
    return mk("lower1", s)


def StrOf(t):
    """str(t) for scalars."""
    if isK(t):
        return K(str(kv(t)))
    if is_str(t):
        return t
    if t.op == "ite":
        return Ite(t.args[0], StrOf(t.args[1]), StrOf(t.args[2]))
    return mk("str", t)


def Fmt(t, spec):
    if spec == "":
        return StrOf(t)
    if isK(t):
        try:
            return K(format(kv(t), spec))
        except Exception:
            return mk("fmt", t, spec)
    if t.op == "ite":
        return Ite(t.args[0], Fmt(t.args[1], spec), Fmt(t.args[2], spec))
    return mk("fmt", t, spec)


def RepStr(src, d, cond, body):
    if cond is FALSE or body is EMPTY:
        return EMPTY
    if body.op == "ite":
        # guarded pieces become the guard
        if body.args[2] is EMPTY:
            return RepStr(src, d, And(cond, body.args[0]), body.args[1])
        if body.args[1] is EMPTY:
            return RepStr(src, d, And(cond, Not(body.args[0])), body.args[2])
    return mk("repstr", src, d, cond, body)


def preimages(t, c):
    """Constants x with f(x) == c, for t = f(sym); returns (sym, [x..]) or None."""
    if t.op == "sym":
        return t, [c]
    if t.op == "attr" and t.args[2] == "str" and "attr:" + t.args[1] in ALPHABETS:
        return t, [c]
    if t.op == "lower1":
        r = preimages_list(t.args[0], [c, c[:1].upper() + c[1:]] if c[:1].islower() or not c[:1].isalpha() else [])
        return r
    if t.op == "call" and t.args[0] == "str.replace" and isK(t.args[2]) and isK(t.args[3]):
        x, y = kv(t.args[2]), kv(t.args[3])
        if len(x) == 1 and len(y) == 1:
            if x in c:
                return preimages_list(t.args[1], [])
            a = alphabet(t.args[1])
            if a is not None and y not in a:
                return preimages_list(t.args[1], [c.replace(y, x)])
    if t.op == "cat":
        # strip literal ends
        ps = list(t.args)
        while ps and isK(ps[0]):
            if not c.startswith(kv(ps[0])):
                return _symin(t), []
            c = c[len(kv(ps[0])):]
            ps.pop(0)
        while ps and isK(ps[-1]):
            if not c.endswith(kv(ps[-1])):
                return _symin(t), []
            c = c[:len(c) - len(kv(ps[-1]))]
            ps.pop()
        if len(ps) == 1:
            return preimages(ps[0], c)
    return None


def _symin(t):
    for x in subterms(t):
        if x.op == "sym":
            return x
    return t


def preimages_list(t, cs):
    sym, out = None, []
    for c in cs:
        r = preimages(t, c)
        if r is None:
            return None
        sym = r[0]
        out.extend(r[1])
    if sym is None:
        sym = _symin(t)
    return sym, out


def injective(t):
    """(sym, shape) if t is an injective image of one name symbol."""
    if t.op == "sym":
        return t, ()
    if t.op == "call" and t.args[0] == "str.replace" and isK(t.args[2]) and isK(t.args[3]) \
            and len(kv(t.args[3])) == 1:
        a = alphabet(t.args[1])
        r = injective(t.args[1])
        if r and a is not None and kv(t.args[3]) not in a:
            return r[0], r[1] + (("r", kv(t.args[2]), kv(t.args[3])),)
    if t.op == "lower1":
        r = injective(t.args[0])
        if r and r[0].args[1] in ("str:NameCapital", "str:NameLower"):
            return r[0], r[1] + ("l1",)
    if t.op == "call" and t.args[0] in ("str.upper", "str.lower"):
        return None
    return None


REBUILD["eq"] = Eq
REBUILD["lt"] = Lt
REBUILD["exists"] = _rb_exists
REBUILD["contains"] = Contains
REBUILD["truthy"] = Truth
REBUILD["lower1"] = Lower1
REBUILD["repstr"] = RepStr
REBUILD["str"] = StrOf
REBUILD["fmt"] = Fmt
REBUILD["nonempty"] = lambda src: mk("nonempty", src)
REBUILD["bor"] = lambda *ps: _fold(Bor, ps)
REBUILD["shl"] = Shl
REBUILD["mul"] = Mul


def _fold(f, ps):
    r = ps[0]
    for p in ps[1:]:
        r = f(r, p)
    return r


def _rb_lin(c0, items):
    r = K(c0)
    for c, x in items:
        r = Add(r, Mul(K(c), x))
    return r


REBUILD["lin"] = _rb_lin


def _rb_call(name, *args):
    if name == "str.replace":
        return Replace(*args)
    if name == "str.upper":
        return Upper(*args)
    if name == "str.lower":
        return Lower(*args)
    return mk("call", name, *args)


REBUILD["call"] = _rb_call
