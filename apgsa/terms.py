"""Hash-consed terms of the value-dependence domain.

A term is an abstract value: a constant, a named input of the analysed
program, or an operator applied to terms (Herbrand interpretation with the
algebraic normalisation below).  Two program expressions with equal terms
compute the same value.
"""

_table = {}
_count = [0]


class T:
    __slots__ = ("op", "args", "uid", "_mem")

    def __init__(self, op, args, uid):
        self.op = op
        self.args = args
        self.uid = uid
        self._mem = None

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


def mk(op, *args):
    key = (op,) + tuple((a.uid, "#t") if isinstance(a, T) else (_ck(a)) for a in args)
    t = _table.get(key)
    if t is None:
        _count[0] += 1
        t = T(op, args, _count[0])
        _table[key] = t
    return t


def _ck(a):
    if isinstance(a, tuple):
        return ("#tup",) + tuple(
            (x.uid, "#t") if isinstance(x, T) else _ck(x) for x in a)
    return (type(a).__name__, a)


def K(v):
    return mk("K", v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
EMPTY = K("")


def isK(t):
    return t.op == "K"


def kv(t):
    return t.args[0]


def B(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- booleans

def Not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def And(*cs):
    out = []
    seen = set()
    stack = list(cs)
    while stack:
        c = stack.pop(0)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            stack[0:0] = list(c.args)
            continue
        if c.op == "not" and c.args[0].op == "or":
            stack[0:0] = [Not(d) for d in c.args[0].args]
            continue
        if c in seen:
            continue
        seen.add(c)
        out.append(c)
    for c in out:
        if Not(c) in seen:
            return FALSE
    # simplify disjunctions by unit propagation
    units = {c for c in out if c.op != "or"}
    changed = False
    res = []
    for c in out:
        if c.op == "or":
            if any(d in units for d in c.args):
                changed = True
                continue
            ds = [d for d in c.args if Not(d) not in units]
            if len(ds) != len(c.args):
                changed = True
                res.append(Or(*ds))
                continue
        res.append(c)
    if changed:
        return And(*res)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.uid)
    return mk("and", *out)


def Or(*cs):
    out = []
    seen = set()
    stack = list(cs)
    while stack:
        c = stack.pop(0)
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == "or":
            stack[0:0] = list(c.args)
            continue
        if c.op == "not" and c.args[0].op == "and":
            stack[0:0] = [Not(d) for d in c.args[0].args]
            continue
        if c in seen:
            continue
        seen.add(c)
        out.append(c)
    for c in out:
        if Not(c) in seen:
            return TRUE
        if c.op == "not" and c.args[0].op == "or":
            # not(a | b | c) beside a | b:  what is left is not(c)
            rest = [d for d in c.args[0].args if d not in seen]
            if len(rest) != len(c.args[0].args):
                return Or(*[d for d in out if d is not c], Not(Or(*rest)))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # absorption / resolution of conjunctions against single literals
    lits = {c for c in out if c.op != "and"}
    res = []
    changed = False
    for c in out:
        if c.op == "and":
            if any(a in lits for a in c.args):
                changed = True
                continue
            ps = [a for a in c.args if Not(a) not in lits]
            if len(ps) != len(c.args):
                changed = True
                res.append(And(*ps))
                continue
        res.append(c)
    if changed:
        return Or(*res)
    # factor a common conjunct:  (a&x)|(a&y) -> a&(x|y)
    if all(c.op == "and" for c in out):
        common = set(out[0].args)
        for c in out[1:]:
            common &= set(c.args)
        if common:
            rest = [And(*[a for a in c.args if a not in common]) for c in out]
            return And(*sorted(common), Or(*rest))
    out.sort(key=lambda t: t.uid)
    return mk("or", *out)


BOOL_OPS = {"not", "and", "or", "eq", "lt", "in", "isinst", "truthy", "exists",
            "nonempty", "contains", "startswith", "endswith", "same", "exc",
            "haskey", "bool", "until"}


def is_bool(t):
    return t.op in BOOL_OPS or (isK(t) and isinstance(kv(t), bool))


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return Ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return Or(And(c, a), And(Not(c), b))
    if a.op == "cat" or b.op == "cat":
        pa, pb = cat_parts(a), cat_parts(b)
        if pa is not None and pb is not None:
            i = 0
            while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
                i += 1
            if i:
                return Cat(*pa[:i], Ite(c, Cat(*pa[i:]), Cat(*pb[i:])))
    return mk("ite", c, a, b)


def cat_parts(t):
    if t.op == "cat":
        return list(t.args)
    if isK(t) and isinstance(kv(t), str):
        return [t] if kv(t) else []
    from .ops import is_str
    if is_str(t):
        return [t]
    return None


def Cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            sub = p.args
        else:
            sub = (p,)
        for q in sub:
            if isK(q) and isinstance(kv(q), str):
                if kv(q) == "":
                    continue
                if out and isK(out[-1]) and isinstance(kv(out[-1]), str):
                    out[-1] = K(kv(out[-1]) + kv(q))
                    continue
            out.append(q)
    if len(out) == 1 and out[0].op == "cat":
        return out[0]
    # x[:1].lower() + x[1:]  ->  lower1(x)
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        x = _lower_first(a)
        if x is not None and b.op == "slice" and b.args[0] is x and \
                b.args[1] is K(1) and b.args[2] is NONE:
            out[i:i + 2] = [rebuild("lower1", (x,))]
        i += 1
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def _lower_first(a):
    if a.op == "call" and a.args[0] == "str.lower":
        b = a.args[1]
        if b.op == "slice" and b.args[1] in (NONE, K(0)) and b.args[2] is K(1):
            return b.args[0]
        if b.op == "index" and b.args[1] is K(0):
            return b.args[0]
    return None


# ---------------------------------------------------------------- traversal

def subterms(t, seen=None):
    """All distinct subterms (through nested item tuples)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def mentions_term(t, u):
    return u in subterms(t)


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def subst(t, f, memo=None):
    """Rewrite bottom-up: f(term) -> term or None (keep)."""
    if memo is None:
        memo = {}
    return _subst(t, f, memo)


def _subst(t, f, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, f, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        new = tuple(_subst(x, f, memo) for x in t.args)
        if all(a is b or a == b for a, b in zip(new, t.args)) and \
                all(type(a) is type(b) for a, b in zip(new, t.args)):
            r = t
        else:
            r = rebuild(t.op, new)
    memo[t] = r
    return r


REBUILD["not"] = Not
REBUILD["and"] = And
REBUILD["or"] = Or
REBUILD["ite"] = Ite
REBUILD["cat"] = Cat


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth > 14:
        return "..."
    o, a = t.op, t.args
    d = depth + 1
    if o == "K":
        return repr(a[0])
    if o == "sym":
        return "<" + str(a[0]) + ">"
    if o == "not":
        return "not " + show(a[0], d)
    if o in ("and", "or"):
        return "(" + (" " + o + " ").join(show(x, d) for x in a) + ")"
    if o == "eq":
        return "(%s == %s)" % (show(a[0], d), show(a[1], d))
    if o == "lt":
        return "(%s < %s)" % (show(a[0], d), show(a[1], d))
    if o == "ite":
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == "elem":
        return "each(%s)" % show(a[0], d)
    if o == "attr" or o == "get" or o == "fld":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "cat":
        return " ++ ".join(show(x, d) for x in a)
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))
