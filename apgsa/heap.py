"""Abstract heap: immutable cells, and states of the abstract interpreter."""
from .terms import T, mk, K, TRUE, FALSE, And, Or, Not, Ite, Cat, subterms, subst
from .ops import kind


class LCell:
    """list / set / tuple / gen: a tuple of segments.

    ('it', v)                      one element
    ('sp', t)                      all elements of the abstract list t
    ('opt', c, items)              items if c
    ('rep', src, d, c, items)      for each elem(src, d) with c: items
    ('ord', tag, items)            items, in an order described by tag
    """
    __slots__ = ("kind", "items")

    def __init__(self, kind, items=()):
        self.kind = kind
        self.items = tuple(items)

    def with_items(self, items):
        return LCell(self.kind, items)


class DCell:
    """dict: segments ('kv', k, v), ('dsp', t), ('dopt', c, ents),
    ('drep', src, d, c, ents), ('dord', tag, ents), ('del', k);
    later entries win."""
    __slots__ = ("kind", "ents", "default")

    def __init__(self, kind="dict", ents=(), default=None):
        self.kind = kind
        self.ents = tuple(ents)
        self.default = default

    def with_ents(self, ents):
        return DCell(self.kind, ents, self.default)


class OCell:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields

    def set(self, name, v):
        f = dict(self.fields)
        f[name] = v
        return OCell(self.cls, f)


class FCell:
    __slots__ = ("path", "mode", "content", "closed")

    def __init__(self, path, mode, content, closed=False):
        self.path = path
        self.mode = mode
        self.content = content
        self.closed = closed


class State:
    __slots__ = ("env", "heap", "live", "_lits")

    def __init__(self, env, heap, live=()):
        self.env = env
        self.heap = heap
        self.live = live
        self._lits = None

    def fork(self):
        s = State(dict(self.env), dict(self.heap), self.live)
        s._lits = self._lits
        return s

    def kill(self):
        self.live = None

    def assume(self, c):
        if self.live is None or c is TRUE:
            return
        if c is FALSE:
            self.live = None
            return
        cs = c.args if c.op == "and" else (c,)
        lits = self.lits()
        for x in cs:
            if Not(x) in lits:
                self.live = None
                return
        self.live = self.live + tuple(x for x in cs if x not in lits)
        self._lits = None

    def lits(self):
        if self._lits is None or self._lits[0] is not self.live:
            s = set()
            for c in self.live:
                if c.op == "and":
                    s.update(c.args)
                else:
                    s.add(c)
            ors = [c for c in s if c.op == "or"]
            ch = bool(ors)
            while ch:
                ch = False
                for o in ors:
                    rest = [x for x in o.args if Not(x) not in s and not _falsified(x, s)]
                    if len(rest) == 1 and not any(x in s for x in o.args):
                        x = rest[0]
                        for y in (x.args if x.op == "and" else (x,)):
                            if y not in s:
                                s.add(y)
                                ch = True
            # no assumed atoms that contradict remain interesting here
            self._lits = (self.live, s)
        return self._lits[1]

    def take(self, o):
        self.env, self.heap, self.live, self._lits = o.env, o.heap, o.live, o._lits


def _falsified(x, s):
    if x.op == "and":
        return any(Not(a) in s for a in x.args)
    return False


def merge_items(c, a, b, opt="opt"):
    """Common prefix and suffix stay, the rest becomes conditional."""
    i = 0
    n = min(len(a), len(b))
    while i < n and a[i] == b[i]:
        i += 1
    j = 0
    while j < n - i and a[len(a) - 1 - j] == b[len(b) - 1 - j]:
        j += 1
    pre, suf = a[:i], a[len(a) - j:] if j else ()
    ra, rb = a[i:len(a) - j], b[i:len(b) - j]
    mid = ()
    # same single element with different values: keep one element
    if opt == "opt" and len(ra) == len(rb) and all(x[0] == "it" and y[0] == "it" for x, y in zip(ra, rb)):
        mid = tuple(("it", Ite(c, x[1], y[1])) for x, y in zip(ra, rb))
    else:
        if ra:
            mid += ((opt, c, ra),)
        if rb:
            mid += ((opt, Not(c), rb),)
    return pre + mid + suf


def merge_cell(c, x, y):
    if x is y:
        return x
    if isinstance(x, LCell) and isinstance(y, LCell):
        if x.items == y.items:
            return x
        return LCell(x.kind, merge_items(c, x.items, y.items))
    if isinstance(x, DCell) and isinstance(y, DCell):
        if x.ents == y.ents:
            return x
        return DCell(x.kind, merge_items(c, x.ents, y.ents, "dopt"), x.default)
    if isinstance(x, OCell) and isinstance(y, OCell):
        f = {}
        same = True
        for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
            if k in x.fields and k in y.fields:
                a, b = x.fields[k], y.fields[k]
                f[k] = a if a is b else Ite(c, a, b)
                same = same and a is f[k]
            else:
                f[k] = x.fields.get(k, y.fields.get(k))
                same = False
        return x if same else OCell(x.cls, f)
    if isinstance(x, FCell) and isinstance(y, FCell):
        if x.content is y.content and x.closed == y.closed:
            return x
        return FCell(x.path, x.mode, Ite(c, x.content, y.content), x.closed and y.closed)
    return x


def merge2(n, sel, a, va, b, vb):
    """Join of two live states that split at live[:n] on sel."""
    env = {}
    if a.env is b.env:
        env = a.env
    else:
        for k, x in a.env.items():
            y = b.env.get(k)
            env[k] = x if (y is None or x is y) else Ite(sel, x, y)
        for k, y in b.env.items():
            if k not in env:
                env[k] = y
    if a.heap is b.heap:
        heap = a.heap
    else:
        heap = dict(b.heap)
        for k, x in a.heap.items():
            y = heap.get(k)
            if y is None:
                heap[k] = x
            elif x is not y:
                heap[k] = merge_cell(sel, x, y)
    xa, xb = And(*a.live[n:]), And(*b.live[n:])
    o = Or(xa, xb)
    base = a.live[:n]
    live = base if o is TRUE else base + ((o,) if o.op != "and" else tuple(o.args))
    v = None
    if va is not None and vb is not None:
        v = Ite(sel, va, vb)
    elif va is not None or vb is not None:
        v = va if va is not None else vb
    return State(env, heap, live), v


def merge_many(n, outs):
    """outs: [(state, value)] of live, mutually exclusive states."""
    s, v = outs[-1]
    for a, va in reversed(outs[:-1]):
        sel = And(*a.live[n:])
        s, v = merge2(n, sel, a, va, s, v)
    return s, v
