"""Abstract interpreter over the syntax trees of /repo (value-dependence
domain).  Branches are joined, loops over summarised lists are summarised by
a carried-variable fixpoint; nothing of the repository is executed."""
import ast
import copy
import builtins as _bi

from .terms import (T, mk, K, NONE, TRUE, FALSE, EMPTY, isK, kv, B, Not, And, Or,
                    Ite, Cat, subterms, subst, is_bool, show)
from . import ops
from .ops import (Eq, Lt, Le, Truth, Exists, Contains, kind, gkind, is_str, Add, Sub, Mul,
                  StrOf, Fmt, RepStr, interval, binder)
from .heap import LCell, DCell, OCell, FCell, State, merge2, merge_many
from .loader import AnalysisError, FuncInfo, ClassInfo, ModInfo


class Budget(Exception):
    """Analysis budget exhausted: the run gives no verdict."""


class Event:
    __slots__ = ("kind", "live", "loops", "where", "func", "data", "caught", "stack")

    def __init__(self, kind, live, loops, where, func, data, stack):
        self.kind = kind
        self.live = live
        self.loops = loops
        self.where = where
        self.func = func
        self.data = data
        self.caught = False
        self.stack = stack

    @property
    def guard(self):
        return And(*self.live)

    def __repr__(self):
        return "%s@%s %s" % (self.kind, self.where, {k: v for k, v in self.data.items()})


_BOXED = {}


def _scope(body):
    """The nodes of a function's own scope, and the functions nested in it."""
    own, inner, loops = [], [], {}
    todo = [(x, None, None) for x in reversed(body)]
    while todo:
        n, loop, parent = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            inner.append((n, loop, parent))
            if not isinstance(n, ast.Lambda):
                own.append(n)
            todo += [(x, loop, n) for x in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]]
            if not isinstance(n, ast.Lambda):
                todo += [(x, loop, n) for x in n.decorator_list]
            continue
        if isinstance(n, ast.ClassDef):
            own.append(n)
            inner += [(x, loop, n) for x in n.body if isinstance(x, ast.FunctionDef)]
            continue
        own.append(n)
        if isinstance(n, (ast.For, ast.While)):
            loop = n
        for x in ast.iter_child_nodes(n):
            todo.append((x, loop, n))
    return own, inner


def _free(node):
    """Names a nested function reads or rebinds that are not its own; those declared nonlocal."""
    body = [node.body] if isinstance(node, ast.Lambda) else node.body
    own, inner = _scope(body)
    a = node.args
    local = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    nl, used = set(), set()
    for n in own:
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Name):
            (used if isinstance(n.ctx, ast.Load) else local).add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            local.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            local.add(n.name)
    for g, _, _ in inner:
        f2, n2 = _free(g)
        used |= f2
        nl2 = {x for x in n2 if x not in local}
        nl |= nl2
    local -= nl
    return (used | nl) - local, nl - local


def boxed(fi):
    """Local variables of a function that nested functions see change: they live in the heap."""
    if fi.is_lambda:
        return ()
    r = _BOXED.get(fi.node)
    if r is not None:
        return r
    own, inner = _scope(fi.node.body)
    out = set()
    if inner:
        a = fi.node.args
        asg = {}
        comp = set()
        for n in own:
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    comp.update(id(x) for x in ast.walk(g.target))
        for n in own:
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and id(n) not in comp:
                asg.setdefault(n.id, []).append(n)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                asg.setdefault(n.name, []).append(n)
        glob = {x for n in own if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        local = set(asg) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        local -= glob
        for g, loop, parent in inner:
            fr, nl = _free(g)
            at = (g.lineno, g.col_offset)
            inloop = {id(x) for x in ast.walk(loop)} if loop is not None else ()
            kept = isinstance(g, ast.Lambda) and loop is not None and (
                not isinstance(parent, (ast.Call, ast.keyword)) or isinstance(parent, ast.Call)
                and isinstance(parent.func, ast.Attribute) and parent.func.attr in ("append", "add", "insert", "setdefault", "update"))
            for x in fr & local:
                if x in nl or any(y is not g and (y.lineno, y.col_offset) > at
                                  and not (isinstance(g, ast.Lambda) and _same_statement(fi.node, g, y)) for y in asg.get(x, ())) \
                        or kept and any(id(y) in inloop for y in asg.get(x, ())):
                    out.add(x)
    r = _BOXED[fi.node] = tuple(sorted(out))
    return r


def _same_statement(fn, g, y):
    """Is y assigned by the (simple) statement that contains the lambda g: the lambda ran before."""
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ids = {id(x) for x in ast.walk(n)}
            if id(g) in ids and id(y) in ids:
                return True
    return False


PURE = {"isinstance", "issubclass", "len", "str", "int", "float", "bool", "getattr", "hasattr", "callable", "abs", "type",
        "repr", "min", "max", "sum", "any", "all", "tuple", "list", "set", "id", "ord", "chr", "round", "lower", "upper",
        "strip", "startswith", "endswith", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isspace", "isidentifier",
        "get", "keys", "values", "items", "split", "join", "replace", "find", "count", "index", "format"}


def leaves(loop):
    """Does the body of the loop leave it early?"""
    todo = list(loop.body)
    inner = False
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Return, ast.Break)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return inner


def renamed(g, seen={}):
    """The generator expression with variables of its own; None where scopes are nested in it."""
    if id(g) in seen:
        return seen[id(g)][0]
    r = None
    parts = [g.elt] + [x for c in g.generators for x in [c.target] + c.ifs] + [c.iter for c in g.generators]
    if not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr,
                              ast.Yield, ast.YieldFrom, ast.Await)) for p in parts for x in ast.walk(p)):
        names = {x.id for c in g.generators for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        r = copy.deepcopy(g)
        first = {id(x) for x in ast.walk(r.generators[0].iter)}
        for x in ast.walk(r):
            if isinstance(x, ast.Name) and x.id in names and id(x) not in first:
                x.id = "$g:" + x.id
    seen[id(g)] = (r, g)
    return r


def outer_env(env):
    """The caller's variables, carried along by a generator that is run in place."""
    return {k[3:]: x for k, x in env.items() if k.startswith("$o:")}


class Frame:
    __slots__ = ("fi", "module", "kind", "returns", "globals", "closure", "cls", "yields", "node", "depth", "hook", "nonlocals", "inline", "lazy")

    def __init__(self, fi, module, kind, closure=None, cls=None, depth=0):
        self.fi = fi
        self.module = module
        self.kind = kind
        self.returns = []
        self.globals = set()
        self.closure = closure
        self.nonlocals = set()
        self.cls = cls
        self.yields = None
        self.hook = None
        self.inline = False
        self.lazy = False
        self.node = None
        self.depth = depth


class Ctl:
    __slots__ = ("breaks", "conts")

    def __init__(self):
        self.breaks = []
        self.conts = []


class TryFrame:
    __slots__ = ("handlers", "depth", "caught")

    def __init__(self, handlers, depth):
        self.handlers = handlers      # list of (list of class terms or None)
        self.depth = depth
        self.caught = []              # (handler index, state, exc value)


EXT_EXC_BASES = {
    "textx.exceptions.TextXSyntaxError": "textx.exceptions.TextXError",
    "textx.exceptions.TextXSemanticError": "textx.exceptions.TextXError",
    "textx.exceptions.TextXError": "Exception",
    "textx.TextXSyntaxError": "textx.exceptions.TextXSyntaxError",
    "textx.TextXSemanticError": "textx.exceptions.TextXSemanticError",
    "textx.TextXError": "textx.exceptions.TextXError",
    "struct.error": "Exception",
}


def _has_default(n):
    return isinstance(n, ast.Call) and any(k.arg in ("default", "default_factory") for k in n.keywords)


class Interp:
    MAXSTEPS = 600000
    MAXDEPTH = 60
    MAXREC = 10

    def __init__(self, loader):
        self.loader = loader
        self.fns = {}
        self.classes = {}
        self.cells0 = {}
        self.modcells = {}
        self.ext_patch = {}
        self.fncache = {}
        self.gen_snap = None
        self.set_order = None
        self._filling = None
        self.naddr = 0
        self.nuid = 0
        self.steps = 0
        self.events = []
        self.frames = []
        self.envs = []
        self.trys = []
        self.depth = 0
        self.loops = []
        self.notes = {}
        self.scenario = None
        self.watch = {}
        self.hints = {}
        self.call_log = set()
        self.base = None
        self.unkn = 0
        self.phase = "load"
        self.valkind = {}
        self.fieldtmpl = {}
        self.setter_fields = None
        self.summary = {}
        self.parsed = {}
        self.enumsrc = {}
        from . import lib, textxm
        self.lib = lib.Lib(self)
        self.tx = textxm.TextX(self)

    # ------------------------------------------------------------ plumbing
    def note(self, msg):
        self.notes[msg] = self.notes.get(msg, 0) + 1

    def unk(self, why=""):
        self.unkn += 1
        t = mk("unk", self.unkn, why)
        return t

    def uid(self):
        self.nuid += 1
        return self.nuid

    def alloc(self, st, cell):
        self.naddr += 1
        st.heap[self.naddr] = cell
        if self.depth:
            self.summary[self.naddr] = self.depth
        return mk("ref", self.naddr)

    def cell(self, st, t):
        return st.heap.get(t.args[0]) if t.op == "ref" else None

    def newlist(self, st, items=(), kind="list"):
        return self.alloc(st, LCell(kind, items))

    def where(self, node=None):
        fr = self.frames[-1] if self.frames else None
        n = node if node is not None else (fr.node if fr else None)
        line = getattr(n, "lineno", 0)
        return "%s:%s" % (fr.module.path if fr else "?", line)

    def funcname(self):
        for fr in reversed(self.frames):
            if fr.fi is not None:
                return fr.fi.qual
            if fr.kind == "module":
                return fr.module.name
        return "?"

    def event(self, st, kind_, node=None, **data):
        if st.live is None:
            return None
        stack = tuple(fr.fi.qual for fr in self.frames if fr.fi is not None)[-6:]
        e = Event(kind_, st.live, tuple(self.loops), self.where(node), self.funcname(), data, stack)
        self.events.append(e)
        return e

    def setcell(self, st, addr, cell, op, node=None, detail=None):
        w = self.watch.get(addr)
        if w is not None:
            self.event(st, "mut", node, addr=addr, tag=w, op=op, detail=detail)
        st.heap[addr] = cell

    # ----------------------------------------------------------- decisions
    def dec(self, st, c):
        """Simplify a boolean term by the scenario and the live literals."""
        if c is TRUE or c is FALSE:
            return c
        o = c.op
        if o == "not":
            return Not(self.dec(st, c.args[0]))
        if o == "and":
            return And(*[self.dec(st, x) for x in c.args])
        if o == "or":
            return Or(*[self.dec(st, x) for x in c.args])
        if o == "ite":
            k = self.dec(st, c.args[0])
            if k is TRUE:
                return self.dec(st, c.args[1])
            if k is FALSE:
                return self.dec(st, c.args[2])
            return c
        lits = st.lits()
        if c in lits:
            return TRUE
        if Not(c) in lits:
            return FALSE
        if o == "isinst":
            r = self.dec_isinst(st, c)
            if r is not None:
                return r
        if o == "exists":
            src, d, body = c.args
            b = self.dec_atom_deep(st, body)
            if b is not body:
                return self.dec(st, Exists(src, d, b))
            # forall facts about the same source in the live set
        if self.scenario is not None:
            r = self.scenario.decide(self, st, c)
            if r is not None:
                return r
        if o == "lt" or o == "eq":
            # contradiction with known order literals
            a, b = c.args
            if o == "lt" and mk("lt", b, a) in lits:
                return FALSE
            if o == "eq" and (mk("lt", a, b) in lits or mk("lt", b, a) in lits):
                return FALSE
            if o == "lt" and Eq(a, b) in lits:
                return FALSE
        return c

    def dec_atom_deep(self, st, b):
        o = b.op
        if o == "not":
            return Not(self.dec_atom_deep(st, b.args[0]))
        if o == "and":
            return And(*[self.dec_atom_deep(st, x) for x in b.args])
        if o == "or":
            return Or(*[self.dec_atom_deep(st, x) for x in b.args])
        if b is TRUE or b is FALSE:
            return b
        if self.scenario is not None and o not in ("exists",):
            r = self.scenario.decide(self, st, b)
            if r is not None:
                return r
        if o == "exists":
            x = self.dec_atom_deep(st, b.args[2])
            if x is not b.args[2]:
                return Exists(b.args[0], b.args[1], x)
        return b

    def truth(self, st, t):
        """Boolean term of bool(t)."""
        if t.op == "ref":
            c = self.cell(st, t)
            if isinstance(c, LCell):
                return self.dec(st, self.items_nonempty(st, c.items))
            if isinstance(c, DCell):
                return self.dec(st, self.ents_nonempty(st, c.ents))
            if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
                for m in ("__bool__", "__len__"):
                    k, v = self.class_find(st, c.cls, m)
                    if v is not None:
                        r = self.call(st, self.bind_method(t, c.cls, k, v, st), [], {})
                        return self.truth(st, r)
            return TRUE
        if t.op == "ite":
            c = self.dec(st, t.args[0])
            if c is TRUE:
                return self.truth(st, t.args[1])
            if c is FALSE:
                return self.truth(st, t.args[2])
            return self.dec(st, Ite(c, self.truth(st, t.args[1]), self.truth(st, t.args[2])))
        if t.op in ("attr", "fld", "elem", "call", "others") and kind(t) == "list":
            sh = self.shape(t)
            if sh is not None:
                return self.dec(st, self.items_nonempty(st, sh))
            return self.dec(st, mk("nonempty", t))
        return self.dec(st, Truth(t))

    def res(self, st, t):
        """Resolve the top-level choices of a value that are decided here."""
        while t.op == "ite":
            c = self.dec(st, t.args[0])
            if c is TRUE:
                t = t.args[1]
            elif c is FALSE:
                t = t.args[2]
            else:
                return t
        return t

    def deep(self, st, t):
        """Resolve all decided choices inside a term."""
        if st.live is None:
            return t

        def f(x):
            if x.op == "ite":
                c = self.dec(st, x.args[0])
                if c is TRUE:
                    return subst(x.args[1], f)
                if c is FALSE:
                    return subst(x.args[2], f)
            return None
        return subst(t, f)

    def branch(self, st, c, fa, fb):
        c = self.dec(st, c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        n = len(st.live)
        a, b = st.fork(), st.fork()
        a.assume(c)
        b.assume(Not(c))
        va = fa(a) if a.live is not None else None
        vb = fb(b) if b.live is not None else None
        if a.live is None and b.live is None:
            st.take(b)
            st.kill()
            return NONE
        if a.live is None:
            st.take(b)
            return vb
        if b.live is None:
            st.take(a)
            return va
        s, v = merge2(n, c, a, va, b, vb)
        st.take(s)
        return v

    def split(self, st, t, f):
        """Apply f(st, v) to a value, splitting undecided choices."""
        t = self.res(st, t)
        if t.op == "ite":
            x, y = t.args[1], t.args[2]
            return self.branch(st, t.args[0], lambda s: self.split(s, x, f), lambda s: self.split(s, y, f))
        return f(st, t)

    # -------------------------------------------------------- item algebra
    def shape(self, t):
        if self.scenario is None:
            return None
        return self.scenario.shape(t)

    def items_nonempty(self, st, items):
        out = []
        for s in items:
            k = s[0]
            if k == "it":
                return TRUE
            if k == "sp":
                sh = self.shape(s[1])
                out.append(self.items_nonempty(st, sh) if sh is not None else mk("nonempty", s[1]))
            elif k == "opt":
                out.append(And(s[1], self.items_nonempty(st, s[2])))
            elif k == "rep":
                out.append(Exists(s[1], s[2], And(s[3], self.items_nonempty(st, s[4]))))
            elif k == "ord":
                out.append(self.items_nonempty(st, s[2]))
        return Or(*out)

    def items_len(self, st, items, uniq=False):
        tot = K(0)
        for s in items:
            k = s[0]
            if k == "it":
                x = K(1)
            elif k == "sp":
                x = mk("cnt", s[1], 0, TRUE)
            elif k == "opt":
                c = self.dec(st, s[1])
                x = Ite(c, self.items_len(st, s[2], uniq), K(0))
            elif k == "rep":
                n = self.items_len(st, s[4], uniq)
                if isK(n) and not (uniq and kv(n) > 0 and False):
                    x = Mul(n, mk("cnt", s[1], s[2], s[3]))
                else:
                    x = mk("sumof", s[1], s[2], s[3], n)
            elif k == "ord":
                x = self.items_len(st, s[2], uniq or s[1] in ("uniq", "unordered"))
            tot = Add(tot, x)
        return tot

    def items_contains(self, st, items, x):
        out = []
        for s in items:
            k = s[0]
            if k == "it":
                e = self.dec(st, self.eq(st, x, s[1]))
                if e is TRUE:
                    return TRUE
                out.append(e)
            elif k == "sp":
                sh = self.shape(s[1])
                if sh is not None:
                    out.append(self.items_contains(st, sh, x))
                else:
                    out.append(self.dec(st, self.in_opaque(x, s[1])))
            elif k == "opt":
                c = self.dec(st, s[1])
                if c is not FALSE:
                    out.append(And(c, self.items_contains(st, s[2], x)))
            elif k == "rep":
                d = self.fresh_depth(x, s)
                seg = self.rename_seg(st, s, d)
                b = self.dec_atom_deep(st, And(seg[3], self.items_contains(st, seg[4], x)))
                out.append(self.dec(st, Exists(s[1], d, b)))
            elif k == "ord":
                out.append(self.items_contains(st, s[2], x))
        return Or(*out)

    def in_opaque(self, x, lst):
        k = gkind(lst)
        if k.startswith("list:"):
            d = 90
            return Exists(lst, d, Eq(binder(lst, d), x))
        return mk("in", x, lst)

    def fresh_depth(self, x, seg):
        d = seg[2]
        used = {y.args[1] for y in subterms(x) if y.op == "elem" and y.args[0] is seg[1]}
        while d in used:
            d += 100
        return d

    def rename_seg(self, st, seg, d):
        if seg[2] == d:
            return seg
        old, new = binder(seg[1], seg[2]), binder(seg[1], d)
        body = self.instantiate(st, (seg[3], seg[4]), old, new)
        return (seg[0], seg[1], d, body[0], body[1])

    def instantiate(self, st, x, old, new):
        """Replace the bound element, cloning summary objects that depend on it."""
        clones = {}

        def f(t):
            if t is old:
                return new
            if t.op == "ref":
                a = t.args[0]
                if a in clones:
                    return clones[a]
                if a not in self.summary:
                    return None
                if not self.cell_mentions(st, a, old, set()):
                    return None
                self.naddr += 1
                r = mk("ref", self.naddr)
                self.summary[self.naddr] = self.summary.get(a)
                clones[a] = r
                st.heap[r.args[0]] = self.map_cell(st.heap[a], g)
                return r
            return None

        def g(t):
            return subst(t, f)
        return subst(x, f)

    def cell_terms(self, c):
        if isinstance(c, LCell):
            return c.items
        if isinstance(c, DCell):
            return c.ents
        if isinstance(c, OCell):
            return tuple(c.fields.values())
        if isinstance(c, FCell):
            return (c.path, c.content)
        return ()

    def map_cell(self, c, g):
        if isinstance(c, LCell):
            return LCell(c.kind, g(c.items))
        if isinstance(c, DCell):
            return DCell(c.kind, g(c.ents), c.default)
        if isinstance(c, OCell):
            return OCell(c.cls, {k: g(v) for k, v in c.fields.items()})
        if isinstance(c, FCell):
            return FCell(g(c.path), c.mode, g(c.content), c.closed)
        return c

    def cell_mentions(self, st, addr, e, seen):
        if addr in seen:
            return False
        seen.add(addr)
        c = st.heap.get(addr)
        if c is None:
            return False
        sub = set()
        for t in self.cell_terms(c):
            subterms(t, sub)
        if e in sub:
            return True
        return any(x.op == "ref" and x.args[0] in self.summary and self.cell_mentions(st, x.args[0], e, seen)
                   for x in sub)

    # dictionaries
    def ents_nonempty(self, st, ents):
        out = []
        for s in ents:
            k = s[0]
            if k == "kv":
                return TRUE
            if k == "dsp":
                out.append(mk("nonempty", s[1]))
            elif k == "dopt":
                out.append(And(s[1], self.ents_nonempty(st, s[2])))
            elif k == "drep":
                out.append(Exists(s[1], s[2], And(s[3], self.ents_nonempty(st, s[4]))))
            elif k == "dord":
                out.append(self.ents_nonempty(st, s[2]))
        return Or(*out)

    def dict_lookup(self, st, ents, key):
        """(present condition, value term or None)"""
        pres, val = FALSE, None
        for s in ents:
            p, v = self.ent_lookup(st, s, key)
            if s[0] == "del":
                if p is not FALSE:
                    pres = And(pres, Not(p))
                continue
            if p is FALSE:
                continue
            if p is TRUE or val is None:
                val = v if p is TRUE or val is None else val
            else:
                val = Ite(p, v, val)
            pres = Or(pres, p)
        return pres, val

    def ent_lookup(self, st, s, key):
        k = s[0]
        if k in ("kv", "del"):
            c = self.dec(st, self.eq(st, key, s[1]))
            return c, (s[2] if k == "kv" else None)
        if k == "dsp":
            c = self.dec(st, mk("haskey", s[1], key))
            return c, mk("dget", s[1], key)
        if k == "dopt":
            c = self.dec(st, s[1])
            if c is FALSE:
                return FALSE, None
            p, v = self.dict_lookup(st, s[2], key)
            return And(c, p), v
        if k == "dord":
            return self.dict_lookup(st, s[2], key)
        if k == "drep":
            d = self.fresh_depth(key, s)
            seg = self.rename_seg(st, s, d)
            p, v = self.dict_lookup(st, seg[4], key)
            b = self.dec_atom_deep(st, And(seg[3], p))
            c = self.dec(st, Exists(s[1], d, b))
            if c is FALSE or v is None:
                return c, v
            e = binder(s[1], d)
            # the key is the one of an enclosing element of the same source
            for y in subterms(key):
                if y.op == "elem" and y.args[0] is s[1]:
                    w = subst(b, lambda t: y if t is e else None)
                    if w is TRUE:
                        return c, self.instantiate(st, v, e, y)
            return c, self.instantiate(st, v, e, mk("first", s[1], d, b, e))
        return FALSE, None

    # --------------------------------------------------------- equality
    def eq(self, st, a, b):
        a, b = self.res(st, a), self.res(st, b)
        if a is b:
            return TRUE
        if a.op == "ref" and b.op == "ref":
            ca, cb = self.cell(st, a), self.cell(st, b)
            if isinstance(ca, LCell) and isinstance(cb, LCell):
                return self.list_eq(st, ca, cb)
            if isinstance(ca, OCell) and isinstance(cb, OCell) and isinstance(ca.cls, ClassInfo):
                k, v = self.class_find(st, ca.cls, "__eq__")
                if v is not None:
                    return self.truth(st, self.call(st, self.bind_method(a, ca.cls, k, v, st), [b], {}))
                if ca.cls.is_namedtuple and isinstance(cb.cls, ClassInfo) and cb.cls.is_namedtuple:
                    x, y = self.seqvals(st, a), self.seqvals(st, b)
                    return And(*[self.eq(st, u, v) for u, v in zip(x, y)]) if len(x) == len(y) else FALSE
                if ca.cls.is_dataclass and cb.cls is ca.cls:
                    return And(*[self.eq(st, ca.fields.get(f, NONE), cb.fields.get(f, NONE)) for f, _ in ca.cls.fields])
            if isinstance(ca, DCell) and isinstance(cb, DCell):
                if ca.ents == cb.ents:
                    return TRUE
                da, db = [self.constdict(c.ents) for c in (ca, cb)]
                if da is not None and db is not None:
                    if set(da) != set(db):
                        return FALSE
                    return And(*[self.dec(st, self.eq(st, da[k], db[k])) for k in da])
                return mk("eq", *sorted((a, b)))
            return FALSE
        if a.op == "ref" and b.op == "tup" or a.op == "tup" and b.op == "ref":
            r, t = (a, b) if a.op == "ref" else (b, a)
            c = self.cell(st, r)
            if isinstance(c, OCell) and isinstance(c.cls, ClassInfo) and c.cls.is_namedtuple:
                x = self.seqvals(st, r)
                return And(*[self.eq(st, u, v) for u, v in zip(x, t.args)]) if len(x) == len(t.args) else FALSE
            if isinstance(c, LCell) and c.kind == "tuple":
                return self.list_eq(st, c, LCell("tuple", tuple(("it", x) for x in t.args)))
        for x, y in ((a, b), (b, a)):
            if isK(x) and (y.op == "tup" or y.op == "ref" and isinstance(self.cell(st, y), (LCell, DCell))):
                return FALSE
            if x.op == "tup" and y.op == "ref" and (isinstance(self.cell(st, y), DCell)
                                                    or isinstance(self.cell(st, y), LCell) and self.cell(st, y).kind != "tuple"):
                return FALSE
        if a.op == "tup" and b.op == "tup" and any(x.op in ("ref", "tup") for x in a.args + b.args):
            return And(*[self.eq(st, u, v) for u, v in zip(a.args, b.args)]) if len(a.args) == len(b.args) else FALSE
        if a.op == "ref" or b.op == "ref":
            o = b if a.op == "ref" else a
            if o.op in ("attr", "fld", "elem", "modof", "first", "last", "others"):
                r = a if a.op == "ref" else b
                if isinstance(self.cell(st, r), OCell) and gkind(o).startswith("obj"):
                    return FALSE       # a focus object is none of the others
                return mk("eq", *sorted((a, b)))
        return Eq(a, b)

    def constdict(self, ents):
        """The entries of a dict with known keys."""
        d = {}
        for e in ents:
            if e[0] == "del" and isK(e[1]):
                d.pop((type(kv(e[1])), kv(e[1])), None)
            elif e[0] == "kv" and isK(e[1]):
                d[(type(kv(e[1])), kv(e[1]))] = e[2]
            else:
                return None
        return d

    def list_eq(self, st, ca, cb):
        if ca.kind == "set" or cb.kind == "set":
            if ca.kind != cb.kind and not {ca.kind, cb.kind} <= {"set", "frozenset", "view"}:
                return FALSE
            x = self.all_in(st, ca.items, cb.items)
            if x is FALSE:
                return FALSE
            return And(x, self.all_in(st, cb.items, ca.items))
        if ca.items == cb.items:
            return TRUE
        if all(s[0] == "it" for s in ca.items) and all(s[0] == "it" for s in cb.items):
            if len(ca.items) != len(cb.items):
                return FALSE
            return And(*[self.dec(st, self.eq(st, x[1], y[1])) for x, y in zip(ca.items, cb.items)])
        # multiset views: sorted(a) == sorted(b)
        def strip(items):
            if len(items) == 1 and items[0][0] == "ord" and items[0][1] == "sorted":
                return items[0][2]
            return None
        sa, sb = strip(ca.items), strip(cb.items)
        if sa is not None and sb is not None:
            if sa == sb:
                return TRUE
            x = self.all_in(st, sa, sb)
            y = self.all_in(st, sb, sa)
            if self.dec(st, And(x, y)) is FALSE:
                return FALSE
        n = self.dec(st, Eq(self.items_len(st, ca.items), self.items_len(st, cb.items)))
        if n is FALSE:
            return FALSE
        return mk("eqlist", ca.items, cb.items)

    def all_in(self, st, a, b):
        """every element of a is in b"""
        out = []
        for s in a:
            k = s[0]
            if k == "it":
                out.append(self.items_contains(st, b, s[1]))
            elif k == "sp":
                sh = self.shape(s[1])
                if sh is not None:
                    out.append(self.all_in(st, sh, b))
                elif any(x == s for x in b):
                    pass
                else:
                    d = 70
                    c = self.items_contains(st, b, binder(s[1], d))
                    out.append(Not(Exists(s[1], d, Not(c))))
            elif k == "opt":
                c = self.dec(st, s[1])
                if c is not FALSE:
                    out.append(Or(Not(c), self.all_in(st, s[2], b)))
            elif k == "rep":
                c = self.all_in(st, s[4], b)
                out.append(Not(Exists(s[1], s[2], And(s[3], Not(c)))))
            elif k == "ord":
                out.append(self.all_in(st, s[2], b))
        return And(*out)

    def contains(self, st, x, c):
        """x in c"""
        def f(s, c):
            if c.op == "ref":
                cell = self.cell(s, c)
                if isinstance(cell, LCell):
                    r = self.items_contains(s, cell.items, x)
                    if cell.kind == "gen" and cell.items:
                        rest = ()
                        for i, y in enumerate(cell.items):
                            q = self.dec(s, self.eq(s, y[1], x)) if y[0] == "it" else None
                            if q is TRUE:
                                rest = cell.items[i + 1:]
                                break
                            if q is not FALSE:
                                rest = (("sp", self.unk("rest of iterator")),)
                                break
                        s.heap[c.args[0]] = LCell("gen", rest)
                    return r
                if isinstance(cell, DCell):
                    return self.dict_lookup(s, cell.ents, x)[0]
                if isinstance(cell, OCell):
                    if cell.cls == "Counter":
                        return self.items_contains(s, cell.fields["#items"], x)
                    if isinstance(cell.cls, ClassInfo):
                        k, v = self.class_find(s, cell.cls, "__contains__")
                        if v is not None:
                            return self.truth(s, self.call(s, self.bind_method(c, cell.cls, k, v, s), [x], {}))
                return mk("in", x, c)
            if c.op == "tup":
                return self.items_contains(s, tuple(("it", y) for y in c.args), x)
            if c.op == "cls":
                return mk("in", x, c)
            if is_str(c) or (isK(c) and isinstance(kv(c), str)):
                return self.split_bool(s, x, lambda s2, y: Contains(c, y))
            sh = self.shape(c)
            if sh is not None:
                return self.items_contains(s, sh, x)
            if kind(c) == "list":
                return self.in_opaque(x, c)
            return mk("in", x, c)
        r = self.split(st, c, lambda s, v: self.dec(s, f(s, v)))
        return self.dec(st, r) if st.live is not None else FALSE

    def split_bool(self, st, x, f):
        return self.split(st, x, f)

    # ------------------------------------------------------------- classes
    def dec_isinst(self, st, c):
        t, name = c.args
        cands = self.possible(st, t)
        if cands is None:
            return None
        yes = [k for k in cands if self.is_sub(k, name)]
        if len(yes) == len(cands):
            return TRUE
        if not yes:
            return FALSE
        return None

    def is_sub(self, cname, name):
        ci = self.class_by_short(cname)
        cj = self.class_by_short(name)
        if ci is None or cj is None:
            return cname == name
        return ci.subclass_of(cj)

    def class_by_short(self, name):
        return self.classes.get(name)

    def possible(self, st, t):
        """Names of the classes a generic object can have here."""
        g = gkind(t)
        if not g.startswith("obj:"):
            return None
        cands = g[4:].split("|")
        lits = st.lits() if st.live is not None else ()
        for l in lits:
            cands = self._filter(l, t, cands)
        return cands

    def _filter(self, l, t, cands):
        if l.op == "isinst" and l.args[0] is t:
            return [c for c in cands if self.is_sub(c, l.args[1])]
        if l.op == "not":
            x = l.args[0]
            if x.op == "isinst" and x.args[0] is t:
                return [c for c in cands if not self.is_sub(c, x.args[1])]
        if l.op == "or" and any(x.op == "isinst" and x.args[0] is t for x in l.args):
            if all(x.op == "isinst" and x.args[0] is t for x in l.args):
                return [c for c in cands if any(self.is_sub(c, x.args[1]) for x in l.args)]
        return cands

    def class_cell(self, st, ci):
        a = self.modcells["c:" + ci.key]
        return st.heap[a] if a in st.heap else self.cells0[a]

    def class_find(self, st, ci, name):
        for c in ci.mro():
            cell = self.class_cell(st, c)
            if name in cell.fields:
                return c, cell.fields[name]
        return None, None

    def bind_method(self, selfv, ci, owner, v, st, clsterm=None):
        if v.op == "fn":
            fi = self.fns[v.args[0]]
            if "staticmethod" in fi.deco:
                return v
            if "classmethod" in fi.deco:
                return mk("bm", clsterm if clsterm is not None else mk("cls", ci.key), v)
            if selfv is None:
                return v
            return mk("bm", selfv, v)
        if selfv is not None and v.op == "ref":
            c = st.heap.get(v.args[0])
            if isinstance(c, OCell) and isinstance(c.cls, ClassInfo) and c.cls.name == "SingleDispatchMethod":
                k, m = self.class_find(st, c.cls, "call")
                return mk("part", mk("bm", v, m), (selfv,), ())
        return v

    def cls_term(self, ci):
        return mk("cls", ci.key)

    def query(self, st, obj, meth):
        """(value, place) of a method without arguments, in the final state."""
        c = self.cell(st, obj)
        if not isinstance(c, OCell) or not isinstance(c.cls, ClassInfo):
            return None
        k, v = self.class_find(st, c.cls, meth)
        if v is None or v.op != "fn":
            return None
        s = st.fork()
        self.depth = 0
        r = self.call(s, self.getattr(s, obj, meth), [], {})
        fi = self.fns[v.args[0]]
        return (r if s.live is not None else None), "%s" % (getattr(fi, "qual", None) or fi.name)

    # ---------------------------------------------------------- attributes
    def getattr(self, st, obj, name, node=None):
        return self.split(st, obj, lambda s, v: self.getattr1(s, v, name, node))

    def getattr1(self, st, obj, name, node):
        o = obj.op
        if o == "ref":
            c = self.cell(st, obj)
            if isinstance(c, OCell):
                if name in c.fields:
                    return c.fields[name]
                if isinstance(c.cls, ClassInfo):
                    k, v = self.class_find(st, c.cls, name)
                    if v is not None:
                        if v.op == "fn" and "property" in self.fns[v.args[0]].deco:
                            return self.call(st, mk("bm", obj, v), [], {}, node)
                        return self.bind_method(obj, c.cls, k, v, st)
                    if name == "__class__":
                        return self.cls_term(c.cls)
                    if name == "args" and "args" in c.fields:
                        return c.fields["args"]
                    k, v = self.class_find(st, c.cls, "__getattr__")
                    if v is not None and not (name.startswith("__") and name.endswith("__")):
                        return self.call(st, self.bind_method(obj, c.cls, k, v, st), [K(name)], {}, node)
                    if c.cls.ext_bases():
                        return mk("xm", obj, name)
                    return self.implicit(st, "AttributeError", "%s has no attribute %s" % (c.cls.name, name), node)
                return mk("xm", obj, name)
            return mk("xm", obj, name)
        if o == "cls":
            ci = self.classes[obj.args[0]]
            k, v = self.class_find(st, ci, name)
            if v is not None:
                return self.bind_method(None, ci, k, v, st, obj)
            if name in ("__name__", "__qualname__"):
                return K(ci.name)
            if name == "__members__" and ci.is_enum:
                cell = self.class_cell(st, ci)
                return self.alloc(st, DCell("dict", tuple(("kv", K(k), x) for k, x in cell.fields.items() if x.op == "enum")))
            if name == "__mro__":
                return mk("tup", *[self.cls_term(x) for x in ci.mro()], mk("ext", "builtins.object"))
            return mk("xm", obj, name)
        if o == "mod":
            m = self.loader.mods.get(obj.args[0])
            if m is not None:
                cell = st.heap.get(self.modcells.get("m:" + m.name))
                if cell is not None and name in cell.fields:
                    return cell.fields[name]
            sub = obj.args[0] + "." + name
            if sub in self.loader.mods:
                return self.load(st, sub)
            if sub in self.loader.packages:
                return mk("mod", sub)
            return self.implicit(st, "AttributeError", "module %s has no %s" % (obj.args[0], name), node)
        if o == "ext":
            if name in ("__name__", "__qualname__") and obj.args[0].startswith("builtins."):
                return K(obj.args[0][9:])
            return self.lib.extattr(st, obj, name)
        if o == "excobj" and name == "args":
            return mk("tup", *[a for a in obj.args[1:] if isinstance(a, T)])
        if o == "enum":
            if name in ("value", "_value_"):
                return obj.args[3]
            if name in ("name", "_name_"):
                return K(obj.args[1])
            ci = self.classes[obj.args[0]]
            k, v = self.class_find(st, ci, name)
            if v is not None:
                if v.op == "fn" and "property" in self.fns[v.args[0]].deco:
                    return self.call(st, mk("bm", obj, v), [], {}, node)
                return self.bind_method(obj, ci, k, v, st)
            if obj.args[2]:
                return mk("xm", obj.args[3], name)
            return mk("xm", obj, name)
        if o == "super":
            ci = dyn = self.classes[obj.args[0]]
            me = obj.args[1]
            if me.op == "cls":
                dyn = self.classes[me.args[0]]
            elif me.op == "ref" and isinstance(self.cell(st, me), OCell) and isinstance(self.cell(st, me).cls, ClassInfo):
                dyn = self.cell(st, me).cls
            mro = dyn.mro()
            if ci not in mro:
                mro = ci.mro()
            for c in mro[mro.index(ci) + 1:]:
                cell = self.class_cell(st, c)
                if name in cell.fields:
                    return self.bind_method(obj.args[1], ci, c, cell.fields[name], st)
            return mk("xm", obj, name)
        if o in ("attr", "fld", "elem", "modof", "first", "last", "lastw", "others") and kind(obj) == "obj":
            r = self.generic_attr(st, obj, name, node)
            if r is not None:
                return r
        if obj is NONE:
            return self.implicit(st, "AttributeError", "None has no attribute %s" % name, node)
        if o == "bm" or o == "fn":
            if name == "__name__":
                f = obj.args[1] if o == "bm" else obj
                return K(self.fns[f.args[0]].name)
        return mk("xm", obj, name)

    def generic_attr(self, st, t, name, node):
        cands = self.possible(st, t)
        if not cands:
            return None
        groups = {}
        for c in cands:
            ci = self.classes.get(c)
            if ci is None:
                return None
            k, v = self.class_find(st, ci, name)
            if v is None:
                v = self.generic_field(st, ci, t, name)
                if v is None:
                    groups.setdefault(None, []).append(c)
                    continue
                groups.setdefault(("f", v), []).append(c)
            else:
                groups.setdefault(("m", v, ci), []).append(c)
        # same member for several classes
        merged = {}
        for key, cs in groups.items():
            k2 = key if key is None or key[0] == "f" else ("m", key[1])
            merged.setdefault(k2, []).extend(cs)

        def val(s, key, cs):
            if key is None:
                return self.unk("attribute %s" % name)
            if key[0] == "f":
                return key[1]
            v = key[1]
            if v.op == "fn" and "property" in self.fns[v.args[0]].deco:
                return self.call(s, mk("bm", t, v), [], {}, node)
            return self.bind_method(t, self.classes[cs[0]], None, v, s)
        keys = list(merged)
        if None in keys and len(keys) > 1:
            keys.remove(None)        # a wrong attribute would be an error
        if len(keys) == 1:
            return val(st, keys[0], merged[keys[0]])
        cs = merged[keys[0]]
        cond = Or(*[mk("isinst", t, c) for c in cs])
        rest = keys[1:]

        def other(s):
            if len(rest) == 1:
                return val(s, rest[0], merged[rest[0]])
            r = self.generic_attr(s, t, name, node)
            return r if r is not None else self.unk(name)
        return self.branch(st, cond, lambda s: val(s, keys[0], cs), other)

    def generic_field(self, st, ci, t, name):
        tm = self.tx.template(st, ci)
        if tm is None or name not in tm:
            return None
        v = tm[name]
        hole = mk("self")
        if (ci.name, name) in self.setters() or any(x.op in ("ref", "unk") for x in subterms(v)):
            k = gkind(v) if v.op in ("attr",) else kind(v)
            return mk("fld", t, name, k)
        return subst(v, lambda x: t if x is hole else None)

    def setters(self):
        """(class, field) pairs assigned outside __init__."""
        if self.setter_fields is None:
            out = set()
            for m in self.loader.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.ClassDef):
                        for f in n.body:
                            if isinstance(f, ast.FunctionDef) and f.name != "__init__":
                                for x in ast.walk(f):
                                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) \
                                            and isinstance(x.value, ast.Name) and x.value.id == "self":
                                        out.add((n.name, x.attr))
            # subclasses share the fields of their bases
            full = set(out)
            for c in self.classes.values():
                for b in c.mro():
                    for (k, f) in out:
                        if k == b.name:
                            full.add((c.name, f))
            self.setter_fields = full
        return self.setter_fields

    def setattr(self, st, obj, name, val, node=None):
        def f(s, v):
            if v.op == "ref":
                c = self.cell(s, v)
                if isinstance(c, OCell):
                    if isinstance(c.cls, ClassInfo):
                        k, p = self.class_find(s, c.cls, name)
                        if p is not None and p.op == "fn" and "property" in self.fns[p.args[0]].deco:
                            fi = self.fns[p.args[0]]
                            if getattr(fi, "setter", None) is not None:
                                self.call(s, mk("bm", v, fi.setter), [val], {}, node)
                                return NONE
                    self.setcell(s, v.args[0], c.set(name, val), "set " + name, node, val)
            elif v.op == "cls":
                ci = self.classes[v.args[0]]
                c = self.class_cell(s, ci)
                self.event(s, "classwrite", node, cls=ci.name, name=name, value=val)
                s.heap[self.modcells["c:" + ci.key]] = c.set(name, val)
            elif v.op == "mod":
                a = self.modcells.get("m:" + v.args[0])
                if a is not None:
                    self.event(s, "globalwrite", node, mod=v.args[0], name=name, value=val)
                    s.heap[a] = s.heap[a].set(name, val)
            elif v.op == "ext":
                self.ext_patch[v.args[0] + "." + name] = val
            else:
                self.event(s, "genwrite", node, obj=v, name=name, value=val)
            return NONE
        self.split(st, obj, f)

    # ----------------------------------------------------------- exceptions
    def implicit(self, st, cls, msg, node=None):
        self.raise_(st, mk("ext", "builtins." + cls), K(msg), node, implicit=True, excval=mk("excobj", "builtins." + cls, K(msg)))
        return NONE

    def exc_name(self, t):
        """Short class name of an exception value or class."""
        if t.op == "cls":
            return t.args[0]
        if t.op == "ext":
            return t.args[0].replace("builtins.", "")
        return None

    def exc_matches(self, exc, h):
        """Does handler class h catch exception class exc?  True/False/None."""
        hn = self.exc_name(h)
        en = self.exc_name(exc)
        if hn is None or en is None:
            return None
        if hn in ("Exception", "BaseException"):
            if en in ("SystemExit", "KeyboardInterrupt", "GeneratorExit"):
                return hn == "BaseException"
            return True
        if exc.op == "cls":
            ci = self.classes[en]
            if h.op == "cls":
                return ci.subclass_of(self.classes[hn])
            for b in ci.ext_bases():
                if self._ext_sub(b.replace("builtins.", ""), hn):
                    return True
            return False
        if h.op == "cls":
            return False
        return self._ext_sub(en, hn)

    def _ext_sub(self, a, b):
        while a is not None:
            if a == b or a.split(".")[-1] == b.split(".")[-1]:
                return True
            if hasattr(_bi, a):
                bb = getattr(_bi, b, None)
                return isinstance(bb, type) and issubclass(getattr(_bi, a), bb)
            a = EXT_EXC_BASES.get(a)
        return False

    def raise_(self, st, exc, val, node=None, implicit=False, excval=None):
        if st.live is None:
            return
        e = self.event(st, "raise", node, exc=exc, value=val, implicit=implicit)
        for tf in reversed(self.trys):
            for i, hs in enumerate(tf.handlers):
                if hs is None:
                    m = True
                else:
                    ms = [self.exc_matches(exc, h) for h in hs]
                    m = True if any(x is True for x in ms) else (None if None in ms else False)
                if m is not False:
                    s = st.fork()
                    if tf.depth < len(self.frames):
                        s.env = self.env_at(s.env, tf.depth)
                    e.caught = True
                    tf.caught.append((i, s, excval if excval is not None else val, exc))
                    st.kill()
                    return
        st.kill()

    def env_at(self, env, depth):
        """The environment of the frame at this depth, seen from the innermost frame."""
        for k in range(len(self.frames), depth, -1):
            env = outer_env(env) if self.frames[k - 1].inline else self.envs[k - 1]
        return dict(env)

    # --------------------------------------------------------------- calls
    def call(self, st, f, args, kw=None, node=None):
        kw = kw or {}
        return self.split(st, f, lambda s, v: self.call1(s, v, args, kw, node))

    def call1(self, st, f, args, kw, node):
        if st.live is None:
            return NONE
        o = f.op
        if o == "fn":
            return self.call_fn(st, self.fns[f.args[0]], args, kw, node)
        if o == "bm":
            return self.call_fn(st, self.fns[f.args[1].args[0]], [f.args[0]] + list(args), kw, node)
        if o == "cls":
            return self.construct(st, self.classes[f.args[0]], args, kw, node)
        if o == "ext":
            return self.lib.call_ext(st, f.args[0], args, kw, node)
        if o == "xm":
            return self.lib.call_method(st, f.args[0], f.args[1], args, kw, node)
        if o == "part":
            return self.call(st, f.args[0], list(f.args[1]) + list(args), dict(f.args[2], **kw), node)
        if o == "ref":
            c = self.cell(st, f)
            if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
                k, v = self.class_find(st, c.cls, "__call__")
                if v is not None:
                    return self.call(st, self.bind_method(f, c.cls, k, v, st), args, kw, node)
        if o == "opget":
            return self.lib.opget(st, f, args, node)
        if o == "excls":
            return mk("excobj", f.args[0], *args)
        if f is NONE:
            return self.implicit(st, "TypeError", "None is not callable", node)
        self.note("call of unknown value %s" % show(f)[:60])
        return self.opaque_call(st, f, args, kw)

    def opaque_call(self, st, f, args, kw):
        return self.unk("call")

    def construct(self, st, ci, args, kw, node):
        if ci.is_enum:
            # lookup by value
            if args:
                return self.split(st, args[0], lambda s, v: self.enum_by_value(s, ci, v, node))
            return self.unk("enum")
        if ci.is_exc:
            fields = {"args": mk("tup", *[a for a in args if isinstance(a, T)])}
            r = self.alloc(st, OCell(ci, fields))
            k, v = self.class_find(st, ci, "__init__")
            if v is not None and v.op == "fn":
                self.call(st, mk("bm", r, v), args, kw, node)
            return r
        own = self.class_find(st, ci, "__init__")[1] if ci.is_dataclass else None
        if (ci.is_namedtuple or ci.is_dataclass) and (own is None or own.op != "fn"):
            fields = {}
            names = [n for n, _ in ci.fields]
            for n, a in zip(names, args):
                fields[n] = a
            fields.update(kw)
            for n, dflt in ci.fields:
                if n not in fields and dflt is not None:
                    fields[n] = dflt(st) if callable(dflt) else dflt
            r = self.alloc(st, OCell(ci, fields))
            k, v = self.class_find(st, ci, "__post_init__")
            if v is not None:
                self.call(st, mk("bm", r, v), [], {}, node)
            return r
        r = self.alloc(st, OCell(ci, {}))
        k, v = self.class_find(st, ci, "__init__")
        if v is not None:
            self.call(st, mk("bm", r, v), args, kw, node)
        return r

    def enum_by_value(self, st, ci, v, node):
        if v.op == "enum":
            return v
        cell = self.class_cell(st, ci)
        for n, m in cell.fields.items():
            if m.op == "enum" and m.args[3] is v:
                return m
        return self.unk("enum value")

    def bind_args(self, st, fi, args, kw, node):
        a = fi.node.args
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = list(args)
        # expand starred arguments of known length
        flat = []
        for v in vals:
            if isinstance(v, tuple):
                items = v[1]
                for s in items:
                    flat.append(s[1] if s[0] == "it" else ("*", (s,)))
            else:
                flat.append(v)
        i = 0
        star = ()
        for j, p in enumerate(pos):
            if i < len(flat):
                v = flat[i]
                if isinstance(v, tuple):
                    env[p] = self.unk("star argument")
                    continue
                env[p] = v
                i += 1
        rest = flat[i:]
        if a.vararg:
            items = []
            for v in rest:
                if isinstance(v, tuple):
                    items.extend(v[1])
                else:
                    items.append(("it", v))
            env[a.vararg.arg] = self.newlist(st, items, "tuple")
        elif [v for v in rest if not isinstance(v, tuple)]:
            self.implicit(st, "TypeError", "too many arguments for %s" % fi.qual, node)
            return env
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos or k in kwonly:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.implicit(st, "TypeError", "unexpected argument %s for %s" % (k, fi.qual), node)
                return env
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, DCell("dict", tuple(("kv", K(k), v) for k, v in extra.items())))
        for p in pos + kwonly:
            if p not in env:
                if p in fi.defaults:
                    env[p] = fi.defaults[p]
                else:
                    self.implicit(st, "TypeError", "missing argument %s of %s" % (p, fi.qual), node)
                    return env
        return env

    GEN_PREFIX = "asn1_parser.generators"

    def cached(self, st, fi, args, kw, node):
        """functools.cache: one result per combination of arguments."""
        key = (fi.qual, tuple(args), tuple(sorted(kw.items())))
        lits = st.lits()
        for live, v in self.fncache.get(key, ()):
            if live <= lits and all(x.op != "ref" or x.args[0] in st.heap for x in subterms(v)):
                return v
        self._filling = fi
        v = self.call_fn(st, fi, args, kw, node)
        if st.live is not None:
            self.fncache.setdefault(key, []).append((frozenset(st.lits()), v))
        return v

    hook = None

    lazyat = None          # a call whose generator is read by the statement around it

    def call_fn(self, st, fi, args, kw, node, inline=None):
        lazy = node is not None and node is self.lazyat
        if lazy and fi.is_generator and not fi.is_lambda and not fi.deco:
            return mk("lazygen", self.mkfn(fi), tuple(args), tuple(sorted(kw.items())))
        if "contextmanager" in fi.deco and self.hook is None:
            return mk("ctxmgr", self.mkfn(fi), tuple(args), tuple(sorted(kw.items())))
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget("steps")
        if any(m in ("cache", "lru_cache") for m in fi.deco) and not getattr(self, "_filling", None) is fi:
            return self.cached(st, fi, args, kw, node)
        self._filling = None
        if self.gen_snap is None and self.phase == "main" and fi.module.name.startswith(self.GEN_PREFIX) \
                and self.tx.models:
            self.gen_snap = dict(st.heap)
        n_on = sum(1 for fr in self.frames if fr.fi is fi)
        if n_on:
            last = [fr for fr in self.frames if fr.fi is fi][-1]
            if self.depth > last.depth or n_on > self.MAXREC or len(self.frames) > self.MAXDEPTH:
                return self.cut(st, fi, args, kw)
        if len(self.frames) > self.MAXDEPTH:
            return self.cut(st, fi, args, kw)
        self.call_log.add(fi.qual)
        env = self.bind_args(st, fi, args, kw, node)
        if st.live is None:
            return NONE
        fr = Frame(fi, fi.module, "func", fi.closure, fi.cls, self.depth)
        fr.lazy = lazy
        self.lazyat = None
        self.frames.append(fr)
        saved = st.env
        self.envs.append(saved)
        for b in boxed(fi):
            r = self.alloc(st, OCell("box", {"v": env[b]} if b in env else {}))
            env[b] = mk("box", r.args[0])
        # envs[k] is the environment of frame k-1's caller: index by frame depth
        st.env = env
        base = len(st.live)
        if fi.is_lambda:
            v = self.ev(st, fi.node.body)
            outs = [(st, v)] if st.live is not None else []
            outs = fr.returns + outs
        else:
            if inline is not None:
                fr.hook, fr.inline = inline, True
                env.update(("$o:" + k, x) for k, x in saved.items())
            elif "contextmanager" in fi.deco and self.hook is not None:
                fr.hook, self.hook = self.hook, None
            elif fi.is_generator:
                fr.yields = self.newlist(st, (), "gen")
            self.block(st, fi.node.body)
            outs = list(fr.returns)
            if st.live is not None:
                outs.append((st.fork(), NONE))
        self.frames.pop()
        self.envs.pop()
        if not outs:
            st.env = saved
            st.kill()
            return NONE
        for s, _ in outs:
            s.env = outer_env(s.env) if fr.inline else {}
        s, v = merge_many(base, outs)
        st.heap, st.live, st._lits = s.heap, s.live, s._lits
        st.env = s.env if fr.inline else saved
        if fr.yields is not None:
            return fr.yields
        return v if v is not None and not fr.inline else NONE

    def cut(self, st, fi, args, kw):
        """Recursion inside a summarised loop: summarise by an opaque result."""
        self.note("recursion summarised: %s" % fi.qual)
        vals = [a for a in args if isinstance(a, T)] + list(kw.values())
        out = mk("recout", fi.qual, tuple(v for v in vals if v.op != "ref"))
        for v in vals:
            if v.op == "ref":
                c = self.cell(st, v)
                if isinstance(c, LCell) and v.args[0] not in self.watch:
                    st.heap[v.args[0]] = LCell(c.kind, c.items + (("sp", out),))
                elif isinstance(c, DCell) and v.args[0] not in self.watch:
                    st.heap[v.args[0]] = DCell(c.kind, c.ents + (("dsp", out),), c.default)
        r = mk("rec", fi.qual, tuple(v for v in vals if v.op != "ref"))
        ann = getattr(fi.node, "returns", None)
        if isinstance(ann, ast.Name):
            k = {"str": "str", "int": "int", "float": "float", "bool": "bool"}.get(ann.id)
            if k:
                ops.KIND[r] = k
        return r

    # --------------------------------------------------------------- loops
    def for_items(self, st, items, body, ctl):
        for seg in items:
            if st.live is None:
                return
            k = seg[0]
            if k == "it":
                body(st, seg[1])
            elif k == "opt":
                sub = seg[2]
                self.branch(st, seg[1], lambda s: self.for_items(s, sub, body, ctl), lambda s: None)
            elif k == "ord":
                self.ordered(st, seg[1], seg[2], body, ctl)
            elif k == "sp":
                sh = self.shape(seg[1])
                if sh is not None:
                    self.for_items(st, sh, body, ctl)
                else:
                    self.generic(st, seg[1], None, body, ctl)
            elif k == "rep":
                self.generic(st, seg[1], seg, body, ctl)

    def nitems(self, items):
        n = 0
        for s in items:
            if s[0] == "it":
                n += 1
            else:
                return 2
        return n

    def ordered(self, st, tag, items, body, ctl):
        if tag == "uniq" or self.nitems(items) < 2:
            self.for_items(st, items, body, ctl)
            return
        pre = st.fork()
        self.for_items(st, items, body, ctl)
        if st.live is None:
            return
        # what was appended has the order of the collection
        for k, v in list(st.env.items()):
            w = pre.env.get(k)
            if w is not None and v is not w:
                st.env[k] = self.wrap_ord(tag, w, v)
        for a, c in list(st.heap.items()):
            p = pre.heap.get(a)
            if p is None or p is c:
                continue
            if isinstance(c, LCell) and isinstance(p, LCell):
                n = len(p.items)
                if c.items[:n] == p.items and len(c.items) > n and c.kind != "set":
                    rest = c.items[n:]
                    if self.nitems(rest) >= 2:
                        st.heap[a] = LCell(c.kind, p.items + (("ord", tag, rest),))
            elif isinstance(c, FCell) and isinstance(p, FCell):
                st.heap[a] = FCell(c.path, c.mode, self.wrap_ord(tag, p.content, c.content), c.closed)
            elif isinstance(c, OCell) and isinstance(p, OCell):
                f = {}
                for k, v in c.fields.items():
                    w = p.fields.get(k)
                    f[k] = self.wrap_ord(tag, w, v) if w is not None and v is not w else v
                st.heap[a] = OCell(c.cls, f)
            elif isinstance(c, DCell) and isinstance(p, DCell):
                n = len(p.ents)
                if c.ents[:n] == p.ents and len(c.ents) > n:
                    st.heap[a] = DCell(c.kind, p.ents + (("dord", tag, c.ents[n:]),), c.default)

    def wrap_ord(self, tag, old, new):
        if not (is_str(old) and is_str(new)):
            return new
        po = list(old.args) if old.op == "cat" else ([] if old is EMPTY else [old])
        pn = list(new.args) if new.op == "cat" else [new]
        i = 0
        while i < len(po) and i < len(pn) and po[i] is pn[i]:
            i += 1
        head = pn[:i]
        if i < len(po):
            if i == len(po) - 1 and i < len(pn) and isK(po[i]) and isK(pn[i]) and kv(pn[i]).startswith(kv(po[i])):
                head = head + [po[i]]
                pn = pn[:i] + [None, K(kv(pn[i])[len(kv(po[i])):])] + pn[i + 1:]
                rest = [x for x in pn[i:] if x is not None]
                return Cat(*head, mk("ordstr", tag, Cat(*rest)))
            return new
        rest = Cat(*pn[i:])
        if rest is EMPTY:
            return new
        return Cat(*head, mk("ordstr", tag, rest))

    def generic(self, st, src, seg, body, ctl):
        """Summarise the iteration over the elements of an abstract list."""
        self.depth += 1
        d = self.depth
        try:
            self._generic(st, src, seg, d, body, ctl)
        finally:
            self.depth -= 1

    def _generic(self, st, src, seg, d, body, ctl, wcond=None):
        lid = self.uid()
        fr = self.frames[-1]
        e = binder(src, d)
        n = len(st.live)
        site = (id(fr.node), fr.fi.qual if fr.fi else "", id(body.__code__) if hasattr(body, "__code__") else 0)
        carried = {}
        for key in self.hints.get(site, ()):
            if key[0] == "e" and key[1] in st.env:
                carried[key] = True
        ne = mk("nonempty", src)
        for attempt in range(8):
            s = st.fork()
            if seg is None:
                its, cond = (("it", e),), TRUE
            else:
                g = self.rename_seg(s, seg, d)
                its, cond = g[4], g[3]
            s.assume(ne)
            if s.live is None:
                return
            m = len(s.live)
            self.install(st, s, carried, lid)
            s0 = s.fork()
            marks = (len(self.events), len(fr.returns), len(ctl.breaks) if ctl else 0,
                     [(t, len(t.caught)) for t in self.trys])
            self.loops.append((src, d))
            if cond is TRUE:
                self.for_items(s, its, body, ctl)
            else:
                self.branch(s, cond, lambda x: self.for_items(x, its, body, ctl), lambda x: None)
            self.loops.pop()
            new = self.changed(s0, s) if s.live is not None else set()
            new = {k for k in new if k not in carried}
            if not new:
                break
            for k in new:
                carried[k] = True
            if attempt < 7:
                self.rollback(fr, ctl, marks)
        self.hints[site] = tuple(set(self.hints.get(site, ())) | {k for k in carried if k[0] == "e"})
        # exits out of the loop body
        self.close_exits(fr, ctl, marks, n, src, d, e, ne)
        E = And(*s.live[m:]) if s.live is not None else FALSE
        E = self.dec_atom_deep(st, E)
        if s.live is not None:
            self.solve(st, s0, s, carried, lid, src, d, e)
        ex = Exists(src, d, Not(E))
        st.assume(self.dec(st, Not(ex)))

    def rollback(self, fr, ctl, marks):
        del self.events[marks[0]:]
        del fr.returns[marks[1]:]
        if ctl:
            del ctl.breaks[marks[2]:]
        for t, k in marks[3]:
            del t.caught[k:]

    def close_exits(self, fr, ctl, marks, n, src, d, e, ne):
        def close(s, v):
            X = And(*[x for x in s.live[n:] if x is not ne])
            ex = Exists(src, d, X)
            w = mk("first", src, d, X, e)
            f = lambda t: w if t is e else None
            s.live = s.live[:n] + ((ex,) if ex.op != "and" else tuple(ex.args))
            s._lits = None
            s.env = {k: (subst(x, f) if e in subterms(x) else x) for k, x in s.env.items()}
            if v is not None:
                v = self.instantiate(s, v, e, w)
            return s, v
        for i in range(marks[1], len(fr.returns)):
            fr.returns[i] = close(*fr.returns[i])
        if ctl:
            for i in range(marks[2], len(ctl.breaks)):
                ctl.breaks[i] = close(*ctl.breaks[i])
        for t, k in marks[3]:
            for i in range(k, len(t.caught)):
                h, s, v, x = t.caught[i]
                s, v = close(s, v)
                t.caught[i] = (h, s, v, x)

    def install(self, st, s, carried, lid):
        for key in carried:
            if key[0] == "e":
                v = st.env.get(key[1])
                c = mk("car", lid, key[1])
                if v is not None:
                    ops.KIND[c] = kind(v)
                s.env[key[1]] = c
            elif key[0] == "h":
                c = st.heap[key[1]]
                t = mk("car", lid, "h%d" % key[1])
                if isinstance(c, LCell):
                    s.heap[key[1]] = LCell(c.kind, c.items + (("sp", t),))
                elif isinstance(c, DCell):
                    s.heap[key[1]] = DCell(c.kind, c.ents + (("dsp", t),), c.default)
                elif isinstance(c, FCell):
                    ops.KIND[t] = "str"
                    s.heap[key[1]] = FCell(c.path, c.mode, Cat(c.content, t), c.closed)
            else:
                c = s.heap[key[1]]
                v = st.heap[key[1]].fields.get(key[2])
                t = mk("car", lid, "f%d.%s" % (key[1], key[2]))
                if v is not None:
                    ops.KIND[t] = kind(v)
                s.heap[key[1]] = c.set(key[2], t)

    def changed(self, s0, s):
        out = set()
        for k, v in s.env.items():
            w = s0.env.get(k)
            if w is not None and w is not v:
                out.add(("e", k))
        for a, c in s.heap.items():
            p = s0.heap.get(a)
            if p is None or p is c:
                continue
            if isinstance(c, OCell):
                for k, v in c.fields.items():
                    if p.fields.get(k) is not v and k in p.fields:
                        out.add(("f", a, k))
            elif isinstance(c, LCell):
                if c.items != p.items:
                    out.add(("h", a))
            elif isinstance(c, DCell):
                if c.ents != p.ents:
                    out.add(("h", a))
            elif isinstance(c, FCell):
                if c.content is not p.content:
                    out.add(("h", a))
        return out

    def solve(self, st, s0, s, carried, lid, src, d, e):
        isabs = src.op == "while"
        cars = lambda t: any(x.op == "car" and x.args[0] == lid for x in subterms(t))
        # cells allocated in the loop
        for a, c in s.heap.items():
            if a not in st.heap:
                st.heap[a] = c
        for k, v in s.env.items():
            if k not in st.env:
                st.env[k] = self.unk("loop variable") if cars(v) else mk("last", src, d, v)
        for key in carried:
            if key[0] == "e":
                if key[1] not in s.env:
                    continue
                st.env[key[1]] = self.solve_scalar(st, mk("car", lid, key[1]), st.env[key[1]], s.env[key[1]], src, d, e, cars)
            elif key[0] == "f":
                a, f = key[1], key[2]
                c = mk("car", lid, "f%d.%s" % (a, f))
                old = st.heap[a]
                new = s.heap[a].fields[f]
                st.heap[a] = old.set(f, self.solve_scalar(st, c, old.fields.get(f, NONE), new, src, d, e, cars))
            else:
                a = key[1]
                old, mid, new = st.heap[a], s0.heap[a], s.heap[a]
                if isinstance(old, LCell):
                    n = len(mid.items)
                    app = new.items[n:]
                    if new.items[:n] == mid.items and not cars(app):
                        st.heap[a] = LCell(old.kind, old.items + ((("rep", src, d, TRUE, app),) if app else ()))
                    elif new.items[:n] == mid.items:
                        u = self.unk("list built in a loop")
                        rep = lambda t: self.unk("carried") if t.op == "car" and t.args[0] == lid else None
                        st.heap[a] = LCell(old.kind, old.items + (("rep", src, d, TRUE, subst(app, rep)),))
                    else:
                        st.heap[a] = LCell(old.kind, (("sp", self.unk("list changed in a loop")),))
                elif isinstance(old, DCell):
                    n = len(mid.ents)
                    app = new.ents[n:]
                    if new.ents[:n] == mid.ents:
                        rep = lambda t: self.unk("carried") if t.op == "car" and t.args[0] == lid else None
                        if cars(app):
                            app = self.drop_car_guards(app, lid)
                        if cars(app):
                            app = subst(app, rep)
                        st.heap[a] = DCell(old.kind, old.ents + ((("drep", src, d, TRUE, app),) if app else ()), old.default)
                    else:
                        st.heap[a] = DCell(old.kind, (("dsp", self.unk("dict changed in a loop")),), old.default)
                elif isinstance(old, FCell):
                    c = mk("car", lid, "h%d" % a)
                    st.heap[a] = FCell(old.path, old.mode, self.solve_str(old.content, Cat(old.content, c), c, new.content, src, d, cars), old.closed)

    def drop_car_guards(self, ents, lid):
        """First-occurrence guards (key not yet present) do not change a dict's keys."""
        out = []
        for s in ents:
            if s[0] == "dopt" and s[1].op == "not" and s[1].args[0].op == "haskey":
                out.extend(s[2])
            else:
                out.append(s)
        return tuple(out)

    def solve_str(self, init, mid, car, new, src, d, cars):
        pm = list(mid.args) if mid.op == "cat" else [mid]
        pn = list(new.args) if new.op == "cat" else [new]
        if pn[:len(pm)] == pm or all(x is y for x, y in zip(pm, pn)) and len(pn) >= len(pm):
            tail = Cat(*pn[len(pm):])
            if cars(tail):
                return Cat(init, self._strunk("text built in a loop"))
            return Cat(init, RepStr(src, d, TRUE, tail))
        return self._strunk("text changed in a loop")

    def _strunk(self, why):
        u = self.unk(why)
        ops.KIND[u] = "str"
        return u

    def solve_scalar(self, st, car, init, new, src, d, e, cars):
        if new is car:
            return init
        ne = mk("nonempty", src)
        if not cars(new):
            if e not in subterms(new):
                return Ite(self.dec(st, ne), new, init)
            return Ite(self.dec(st, ne), mk("last", src, d, new), init)
        if is_str(init) or is_str(new):
            pn = list(new.args) if new.op == "cat" else [new]
            if pn[0] is car:
                tail = Cat(*pn[1:])
                if not cars(tail):
                    return Cat(init, RepStr(src, d, TRUE, tail))
            u = self.unk("text built in a loop")
            ops.KIND[u] = "str"
            return u
        if new.op == "or" and car in new.args:
            rest = Or(*[x for x in new.args if x is not car])
            if not cars(rest):
                return Or(Truth(init) if not is_bool(init) else init, self.dec(st, Exists(src, d, rest)))
        if new.op == "and" and car in new.args:
            rest = And(*[x for x in new.args if x is not car])
            if not cars(rest):
                return And(Truth(init) if not is_bool(init) else init, Not(self.dec(st, Exists(src, d, Not(rest)))))
        delta = Sub(new, car) if (ops.is_num(init) or new.op == "lin") else None
        if delta is not None and not cars(delta):
            if delta.op == "ite" and isK(delta.args[1]) and isK(delta.args[2]):
                c, x, y = delta.args
                r = Add(init, Mul(x, mk("cnt", src, d, c)))
                return Add(r, Mul(y, mk("cnt", src, d, Not(c))))
            if e not in subterms(delta) and isK(delta):
                return Add(init, Mul(delta, mk("cnt", src, d, TRUE)))
            return Add(init, mk("sumof", src, d, TRUE, delta))
        if new.op == "ite":
            c, x, y = new.args
            if not cars(c):
                if x is car:
                    c, x, y = Not(c), y, x
                if y is car and not cars(x):
                    ex = self.dec(st, Exists(src, d, c))
                    if e not in subterms(x):
                        return Ite(ex, x, init)
                    return Ite(ex, mk("lastw", src, d, c, x), init)
        return self.unk("value carried through a loop")

    # ------------------------------------------------------------ iteration
    def iter_items(self, st, v, node=None):
        """Segments of the elements of a value."""
        v = self.res(st, v)
        o = v.op
        if o == "ite":
            c = v.args[0]
            a = self.iter_items(st, v.args[1], node)
            b = self.iter_items(st, v.args[2], node)
            if a == b:
                return a
            out = ()
            if a:
                out += (("opt", c, a),)
            if b:
                out += (("opt", Not(c), b),)
            return out
        if o == "ref":
            c = self.cell(st, v)
            if isinstance(c, LCell):
                if c.kind == "gen":
                    if c.items and self.depth <= self.summary.get(v.args[0], 0):
                        st.heap[v.args[0]] = LCell("gen", ())   # an iterator is read once
                    return c.items
                if c.kind == "set" and self.nitems(c.items) >= 2:
                    if len(c.items) == 1 and c.items[0][0] == "ord":
                        return c.items
                    if all(x[0] == "it" and kind(x[1]) in ("int", "bool") for x in c.items):
                        return (("ord", "hash", c.items),)
                    if self.set_order == "fwd":
                        return c.items
                    if self.set_order == "rev":
                        return tuple(reversed(c.items))
                    return (("ord", "unordered", c.items),)
                return c.items
            if isinstance(c, DCell):
                return self.dict_keys(c.ents)
            if isinstance(c, OCell):
                if c.cls == "Counter":
                    return self.dedupe(st, c.fields["#items"])
                if isinstance(c.cls, ClassInfo) and c.cls.is_namedtuple:
                    return tuple(("it", c.fields[f]) for f, _ in c.cls.fields if f in c.fields)
                if isinstance(c.cls, ClassInfo):
                    k, m = self.class_find(st, c.cls, "__iter__")
                    if m is not None:
                        if self.lib.infinite(st, v):
                            self.note("endless iterator")
                            return (("sp", self.unk("iterator")),)
                        r = self.call(st, self.bind_method(v, c.cls, k, m, st), [], {}, node)
                        if st.live is None:
                            return ()
                        if r.op == "ref" and isinstance(self.cell(st, r), OCell) and isinstance(self.cell(st, r).cls, ClassInfo) \
                                and self.class_find(st, self.cell(st, r).cls, "__next__")[1] is not None:
                            r = self.lib.stdcall(st, "drain", [r], node)
                        return self.iter_items(st, r, node)
            if isinstance(c, FCell):
                return (("sp", mk("lines", c.path)),)
        if o == "tup":
            return tuple(("it", x) for x in v.args)
        if isK(v):
            if isinstance(kv(v), str):
                return tuple(("it", K(ch)) for ch in kv(v))
            if kv(v) is None:
                self.implicit(st, "TypeError", "None is not iterable", node)
                return ()
        if o == "cls":
            ci = self.classes[v.args[0]]
            if ci.is_enum:
                cell = self.class_cell(st, ci)
                return tuple(("it", m) for m in cell.fields.values() if m.op == "enum")
        if o == "call" and v.args[0] == "range":
            return (("sp", v),)
        sh = self.shape(v)
        if sh is not None:
            return sh
        return (("sp", v),)

    def dict_keys(self, ents, what="k"):
        out = []
        for s in ents:
            k = s[0]
            if k == "kv":
                x = s[1] if what == "k" else (s[2] if what == "v" else mk("tup", s[1], s[2]))
                out.append((s[1], ("it", x)))
            elif k == "dsp":
                if what == "k":
                    out.append((None, ("sp", s[1])))
                else:
                    out.append((None, ("sp", mk("dictview", s[1], what))))
            elif k == "dopt":
                sub = self.dict_keys(s[2], what)
                out.append((None, ("opt", s[1], sub)))
            elif k == "drep":
                out.append((None, ("rep", s[1], s[2], s[3], self.dict_keys(s[4], what))))
            elif k == "dord":
                out.append((None, ("ord", s[1], self.dict_keys(s[2], what))))
        # a later entry of the same key replaces the value in place
        res = []
        seen = {}
        for key, seg in out:
            if key is not None and key in seen:
                res[seen[key]] = seg
                continue
            if key is not None:
                seen[key] = len(res)
            res.append(seg)
        for s in ents:
            if s[0] == "del":
                res = [r for r in res if not (r[0] == "it" and (r[1] is s[1] or (r[1].op == "tup" and r[1].args[0] is s[1])))]
        return tuple(res)

    def dedupe(self, st, items):
        out = []
        its = []
        for s in items:
            if s[0] == "it":
                c = FALSE
                for y in its:
                    q = self.dec(st, self.eq(st, s[1], y))
                    c = Or(c, q)
                if c is TRUE:
                    continue
                its.append(s[1])
                if c is FALSE:
                    out.append(s)
                else:
                    out.append(("opt", Not(c), (s,)))
            elif s[0] == "ord":
                out.append(("ord", s[1], self.dedupe(st, s[2])))
            elif s[0] == "opt":
                c = self.dec(st, s[1])
                if c is FALSE:
                    continue
                if c is TRUE:
                    out.extend(self.dedupe(st, s[2]))
                else:
                    out.append(s)
            else:
                out.append(s)
        return tuple(out)

    def run_for(self, st, items, body_exec, orelse=None, src=None):
        """Drive a for loop; body_exec(st, value, ctl)."""
        ctl = Ctl()
        base = len(st.live)

        def body(s, v):
            n = len(s.live)
            saved = ctl.conts
            ctl.conts = []
            body_exec(s, v, ctl)
            conts, ctl.conts = ctl.conts, saved
            outs = conts
            if s.live is not None:
                outs = conts + [(s.fork(), None)]
            if not conts:
                return
            if not outs:
                s.kill()
                return
            r, _ = merge_many(n, outs)
            s.take(r)
        if src is not None:
            self.live_items(st, src, body)
        else:
            self.for_items(st, items, body, ctl)
        if orelse and st.live is not None:
            self.block(st, orelse)
        if ctl.breaks:
            outs = list(ctl.breaks)
            if st.live is not None:
                outs.append((st.fork(), None))
            r, _ = merge_many(base, outs)
            st.take(r)

    # ----------------------------------------------------------- statements
    def block(self, st, stmts):
        for s in stmts:
            if st.live is None:
                return
            self.stmt(st, s)

    def stmt(self, st, n):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget("steps")
        self.frames[-1].node = n
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.note("statement not modelled: " + type(n).__name__)
            return
        m(st, n)

    def s_Pass(self, st, n):
        pass

    def s_Expr(self, st, n):
        if isinstance(n.value, ast.GeneratorExp):
            self.ev(st, n.value.generators[0].iter)    # nobody reads it
            return
        self.lazy_ev(st, n.value)

    def lazy_ev(self, st, n):
        """The value of an expression; a generator is not started."""
        if not isinstance(n, ast.Call):
            return self.ev(st, n)
        if isinstance(n.func, ast.Name) and n.func.id in ("map", "filter") and len(n.args) == 2 and not n.keywords \
                and not any(isinstance(x, ast.Starred) for x in n.args):
            f = self.ev(st, n.func)
            if f.op == "ext" and f.args[0] == "builtins." + n.func.id:
                a = [self.ev(st, x) for x in n.args]
                return mk("lazy" + n.func.id, *a) if st.live is not None else NONE
        saved, self.lazyat = self.lazyat, n
        v = self.ev(st, n)
        self.lazyat = saved
        return v

    def force(self, st, v, n):
        """The list of what a generator that was not started yields."""
        if v.op == "lazygen":
            return self.call_fn(st, self.fns[v.args[0].args[0]], list(v.args[1]), dict(v.args[2]), None)
        if v.op in ("lazymap", "lazyfilter"):
            return getattr(self.lib, "b_" + v.op[4:])(st, list(v.args), {}, n)
        if v.op == "lazyexp":
            return self.ev(st, self.lazyexps[v.args[0]])
        return v

    lazyexps = ()

    def defer(self, fn, t, value, seen={}):
        """Is the generator assigned here read by one later loop and nothing else?"""
        if not isinstance(t, ast.Name) or not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return False
        key = (id(fn), id(t))
        if key not in seen:
            uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == t.id]
            fors = [x for x in ast.walk(fn) if isinstance(x, ast.For) and isinstance(x.iter, ast.Name) and x.iter.id == t.id]
            free = {x.id for x in ast.walk(value) if isinstance(x, ast.Name)}
            ok = len(uses) == 2 and len(fors) == 1 and fors[0].lineno > t.lineno and not leaves(fors[0]) \
                and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in free and x.lineno > t.lineno
                            for x in ast.walk(fn)) \
                and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn))
            seen[key] = (ok, fn, t)
        return seen[key][0]

    def s_Return(self, st, n):
        if n.value is None:
            v = NONE
        elif self.frames[-1].lazy and isinstance(n.value, ast.Call) and not (
                isinstance(n.value.func, ast.Name) and n.value.func.id in ("map", "filter")):
            v = self.lazy_ev(st, n.value)
        else:
            v = self.ev(st, n.value)
        if st.live is None:
            return
        self.frames[-1].returns.append((st.fork(), v))
        st.kill()

    def s_Assign(self, st, n):
        if isinstance(n.value, (ast.Call, ast.GeneratorExp)) and len(n.targets) == 1 and self.frames[-1].fi is not None \
                and self.defer(self.frames[-1].fi.node, n.targets[0], n.value) and n.targets[0].id not in boxed(self.frames[-1].fi):
            if isinstance(n.value, ast.GeneratorExp):
                self.lazyexps = self.lazyexps or {}
                self.lazyexps[id(n.value)] = n.value
                v = mk("lazyexp", id(n.value))
            else:
                v = self.lazy_ev(st, n.value)
        else:
            v = self.ev(st, n.value)
        if st.live is None:
            return
        for t in n.targets:
            self.assign(st, t, v)

    def s_AnnAssign(self, st, n):
        if n.value is not None:
            v = self.ev(st, n.value)
            if st.live is not None:
                self.assign(st, n.target, v)
        elif self.frames[-1].kind == "class" and isinstance(n.target, ast.Name):
            pass

    def s_AugAssign(self, st, n):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.name(st, t.id, t)
            val = self.ev(st, n.value)
            if st.live is None:
                return
            new = self.aug(st, n.op, old, val, n)
            self.assign(st, t, new)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(st, t.value)
            old = self.getattr(st, obj, t.attr, t)
            val = self.ev(st, n.value)
            if st.live is None:
                return
            self.setattr(st, obj, t.attr, self.aug(st, n.op, old, val, n), n)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(st, t.value)
            k = self.ev_index(st, t.slice)
            if st.live is None:
                return
            old = self.lib.getitem(st, obj, k, t)
            val = self.ev(st, n.value)
            if st.live is None:
                return
            self.lib.setitem(st, obj, k, self.aug(st, n.op, old, val, n), n)

    def aug(self, st, op, old, val, n):
        def f(s, o):
            if o.op == "ref":
                c = self.cell(s, o)
                if isinstance(c, LCell) and c.kind == "list" and isinstance(op, ast.Add):
                    self.setcell(s, o.args[0], LCell("list", c.items + self.iter_items(s, val)), "extend", n)
                    return o
                if isinstance(c, LCell) and c.kind == "set" and isinstance(op, ast.BitOr):
                    self.setcell(s, o.args[0], LCell("set", c.items + self.iter_items(s, val)), "update", n)
                    return o
                if isinstance(c, OCell) and c.cls == "bytearray" and isinstance(op, ast.Add):
                    self.lib.method1(s, o, "extend", [val], {}, n)
                    return o
                r = self.lib.binop(s, op, o, val, n)
                if r.op == "ref" and s.live is not None:
                    rc = self.cell(s, r)
                    if isinstance(c, LCell) and c.kind == "set" and isinstance(rc, LCell) or \
                            isinstance(c, DCell) and isinstance(rc, DCell):
                        self.setcell(s, o.args[0], rc, "update", n)
                        return o
                return r
            return self.lib.binop(s, op, o, val, n)
        return self.split(st, old, f)

    def assign(self, st, t, v):
        if st.live is None:
            return
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.globals:
                a = self.modcells["m:" + fr.module.name]
                self.event(st, "globalwrite", t, mod=fr.module.name, name=t.id, value=v)
                st.heap[a] = st.heap[a].set(t.id, v)
                return
            old = st.env.get(t.id)
            if old is None and fr.closure and t.id in fr.nonlocals:
                old = fr.closure.get(t.id)
            if old is not None and old.op == "box":
                st.heap[old.args[0]] = OCell("box", {"v": v})
                return
            st.env[t.id] = v
            if fr.kind == "module":
                a = self.modcells["m:" + fr.module.name]
                st.heap[a] = st.heap[a].set(t.id, v)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(st, t.value)
            if st.live is not None:
                self.setattr(st, obj, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(st, t.value)
            k = self.ev_index(st, t.slice)
            if st.live is not None:
                self.lib.setitem(st, obj, k, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(st, t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)

    def unpack(self, st, elts, v):
        v = self.res(st, v)
        if v.op == "ite":
            a, b = v.args[1], v.args[2]
            self.branch(st, v.args[0], lambda s: self.unpack(s, elts, a), lambda s: self.unpack(s, elts, b))
            return
        items = None
        if v.op == "tup":
            items = tuple(("it", x) for x in v.args)
        elif v.op == "ref":
            c = self.cell(st, v)
            if isinstance(c, LCell):
                items = c.items
            elif isinstance(c, OCell) and isinstance(c.cls, ClassInfo) and c.cls.is_namedtuple:
                items = tuple(("it", c.fields.get(f, NONE)) for f, _ in c.cls.fields)
            elif isinstance(c, DCell) or isinstance(c, OCell) and isinstance(c.cls, ClassInfo) \
                    and self.class_find(st, c.cls, "__iter__")[1] is not None:
                items = self.iter_items(st, v)
        elif isK(v) and isinstance(kv(v), str):
            items = tuple(("it", K(x)) for x in kv(v))
        if items is not None and all(s[0] == "it" for s in items):
            vals = [s[1] for s in items]
            star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(elts) - i - 1
                for x, y in zip(elts[:i], vals[:i]):
                    self.assign(st, x, y)
                self.assign(st, elts[i].value, self.newlist(st, [("it", y) for y in vals[i:len(vals) - k]]))
                for x, y in zip(elts[i + 1:], vals[len(vals) - k:]):
                    self.assign(st, x, y)
                return
            if len(vals) == len(elts):
                for x, y in zip(elts, vals):
                    self.assign(st, x, y)
                return
            self.implicit(st, "ValueError", "wrong number of values to unpack")
            return
        for i, x in enumerate(elts):
            if isinstance(x, ast.Starred):
                self.assign(st, x.value, self.newlist(st, [("sp", self.unk("unpack"))]))
            elif items is not None and i < len(items) and all(s[0] == "it" for s in items[:i + 1]):
                self.assign(st, x, items[i][1])
            else:
                self.assign(st, x, mk("index", v, K(i)) if v.op not in ("ref",) else self.unk("unpack"))

    def s_Delete(self, st, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.ev(st, t.value)
                k = self.ev_index(st, t.slice)
                if st.live is not None:
                    self.lib.delitem(st, obj, k, n)
            elif isinstance(t, ast.Attribute):
                obj = self.ev(st, t.value)
                c = self.cell(st, obj) if obj.op == "ref" else None
                if isinstance(c, OCell) and isinstance(c.cls, ClassInfo) and t.attr in c.fields and obj.args[0] not in self.watch:
                    f = dict(c.fields)
                    del f[t.attr]
                    st.heap[obj.args[0]] = OCell(c.cls, f)
                else:
                    self.note("del attribute")

    def s_If(self, st, n):
        c = self.cond(st, n.test)
        if st.live is None:
            return
        self.branch(st, c, lambda s: self.block(s, n.body), lambda s: self.block(s, n.orelse))

    def s_For(self, st, n):
        if isinstance(n.iter, ast.GeneratorExp):
            it = mk("lazyexp", id(n.iter))
            self.lazyexps = self.lazyexps or {}
            self.lazyexps[id(n.iter)] = n.iter
        else:
            it = self.lazy_ev(st, n.iter)
        if st.live is None:
            return

        def body(s, v, ctl):
            self.ctls.append(ctl)
            self.assign(s, n.target, v)
            self.block(s, n.body)
            self.ctls.pop()

        def loop(s, it):
            if it.op.startswith("lazy"):
                if not leaves(n) and self.in_place(s, it, n, body):
                    return NONE
                it = self.force(s, it, n.iter)
                if s.live is None:
                    return NONE
            src = self.live_source(s, it)
            items = self.iter_items(s, it, n) if src is None else ()
            if s.live is None:
                return NONE
            if it.op == "ref" and isinstance(n.iter, (ast.Name, ast.Attribute)) and self.lib.isgen(s, it) \
                    and any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in ast.walk(b)):
                # what a loop that is left early has not read
                s.heap[it.args[0]] = LCell("gen", (("sp", self.unk("rest of iterator")),))
            self.run_for(s, items, body, n.orelse, src)
            return NONE
        if it.op == "ite" and any(x.op.startswith("lazy") for x in subterms(it)):
            self.split(st, it, loop)
        else:
            loop(st, it)

    def in_place(self, st, v, n, body):
        """Run the body of a loop at each value its generator yields.  False: not possible."""
        if v.op == "lazymap":
            items = self.iter_items(st, v.args[1], n.iter)

            def step(s, x, ctl):
                y = self.call(s, v.args[0], [x], {}, n.iter)
                if s.live is not None:
                    body(s, y, ctl)
            if st.live is not None:
                self.run_for(st, items, step, n.orelse)
            return True
        if v.op == "lazyexp":
            g = renamed(self.lazyexps[v.args[0]])
            if g is None:
                return False
            ctl = Ctl()

            def emit(s):
                y = self.ev(s, g.elt)
                if s.live is not None:
                    self.run_for(s, (("it", y),), body)
            self.comp(st, g.generators, 0, emit)
            if st.live is not None:
                for k in [k for k in st.env if k.startswith("$g:")]:
                    st.env.pop(k)
                if n.orelse:
                    self.block(st, n.orelse)
            return True
        if v.op != "lazygen":
            return False
        fi = self.fns[v.args[0].args[0]]
        nf, nt, ne = len(self.frames), len(self.trys), len(self.envs)

        def hook(s, val):
            inner, envs, trys = self.frames[nf:], self.envs[ne:], self.trys[nt:]
            e0 = s.env
            del self.frames[nf:], self.envs[ne:], self.trys[nt:]
            s.env = outer_env(e0)
            self.run_for(s, (("it", val),), body)
            e1 = {k: x for k, x in e0.items() if not k.startswith("$o:")}
            e1.update(("$o:" + k, x) for k, x in s.env.items())
            s.env = e1
            self.frames.extend(inner)
            self.envs.extend(envs)
            self.trys.extend(trys)
        r = self.call_fn(st, fi, list(v.args[1]), dict(v.args[2]), None, inline=hook)
        if st.live is not None and r is not NONE:
            self.run_for(st, (("sp", r),), body)
        if st.live is not None and n.orelse:
            self.block(st, n.orelse)
        return True

    ctls = []

    def live_source(self, st, it):
        """(list address, start or None) of a loop that reads a list in place."""
        if it.op != "ref":
            return None
        c = self.cell(st, it)
        if not isinstance(c, LCell):
            return None
        start = None
        if c.kind == "gen" and it.args[0] in self.enumsrc:
            a, start = self.enumsrc[it.args[0]]
            it = mk("ref", a)
            c = self.cell(st, it)
        if c.kind != "list" or not all(s[0] == "it" for s in c.items):
            return None
        return it.args[0], start

    def live_items(self, st, src, body):
        addr, start = src
        i = 0
        while st.live is not None:
            c = st.heap.get(addr)
            if i >= len(c.items):
                break
            if any(s[0] != "it" for s in c.items):
                self.note("imprecise: list changed conditionally while it is iterated")
                self.for_items(st, c.items[i:], body, None)
                break
            v = c.items[i][1]
            body(st, v if start is None else mk("tup", Add(start, K(i)), v))
            i += 1
            if i > 5000:
                raise Budget("endless list iteration")

    def s_Break(self, st, n):
        self.ctls[-1].breaks.append((st.fork(), None))
        st.kill()

    def s_Continue(self, st, n):
        self.ctls[-1].conts.append((st.fork(), None))
        st.kill()

    def s_While(self, st, n):
        ctl = Ctl()
        base = len(st.live)
        exits = []
        rounds = 0
        old = dict(st.heap)
        before = None
        while st.live is not None:
            c = self.cond(st, n.test)
            if st.live is None:
                break
            if c is FALSE:
                break
            if c is TRUE:
                sig = self.signature(st, old)
                if sig is not None and sig == before:
                    # a round that changed nothing is repeated for ever
                    self.event(st, "diverge", n, text="loop without progress")
                    st.kill()
                    break
                before = sig
            if c is not TRUE or rounds > 120:
                self.while_generic(st, n, ctl, c)
                break
            rounds += 1
            m = len(st.live)
            saved = ctl.conts
            ctl.conts = []
            self.ctls.append(ctl)
            self.block(st, n.body)
            self.ctls.pop()
            conts, ctl.conts = ctl.conts, saved
            if conts:
                outs = conts + ([(st.fork(), None)] if st.live is not None else [])
                r, _ = merge_many(m, outs)
                st.take(r)
        if n.orelse and st.live is not None:
            self.block(st, n.orelse)
        if ctl.breaks:
            outs = list(ctl.breaks)
            if st.live is not None:
                outs.append((st.fork(), None))
            r, _ = merge_many(base, outs)
            st.take(r)

    def signature(self, st, old):
        """The state up to the names of the cells made since the loop began."""
        num = {}
        out = []
        todo = []

        def canon(t):
            if isinstance(t, tuple):
                return tuple(canon(x) for x in t)
            if not isinstance(t, T):
                return t
            refs = [x for x in subterms(t) if x.op == "ref"]
            if all(r.args[0] in old for r in refs):
                return t
            if t.op == "ref":
                if t.args[0] not in num:
                    num[t.args[0]] = len(num)
                    todo.append(t.args[0])
                return ("new", num[t.args[0]])
            return (t.op,) + tuple(canon(x) for x in t.args)

        def cell(c):
            if isinstance(c, LCell):
                return ("L", c.kind, canon(c.items))
            if isinstance(c, DCell):
                return ("D", c.kind, canon(c.ents))
            if isinstance(c, OCell):
                return ("O", c.cls, tuple((k, canon(v)) for k, v in sorted(c.fields.items())))
            if isinstance(c, FCell):
                return ("F", canon(c.path), canon(c.content))
            return c
        try:
            for k in sorted(st.env, key=str):
                out.append((k, canon(st.env[k])))
            for a in old:
                if st.heap[a] is not old[a]:
                    out.append((a, cell(st.heap[a])))
            while todo:
                a = todo.pop(0)
                out.append(cell(st.heap.get(a)))
        except (TypeError, KeyError):
            return None
        return tuple(out), st.live

    def while_generic(self, st, n, ctl, c):
        """A loop with an undetermined condition: worklist rule, else havoc."""
        from . import worklist
        if worklist.try_worklist(self, st, n, ctl):
            return
        src = mk("while", self.uid())
        self.depth += 1
        d = self.depth

        def body(s, v):
            m = len(s.live)
            c = self.cond(s, n.test)
            if s.live is None:
                return
            s.assume(c)
            if s.live is None:
                return
            saved = ctl.conts
            ctl.conts = []
            self.ctls.append(ctl)
            self.block(s, n.body)
            self.ctls.pop()
            conts, ctl.conts = ctl.conts, saved
            if conts:
                outs = conts + ([(s.fork(), None)] if s.live is not None else [])
                r, _ = merge_many(m, outs)
                s.take(r)
        try:
            self._generic(st, src, None, d, body, ctl)
        finally:
            self.depth -= 1
        # values after an unknown number of rounds
        if st.live is None:
            return
        u = lambda t: None

        def havoc(t):
            if any(x.op in ("repstr", "last", "lastw", "cnt", "sumof") and x.args[0] is src for x in subterms(t)):
                k = kind(t)
                r = self.unk("while loop")
                ops.KIND[r] = k
                return r
            return t
        for k in list(st.env):
            st.env[k] = havoc(st.env[k])
        for a, c in list(st.heap.items()):
            if isinstance(c, OCell):
                f = {k: havoc(v) for k, v in c.fields.items()}
                if any(f[k] is not c.fields[k] for k in f):
                    st.heap[a] = OCell(c.cls, f)
        c = self.cond(st, n.test)
        if st.live is not None:
            st.assume(Not(c))

    def s_With(self, st, n):
        self.with_items(st, n, 0)

    def with_items(self, st, n, i):
        if i == len(n.items):
            self.block(st, n.body)
            return
        it = n.items[i]
        v = self.ev(st, it.context_expr)
        if st.live is None:
            return
        if v.op == "ctxmgr":
            self.with_generator(st, n, i, v)
            return
        # contextlib.suppress(E...)
        if v.op == "suppress":
            self.try_(st, lambda s: self.with_items(s, n, i + 1), [(list(v.args), lambda s, e, x: None)], None, None)
            return
        ent = v
        c = self.cell(st, v)
        if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
            k, m = self.class_find(st, c.cls, "__enter__")
            if m is not None:
                ent = self.call(st, self.bind_method(v, c.cls, k, m, st), [], {}, n)
        if it.optional_vars is not None:
            self.assign(st, it.optional_vars, ent)
        fr = self.frames[-1]
        nret = len(fr.returns)
        self.with_items(st, n, i + 1)
        if isinstance(c, FCell):
            if st.live is not None:
                self.lib.close_file(st, v, n)
            for s, _ in fr.returns[nret:]:
                if s.live is not None:
                    self.lib.close_file(s, v, n)
        elif isinstance(c, OCell) and isinstance(c.cls, ClassInfo) and st.live is not None:
            k, m = self.class_find(st, c.cls, "__exit__")
            if m is not None:
                self.call(st, self.bind_method(v, c.cls, k, m, st), [NONE, NONE, NONE], {}, n)

    def with_generator(self, st, n, i, v):
        """with statement over a function made a context manager: the body runs at its yield."""
        fi = self.fns[v.args[0].args[0]]
        nf = len(self.frames)
        env = st.env

        def hook(s, val):
            inner, envs = self.frames[nf:], self.envs[nf:]
            e0 = s.env
            del self.frames[nf:], self.envs[nf:]
            s.env = hook.env
            if n.items[i].optional_vars is not None:
                self.assign(s, n.items[i].optional_vars, val)
            self.with_items(s, n, i + 1)
            hook.env = s.env
            s.env = e0
            self.frames.extend(inner)
            self.envs.extend(envs)
        hook.env = env
        self.hook = hook
        self.call_fn(st, fi, list(v.args[1]), dict(v.args[2]), n)
        if st.live is not None:
            st.env = hook.env

    def s_Raise(self, st, n):
        if n.exc is None:
            cur = st.env.get("$exc")
            self.raise_(st, st.env.get("$exccls", mk("ext", "builtins.Exception")), cur if cur is not None else NONE, n)
            return
        v = self.ev(st, n.exc)
        if st.live is None:
            return

        def f(s, v):
            if v.op in ("cls", "ext"):
                self.raise_(s, v, NONE, n)
            elif v.op == "excobj":
                self.raise_(s, mk("ext", v.args[0]), v, n, excval=v)
            elif v.op == "ref":
                c = self.cell(s, v)
                if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
                    self.raise_(s, self.cls_term(c.cls), c.fields.get("args", NONE), n, excval=v)
                else:
                    self.raise_(s, mk("ext", "builtins.Exception"), v, n)
            else:
                self.raise_(s, mk("ext", "builtins.Exception"), v, n)
            return NONE
        self.split(st, v, f)

    def s_Assert(self, st, n):
        c = self.cond(st, n.test)
        if st.live is None:
            return

        def bad(s):
            self.event(s, "assert", n)
            m = self.ev(s, n.msg) if n.msg is not None else None
            if s.live is not None:
                self.raise_(s, mk("ext", "builtins.AssertionError"), mk("excobj", "builtins.AssertionError", *([] if m is None else [m])), n)
        self.branch(st, c, lambda s: None, bad)

    def s_Try(self, st, n):
        hs = []
        for h in n.handlers:
            if h.type is None:
                types = None
            else:
                t = self.ev(st, h.type)
                types = list(t.args) if t.op == "tup" else [t]
                flat = []
                for x in types:
                    if x.op == "ref" and isinstance(self.cell(st, x), LCell):
                        flat.extend(s[1] for s in self.cell(st, x).items if s[0] == "it")
                    else:
                        flat.append(x)
                types = flat

            def run(s, e, x, h=h):
                if h.name:
                    s.env[h.name] = e
                saved = (s.env.get("$exc"), s.env.get("$exccls"))
                s.env["$exc"], s.env["$exccls"] = e, x
                self.block(s, h.body)
                if s.live is not None:
                    for k, v in zip(("$exc", "$exccls"), saved):
                        if v is None:
                            s.env.pop(k, None)
                        else:
                            s.env[k] = v
            hs.append((types, run))
        self.try_(st, lambda s: self.block(s, n.body), hs, n.orelse, n.finalbody, n)

    def try_(self, st, body, handlers, orelse, final, node=None):
        base = len(st.live)
        pre = st.fork()
        tf = TryFrame([t for t, _ in handlers], len(self.envs))
        self.trys.append(tf)
        nimp = self.lib.risky
        fr = self.frames[-1]
        nret = len(fr.returns)
        ctl = self.ctls[-1] if self.ctls else None
        nbr, nco = (len(ctl.breaks), len(ctl.conts)) if ctl is not None else (0, 0)
        body(st)
        self.trys.pop()
        risky = self.lib.risky > nimp
        outs = []
        if orelse and st.live is not None:
            self.block(st, orelse)
        if st.live is not None:
            outs.append((st.fork(), None))
        caught = list(tf.caught)
        # an external operation inside the body may raise a builtin error
        if risky and pre.live is not None:
            for i, (types, _) in enumerate(handlers):
                if types is None or any(x.op == "ext" for x in types):
                    s = pre.fork()
                    x = mk("exc", self.uid())
                    s.assume(x)
                    for o, _ in outs:
                        o.live = o.live[:base] + (Not(x),) + o.live[base:]
                        o._lits = None
                    caught.append((i, s, mk("excobj", "builtins.Exception", ()), types[0] if types else mk("ext", "builtins.Exception")))
                    break
        for i, s, e, x in caught:
            handlers[i][1](s, e, x)
            if s.live is not None:
                outs.append((s, None))
        if not outs:
            st.kill()
        else:
            r, _ = merge_many(base, outs)
            st.take(r)
        if final:
            ended = []
            for lst, k in ((fr.returns, nret),) + ((() if ctl is None else ((ctl.breaks, nbr), (ctl.conts, nco)))):
                ended.append((lst, lst[k:]))
                del lst[k:]
            for lst, xs in ended:
                for s, v in xs:
                    if s.live is not None:
                        self.block(s, final)
                    if s.live is not None:
                        lst.append((s, v))
            if st.live is not None:
                self.block(st, final)
            else:
                if not any(xs for _, xs in ended):
                    s = pre.fork()
                    mark = len(fr.returns)
                    self.block(s, final)

    s_TryStar = s_Try

    def s_Global(self, st, n):
        self.frames[-1].globals.update(n.names)

    def s_Nonlocal(self, st, n):
        fr = self.frames[-1]
        fr.nonlocals.update(n.names)
        if not all(x in (fr.closure or ()) and fr.closure[x].op == "box" for x in n.names):
            self.note("nonlocal")

    def s_Import(self, st, n):
        for a in n.names:
            name = a.name
            if name in self.loader.mods or name in self.loader.packages:
                m = self.load(st, name) if name in self.loader.mods else mk("mod", name)
                top = name.split(".")[0]
                v = m if a.asname else mk("mod", top)
                self.assign(st, ast.Name(id=a.asname or top, ctx=ast.Store()), v)
            else:
                v = mk("ext", name if a.asname else name.split(".")[0])
                self.assign(st, ast.Name(id=a.asname or name.split(".")[0], ctx=ast.Store()), v)

    def s_ImportFrom(self, st, n):
        mod = n.module or ""
        if n.level:
            base = self.frames[-1].module
            parts = base.name.split(".")
            if not base.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        if any(a.name == "*" for a in n.names):
            if mod in self.loader.mods:
                self.load(st, mod)
                fields = st.heap[self.modcells["m:" + mod]].fields
                al = self.seqvals(st, fields["__all__"]) if "__all__" in fields else None
                for k in ([kv(x) for x in al] if al is not None else [k for k in fields if not k.startswith("_")]):
                    self.assign(st, ast.Name(id=k, ctx=ast.Store()), fields[k])
            elif mod in ("typing", "itertools", "functools", "collections", "enum", "dataclasses", "operator"):
                m = __import__(mod)
                for k in getattr(m, "__all__", None) or [k for k in dir(m) if not k.startswith("_")]:
                    self.assign(st, ast.Name(id=k, ctx=ast.Store()), self.lib.extattr(st, mk("ext", mod), k))
            else:
                self.note("import *")
            return
        for a in n.names:
            tgt = ast.Name(id=a.asname or a.name, ctx=ast.Store())
            if mod in self.loader.mods or mod in self.loader.packages:
                sub = mod + "." + a.name
                v = None
                if mod in self.loader.mods:
                    self.load(st, mod)
                    c = st.heap[self.modcells["m:" + mod]]
                    v = c.fields.get(a.name)
                if v is None and sub in self.loader.mods:
                    v = self.load(st, sub)
                elif v is None and sub in self.loader.packages:
                    v = mk("mod", sub)
                if v is None:
                    self.implicit(st, "ImportError", "cannot import %s from %s" % (a.name, mod), n)
                    return
                self.assign(st, tgt, v)
            else:
                self.assign(st, tgt, self.lib.extattr(st, mk("ext", mod), a.name))

    def load(self, st, name):
        m = self.loader.mods[name]
        key = "m:" + name
        if key not in self.modcells:
            # parents first
            if "." in name:
                p = name.rsplit(".", 1)[0]
                if p in self.loader.mods and ("m:" + p) not in self.modcells:
                    self.load(st, p)
            self.naddr += 1
            self.modcells[key] = self.naddr
            self.watch[self.naddr] = "module " + name
            st.heap[self.naddr] = OCell("module", {"__name__": K(name), "__file__": mk("sym", "file:" + name, "str:path")})
            fr = Frame(None, m, "module")
            self.frames.append(fr)
            self.envs.append(st.env)
            saved = st.env
            st.env = {}
            depth, self.depth = self.depth, 0
            self.block(st, m.tree.body)
            self.depth = depth
            self.frames.pop()
            self.envs.pop()
            st.env = saved
        return mk("mod", name)

    def mkfn(self, fi):
        i = len(self.fns) + 1
        self.fns[i] = fi
        return mk("fn", i)

    def decos(self, st, n):
        out = []
        for dn in n.decorator_list:
            x = dn.func if isinstance(dn, ast.Call) else dn
            name = x.attr if isinstance(x, ast.Attribute) else (x.id if isinstance(x, ast.Name) else "?")
            out.append(name)
        return out

    def s_FunctionDef(self, st, n):
        fr = self.frames[-1]
        cls = fr.cls if fr.kind == "class" else None
        fi = FuncInfo(n, fr.module, cls, n.name)
        if fr.kind == "func":
            fi.closure = dict(st.env)
            if fr.closure:
                for k, v in fr.closure.items():
                    fi.closure.setdefault(k, v)
        elif fr.kind == "class" and fr.closure:
            fi.closure = dict(fr.closure)
        fi.deco = self.decos(st, n)
        self.fn_defaults(st, fi, n.args)
        t = self.mkfn(fi)
        if fr.kind == "func" and not (n.name in fi.closure and fi.closure[n.name].op == "box"):
            fi.closure[n.name] = t
        if "setter" in fi.deco and n.name in st.env and st.env[n.name].op == "fn":
            self.fns[st.env[n.name].args[0]].setter = t
            return
        # unknown decorators are applied as calls
        v = t
        known = {"staticmethod", "classmethod", "property", "abstractmethod", "override", "wraps", "lru_cache",
                 "cache", "setter", "overload", "contextmanager", "cached_property", "final", "no_type_check"}
        if "cached_property" in fi.deco:
            fi.deco.append("property")
        for dn, name in reversed(list(zip(n.decorator_list, fi.deco))):
            if name not in known:
                f = self.ev(st, dn)
                if name == "register" and not isinstance(dn, ast.Call) and f.op == "bm" and self.fns[f.args[1].args[0]].module.name == "$std":
                    ar = [x for x in n.args.posonlyargs + n.args.args if x.annotation is not None]
                    ty = self.ev(st, ar[0].annotation) if ar else None
                    if isK(ty) if ty is not None else True:
                        self.note("register without a type")
                    else:
                        self.call(st, f, [ty, v], {}, n)
                    continue
                v = self.call(st, f, [v], {}, n)
        self.assign(st, ast.Name(id=n.name, ctx=ast.Store()), v)

    s_AsyncFunctionDef = s_FunctionDef

    def fn_defaults(self, st, fi, a):
        pos = [p.arg for p in a.posonlyargs + a.args]
        depth, self.depth = self.depth, 0
        for p, dn in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            v = self.ev(st, dn)
            fi.defaults[p] = v
            if v.op == "ref" and self.phase == "load":
                self.watch[v.args[0]] = "default of %s.%s" % (fi.qual, p)
        for p, dn in zip(a.kwonlyargs, a.kw_defaults):
            if dn is not None:
                fi.defaults[p.arg] = self.ev(st, dn)
        self.depth = depth

    def class_alloc(self, st, ci, cell):
        a = self.modcells.get("c:" + ci.key)
        if a is None:
            self.naddr += 1
            a = self.modcells["c:" + ci.key] = self.naddr
        st.heap[a] = self.cells0[a] = cell

    def register_class(self, ci):
        old = self.classes.get(ci.name)
        if old is not None and old.node is not ci.node:
            ci.key = ci.qual
            k = 1
            while ci.key in self.classes and self.classes[ci.key].node is not ci.node:
                k += 1
                ci.key = "%s~%d" % (ci.qual, k)
        self.classes[ci.key] = ci

    def s_ClassDef(self, st, n):
        fr = self.frames[-1]
        ci = ClassInfo(n.name, fr.module, n)
        for b in n.bases:
            v = self.ev(st, b)
            if v.op == "cls":
                ci.bases.append(self.classes[v.args[0]])
            elif v.op == "ext":
                ci.bases.append(v.args[0])
            else:
                ci.bases.append("?")
        for kw in n.keywords:
            pass
        ext = [b.split(".")[-1] for b in ci.ext_bases()]
        ci.is_enum = any(b in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag") for b in ext) or \
            any(isinstance(b, ClassInfo) and b.is_enum for b in ci.bases)
        ci.is_strenum = ci.is_enum and ("str" in ext or "StrEnum" in ext or "int" in ext or "IntEnum" in ext)
        ci.is_exc = any(b.endswith(("Exception", "Error", "Exit", "Warning")) for b in ext) or \
            any(isinstance(b, ClassInfo) and b.is_exc for b in ci.bases)
        ci.is_dataclass = "dataclass" in self.decos(st, n) or any(isinstance(b, ClassInfo) and b.is_dataclass for b in ci.bases)
        ci.is_namedtuple = "NamedTuple" in ext
        self.register_class(ci)
        outer = None
        if fr.kind == "func":
            outer = dict(fr.closure or {})
            outer.update(st.env)
        f2 = Frame(None, fr.module, "class", outer, ci)
        self.frames.append(f2)
        saved = st.env
        self.envs.append(saved)
        st.env = {}
        self.block(st, n.body)
        ns = st.env
        st.env = saved
        self.frames.pop()
        self.envs.pop()
        if ci.is_enum:
            auto = 0
            for k, v in list(ns.items()):
                if v.op != "fn" and not k.startswith("_"):
                    if v.op == "auto":
                        auto += 1
                        v = K(auto)
                    elif isK(v) and isinstance(kv(v), int):
                        auto = kv(v)
                    ns[k] = mk("enum", ci.key, k, ci.is_strenum, v)
            # mk("enum", class, name, is-str, value)
        if ci.is_dataclass or ci.is_namedtuple:
            flds = []
            for b in ci.bases:
                if isinstance(b, ClassInfo):
                    flds.extend(b.fields)
            for x in n.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) \
                        and "ClassVar" not in ast.dump(x.annotation):
                    v = ns.pop(x.target.id, None)
                    if v is not None and v.op == "dcfield":
                        fac = v.args[1]
                        v = (lambda s, fac=fac: self.call(s, fac, [], {})) if fac is not NONE else v.args[0]
                        if v is NONE and not _has_default(x.value):
                            v = None
                    flds = [f for f in flds if f[0] != x.target.id] + [(x.target.id, v)]
            ci.fields = flds
        self.class_alloc(st, ci, OCell("class", ns))
        for k, v in ns.items():
            if v.op == "ref" and self.phase == "load":
                self.watch[v.args[0]] = "class attribute %s.%s" % (ci.name, k)
        me = mk("cls", ci.key)
        if any(isinstance(b, ClassInfo) for b in ci.bases):
            for c in ci.mro()[1:]:
                f = self.class_cell(st, c).fields.get("__init_subclass__")
                if f is not None and f.op == "fn":
                    kw = {k.arg: self.ev(st, k.value) for k in n.keywords if k.arg and k.arg != "metaclass"}
                    self.call(st, mk("bm", me, f), [], kw, n)
                    break
        v = me
        for dn, name in reversed(list(zip(n.decorator_list, self.decos(st, n)))):
            if name == "total_ordering":
                std = self.std(st)
                cell = self.class_cell(st, ci)
                if "__lt__" in cell.fields and std is not None:
                    for k, f in (("__le__", "total_le"), ("__gt__", "total_gt"), ("__ge__", "total_ge")):
                        if k not in cell.fields:
                            cell = cell.set(k, std.fields[f])
                    self.class_alloc(st, ci, cell)
                else:
                    self.note("total_ordering")
            elif name not in ("dataclass", "final", "unique", "runtime_checkable", "verify"):
                v = self.call(st, self.ev(st, dn), [v], {}, n)
        self.assign(st, ast.Name(id=n.name, ctx=ast.Store()), v)

    def std(self, st):
        """The names of the library model."""
        if "m:$std" not in self.modcells:
            return None
        return st.heap.get(self.modcells["m:$std"])

    def s_Match(self, st, n):
        subj = self.ev(st, n.subject)
        if st.live is None:
            return
        self.match_cases(st, subj, n.cases, 0)

    def match_cases(self, st, subj, cases, i):
        if i >= len(cases) or st.live is None:
            return
        c = cases[i]
        binds = []
        cond = self.match_pat(st, subj, c.pattern, binds)

        def yes(s):
            for k, v in binds:
                self.assign(s, ast.Name(id=k, ctx=ast.Store()), v)
            if c.guard is not None:
                g = self.cond(s, c.guard)
                self.branch(s, g, lambda x: self.block(x, c.body), lambda x: self.match_cases(x, subj, cases, i + 1))
            else:
                self.block(s, c.body)
        self.branch(st, cond, yes, lambda s: self.match_cases(s, subj, cases, i + 1))

    def match_pat(self, st, subj, p, binds):
        if isinstance(p, ast.MatchValue):
            return self.dec(st, self.eq(st, subj, self.ev(st, p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.dec(st, self.eq(st, subj, K(p.value)))
        if isinstance(p, ast.MatchOr):
            return Or(*[self.match_pat(st, subj, x, binds) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.match_pat(st, subj, p.pattern, binds)
            if p.name:
                binds.append((p.name, subj))
            return c
        if isinstance(p, ast.MatchClass):
            cl = self.ev(st, p.cls)
            c = self.dec(st, self.lib.isinstance_(st, subj, cl))
            if c is FALSE or not p.patterns and not p.kwd_patterns:
                return c
            names = None
            if cl.op == "cls":
                ci = self.classes[cl.args[0]]
                k, v = self.class_find(st, ci, "__match_args__")
                if v is not None and v.op == "tup":
                    names = [kv(x) for x in v.args if isK(x)]
                elif ci.is_dataclass or ci.is_namedtuple:
                    names = [f for f, _ in ci.fields]
            elif len(p.patterns) == 1 and not p.kwd_patterns:
                return And(c, self.match_pat(st, subj, p.patterns[0], binds))
            if len(p.patterns) <= len(names or ()):
                out = [c]
                s = st.fork()
                if c is not TRUE:
                    s.assume(c)
                for nm, q in list(zip(names or (), p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                    x = self.getattr(s, subj, nm, p)
                    if s.live is None:
                        break
                    out.append(self.match_pat(s, x, q, binds))
                else:
                    return self.dec(st, And(*out))
        if isinstance(p, ast.MatchSequence):
            v = self.res(st, subj)
            if isK(v) or v.op in ("enum", "cls", "fn"):
                return FALSE
            xs = self.seqvals(st, v)
            if xs is None and v.op == "ref" and not (isinstance(self.cell(st, v), LCell) and self.cell(st, v).kind in ("list", "tuple")):
                return FALSE
            if xs is not None:
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                if not star:
                    if len(xs) != len(p.patterns):
                        return FALSE
                    return self.dec(st, And(*[self.match_pat(st, x, q, binds) for x, q in zip(xs, p.patterns)]))
                i = star[0]
                k = len(p.patterns) - i - 1
                if len(xs) < i + k:
                    return FALSE
                if p.patterns[i].name:
                    binds.append((p.patterns[i].name, self.newlist(st, tuple(("it", x) for x in xs[i:len(xs) - k]))))
                return self.dec(st, And(*[self.match_pat(st, x, q, binds) for x, q in
                                          list(zip(xs[:i], p.patterns[:i])) + list(zip(xs[len(xs) - k:], p.patterns[i + 1:]))]))
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            v = self.res(st, subj)
            c = self.cell(st, v) if v.op == "ref" else None
            if c is None and (isK(v) or v.op == "tup") or c is not None and not isinstance(c, DCell):
                return FALSE
            if isinstance(c, DCell):
                out = []
                for kn, q in zip(p.keys, p.patterns):
                    has, x = self.dict_lookup(st, c.ents, self.ev(st, kn))
                    has = self.dec(st, has)
                    if has is FALSE or x is None:
                        return FALSE
                    out += [has, self.match_pat(st, x, q, binds)]
                return self.dec(st, And(*out))
        self.note("match pattern")
        return mk("truthy", self.unk("match"))

    # ---------------------------------------------------------- expressions
    def cond(self, st, n):
        """Evaluate an expression as a condition."""
        v = self.ev(st, n)
        if st.live is None:
            return FALSE
        return self.truth(st, v)

    def ev(self, st, n):
        if st.live is None:
            return NONE
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note("expression not modelled: " + type(n).__name__)
            return self.unk(type(n).__name__)
        r = m(st, n)
        return r if r is not None else NONE

    def e_Constant(self, st, n):
        if n.value is Ellipsis:
            return mk("ext", "builtins.Ellipsis")
        return K(n.value)

    def e_Name(self, st, n):
        return self.name(st, n.id, n)

    def unbox(self, st, v, name, node):
        if v.op == "box":
            c = st.heap.get(v.args[0])
            if c is None or "v" not in c.fields:
                return self.implicit(st, "NameError", "%s is not bound" % name, node)
            v = c.fields["v"]
        return self.res(st, v)

    def name(self, st, name, node=None):
        v = st.env.get(name)
        if v is not None:
            fr = self.frames[-1]
            if name not in fr.globals:
                return self.unbox(st, v, name, node)
        fr = self.frames[-1]
        if fr.closure and name in fr.closure and name not in fr.globals:
            return self.unbox(st, fr.closure[name], name, node)
        c = st.heap.get(self.modcells.get("m:" + fr.module.name))
        if c is not None and name in c.fields:
            return self.res(st, c.fields[name])
        return self.lib.builtin(st, name, node)

    def e_NamedExpr(self, st, n):
        v = self.ev(st, n.value)
        self.assign(st, n.target, v)
        return v

    def e_Attribute(self, st, n):
        obj = self.ev(st, n.value)
        if st.live is None:
            return NONE
        return self.res(st, self.getattr(st, obj, n.attr, n)) if True else None

    def e_BoolOp(self, st, n):
        isand = isinstance(n.op, ast.And)
        return self.boolop(st, n.values, 0, isand)

    def boolop(self, st, vals, i, isand):
        v = self.ev(st, vals[i])
        if st.live is None or i == len(vals) - 1:
            return v
        c = self.truth(st, v)
        if st.live is None:
            return NONE
        short = FALSE if isand else TRUE

        def keep(s):
            # value of the operand that ended the evaluation
            if is_bool(v):
                return short
            return v
        nxt = lambda s: self.boolop(s, vals, i + 1, isand)
        if isand:
            return self.branch(st, c, nxt, keep)
        return self.branch(st, c, keep, nxt)

    def e_IfExp(self, st, n):
        c = self.cond(st, n.test)
        if st.live is None:
            return NONE
        return self.branch(st, c, lambda s: self.ev(s, n.body), lambda s: self.ev(s, n.orelse))

    def e_UnaryOp(self, st, n):
        if isinstance(n.op, ast.Not):
            c = self.cond(st, n.operand)
            return self.dec(st, Not(c)) if st.live is not None else NONE
        v = self.ev(st, n.operand)
        if isinstance(n.op, ast.USub):
            if isK(v):
                return K(-kv(v))
            return Sub(K(0), v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and isK(v):
            return K(~kv(v))
        return mk("inv", v)

    def e_BinOp(self, st, n):
        a = self.ev(st, n.left)
        b = self.ev(st, n.right)
        if st.live is None:
            return NONE
        return self.lib.binop(st, n.op, a, b, n)

    def e_Compare(self, st, n):
        left = self.ev(st, n.left)
        out = TRUE
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(st, rn)
            if st.live is None:
                return NONE
            c = self.compare(st, op, left, right, n)
            out = And(out, c)
            left = right
        return self.dec(st, out) if st.live is not None else NONE

    def compare(self, st, op, a, b, node):
        t = type(op)
        if t in (ast.Eq, ast.Is):
            return self.cmp2(st, a, b, lambda s, x, y: self.eq_is(s, x, y, t))
        if t in (ast.NotEq, ast.IsNot):
            return Not(self.cmp2(st, a, b, lambda s, x, y: self.eq_is(s, x, y, ast.Eq if t is ast.NotEq else ast.Is)))
        if t is ast.In:
            return self.contains(st, a, b)
        if t is ast.NotIn:
            return Not(self.contains(st, a, b))
        if t is ast.Lt:
            f = self.lt
        elif t is ast.Gt:
            f = lambda s, x, y: self.lt(s, y, x, True)
        elif t is ast.LtE:
            f = lambda s, x, y: self.le(s, x, y)
        else:
            f = lambda s, x, y: self.le(s, y, x, True)
        return self.cmp2(st, a, b, f)

    def cmp2(self, st, a, b, f):
        a, b = self.deep(st, a), self.deep(st, b)
        return self.dec(st, f(st, a, b))

    def eq_is(self, st, a, b, t):
        if t is ast.Is and a.op == "ref" and b.op == "ref":
            return B(a is b)
        if t is ast.Is:
            for x, y in ((a, b), (b, a)):
                if isK(y) and isinstance(kv(y), bool):
                    if isK(x):
                        return B(isinstance(kv(x), bool) and kv(x) == kv(y))
                    if kind(x) in ("int", "float", "num", "str", "list", "bytes") or x.op in ("ref", "tup", "cls", "enum"):
                        return FALSE
        return self.ite2(st, a, b, lambda x, y: self.eq(st, x, y))

    def ite2(self, st, a, b, f, n=0):
        if n < 12:
            if a.op == "ite" and any(x.op in ("ref", "tup", "cls", "enum") for x in a.args[1:]):
                return Ite(a.args[0], self.ite2(st, a.args[1], b, f, n + 1), self.ite2(st, a.args[2], b, f, n + 1))
            if b.op == "ite" and any(x.op in ("ref", "tup", "cls", "enum") for x in b.args[1:]):
                return Ite(b.args[0], self.ite2(st, a, b.args[1], f, n + 1), self.ite2(st, a, b.args[2], f, n + 1))
        return f(a, b)

    def setitems(self, st, t):
        if t.op == "ref":
            c = self.cell(st, t)
            if isinstance(c, LCell) and c.kind == "set":
                return c.items
        return None

    def seqvals(self, st, t):
        """The elements of a tuple or list of known length."""
        if t.op == "tup":
            return t.args
        if t.op == "ref":
            c = self.cell(st, t)
            if isinstance(c, LCell) and c.kind in ("list", "tuple") and all(s[0] == "it" for s in c.items):
                return tuple(s[1] for s in c.items)
            if isinstance(c, OCell) and isinstance(c.cls, ClassInfo) and c.cls.is_namedtuple:
                return tuple(c.fields.get(f, NONE) for f, _ in c.cls.fields)
        return None

    def ordered_by(self, st, a, b, names):
        """The comparison a user-defined class provides; None if it has none."""
        for x, y, m in ((a, b, names[0]), (b, a, names[1])):
            if x.op == "ref":
                c = self.cell(st, x)
                if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
                    k, v = self.class_find(st, c.cls, m)
                    if v is not None:
                        return self.truth(st, self.call(st, self.bind_method(x, c.cls, k, v, st), [y], {}))
        ca, cb = (self.cell(st, a) if a.op == "ref" else None), (self.cell(st, b) if b.op == "ref" else None)
        if isinstance(ca, OCell) and isinstance(cb, OCell) and ca.cls is cb.cls and isinstance(ca.cls, ClassInfo) \
                and ca.cls.is_dataclass and not ca.cls.is_namedtuple:
            x, y = [mk("tup", *[c.fields.get(f, NONE) for f, _ in c.cls.fields]) for c in (ca, cb)]
            return {"__lt__": self.lt, "__le__": self.le}[names[0]](st, x, y) if names[0] in ("__lt__", "__le__") else None
        return None

    def lt(self, st, a, b, gt=False):
        x, y = self.setitems(st, a), self.setitems(st, b)
        if x is not None and y is not None:
            return And(self.all_in(st, x, y), Not(self.all_in(st, y, x)))
        if a.op == "ref" or b.op == "ref":
            r = self.ordered_by(st, a, b, ("__lt__", "__gt__")) if not gt else self.ordered_by(st, b, a, ("__gt__", "__lt__"))
            if r is not None:
                return r
        x, y = self.seqvals(st, a), self.seqvals(st, b)
        if x is not None and y is not None:
            out = B(len(x) < len(y))
            for u, v in reversed(list(zip(x, y))):
                out = self.dec(st, Or(self.lt(st, u, v), And(self.eq(st, u, v), out)))
            return out
        return Lt(a, b)

    def le(self, st, a, b, ge=False):
        x, y = self.setitems(st, a), self.setitems(st, b)
        if x is not None and y is not None:
            return self.all_in(st, x, y)
        if a.op == "ref" or b.op == "ref":
            r = self.ordered_by(st, a, b, ("__le__", "__ge__")) if not ge else self.ordered_by(st, b, a, ("__ge__", "__le__"))
            if r is not None:
                return r
        return Not(self.lt(st, b, a))

    def e_Call(self, st, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            if fr.fi is not None and fr.fi.cls is not None:
                a = fr.fi.node.args
                selfname = (a.posonlyargs + a.args)[0].arg
                return mk("super", fr.fi.cls.key, self.unbox(st, st.env[selfname], selfname, n))
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], ast.GeneratorExp):
            v = self.quantify(st, n, n.func.id == "all")
            if v is not None:
                return v
        saved, self.lazyat = self.lazyat, None
        f = self.ev(st, n.func)
        args, kw = self.ev_args(st, n)
        if st.live is None:
            self.lazyat = saved
            return NONE
        self.lazyat = saved
        return self.call(st, f, args, kw, n)

    def ev_args(self, st, n):
        args = []
        kw = {}
        for a in n.args:
            if st.live is None:
                break
            if isinstance(a, ast.Starred):
                v = self.ev(st, a.value)
                args.append(("*", self.iter_items(st, v)))
            else:
                args.append(self.ev(st, a))
        for k in n.keywords:
            if st.live is None:
                break
            v = self.ev(st, k.value)
            if k.arg is None:
                c = self.cell(st, v)
                if isinstance(c, DCell):
                    for s in c.ents:
                        if s[0] == "kv" and isK(s[1]):
                            kw[kv(s[1])] = s[2]
            else:
                kw[k.arg] = v
        return args, kw

    def e_Lambda(self, st, n):
        fr = self.frames[-1]
        fi = FuncInfo(n, fr.module, fr.fi.cls if fr.fi else None, "<lambda>")
        if fr.kind == "func":
            fi.closure = dict(fr.closure or {})
            fi.closure.update(st.env)
        self.fn_defaults(st, fi, n.args)
        return self.mkfn(fi)

    def e_JoinedStr(self, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                parts.append(self.e_FormattedValue(st, v))
            if st.live is None:
                return NONE
        return Cat(*parts)

    def e_FormattedValue(self, st, n):
        v = self.ev(st, n.value)
        if st.live is None:
            return EMPTY
        spec = ""
        if n.format_spec is not None:
            s = self.ev(st, n.format_spec)
            if not isK(s):
                u = self.unk("format spec")
                ops.KIND[u] = "str"
                return u
            spec = kv(s)
        if n.conversion == 114:
            v = self.lib.repr_(st, v)
            return Fmt(v, spec) if spec else v
        if n.conversion == 115 or spec == "":
            v = self.lib.str_(st, v)
            return Fmt(v, spec) if spec else v
        return self.lib.format_(st, v, spec)

    def e_List(self, st, n):
        return self.seq(st, n.elts, "list")

    def e_Set(self, st, n):
        r = self.seq(st, n.elts, "set")
        if st.live is not None:
            c = self.cell(st, r)
            st.heap[r.args[0]] = LCell("set", self.dedupe(st, c.items))
        return r

    def e_Tuple(self, st, n):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.seq(st, n.elts, "tuple")
        vals = []
        for x in n.elts:
            vals.append(self.ev(st, x))
            if st.live is None:
                return NONE
        return mk("tup", *vals)

    def seq(self, st, elts, kind_):
        items = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(st, x.value)
                if st.live is None:
                    return NONE
                items.extend(self.iter_items(st, v))
            else:
                v = self.ev(st, x)
                if st.live is None:
                    return NONE
                items.append(("it", v))
        return self.newlist(st, items, kind_)

    def e_Dict(self, st, n):
        ents = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(st, v)
                c = self.cell(st, d)
                if isinstance(c, DCell):
                    ents.extend(c.ents)
                else:
                    ents.append(("dsp", d))
                continue
            kk = self.ev(st, k)
            vv = self.ev(st, v)
            if st.live is None:
                return NONE
            ents.append(("kv", kk, vv))
        return self.alloc(st, DCell("dict", ents))

    def comp(self, st, gens, i, emit):
        g = gens[i]
        it = self.ev(st, g.iter)
        if st.live is None:
            return
        items = self.iter_items(st, it, g.iter)
        if st.live is None:
            return

        def body(s, v, ctl):
            self.assign(s, g.target, v)
            self.comp_ifs(s, g.ifs, 0, lambda x: emit(x) if i + 1 == len(gens) else self.comp(x, gens, i + 1, emit))
        self.run_for(st, items, body)

    def comp_ifs(self, st, ifs, j, f):
        if st.live is None:
            return
        if j == len(ifs):
            f(st)
            return
        c = self.cond(st, ifs[j])
        if st.live is None:
            return
        self.branch(st, c, lambda s: self.comp_ifs(s, ifs, j + 1, f), lambda s: None)

    def compr(self, st, n, kind_, emit_value):
        r = self.newlist(st, (), kind_) if kind_ != "dict" else self.alloc(st, DCell())
        saved = dict(st.env)
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        hidden = any(k in saved and saved[k].op == "box" for k in names)
        if hidden:
            src = self.ev(st, n.generators[0].iter)
            if st.live is None:
                return NONE
            for k in names:
                if k in saved and saved[k].op == "box":
                    st.env.pop(k)
            st.env["$iter"] = src
            g0 = ast.copy_location(ast.comprehension(n.generators[0].target, ast.Name("$iter", ast.Load()),
                                                     n.generators[0].ifs, 0), n.generators[0].target)
            self.comp(st, [g0] + n.generators[1:], 0, lambda s: emit_value(s, r))
            st.env.pop("$iter", None)
        else:
            self.comp(st, n.generators, 0, lambda s: emit_value(s, r))
        if st.live is None:
            return NONE
        for k in names:
            if k in saved:
                st.env[k] = saved[k]
            else:
                st.env.pop(k, None)
        return r

    def _emit(self, n):
        def f(s, r):
            v = self.ev(s, n.elt)
            if s.live is None:
                return
            c = self.cell(s, r)
            s.heap[r.args[0]] = LCell(c.kind, c.items + (("it", v),))
        return f

    def e_ListComp(self, st, n):
        return self.compr(st, n, "list", self._emit(n))

    def e_GeneratorExp(self, st, n):
        return self.compr(st, n, "gen", self._emit(n))

    def e_SetComp(self, st, n):
        r = self.compr(st, n, "set", self._emit(n))
        if st.live is not None and r.op == "ref":
            c = self.cell(st, r)
            st.heap[r.args[0]] = LCell("set", self.dedupe(st, c.items))
        return r

    def e_DictComp(self, st, n):
        def f(s, r):
            k = self.ev(s, n.key)
            v = self.ev(s, n.value)
            if s.live is None:
                return
            c = self.cell(s, r)
            s.heap[r.args[0]] = DCell(c.kind, c.ents + (("kv", k, v),), c.default)
        return self.compr(st, n, "dict", f)

    synth = []         # keeps made syntax alive, as sites are told apart by identity

    def quantify(self, st, n, isall):
        """any/all over a generator expression with calls: stops at the first hit.  None: not applicable."""
        g = n.args[0]
        if len(g.generators) != 1 or not any(
                isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in PURE)
                and not (isinstance(x.func, ast.Attribute) and x.func.attr in PURE)
                for y in [g.elt] + g.generators[0].ifs for x in ast.walk(y)):
            return None
        r = renamed(g)
        if r is None:
            return None
        f = self.ev(st, n.func)
        if f.op != "ext" or f.args[0] != "builtins." + n.func.id:
            return None
        it = self.ev(st, r.generators[0].iter)
        if st.live is None:
            return NONE
        items = self.iter_items(st, it, n)
        if st.live is None:
            return NONE
        key = "$q:%d" % id(n)
        if key in st.env or not all(x[0] == "it" for x in items):
            # summarised: what is evaluated has no order
            st.env["$q"] = self.newlist(st, items)
            r2 = ast.copy_location(ast.GeneratorExp(r.elt, [ast.comprehension(
                r.generators[0].target, ast.copy_location(ast.Name("$q", ast.Load()), n), r.generators[0].ifs, 0)]), n)
            self.synth.append(r2)
            v = self.ev(st, r2)
            if st.live is None:
                return NONE
            st.env.pop("$q", None)
            return getattr(self.lib, "b_all" if isall else "b_any")(st, [v], {}, n)
        st.env[key] = TRUE if isall else FALSE

        def body(s, v, ctl):
            def test(s2):
                t = self.truth(s2, self.ev(s2, r.elt))
                if s2.live is None:
                    return

                def hit(s3):
                    s3.env[key] = FALSE if isall else TRUE
                    ctl.breaks.append((s3.fork(), None))
                    s3.kill()
                self.branch(s2, Not(t) if isall else t, hit, lambda s3: None)
            self.assign(s, r.generators[0].target, v)
            self.comp_ifs(s, r.generators[0].ifs, 0, test)
        self.run_for(st, items, body)
        if st.live is None:
            return NONE
        for k in [k for k in st.env if k.startswith("$g:")]:
            st.env.pop(k)
        return st.env.pop(key)

    def e_Yield(self, st, n):
        v = self.ev(st, n.value) if n.value is not None else NONE
        fr = self.frames[-1]
        if fr.hook is not None:
            if st.live is not None:
                fr.hook(st, v)
            return NONE
        if st.live is not None and fr.yields is not None:
            c = self.cell(st, fr.yields)
            st.heap[fr.yields.args[0]] = LCell(c.kind, c.items + (("it", v),))
        return NONE

    def e_YieldFrom(self, st, n):
        fr = self.frames[-1]
        if fr.hook is not None:
            loop = ast.copy_location(ast.For(ast.Name("$y", ast.Store()), n.value, [ast.copy_location(ast.Expr(
                ast.copy_location(ast.Yield(ast.Name("$y", ast.Load())), n)), n)], []), n)
            self.synth.append(loop)
            self.s_For(st, loop)
            if st.live is not None:
                st.env.pop("$y", None)
            return NONE
        v = self.ev(st, n.value)
        if st.live is not None and fr.yields is not None:
            c = self.cell(st, fr.yields)
            st.heap[fr.yields.args[0]] = LCell(c.kind, c.items + self.iter_items(st, v))
        return NONE

    def ev_index(self, st, n):
        if isinstance(n, ast.Slice):
            f = lambda x: self.ev(st, x) if x is not None else NONE
            return mk("slc", f(n.lower), f(n.upper), f(n.step))
        return self.ev(st, n)

    def e_Subscript(self, st, n):
        obj = self.ev(st, n.value)
        if st.live is None:
            return NONE
        # typing subscripts
        if obj.op == "ext" and obj.args[0].startswith(("typing.", "builtins.")):
            return obj
        k = self.ev_index(st, n.slice)
        if st.live is None:
            return NONE
        return self.res(st, self.lib.getitem(st, obj, k, n)) if st.live is not None else NONE

    def e_Starred(self, st, n):
        return self.ev(st, n.value)

    def e_Await(self, st, n):
        return self.ev(st, n.value)
