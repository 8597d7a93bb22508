"""Reading the abstract output of a run: which files, with which text, under
which remaining conditions."""
from .terms import (T, mk, K, NONE, TRUE, FALSE, EMPTY, isK, kv, B, Not, And, Or, Ite, Cat,
                    subterms, subst, is_bool, show, cat_parts)
from . import ops
from .ops import kind, Eq

UNKNOWN_OPS = {"unk", "car", "rec", "recout", "nondet"}


def has_unknown(t):
    for x in subterms(t):
        if x.op in UNKNOWN_OPS:
            return True
        if x.op == "call" and not known_call(x.args[0]) and not sorted_join(x):
            return True
        if x.op == "xm":
            return True
    return False


def sorted_join(x):
    """A text joined from a list of determined order."""
    return x.args[0] == "str.join" and all(
        s[0] == "it" or s[0] == "ord" and s[1] not in ("unordered", "insert", "mostcommon") and all(y[0] == "it" for y in s[2])
        for s in x.args[2])


def known_call(n):
    from .lib import KNOWN_CALLS
    return n in KNOWN_CALLS


def atoms(c, out):
    """Atoms of a boolean term."""
    if c is TRUE or c is FALSE:
        return out
    if c.op in ("not", "and", "or"):
        for x in c.args:
            atoms(x, out)
    elif c.op == "ite":
        for x in c.args:
            atoms(x, out)
    else:
        if c not in out:
            out.append(c)
    return out


def cond_atoms(t, out):
    """Atoms of the conditions of all choices in a term."""
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.op == "ite":
            atoms(x.args[0], out)
        if x.op in ("repstr", "exists", "cnt", "sumof", "first", "last"):
            return
        for y in x.args:
            walk(y)
    walk(t)
    return out


def assign(c, env):
    if c is TRUE or c is FALSE:
        return c
    v = env.get(c)
    if v is not None:
        return B(v)
    if c.op == "not":
        return Not(assign(c.args[0], env))
    if c.op == "and":
        return And(*[assign(x, env) for x in c.args])
    if c.op == "or":
        return Or(*[assign(x, env) for x in c.args])
    if c.op == "ite":
        return Ite(assign(c.args[0], env), assign(c.args[1], env), assign(c.args[2], env))
    return c


def resolve(t, env):
    def f(x):
        if x.op == "ite":
            k = assign(x.args[0], env)
            if k is TRUE:
                return subst(x.args[1], f)
            if k is FALSE:
                return subst(x.args[2], f)
        if is_bool(x) and x.op != "K":
            k = assign(x, env)
            if k is not x:
                return k
        return None
    return subst(t, f)


def consistent(env):
    """Theory consistency of an assignment of atoms: equalities of one term
    with different constants, order atoms against intervals and each other."""
    val = {}
    neq = {}
    lo, hi = {}, {}
    for a, v in env.items():
        if a.op == "eq":
            x, y = a.args
            if isK(x):
                x, y = y, x
            if isK(y):
                if v:
                    if x in val and val[x] != kv(y):
                        return False
                    val[x] = kv(y)
                else:
                    neq.setdefault(x, set()).add(kv(y))
        elif a.op == "lt":
            x, y = a.args
            if isK(y) and isinstance(kv(y), (int, float)):
                if v:
                    hi[x] = min(hi.get(x, (ops.INF, 1)), (kv(y), 0))
                else:
                    lo[x] = max(lo.get(x, (-ops.INF, 0)), (kv(y), 1))
            elif isK(x) and isinstance(kv(x), (int, float)):
                if v:
                    lo[y] = max(lo.get(y, (-ops.INF, 0)), (kv(x), 0))
                else:
                    hi[y] = min(hi.get(y, (ops.INF, 1)), (kv(x), 1))
            else:
                if v and env.get(mk("lt", y, x)):
                    return False
                if v and env.get(Eq(x, y)):
                    return False
        elif a.op == "contains" and v:
            if isK(a.args[0]):
                pass
        elif a.op == "isinst" and v:
            for b, w in env.items():
                if b is not a and w and b.op == "isinst" and b.args[0] is a.args[0] and b.args[1] != a.args[1] \
                        and {a.args[1], b.args[1]} <= {"str", "int", "float", "Sequence", "Choice", "Enumerated",
                                                       "SimpleDefinition"}:
                    return False
    for x, v in val.items():
        if v in neq.get(x, ()):
            return False
        if x in hi and isinstance(v, (int, float)) and (v, 1 - hi[x][1]) >= (hi[x][0], 1 - hi[x][1]) and \
                not (v < hi[x][0] or (hi[x][1] and v == hi[x][0])):
            return False
        if x in lo and isinstance(v, (int, float)) and not (v > lo[x][0] or (lo[x][1] and v == lo[x][0])):
            return False
    for x in lo:
        if x in hi:
            if lo[x][0] > hi[x][0]:
                return False
            if lo[x][0] == hi[x][0] and not (lo[x][1] and hi[x][1]):
                return False
            if kind(x) == "int":
                l = lo[x][0] if lo[x][1] else lo[x][0] + 1
                h = hi[x][0] if hi[x][1] else hi[x][0] - 1
                if l > h:
                    return False
    for x in set(lo) | set(hi):
        iv = ops.interval(x)
        if iv:
            if x in lo and (lo[x][0] > iv[1] or (lo[x][0] == iv[1] and not lo[x][1])):
                return False
            if x in hi and (hi[x][0] < iv[0] or (hi[x][0] == iv[0] and not hi[x][1])):
                return False
    return True


def envs(conds, ats, limit=2048, base=None):
    """Consistent assignments of atoms that do not falsify the conditions."""
    out = []

    def go(i, env, cs):
        if len(out) > limit:
            raise TooMany()
        cs = [assign(c, env) for c in cs] if i else cs
        if any(c is FALSE for c in cs):
            return
        cs = [c for c in cs if c is not TRUE]
        if i == len(ats):
            out.append(dict(env))
            return
        a = ats[i]
        # unit: the atom is forced
        for v in (True, False):
            if a in cs and not v:
                continue
            if Not(a) in cs and v:
                continue
            env[a] = v
            if consistent(env):
                go(i + 1, env, cs)
            del env[a]
    go(0, dict(base or {}), list(conds))
    return out


class TooMany(Exception):
    pass


def feasible(conds):
    """A consistent assignment satisfying the conditions, or None.  Atoms that
    the analysis does not understand make the answer 'unknown'."""
    ats = []
    for c in conds:
        atoms(c, ats)
    if len(ats) > 40:
        return "unknown", None
    try:
        es = envs(conds, ats, 4096)
    except TooMany:
        return "unknown", None
    if not es:
        return "no", None
    clean = [e for e in es if not any(has_unknown(a) for a in e)]
    if clean:
        return "yes", clean[0]
    # satisfiable only through conditions the analysis does not understand
    return "unknown", es[0]


def env_text(env):
    if not env:
        return "always"
    out = []
    for a, v in env.items():
        if a.op == "fsq":
            continue
        s = show(a)
        out.append((s if v else "not " + s)[:160])
    return " and ".join(out) if out else "always"


class Files:
    """The files of one case of a run."""

    def __init__(self, env, files, case):
        self.env = env
        self.files = files       # [(path term, mode, content term, event)]
        self.case = case


class Out:
    def __init__(self, r):
        self.r = r
        self.events = r.events
        self.writes = [e for e in r.events if (e.kind == "open" and is_write(e.data["mode"]))
                       or e.kind in ("mkdir", "fsop")]
        self.raises = [e for e in r.events if e.kind == "raise" and not e.caught and nonzero(e)]

    @property
    def live(self):
        return self.r.st.live

    def cases(self, limit=256):
        """Case split over the conditions that remain in the output."""
        fe = [e for e in self.events if e.kind == "file"]
        ats = []
        for e in fe:
            for c in e.live:
                atoms(c, ats)
            cond_atoms(e.data["content"], ats)
            cond_atoms(e.data["path"], ats)
        live = list(self.live or ())
        for c in live:
            atoms(c, ats)
        ats = [a for a in ats if a.op != "fsq"]
        es = envs(live, ats, limit)
        for env in es:
            fs = []
            for e in fe:
                g = assign(And(*e.live), env)
                g = drop_fsq(g)
                if g is FALSE:
                    continue
                fs.append((resolve(e.data["path"], env), e.data["mode"], resolve(e.data["content"], env), e))
            yield Files(env, fs, env_text(env))


def drop_fsq(g):
    ats = [a for a in atoms(g, []) if a.op == "fsq"]
    for v in (True, False):
        g2 = assign(g, {a: v for a in ats})
        if g2 is TRUE:
            return TRUE
    return g


def is_write(mode):
    return isinstance(mode, T) or any(c in mode for c in "wax+")


def nonzero(e):
    x = e.data["exc"]
    if x.op == "ext" and x.args[0] == "builtins.SystemExit":
        v = e.data["value"]
        if isinstance(v, T) and v.op == "tup":
            v = v.args[0] if v.args else NONE
        if isinstance(v, T) and isK(v) and kv(v) in (0, None, False):
            return False
    return True


# ---------------------------------------------------------------- rendering
class Text:
    """Text of a content term: constants literally, every symbolic piece as
    one private-use character."""
    BASE = 0xE000

    def __init__(self):
        self.of = {}
        self.terms = []

    def ph(self, t):
        if t not in self.of:
            self.of[t] = chr(self.BASE + len(self.terms))
            self.terms.append(t)
        return self.of[t]

    def term(self, ch):
        return self.terms[ord(ch) - self.BASE]

    def is_ph(self, ch):
        return self.BASE <= ord(ch) < self.BASE + len(self.terms)

    def render(self, t):
        out = []
        ps = cat_parts(t)
        for p in ps if ps is not None else [t]:
            if isK(p):
                v = kv(p)
                out.append(v if isinstance(v, str) else str(v))
            elif p.op == "fmt" and padded(p.args[1]) and kind(p.args[0]) == "str":
                out.append(self.render(p.args[0]))
            elif p.op == "str" and kind(p.args[0]) == "str":
                out.append(self.render(p.args[0]))
            else:
                out.append(self.ph(p))
        return "".join(out)

    def show(self, s):
        return "".join("<%s>" % show(self.term(c))[:80] if self.is_ph(c) else c for c in s)

    def unknown(self, s):
        return any(self.is_ph(c) and has_unknown(self.term(c)) for c in s)

    def name(self, t):
        """Expected text of a term."""
        return self.render(t)


def padded(spec):
    import re
    return bool(re.fullmatch(r"[ ]?[<>^]?\d+s?", spec))


def split_path(p):
    """(directory term, file name term) or None."""
    if p.op == "call" and p.args[0] == "os.path.join" and len(p.args) == 3:
        return p.args[1], p.args[2]
    if p.op == "cat":
        ps = list(p.args)
        for i, x in enumerate(ps):
            if isK(x) and isinstance(kv(x), str) and "/" in kv(x):
                a, b = kv(x).split("/", 1)
                if "/" in b:
                    return None
                d = Cat(*(ps[:i] + [K(a)]))
                return d, Cat(*([K(b)] + ps[i + 1:]))
    return None
