"""Models of the Python builtins, the standard library and cgen."""
import ast
import builtins as _bi
import math
import re
import string as _string
import sys

from .terms import (T, mk, K, NONE, TRUE, FALSE, EMPTY, isK, kv, B, Not, And, Or,
                    Ite, Cat, subterms, subst, is_bool, show, BOOL_OPS)
from . import ops
from .ops import (Eq, Lt, Le, Truth, Exists, Contains, kind, gkind, is_str, Add, Sub, Mul, Bor,
                  Shl, BitLen, StrOf, Fmt, RepStr, Replace, Upper, Lower, interval, binder, alphabet)
from .heap import LCell, DCell, OCell, FCell
from .loader import ClassInfo

BOOL_OPS.add("fsq")

EXC = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}
TYPES = {"str", "int", "float", "bool", "list", "dict", "set", "tuple", "frozenset", "bytes", "object", "type",
         "bytearray", "complex"}
NONDET = ("time.", "random.", "uuid.", "secrets.", "datetime.", "os.environ", "os.getenv", "os.getpid", "os.urandom",
          "os.listdir", "os.scandir", "os.getcwd", "glob.", "tempfile.", "getpass.", "socket.", "platform.", "os.uname",
          "os.stat", "os.path.getmtime", "os.path.getsize", "os.walk", "threading.get_ident", "locale.")
# external calls whose result is a function of their arguments that the rules know
KNOWN_CALLS = {"os.path.join", "str.replace", "str.upper", "str.lower", "struct.pack", "read", "str.split", "range",
               "os.path.dirname"}


class Lib:
    def __init__(self, I):
        self.I = I
        self.risky = 0
        self.cli = {}

    # ------------------------------------------------------------ helpers
    def flat(self, args):
        out = []
        for a in args:
            if isinstance(a, tuple):
                for s in a[1]:
                    if s[0] == "it":
                        out.append(s[1])
                    else:
                        out.append(mk("starred", (s,)))
            else:
                out.append(a)
        return out

    def nondet(self, name):
        return mk("nondet", name, self.I.uid())

    def items(self, st, v, node=None):
        """segments of a value"""
        return self.I.iter_items(st, v, node)

    def loop(self, st, items, f, kind_="list"):
        """list of f(st, v) over the items; f returns a tuple of values to emit"""
        I = self.I
        r = I.newlist(st, (), kind_)

        def body(s, v, ctl):
            out = f(s, v)
            if s.live is None:
                return
            c = s.heap[r.args[0]]
            s.heap[r.args[0]] = LCell(c.kind, c.items + tuple(("it", x) for x in out))
        I.run_for(st, items, body)
        return r

    def filter_items(self, st, items, pred):
        out = []
        for s in items:
            k = s[0]
            if k == "it":
                c = self.I.dec(st, pred(st, s[1]))
                if c is TRUE:
                    out.append(s)
                elif c is not FALSE:
                    out.append(("opt", c, (s,)))
            elif k == "sp":
                sh = self.I.shape(s[1])
                if sh is not None:
                    out.extend(self.filter_items(st, sh, pred))
                    continue
                b = binder(s[1], 60)
                c = self.I.dec_atom_deep(st, pred(st, b))
                if c is not FALSE:
                    out.append(("rep", s[1], 60, c, (("it", b),)))
            elif k == "opt":
                sub = self.filter_items(st, s[2], pred)
                if sub:
                    out.append(("opt", s[1], sub))
            elif k == "rep":
                sub = self.filter_items(st, s[4], pred)
                if len(sub) == 1 and sub[0][0] == "opt":
                    c = And(s[3], self.I.dec_atom_deep(st, sub[0][1]))
                    if c is not FALSE:
                        out.append(("rep", s[1], s[2], c, sub[0][2]))
                elif sub:
                    out.append(("rep", s[1], s[2], s[3], sub))
            elif k == "ord":
                sub = self.filter_items(st, s[2], pred)
                if sub:
                    out.append(("ord", s[1], sub) if self.I.nitems(sub) >= 2 else sub[0])
        return tuple(out)

    def count(self, st, items, x):
        I = self.I
        tot = K(0)
        for s in items:
            k = s[0]
            if k == "it":
                v = Ite(I.dec(st, I.eq(st, x, s[1])), K(1), K(0))
            elif k == "sp":
                sh = I.shape(s[1])
                if sh is not None:
                    v = self.count(st, sh, x)
                else:
                    d = 65
                    v = mk("cnt", s[1], d, I.dec_atom_deep(st, Eq(binder(s[1], d), x)))
                    if v.args[2] is FALSE:
                        v = K(0)
            elif k == "opt":
                c = I.dec(st, s[1])
                v = Ite(c, self.count(st, s[2], x), K(0)) if c is not FALSE else K(0)
            elif k == "rep":
                d = I.fresh_depth(x, s)
                seg = I.rename_seg(st, s, d)
                n = self.count(st, seg[4], x)
                if n is K(0):
                    v = n
                elif n.op == "ite" and n.args[1] is K(1) and n.args[2] is K(0):
                    c = I.dec_atom_deep(st, And(seg[3], n.args[0]))
                    v = mk("cnt", s[1], d, c) if c is not FALSE else K(0)
                elif n is K(1):
                    v = mk("cnt", s[1], d, seg[3])
                else:
                    v = mk("sumof", s[1], d, seg[3], n)
            elif k == "ord":
                v = self.count(st, s[2], x)
            tot = Add(tot, v)
        return tot

    def first_item(self, st, items):
        """(present condition, first element)"""
        I = self.I
        pres, val = FALSE, None
        for s in reversed(items):
            k = s[0]
            if k == "it":
                pres, val = TRUE, s[1]
            elif k == "opt":
                p, v = self.first_item(st, s[2])
                c = I.dec(st, And(s[1], p))
                if c is TRUE:
                    pres, val = TRUE, v
                elif c is not FALSE and v is not None:
                    val = Ite(c, v, val) if val is not None else v
                    pres = Or(c, pres)
            elif k == "sp":
                sh = I.shape(s[1])
                if sh is not None:
                    p, v = self.first_item(st, sh)
                else:
                    p = mk("nonempty", s[1])
                    v = mk("first", s[1], 66, TRUE, binder(s[1], 66))
                if v is not None:
                    val = Ite(p, v, val) if val is not None else v
                    pres = Or(p, pres)
            elif k == "rep":
                p, v = self.first_item(st, s[4])
                if v is None:
                    continue
                c = And(s[3], p)
                ex = I.dec(st, Exists(s[1], s[2], c))
                e = binder(s[1], s[2])
                w = I.instantiate(st, v, e, mk("first", s[1], s[2], c, e))
                if ex is TRUE:
                    pres, val = TRUE, w
                elif ex is not FALSE:
                    val = Ite(ex, w, val) if val is not None else w
                    pres = Or(ex, pres)
            elif k == "ord":
                p, v = self.first_item(st, s[2])
                if v is not None and I.nitems(s[2]) >= 2 and s[1] != "uniq":
                    v = mk("firstord", str(s[1]), s[2])
                if v is not None:
                    val = Ite(p, v, val) if val is not None and p is not TRUE else v
                    pres = Or(p, pres)
        return I.dec(st, pres), val

    def anyof(self, st, items, f):
        """exists element with f"""
        out = []
        for s in items:
            k = s[0]
            if k == "it":
                out.append(f(st, s[1]))
            elif k == "sp":
                sh = self.I.shape(s[1])
                if sh is not None:
                    out.append(self.anyof(st, sh, f))
                else:
                    out.append(self.I.dec(st, Exists(s[1], 67, f(st, binder(s[1], 67)))))
            elif k == "opt":
                out.append(And(s[1], self.anyof(st, s[2], f)))
            elif k == "rep":
                c = self.I.dec_atom_deep(st, And(s[3], self.anyof(st, s[4], f)))
                out.append(self.I.dec(st, Exists(s[1], s[2], c)))
            elif k == "ord":
                out.append(self.anyof(st, s[2], f))
        return self.I.dec(st, Or(*out))

    def sumof(self, st, items, start):
        tot = start
        for s in items:
            k = s[0]
            if k == "it":
                v = s[1]
            elif k == "opt":
                c = self.I.dec(st, s[1])
                v = Ite(c, self.sumof(st, s[2], K(0)), K(0)) if c is not FALSE else K(0)
            elif k == "sp":
                sh = self.I.shape(s[1])
                if sh is not None:
                    v = self.sumof(st, sh, K(0))
                else:
                    v = mk("sumof", s[1], 68, TRUE, binder(s[1], 68))
            elif k == "rep":
                x = self.sumof(st, s[4], K(0))
                if isK(x):
                    v = Mul(x, mk("cnt", s[1], s[2], s[3]))
                else:
                    v = mk("sumof", s[1], s[2], s[3], x)
            elif k == "ord":
                v = self.sumof(st, s[2], K(0))
            tot = Add(tot, self.num(v))
        return tot

    def num(self, v):
        if is_bool(v) and not isK(v):
            return Ite(v, K(1), K(0))
        if isK(v) and isinstance(kv(v), bool):
            return K(int(kv(v)))
        return v

    def join(self, st, sep, items):
        I = self.I
        if isK(sep) and kv(sep) in ("", b""):
            out = []
            for s in items:
                k = s[0]
                if k == "it":
                    out.append(s[1])
                elif k == "opt":
                    out.append(Ite(s[1], self.join(st, sep, s[2]), EMPTY))
                elif k == "rep":
                    out.append(RepStr(s[1], s[2], s[3], self.join(st, sep, s[4])))
                elif k == "sp":
                    sh = I.shape(s[1])
                    if sh is not None:
                        out.append(self.join(st, sep, sh))
                    else:
                        out.append(RepStr(s[1], 69, TRUE, binder(s[1], 69)))
                elif k == "ord":
                    out.append(mk("ordstr", s[1], self.join(st, sep, s[2])))
            return Cat(*[self.tostr(x) for x in out])
        segs = []
        for s in items:
            if s[0] == "sp":
                sh = I.shape(s[1])
                if sh is not None:
                    segs.extend(sh)
                    continue
            if s[0] == "opt":
                c = I.dec(st, s[1])
                if c is FALSE:
                    continue
                if c is TRUE:
                    segs.extend(s[2])
                    continue
            segs.append(s)
        if all(s[0] == "it" for s in segs):
            out = []
            for i, s in enumerate(segs):
                if i:
                    out.append(sep)
                out.append(s[1])
            return Cat(*[self.tostr(x) for x in out]) if out else EMPTY
        if all(s[0] in ("it", "opt") for s in segs):
            # Horner style: text so far, whether anything was emitted
            text, some = EMPTY, FALSE
            for s in segs:
                if s[0] == "it":
                    text = Cat(text, Ite(some, sep, EMPTY), self.tostr(s[1]))
                    some = TRUE
                else:
                    sub = self.join(st, sep, s[2])
                    ne = And(s[1], I.items_nonempty(st, s[2]))
                    text = Cat(text, Ite(ne, Cat(Ite(some, sep, EMPTY), sub), EMPTY))
                    some = Or(some, ne)
            return text
        if any(s[0] == "ord" and s[1] == "unordered" for s in segs):
            return mk("ordstr", "unordered", mk("call", "str.join", sep, tuple(segs)))
        return mk("call", "str.join", sep, tuple(segs))

    def tostr(self, x):
        return x

    # --------------------------------------------------------------- names
    def builtin(self, st, name, node):
        if name in ("True", "False", "None"):
            return K({"True": True, "False": False, "None": None}[name])
        if name == "NotImplemented" or name == "Ellipsis":
            return mk("ext", "builtins." + name)
        if hasattr(_bi, name):
            return mk("ext", "builtins." + name)
        if name in ("__name__", "__file__", "__doc__", "__package__"):
            return mk("sym", name, "str")
        self.I.implicit(st, "NameError", "name %s is not defined" % name, node)
        return NONE

    def extconst(self, d):
        if d in CONSTS:
            return CONSTS[d]
        if any(d == n or (n.endswith(".") and d.startswith(n)) for n in ("os.environ",)):
            return self.nondet(d)
        return mk("ext", d)

    def extattr(self, st, obj, name):
        d = obj.args[0] + "." + name
        if d in self.I.ext_patch:
            return self.I.ext_patch[d]
        if d in STD:
            c = self.I.std(st)
            if c is not None and STD[d] in c.fields:
                return c.fields[STD[d]]
        return self.extconst(d)

    # ----------------------------------------------------------- ext calls
    def call_ext(self, st, name, args, kw, node):
        if name.startswith("builtins."):
            b = name[9:]
            if b in EXC:
                return mk("excobj", name, *[a for a in self.flat(args) if isinstance(a, T)])
            f = getattr(self, "b_" + b, None)
            if f is not None:
                return f(st, self.flat(args) if b not in ("print", "zip") else args, kw, node)
            if b.count(".") == 1 and b not in ("dict.fromkeys", "int.from_bytes", "str.maketrans", "bytes.fromhex", "float.fromhex") \
                    and name not in EXT and args and hasattr(__import__("builtins"), b.split(".")[0]) and not b.endswith("__"):
                fl = self.flat(args)
                return self.I.call(st, self.I.getattr(st, fl[0], b.split(".")[1], node), fl[1:], kw, node)
            if b == "int.from_bytes" and all(isK(x) for x in args) and not kw:
                return K(int.from_bytes(*[kv(x) for x in args]))
        if name in STD and self.I.std(st) is not None:
            return self.I.call(st, self.I.std(st).fields[STD[name]], args, kw, node)
        if name.startswith("textx"):
            return self.I.tx.call(st, name, self.flat(args), kw, node)
        if name.startswith("cgen."):
            return self.cgen(st, name[5:], self.flat(args), kw, node)
        args = self.flat(args)
        f = EXT.get(name)
        if f is not None:
            return f(self, st, args, kw, node)
        if name.startswith("logging.") or name.startswith("warnings.") or name.startswith("typing.") \
                or name.startswith("argparse."):
            return mk("ext", name + "()")
        if name in self.I_exc():
            return mk("excobj", name, *args)
        if any(name == n or name.startswith(n) for n in NONDET):
            return self.nondet(name)
        if all(isK(a) for a in args) and not kw and name.startswith("math."):
            try:
                return K(getattr(math, name[5:])(*[kv(a) for a in args]))
            except Exception as e:
                return self.I.implicit(st, type(e).__name__, str(e), node)
        if name.startswith("os.") or name.startswith("shutil.") or name.startswith("subprocess."):
            self.I.event(st, "fsop", node, name=name, args=tuple(args))
        self.I.note("external call %s" % name)
        return mk("call", name, *args)

    def I_exc(self):
        from .interp import EXT_EXC_BASES
        return EXT_EXC_BASES

    # builtins -------------------------------------------------------------
    def b_len(self, st, a, kw, node):
        def f(s, v):
            I = self.I
            if v.op == "ref":
                c = I.cell(s, v)
                if isinstance(c, LCell):
                    return I.items_len(s, c.items, c.kind == "set")
                if isinstance(c, DCell):
                    return I.items_len(s, I.dict_keys(c.ents))
                if isinstance(c, OCell):
                    if c.cls == "Counter":
                        return I.items_len(s, I.dedupe(s, c.fields["#items"]))
                    if isinstance(c.cls, ClassInfo):
                        k, m = I.class_find(s, c.cls, "__len__")
                        if m is not None:
                            return I.call(s, I.bind_method(v, c.cls, k, m, s), [], {}, node)
            if isK(v):
                if isinstance(kv(v), (str, bytes)):
                    return K(len(kv(v)))
                return I.implicit(s, "TypeError", "len() of %r" % (kv(v),), node)
            if v.op == "tup":
                return K(len(v.args))
            if v.op == "cls":
                return I.items_len(s, I.iter_items(s, v))
            sh = I.shape(v)
            if sh is not None:
                return I.items_len(s, sh)
            if kind(v) == "list":
                return mk("cnt", v, 0, TRUE)
            return mk("len", v)
        return self.I.split(st, a[0], f)

    def b_sum(self, st, a, kw, node):
        start = a[1] if len(a) > 1 else kw.get("start", K(0))
        its = self.items(st, a[0], node)
        if start.op == "ref":
            I = self.I
            c = I.cell(st, start)
            r = I.newlist(st, c.items if isinstance(c, LCell) else ())

            def body(s, v, ctl):
                sub = I.iter_items(s, v, node)
                c = s.heap[r.args[0]]
                s.heap[r.args[0]] = LCell(c.kind, c.items + sub)
            I.run_for(st, its, body)
            return r
        return self.sumof(st, its, start)

    def b_any(self, st, a, kw, node):
        its = self.items(st, a[0], node)
        return self.anyof(st, its, lambda s, v: self.I.truth(s, v))

    def b_all(self, st, a, kw, node):
        its = self.items(st, a[0], node)
        return Not(self.anyof(st, its, lambda s, v: Not(self.I.truth(s, v))))

    def b_sorted(self, st, a, kw, node):
        its = self.items(st, a[0], node)
        return self.I.newlist(st, self.sort_items(st, its, kw, node))

    def sort_items(self, st, its, kw, node):
        I = self.I
        rev = I.truth(st, kw["reverse"]) if "reverse" in kw else FALSE
        key = kw.get("key")
        if key is not None and key is not NONE and not isK(key):
            pass
        else:
            key = None
        flat = self.flatten_ord(its)
        if all(s[0] == "it" for s in flat) and rev in (TRUE, FALSE):
            keys = []
            for s in flat:
                v = s[1] if key is None else I.call(st, key, [s[1]], {}, node)
                keys.append(self.constkey(st, v))
            if any(k is None for k in keys) and 1 < len(flat) <= 12 and its == flat:
                r = self.insertion(st, flat, key, rev is TRUE, node)
                if r is not None:
                    return r
            if all(k is not None for k in keys):
                try:
                    idx = sorted(range(len(flat)), key=lambda i: keys[i], reverse=rev is TRUE)
                    # ties keep the input order: only defined if the input was ordered
                    tie = len(set(map(repr, keys))) < len(keys) and its != flat and key is not None
                    res = tuple(flat[i] for i in idx)
                    return (("ord", "unordered", res),) if tie else res
                except TypeError:
                    I.implicit(st, "TypeError", "unorderable", node)
                    return ()
        if len(flat) <= 1 and I.nitems(flat) < 2:
            return flat
        if key is None:
            if all(s[0] == "it" for s in flat):
                flat = tuple(sorted(flat, key=lambda s: s[1].uid))
            return (("ord", "sorted" if rev is FALSE else "rsorted", flat),)
        return (("ord", "sortedkey" if its == flat else "unordered", flat),)

    def insertion(self, st, flat, key, rev, node):
        """Stable sort by decided comparisons; None if one is open."""
        I = self.I
        ks = [s[1] if key is None else I.call(st, key, [s[1]], {}, node) for s in flat]
        if not any(k.op in ("ref", "tup") for k in ks):
            return None
        out = []
        for i in range(len(flat)):
            j = len(out)
            while j:
                a, b = (ks[i], ks[out[j - 1]]) if not rev else (ks[out[j - 1]], ks[i])
                c = I.dec(st, I.lt(st, I.deep(st, a), I.deep(st, b)))
                if c is FALSE:
                    break
                if c is not TRUE:
                    return None
                j -= 1
            out.insert(j, i)
        return tuple(flat[i] for i in out)

    def flatten_ord(self, its):
        out = []
        for s in its:
            if s[0] == "ord":
                out.extend(self.flatten_ord(s[2]))
            else:
                out.append(s)
        return tuple(out)

    def constkey(self, st, v):
        if isK(v):
            return kv(v)
        if v.op == "tup":
            ks = [self.constkey(st, x) for x in v.args]
            return tuple(ks) if all(k is not None for k in ks) else None
        if v.op == "ref":
            c = self.I.cell(st, v)
            if isinstance(c, LCell) and c.kind == "tuple" and all(s[0] == "it" for s in c.items):
                ks = [self.constkey(st, s[1]) for s in c.items]
                return tuple(ks) if all(k is not None for k in ks) else None
        if v.op == "enum" and v.args[2]:
            return kv(v.args[3])
        return None

    def b_reversed(self, st, a, kw, node):
        its = self.items(st, a[0], node)
        return self.I.newlist(st, self.reverse(its))

    def reverse(self, its):
        if all(s[0] in ("it", "opt") for s in its):
            return tuple(s if s[0] == "it" else ("opt", s[1], self.reverse(s[2])) for s in reversed(its))
        return tuple(("ord", "rev", (s,)) if s[0] in ("sp", "rep") else s for s in reversed(its))

    def b_set(self, st, a, kw, node):
        its = self.items(st, a[0], node) if a else ()
        if len(its) == 1 and its[0][0] == "ord" and its[0][1] == "unordered":
            its = its[0][2]
        its = self.flatten_ord(its)
        return self.I.newlist(st, self.I.dedupe(st, its), "set")

    b_frozenset = b_set

    def b_list(self, st, a, kw, node):
        return self.I.newlist(st, self.items(st, a[0], node) if a else ())

    def b_tuple(self, st, a, kw, node):
        return self.I.newlist(st, self.items(st, a[0], node) if a else (), "tuple")

    def b_iter(self, st, a, kw, node):
        if len(a) == 1:
            c = self.I.cell(st, a[0])
            if isinstance(c, LCell) and c.kind == "gen":
                return a[0]
            if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
                k, m = self.I.class_find(st, c.cls, "__iter__")
                if m is not None:
                    r = self.I.call(st, self.I.bind_method(a[0], c.cls, k, m, st), [], {}, node)
                    if r is a[0]:
                        return r
                    return self.b_iter(st, [r], kw, node)
            return self.I.newlist(st, self.items(st, a[0], node), "gen")
        if len(a) == 2:
            return self.stdcall(st, "iter_sentinel", a, node)
        return self.I.unk("iter")

    def stdcall(self, st, name, a, node):
        return self.I.call(st, self.I.std(st).fields[name], list(a), {}, node)

    def infinite(self, st, t):
        c = self.I.cell(st, t) if t.op == "ref" else None
        return isinstance(c, OCell) and isinstance(c.cls, ClassInfo) and c.cls.module.name == "$std" \
            and c.cls.name in ("Count", "Repeat", "Cycle")

    def b_dict(self, st, a, kw, node, kind_="dict", default=None):
        I = self.I
        r = I.alloc(st, DCell(kind_, (), default))
        if a:
            self.dict_update(st, r, a[0], node)
        c = I.cell(st, r)
        if isinstance(c, DCell):
            st.heap[r.args[0]] = DCell(kind_, c.ents + tuple(("kv", K(k), v) for k, v in kw.items()), default)
        return r

    def dict_update(self, st, r, src, node):
        I = self.I

        def f(s, v):
            c = I.cell(s, r)
            sc = I.cell(s, v)
            if isinstance(sc, DCell):
                ents = c.ents
                for e in sc.ents:
                    ents = self.put_ent(s, ents, e)
                I.setcell(s, r.args[0], c.with_ents(ents), "update", node)
                return NONE
            if isinstance(sc, OCell) and sc.cls == "Counter":
                v = self.call_method(s, v, "items", [], {}, node)
            its = I.iter_items(s, v, node)

            def body(s2, p, ctl):
                k = self.getitem(s2, p, K(0), node)
                x = self.getitem(s2, p, K(1), node)
                if s2.live is None:
                    return
                c2 = I.cell(s2, r)
                s2.heap[r.args[0]] = c2.with_ents(self.put_ent(s2, c2.ents, ("kv", k, x)))
            I.run_for(s, its, body)
            return NONE
        I.split(st, src, f)

    def put_ent(self, st, ents, e):
        """append an entry; an earlier entry of the very same key keeps its place"""
        if e[0] == "kv":
            for i, x in enumerate(ents):
                if x[0] == "kv" and x[1] is e[1]:
                    # nothing in between may alias
                    if all(y[0] == "kv" and self.I.dec(st, self.I.eq(st, y[1], e[1])) is FALSE for y in ents[i + 1:]):
                        return ents[:i] + (e,) + ents[i + 1:]
        return ents + (e,)

    def b_enumerate(self, st, a, kw, node):
        start = a[1] if len(a) > 1 else kw.get("start", K(0))
        its = self.items(st, a[0], node)
        r = self.I.newlist(st, self.enum_items(st, its, start)[0], "gen")
        if a[0].op == "ref" and isinstance(self.I.cell(st, a[0]), LCell) and self.I.cell(st, a[0]).kind == "list":
            self.I.enumsrc[r.args[0]] = (a[0].args[0], start)
        return r

    def opget(self, st, f, args, node):
        I = self.I
        what, arg = f.args[0], f.args[1]
        if what in ("attr", "item") and len(f.args) > 2:
            return mk("tup", *[self.opget(st, mk("opget", what, x), args, node) for x in f.args[1:]])
        if what == "attr":
            v = args[0]
            for nm in kv(arg).split("."):
                v = I.getattr(st, v, nm, node)
            return v
        if what == "item":
            return self.getitem(st, args[0], arg, node)
        return I.call(st, I.getattr(st, args[0], kv(arg), node), list(f.args[2:]), {}, node)

    def enum_items(self, st, its, n):
        I = self.I
        out = []
        for s in its:
            k = s[0]
            if k == "it":
                out.append(("it", mk("tup", n, s[1])))
                n = Add(n, K(1))
            elif k == "sp":
                sh = I.shape(s[1])
                if sh is not None:
                    sub, n = self.enum_items(st, sh, n)
                    out.extend(sub)
                    continue
                e = binder(s[1], 75)
                out.append(("rep", s[1], 75, TRUE, (("it", mk("tup", Add(n, mk("idx", s[1], 75)), e)),)))
                n = Add(n, mk("cnt", s[1], 0, TRUE))
            elif k == "opt":
                c = I.dec(st, s[1])
                if c is FALSE:
                    continue
                sub, n2 = self.enum_items(st, s[2], n)
                if c is TRUE:
                    out.extend(sub)
                    n = n2
                else:
                    out.append(("opt", c, sub))
                    n = Ite(c, n2, n)
            elif k == "rep":
                inner, one = self.enum_items(st, s[4], Add(n, mk("idx", s[1], s[2], s[3])))
                if I.nitems(s[4]) != 1:
                    inner = tuple(("it", mk("tup", I.unk("index"), x[1])) for x in s[4] if x[0] == "it")
                out.append(("rep", s[1], s[2], s[3], inner))
                n = Add(n, mk("cnt", s[1], s[2], s[3]))
            elif k == "ord":
                sub, n2 = self.enum_items(st, s[2], n)
                out.append(("ord", s[1], sub) if s[1] == "uniq" else ("ord", "enum", tuple(
                    ("it", mk("tup", I.unk("index"), x[1].args[1])) if x[0] == "it" else x for x in sub)))
                if s[1] == "unordered":
                    out[-1] = ("ord", "unordered", out[-1][2])
                n = n2
        return tuple(out), n

    def b_zip(self, st, args, kw, node):
        args = self.flat(args)
        if len(args) == 2 and self.infinite(st, args[0]) != self.infinite(st, args[1]):
            return self.stdcall(st, "zip_count_first" if self.infinite(st, args[0]) else "zip_count_last", args, node)
        if any(self.infinite(st, a) for a in args):
            self.I.note("zip of endless iterators")
            return self.I.unk("zip")
        if len(set(args)) < len(args) and any(self.isgen(st, a) for a in args):
            # one iterator several times: its elements are dealt out in turn
            its = self.items(st, args[0], node)
            n = len(args)
            if len(set(args)) == 1 and all(x[0] == "it" for x in its):
                return self.I.newlist(st, tuple(("it", mk("tup", *[x[1] for x in its[i:i + n]]))
                                                for i in range(0, len(its) - len(its) % n, n)), "gen")
            self.I.note("zip of one iterator")
            return self.I.unk("zip")
        ls = [self.items(st, a, node) for a in args]
        return self.I.newlist(st, self.zip_items(st, ls), "gen")

    def zip_items(self, st, ls):
        if all(all(s[0] == "it" for s in l) for l in ls) and ls:
            n = min(len(l) for l in ls)
            return tuple(("it", mk("tup", *[l[i][1] for l in ls])) for i in range(n))
        # zip(xs, xs[1:]) and friends are left opaque
        return (("sp", mk("call", "zip", *[mk("items", l) for l in ls])),)

    def b_map(self, st, a, kw, node):
        its = self.items(st, a[1], node)
        if len(a) > 2:
            z = self.zip_items(st, [self.items(st, x, node) for x in a[1:]])
            return self.loop(st, z, lambda s, v: (self.I.call(s, a[0], list(v.args) if v.op == "tup" else [v], {}, node),), "gen")
        return self.loop(st, its, lambda s, v: (self.I.call(s, a[0], [v], {}, node),), "gen")

    def b_filter(self, st, a, kw, node):
        I = self.I
        its = self.items(st, a[1], node)
        r = I.newlist(st, (), "gen")

        def body(s, v, ctl):
            t = v if a[0] is NONE else I.call(s, a[0], [v], {}, node)
            if s.live is None:
                return
            c = I.truth(s, t)

            def add(s2):
                x = s2.heap[r.args[0]]
                s2.heap[r.args[0]] = LCell(x.kind, x.items + (("it", v),))
            I.branch(s, c, add, lambda s2: None)
        I.run_for(st, its, body)
        return r

    def isgen(self, st, t):
        c = self.I.cell(st, t) if t.op == "ref" else None
        return isinstance(c, LCell) and c.kind == "gen"

    def b_next(self, st, a, kw, node):
        I = self.I
        c = I.cell(st, a[0])
        if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
            k, m = I.class_find(st, c.cls, "__next__")
            if m is not None:
                f = I.bind_method(a[0], c.cls, k, m, st)
                if len(a) == 1:
                    return I.call(st, f, [], {}, node)
                key = "$next%d" % I.uid()

                def body(s):
                    v = I.call(s, f, [], {}, node)
                    if s.live is not None:
                        s.env[key] = v

                def none(s, e, x):
                    s.env[key] = a[1]
                I.try_(st, body, [([mk("ext", "builtins.StopIteration")], none)], None, None)
                return st.env.pop(key) if st.live is not None else NONE
        its = c.items if self.isgen(st, a[0]) else self.items(st, a[0], node)
        p, v = self.first_item(st, its)
        if isinstance(c, LCell) and c.kind == "gen" and its and its[0][0] == "it":
            st.heap[a[0].args[0]] = LCell("gen", c.items[1:])
        if len(a) > 1:
            if p is FALSE or v is None:
                return a[1]
            return Ite(p, v, a[1])
        if p is FALSE or v is None:
            self.risky += 1
            return I.implicit(st, "StopIteration", "empty", node)
        if I.dec(st, p) is not TRUE:
            self.risky += 1

        def bad(s):
            return I.implicit(s, "StopIteration", "empty", node)
        return I.branch(st, p, lambda s: v, bad)

    def b_range(self, st, a, kw, node):
        if all(isK(x) and isinstance(kv(x), int) for x in a):
            r = range(*[int(kv(x)) for x in a])
            if len(r) <= 400:
                return self.I.newlist(st, tuple(("it", K(i)) for i in r), "range")
        if len(a) == 2 and a[0] is K(0):
            a = a[1:]
        return mk("call", "range", *a)

    def minmax(self, st, a, kw, node, which):
        I = self.I
        if len(a) == 1:
            its = self.flatten_ord(self.items(st, a[0], node))
        else:
            its = tuple(("it", x) for x in a)
        if "key" in kw and kw["key"] is not NONE:
            srt = self.sort_items(st, its, {"key": kw["key"]}, node)
            if srt and all(s[0] == "it" for s in srt):
                return (srt[0] if which == "min" else srt[-1])[1]
            return I.unk(which)
        if not its:
            if "default" in kw:
                return kw["default"]
            return I.implicit(st, "ValueError", which + "() of empty", node)
        if all(s[0] == "it" for s in its):
            vs = [self.num(s[1]) for s in its]
            out = vs[0]
            for v in vs[1:]:
                c = I.dec(st, I.lt(st, out, v) if which == "max" else I.lt(st, v, out))
                if c is TRUE:
                    out = v
                elif c is not FALSE:
                    if all(isK(x) for x in vs):
                        out = K((max if which == "max" else min)(kv(x) for x in vs))
                        break
                    out = Ite(c, v, out)
            return out
        return mk(which, its)

    def b_max(self, st, a, kw, node):
        return self.minmax(st, a, kw, node, "max")

    def b_min(self, st, a, kw, node):
        return self.minmax(st, a, kw, node, "min")

    def b_isinstance(self, st, a, kw, node):
        return self.I.dec(st, self.isinstance_(st, a[0], a[1]))

    def isinstance_(self, st, v, cls):
        I = self.I
        if cls.op == "tup":
            return Or(*[self.isinstance_(st, v, c) for c in cls.args])
        if cls.op == "ref":
            c = I.cell(st, cls)
            if isinstance(c, LCell):
                return Or(*[self.isinstance_(st, v, s[1]) for s in c.items if s[0] == "it"])
        if cls.op == "bor" or cls.op == "union":
            return Or(*[self.isinstance_(st, v, c) for c in cls.args])
        return I.split(st, v, lambda s, x: self.isinst1(s, x, cls))

    def isinst1(self, st, v, cls):
        I = self.I
        if cls.op == "cls":
            ci = I.classes[cls.args[0]]
            if v.op == "ref":
                c = I.cell(st, v)
                return B(isinstance(c, OCell) and isinstance(c.cls, ClassInfo) and c.cls.subclass_of(ci))
            if v.op == "enum":
                return B(I.classes[v.args[0]].subclass_of(ci))
            g = gkind(v)
            if kind(v) == "obj" and g.startswith("obj:"):
                return I.dec(st, mk("isinst", v, ci.name))
            if g.startswith("any:"):
                return I.dec(st, mk("isinst", v, ci.name))
            if v.op == "unk" or kind(v) == "?":
                return I.dec(st, mk("isinst", v, ci.name))
            return FALSE
        n = cls.args[0].replace("builtins.", "") if cls.op == "ext" else None
        if n is None:
            if cls is NONE:
                return B(v is NONE)
            return mk("isinst", v, show(cls))
        n = {"typing.List": "list", "typing.Dict": "dict", "numbers.Number": "number", "numbers.Real": "number",
             "numbers.Integral": "int", "collections.abc.Mapping": "dict", "collections.abc.Sequence": "list",
             "collections.abc.Iterable": "list", "types.NoneType": "none", "NoneType": "none"}.get(n, n)
        if n == "object":
            return TRUE
        k = kind(v)
        if v.op == "ref":
            c = I.cell(st, v)
            if isinstance(c, LCell):
                return B(c.kind == n)
            if isinstance(c, DCell):
                return B(n == "dict")
            if isinstance(c, OCell) and isinstance(c.cls, str):
                return B(c.cls == n or c.cls.split(".")[-1] == n.split(".")[-1])
            if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
                return B(any(b.split(".")[-1] == n.split(".")[-1] for b in c.cls.ext_bases())
                         or (c.cls.is_namedtuple and n == "tuple"))
            return FALSE
        if v.op == "tup":
            return B(n == "tuple")
        if v.op == "enum":
            return B(n == "str" and bool(v.args[2]) or n in ("enum.Enum",) or
                     (n == "int" and isK(v.args[3]) and "IntEnum" in " ".join(I.classes[v.args[0]].ext_bases())))
        if v.op in ("fn", "bm", "cls", "mod", "ext", "xm", "excobj"):
            return B(n == "type" and v.op == "cls")
        if k == "bool":
            return B(n in ("bool", "int", "number"))
        if k == "int":
            return B(n in ("int", "number"))
        if k == "float":
            return B(n in ("float", "number"))
        if k == "num":
            if n == "number":
                return TRUE
            if n in ("int", "float"):
                return I.dec(st, mk("isinst", v, n))
            return FALSE
        if k in ("str", "bytes", "list"):
            return B(n == k)
        if k == "none":
            return B(n == "none")
        if k == "obj":
            return FALSE
        return I.dec(st, mk("isinst", v, n))

    def b_issubclass(self, st, a, kw, node):
        bases = a[1].args if a[1].op == "tup" else (a[1],)
        if a[0].op == "ext" and all(b.op == "ext" for b in bases) and all(x.args[0].startswith("builtins.") for x in (a[0],) + bases):
            import builtins
            cs = [getattr(builtins, x.args[0][9:], None) for x in (a[0],) + bases]
            if all(isinstance(x, type) for x in cs):
                return B(issubclass(cs[0], tuple(cs[1:])))
        if a[0].op == "ext" and all(b.op == "cls" for b in bases):
            return FALSE
        if a[0].op == "cls" and a[1].op == "ext":
            if a[1].args[0] == "builtins.object":
                return TRUE
            if not self.I.classes[a[0].args[0]].ext_bases():
                return FALSE
        if a[0].op == "cls" and a[1].op == "tup" and all(b.op == "cls" for b in bases):
            return B(any(self.I.classes[a[0].args[0]].subclass_of(self.I.classes[b.args[0]]) for b in bases))
        if a[0].op == "cls" and a[1].op == "cls":
            return B(self.I.classes[a[0].args[0]].subclass_of(self.I.classes[a[1].args[0]]))
        return self.I.unk("issubclass")

    def b_str(self, st, a, kw, node):
        if not a:
            return EMPTY
        return self.str_(st, a[0])

    def str_(self, st, v):
        return self.I.split(st, v, self.str1)

    def str1(self, st, v):
        I = self.I
        if v.op == "ref":
            c = I.cell(st, v)
            if isinstance(c, OCell):
                if isinstance(c.cls, ClassInfo):
                    for m in ("__str__", "__repr__"):
                        k, f = I.class_find(st, c.cls, m)
                        if f is not None:
                            return I.call(st, I.bind_method(v, c.cls, k, f, st), [], {})
                    if c.cls.is_exc and "args" in c.fields:
                        t = c.fields["args"]
                        if t.op == "tup" and len(t.args) == 1:
                            return self.str_(st, t.args[0])
                        return EMPTY if t.op == "tup" and not t.args else mk("str", v)
                    return self.nondet("object repr")
                if c.cls.startswith("cgen."):
                    return self.render(st, v)
                if c.cls == "Path":
                    return c.fields["p"]
            return mk("str", v)
        if v.op == "enum":
            return K("%s.%s" % (v.args[0], v.args[1])) if not self.strenum(v) else StrOf(v.args[3])
        if v.op == "cls":
            return K("<class '%s'>" % v.args[0])
        if v.op == "excobj":
            if len(v.args) == 2 and isinstance(v.args[1], T):
                return K(repr(kv(v.args[1]))) if v.args[0] == "builtins.KeyError" and isK(v.args[1]) else self.str_(st, v.args[1])
            return EMPTY if len(v.args) == 1 else mk("str", v)
        if kind(v) == "obj" and gkind(v).startswith("obj"):
            # text of one of the other elements: only used in messages
            return mk("str", v)
        if is_bool(v) and not isK(v):
            return Ite(v, K("True"), K("False"))
        return StrOf(v)

    def strenum(self, v):
        ci = self.I.classes[v.args[0]]
        return any(b.endswith("StrEnum") for b in ci.ext_bases())

    def b_repr(self, st, a, kw, node):
        return self.repr_(st, a[0])

    def repr_(self, st, v):
        if isK(v):
            return K(repr(kv(v)))
        if is_str(v):
            return Cat(K("'"), v, K("'"))
        if v.op == "ref" or kind(v) == "obj":
            return mk("repr", v)
        return StrOf(v)

    def b_ascii(self, st, a, kw, node):
        return mk("repr", a[0])

    def format_(self, st, v, spec):
        if isinstance(spec, T):
            if not isK(spec):
                return mk("fmt", v, spec)
            spec = kv(spec)

        def f(s, x):
            if x.op in ("ref", "enum", "cls", "excobj") or (kind(x) == "obj"):
                t = self.str1(s, x)
                return Fmt(t, spec) if spec else t
            if is_bool(x) and not isK(x):
                if spec == "":
                    return Ite(x, K("True"), K("False"))
                return Ite(x, Fmt(K(True), spec), Fmt(K(False), spec))
            if isK(x) and spec:
                try:
                    return K(format(kv(x), spec))
                except Exception as e:
                    return self.I.implicit(s, type(e).__name__, str(e))
            return Fmt(x, spec)
        return self.I.split(st, v, f)

    def b_format(self, st, a, kw, node):
        return self.format_(st, a[0], a[1] if len(a) > 1 else "")

    def b_int(self, st, a, kw, node):
        if not a:
            return K(0)

        def f(s, v):
            if isK(v) and all(isK(x) for x in a[1:]):
                try:
                    return K(int(kv(v), *[kv(x) for x in a[1:]]))
                except Exception as e:
                    return self.I.implicit(s, type(e).__name__, str(e), node)
            if is_bool(v):
                return Ite(v, K(1), K(0))
            if kind(v) == "int" and len(a) == 1:
                return v
            if v.op == "str" and kind(v.args[0]) == "int":
                return v.args[0]
            r = mk("call", "int", v)
            ops.KIND[r] = "int"
            return r
        return self.I.split(st, a[0], f)

    def b_float(self, st, a, kw, node):
        if not a:
            return K(0.0)

        def f(s, v):
            if isK(v):
                try:
                    return K(float(kv(v)))
                except Exception as e:
                    return self.I.implicit(s, type(e).__name__, str(e), node)
            if kind(v) == "float":
                return v
            r = mk("call", "float", v)
            ops.KIND[r] = "float"
            return r
        return self.I.split(st, a[0], f)

    def b_bool(self, st, a, kw, node):
        return self.I.truth(st, a[0]) if a else FALSE

    def b_abs(self, st, a, kw, node):
        v = a[0]
        if isK(v):
            return K(abs(kv(v)))
        return self.I.branch(st, Lt(v, K(0)), lambda s: Sub(K(0), v), lambda s: v)

    def constcall(f):
        def g(self, st, a, kw, node):
            if all(isK(x) for x in a):
                try:
                    return K(f(*[kv(x) for x in a]))
                except Exception as e:
                    return self.I.implicit(st, type(e).__name__, str(e), node)
            return mk("call", f.__name__, *a)
        return g

    b_round = constcall(round)
    b_oct = constcall(oct)
    b_bin = constcall(bin)
    b_ord = constcall(ord)
    b_chr = constcall(chr)

    def b_hex(self, st, a, kw, node):
        return Fmt(a[0], "#x")

    def b_pow(self, st, a, kw, node):
        if all(isK(x) for x in a):
            return K(pow(*[kv(x) for x in a]))
        return self.binop(st, ast.Pow(), a[0], a[1], node)

    def b_divmod(self, st, a, kw, node):
        return mk("tup", self.binop(st, ast.FloorDiv(), a[0], a[1], node), self.binop(st, ast.Mod(), a[0], a[1], node))

    def b_print(self, st, args, kw, node):
        if "file" in kw and kw["file"] is not NONE:
            c = self.I.cell(st, kw["file"])
            if isinstance(c, (FCell, OCell)):
                a = self.flat(args)
                sep = kw.get("sep", K(" "))
                end = kw.get("end", K("\n"))
                out = []
                for i, x in enumerate(a):
                    if i:
                        out.append(sep)
                    out.append(self.str_(st, x))
                self.call_method(st, kw["file"], "write", [Cat(*(out + [end]))], {}, node)
        else:
            self.I.event(st, "print", node)
        return NONE

    def b_type(self, st, a, kw, node):
        def f(s, v):
            c = self.I.cell(s, v)
            if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
                return self.I.cls_term(c.cls)
            if v.op == "enum":
                return mk("cls", v.args[0])
            k = kind(v)
            if k in ("str", "int", "float", "bool", "bytes"):
                return mk("ext", "builtins." + k)
            if isinstance(c, LCell):
                return mk("ext", "builtins." + c.kind)
            if isinstance(c, DCell):
                return mk("ext", "builtins.dict")
            if v is NONE:
                return mk("ext", "builtins.NoneType")
            if v.op == "excobj":
                return mk("ext", v.args[0])
            cands = self.I.possible(s, v)
            if cands and len(cands) == 1:
                return mk("cls", cands[0])
            return mk("typeof", v)
        return self.I.split(st, a[0], f)

    def b_hasattr(self, st, a, kw, node):
        def f(s, v):
            n = kv(a[1])
            c = self.I.cell(s, v)
            if isinstance(c, OCell):
                if n in c.fields:
                    return TRUE
                if isinstance(c.cls, ClassInfo):
                    return B(self.I.class_find(s, c.cls, n)[1] is not None)
            if v is NONE or isK(v):
                return B(hasattr(kv(v), n))
            if v.op == "cls":
                return B(self.I.class_find(s, self.I.classes[v.args[0]], n)[1] is not None)
            k = kind(v)
            if k in ("str", "int", "float", "bool", "bytes", "list"):
                return B(hasattr(getattr(_bi, k), n))
            cands = self.I.possible(s, v)
            if cands:
                has = [x for x in cands if self.I.class_find(s, self.I.classes[x], n)[1] is not None
                       or n in (self.I.tx.template(s, self.I.classes[x]) or {})]
                if len(has) == len(cands):
                    return TRUE
                if not has:
                    return FALSE
                return self.I.dec(s, Or(*[mk("isinst", v, x) for x in has]))
            return mk("haskey", v, a[1])
        if not isK(a[1]):
            return self.I.unk("hasattr")
        return self.I.split(st, a[0], f)

    def b_getattr(self, st, a, kw, node):
        if not isK(a[1]):
            return self.I.unk("getattr")
        if len(a) > 2:
            h = self.b_hasattr(st, a[:2], {}, node)
            return self.I.branch(st, h, lambda s: self.I.getattr(s, a[0], kv(a[1]), node), lambda s: a[2])
        return self.I.getattr(st, a[0], kv(a[1]), node)

    def b_setattr(self, st, a, kw, node):
        if isK(a[1]):
            self.I.setattr(st, a[0], kv(a[1]), a[2], node)
        return NONE

    def b_callable(self, st, a, kw, node):
        return B(a[0].op in ("fn", "bm", "cls", "ext", "xm"))

    def b_id(self, st, a, kw, node):
        # identity is only meaningful for comparison; its value is arbitrary
        return mk("nondet", "id", a[0])

    def b_hash(self, st, a, kw, node):
        return mk("nondet", "hash", a[0])

    def b_input(self, st, a, kw, node):
        return self.nondet("input")

    def b_vars(self, st, a, kw, node):
        if a:
            c = self.I.cell(st, a[0])
            if isinstance(c, OCell):
                return self.I.alloc(st, DCell("dict", tuple(("kv", K(k), v) for k, v in c.fields.items())))
        return self.I.unk("vars")

    def b_exit(self, st, a, kw, node):
        return self.sysexit(st, a, kw, node)

    b_quit = b_exit

    def b_bytes(self, st, a, kw, node):
        if not a:
            return K(b"")
        x = self.I.res(st, a[0])
        c = self.I.cell(st, x) if x.op == "ref" else None
        if isinstance(c, OCell) and c.cls in ("bytearray", "StringIO"):
            return c.fields["content"]
        if kind(x) == "bytes":
            return x
        return mk("call", "bytes", *a)

    def b_bytearray(self, st, a, kw, node):
        return self.I.alloc(st, OCell("bytearray", {"content": self.b_bytes(st, a, kw, node) if a else EMPTY}))

    def b_object(self, st, a, kw, node):
        return self.I.alloc(st, OCell("object", {}))

    def b_slice(self, st, a, kw, node):
        if len(a) == 1:
            return mk("slc", NONE, a[0], NONE)
        return mk("slc", a[0], a[1], a[2] if len(a) > 2 else NONE)

    def b_open(self, st, a, kw, node):
        path = a[0] if a else kw.get("file", NONE)
        mode = a[1] if len(a) > 1 else kw.get("mode", K("r"))
        return self.open(st, path, mode, node)

    def sysexit(self, st, a, kw, node):
        code = a[0] if a else K(0)
        self.I.raise_(st, mk("ext", "builtins.SystemExit"), code, node)
        return NONE

    # -------------------------------------------------------------- files
    def pathterm(self, st, p):
        p = self.I.res(st, p)
        c = self.I.cell(st, p)
        if isinstance(c, OCell) and c.cls == "Path":
            return c.fields["p"]
        return p

    def open(self, st, path, mode, node):
        I = self.I
        path = self.pathterm(st, path)
        path = I.deep(st, path)
        mode = I.res(st, mode)
        m = kv(mode) if isK(mode) else "?"
        if m == "?":
            I.note("open with unknown mode")
        if any(c in m for c in "wax+?"):
            I.event(st, "open", node, path=path, mode=m)
        return I.alloc(st, FCell(path, m, EMPTY))

    def close_file(self, st, ref, node):
        I = self.I
        c = I.cell(st, ref)
        if isinstance(c, FCell) and not c.closed:
            st.heap[ref.args[0]] = FCell(c.path, c.mode, c.content, True)
            if any(x in c.mode for x in "wax+?"):
                I.event(st, "file", node, path=c.path, mode=c.mode, content=I.deep(st, c.content))

    def finish(self, st):
        """files that are still open at the end of the program"""
        for a, c in list(st.heap.items()):
            if isinstance(c, FCell) and not c.closed and any(x in c.mode for x in "wax+?"):
                self.close_file(st, mk("ref", a), None)

    def file_method(self, st, ref, c, name, a, kw, node):
        I = self.I
        if name == "write":
            x = self.I.res(st, a[0])
            cx = self.I.cell(st, x) if x.op == "ref" else None
            if isinstance(cx, OCell) and cx.cls == "bytearray":
                x = cx.fields["content"]
            if isK(x) and isinstance(kv(x), bytes):
                x = K(kv(x)) if kv(x) else EMPTY
            st.heap[ref.args[0]] = FCell(c.path, c.mode, Cat(c.content, x), c.closed)
            return mk("len", x)
        if name == "writelines":
            t = self.join(st, EMPTY, self.items(st, a[0], node))
            st.heap[ref.args[0]] = FCell(c.path, c.mode, Cat(c.content, t), c.closed)
            return NONE
        if name == "read":
            return mk("call", "read", c.path)
        if name == "readlines":
            return mk("lines", c.path)
        if name == "close":
            self.close_file(st, ref, node)
            return NONE
        if name in ("flush", "truncate", "seek", "tell", "fileno"):
            if name in ("truncate", "seek"):
                I.note("file " + name)
                st.heap[ref.args[0]] = FCell(c.path, c.mode, Cat(c.content, I.unk(name)), c.closed)
            return NONE
        if name == "__enter__":
            return ref
        if name == "__exit__":
            self.close_file(st, ref, node)
            return NONE
        return I.unk("file." + name)

    # ------------------------------------------------------------- methods
    def call_method(self, st, obj, name, args, kw, node):
        args = self.flat(args)
        return self.I.split(st, obj, lambda s, v: self.method1(s, v, name, args, kw, node))

    def method1(self, st, v, name, a, kw, node):
        I = self.I
        if st.live is None:
            return NONE
        if v.op == "ref":
            c = I.cell(st, v)
            if isinstance(c, LCell):
                f = getattr(self, "l_" + name, None)
                if f is not None:
                    return f(st, v, c, a, kw, node)
                if hasattr(list, name) or hasattr(set, name):
                    I.note("list method " + name)
                    return I.unk("list." + name)
                return I.implicit(st, "AttributeError", "%s has no %s" % (c.kind, name), node)
            if isinstance(c, DCell):
                f = getattr(self, "d_" + name, None)
                if f is not None:
                    return f(st, v, c, a, kw, node)
                if not hasattr(dict, name):
                    return I.implicit(st, "AttributeError", "dict has no %s" % name, node)
                return I.unk("dict." + name)
            if isinstance(c, FCell):
                return self.file_method(st, v, c, name, a, kw, node)
            if isinstance(c, OCell):
                return self.ometh(st, v, c, name, a, kw, node)
        if v.op == "ext":
            if v.args[0].endswith("()") or v.args[0].startswith(("sys.std", "logging.", "typing.")):
                return NONE
            return self.call_ext(st, v.args[0] + "." + name, a, kw, node)
        if v.op == "tup":
            if name == "index" or name == "count":
                f = getattr(self, "l_" + name)
                return f(st, v, LCell("tuple", tuple(("it", x) for x in v.args)), a, kw, node)
            if name in ("_asdict",):
                return I.unk(name)
        if v.op == "enum":
            if v.args[2]:
                return self.method1(st, v.args[3], name, a, kw, node)
        if v.op == "super" or v.op == "cls":
            if name == "__init__":
                return NONE
            if v.op == "cls" and name == "mro":
                return I.newlist(st, tuple(("it", I.cls_term(x)) for x in I.classes[v.args[0]].mro()))
            return I.unk(name)
        if v.op == "xm" and v.args[1] in ("from_iterable",):
            return self.call_ext(st, "itertools.chain.from_iterable", a, kw, node)
        if v.op == "call" and v.args[0] == "re.compile":
            return self.call_ext(st, "re." + name, [v.args[1]] + list(a), kw, node)
        if v.op == "matchobj":
            if len(v.args) == 3 and isK(v.args[0]) and isK(v.args[1]) and all(isK(x) for x in a) and not kw:
                m = getattr(re, v.args[2])(kv(v.args[0]), kv(v.args[1]))
                try:
                    return self.lift(st, getattr(m, name)(*[kv(x) for x in a]))
                except Exception as e:
                    return I.implicit(st, type(e).__name__, str(e), node)
            return mk("call", "match." + name, v, *a)
        k = kind(v)
        if k == "str" or (isK(v) and isinstance(kv(v), str)):
            return self.strmeth(st, v, name, a, kw, node)
        if k == "bytes":
            if name == "join":
                return self.join(st, K(""), self.items(st, a[0], node)) if isK(v) and kv(v) == b"" else I.unk("join")
            if isK(v) and name == "decode":
                return K(kv(v).decode())
            return mk("call", "bytes." + name, v, *a)
        if k in ("int", "bool", "num"):
            if name == "bit_length":
                return BitLen(self.num(v))
            if name == "to_bytes":
                r = mk("call", "int.to_bytes", v, *a, *[kw[x] for x in sorted(kw)])
                ops.KIND[r] = "bytes"
                return r
            if name == "is_integer" and k == "num":
                return mk("truthy", mk("call", "is_integer", v))
            if name == "is_integer":
                return TRUE
            return I.implicit(st, "AttributeError", "int has no %s" % name, node)
        if k == "float" and name == "is_integer":
            if isK(v):
                return B(kv(v).is_integer())
            return mk("truthy", mk("call", "is_integer", v))
        if k == "list":
            sh = I.shape(v)
            c = LCell("list", sh if sh is not None else (("sp", v),))
            if name in ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update"):
                I.event(st, "genwrite", node, obj=v, name=name, value=NONE)
                return NONE if name != "pop" else I.unk("pop")
            f = getattr(self, "l_" + name, None)
            if f is not None:
                return f(st, v, c, a, kw, node)
        if v is NONE:
            return I.implicit(st, "AttributeError", "None has no %s" % name, node)
        if v.op == "nondet":
            return mk("nondet", name, v)
        I.note("method %s of %s" % (name, show(v)[:50]))
        return mk("call", "?." + name, v, *a)

    # lists ---------------------------------------------------------------
    def setl(self, st, v, c, items, op, node):
        self.I.setcell(st, v.args[0], LCell(c.kind, items), op, node)

    def l_append(self, st, v, c, a, kw, node):
        self.setl(st, v, c, c.items + (("it", a[0]),), "append", node)
        return NONE

    def l_add(self, st, v, c, a, kw, node):
        cond = self.I.items_contains(st, c.items, a[0])
        cond = self.I.dec(st, cond)
        if cond is TRUE:
            return NONE
        seg = ("it", a[0])
        self.setl(st, v, c, c.items + ((seg,) if cond is FALSE else (("opt", Not(cond), (seg,)),)), "add", node)
        return NONE

    def l_extend(self, st, v, c, a, kw, node):
        its = self.items(st, a[0], node)
        self.setl(st, v, c, c.items + its, "extend", node)
        return NONE

    def l_update(self, st, v, c, a, kw, node):
        its = c.items
        for x in a:
            its = its + self.flatten_ord(self.items(st, x, node))
        self.setl(st, v, c, self.I.dedupe(st, its), "update", node)
        return NONE

    def l_insert(self, st, v, c, a, kw, node):
        i = a[0]
        if isK(i) and all(s[0] == "it" for s in c.items):
            l = list(c.items)
            l.insert(kv(i), ("it", a[1]))
            self.setl(st, v, c, tuple(l), "insert", node)
        elif i is K(0):
            self.setl(st, v, c, (("it", a[1]),) + c.items, "insert", node)
        else:
            self.setl(st, v, c, (("ord", "insert", c.items + (("it", a[1]),)),), "insert", node)
        return NONE

    def l_pop(self, st, v, c, a, kw, node):
        if not c.items:
            self.risky += 1
            return self.I.implicit(st, "IndexError", "pop from empty list", node)
        i = a[0] if a else K(-1)
        if isK(i) and isinstance(kv(i), int):
            k = kv(i)
            if k >= 0 and all(s[0] == "it" for s in c.items[:k + 1]) and k < len(c.items):
                self.setl(st, v, c, c.items[:k] + c.items[k + 1:], "pop", node)
                return c.items[k][1]
            if k < 0 and all(s[0] == "it" for s in c.items[k:]) and -k <= len(c.items):
                j = len(c.items) + k
                self.setl(st, v, c, c.items[:j] + c.items[j + 1:], "pop", node)
                return c.items[j][1]
        self.setl(st, v, c, (("sp", self.I.unk("list after pop")),), "pop", node)
        return self.I.unk("pop")

    def l_remove(self, st, v, c, a, kw, node):
        I = self.I
        if c.kind == "set":
            p = I.dec(st, I.items_contains(st, c.items, a[0]))

            def bad(s):
                self.risky += 1
                return I.implicit(s, "KeyError", "set.remove(x): x not in set", node)
            if p is not TRUE:
                I.branch(st, p, lambda s: NONE, bad)
            if st.live is not None:
                self.setl(st, v, c, self.filter_items(st, c.items, lambda s, x: Not(I.eq(s, x, a[0]))), "remove", node)
            return NONE
        for i, s in enumerate(c.items):
            if s[0] != "it":
                break
            q = I.dec(st, I.eq(st, s[1], a[0]))
            if q is TRUE:
                self.setl(st, v, c, c.items[:i] + c.items[i + 1:], "remove", node)
                return NONE
            if q is not FALSE:
                break
        else:
            self.risky += 1
            return I.implicit(st, "ValueError", "list.remove(x): x not in list", node)
        self.setl(st, v, c, (("sp", I.unk("list after remove")),), "remove", node)
        return NONE

    def l_discard(self, st, v, c, a, kw, node):
        I = self.I
        self.setl(st, v, c, self.filter_items(st, c.items, lambda s, x: Not(I.eq(s, x, a[0]))), "discard", node)
        return NONE

    def l_clear(self, st, v, c, a, kw, node):
        self.setl(st, v, c, (), "clear", node)
        return NONE

    def l_copy(self, st, v, c, a, kw, node):
        return self.I.newlist(st, c.items, c.kind)

    def l_index(self, st, v, c, a, kw, node):
        I = self.I
        n = K(0)
        res = None
        conds = []
        for i, s in enumerate(c.items):
            if s[0] != "it":
                return I.unk("index")
            q = I.dec(st, I.eq(st, s[1], a[0]))
            conds.append((q, K(i)))
            if q is TRUE:
                break
        else:
            if all(q is FALSE for q, _ in conds):
                self.risky += 1
                return I.implicit(st, "ValueError", "not in list", node)
        res = None
        for q, i in reversed(conds):
            if q is FALSE:
                continue
            res = i if res is None else Ite(q, i, res)
        return res

    def l_count(self, st, v, c, a, kw, node):
        return self.count(st, c.items, a[0])

    def l_sort(self, st, v, c, a, kw, node):
        self.setl(st, v, c, self.sort_items(st, c.items, kw, node), "sort", node)
        return NONE

    def l_reverse(self, st, v, c, a, kw, node):
        self.setl(st, v, c, self.reverse(c.items), "reverse", node)
        return NONE

    def setop(self, st, v, c, a, op, node):
        I = self.I
        x = self.flatten_ord(c.items)
        for o in a:
            y = self.flatten_ord(self.items(st, o, node))
            if op == "diff":
                x = self.filter_items(st, x, lambda s, e: Not(I.items_contains(s, y, e)))
            elif op == "inter":
                x = self.filter_items(st, x, lambda s, e: I.items_contains(s, y, e))
            elif op == "union":
                x = I.dedupe(st, x + y)
            elif op == "sym":
                p = self.filter_items(st, x, lambda s, e: Not(I.items_contains(s, y, e)))
                q = self.filter_items(st, y, lambda s, e: Not(I.items_contains(s, x, e)))
                x = p + q
        return x

    def l_difference(self, st, v, c, a, kw, node):
        return self.I.newlist(st, self.setop(st, v, c, a, "diff", node), "set")

    def l_intersection(self, st, v, c, a, kw, node):
        return self.I.newlist(st, self.setop(st, v, c, a, "inter", node), "set")

    def l_union(self, st, v, c, a, kw, node):
        return self.I.newlist(st, self.setop(st, v, c, a, "union", node), "set")

    def l_symmetric_difference(self, st, v, c, a, kw, node):
        return self.I.newlist(st, self.setop(st, v, c, a, "sym", node), "set")

    def l_difference_update(self, st, v, c, a, kw, node):
        self.setl(st, v, c, self.setop(st, v, c, a, "diff", node), "difference_update", node)
        return NONE

    def l_issubset(self, st, v, c, a, kw, node):
        return self.I.dec(st, self.I.all_in(st, c.items, self.items(st, a[0], node)))

    def l_issuperset(self, st, v, c, a, kw, node):
        return self.I.dec(st, self.I.all_in(st, self.items(st, a[0], node), c.items))

    def l_isdisjoint(self, st, v, c, a, kw, node):
        its = self.items(st, a[0], node)
        return Not(self.anyof(st, c.items, lambda s, x: self.I.items_contains(s, its, x)))

    def l_popleft(self, st, v, c, a, kw, node):
        return self.l_pop(st, v, c, [K(0)], kw, node)

    def l_appendleft(self, st, v, c, a, kw, node):
        return self.l_insert(st, v, c, [K(0), a[0]], kw, node)

    def l_extendleft(self, st, v, c, a, kw, node):
        its = tuple(reversed(self.items(st, a[0], node)))
        self.I.setcell(st, v.args[0], LCell(c.kind, its + c.items), "extendleft", node)
        return NONE

    def l_rotate(self, st, v, c, a, kw, node):
        k = a[0] if a else K(1)
        if not isK(k) or not all(x[0] == "it" for x in c.items):
            self.I.note("rotate")
            return NONE
        n = len(c.items)
        k = kv(k) % n if n else 0
        self.I.setcell(st, v.args[0], LCell(c.kind, c.items[n - k:] + c.items[:n - k]), "rotate", node)
        return NONE

    def l___contains__(self, st, v, c, a, kw, node):
        return self.I.contains(st, a[0], v)

    # dicts ---------------------------------------------------------------
    def d_popitem(self, st, v, c, a, kw, node):
        I = self.I
        last = a[0] if a else kw.get("last", TRUE)
        its = I.dict_keys(c.ents, "i")
        if not its:
            self.risky += 1
            return I.implicit(st, "KeyError", "popitem(): dictionary is empty", node)
        if last not in (TRUE, FALSE) or not all(x[0] == "it" for x in its):
            I.note("popitem")
            return I.unk("popitem")
        p = its[-1 if last is TRUE else 0][1]
        self.delitem(st, v, p.args[0], node)
        return p

    def d_move_to_end(self, st, v, c, a, kw, node):
        I = self.I
        last = a[1] if len(a) > 1 else kw.get("last", TRUE)
        d = I.constdict(c.ents)
        if last not in (TRUE, FALSE) or d is None or not isK(a[0]):
            I.note("move_to_end")
            return NONE
        k = (type(kv(a[0])), kv(a[0]))
        if k not in d:
            return I.implicit(st, "KeyError", "move_to_end", node)
        x = d.pop(k)
        es = [("kv", K(q[1]), y) for q, y in d.items()]
        I.setcell(st, v.args[0], c.with_ents(tuple(es + [("kv", a[0], x)] if last is TRUE else [("kv", a[0], x)] + es)), "move_to_end", node)
        return NONE

    def d_get(self, st, v, c, a, kw, node):
        I = self.I
        dflt = a[1] if len(a) > 1 else kw.get("default", NONE)

        def f(s, key):
            p, x = I.dict_lookup(s, I.cell(s, v).ents, key)
            p = I.dec(s, p)
            if p is FALSE or x is None:
                return dflt
            if p is TRUE:
                return x
            return Ite(p, x, dflt)
        return I.split(st, a[0], f)

    def d_items(self, st, v, c, a, kw, node):
        return self.I.newlist(st, self.I.dict_keys(c.ents, "i"), "view")

    def d_keys(self, st, v, c, a, kw, node):
        return self.I.newlist(st, self.I.dict_keys(c.ents, "k"), "view")

    def d_values(self, st, v, c, a, kw, node):
        return self.I.newlist(st, self.I.dict_keys(c.ents, "v"), "view")

    def d_update(self, st, v, c, a, kw, node):
        if a:
            self.dict_update(st, v, a[0], node)
        if kw:
            c = self.I.cell(st, v)
            ents = c.ents
            for k, x in kw.items():
                ents = self.put_ent(st, ents, ("kv", K(k), x))
            self.I.setcell(st, v.args[0], c.with_ents(ents), "update", node)
        return NONE

    def d_copy(self, st, v, c, a, kw, node):
        return self.I.alloc(st, DCell(c.kind, c.ents, c.default))

    def d_clear(self, st, v, c, a, kw, node):
        self.I.setcell(st, v.args[0], c.with_ents(()), "clear", node)
        return NONE

    def d_setdefault(self, st, v, c, a, kw, node):
        I = self.I
        dflt = a[1] if len(a) > 1 else NONE
        p, x = I.dict_lookup(st, c.ents, a[0])
        p = I.dec(st, p)
        if p is TRUE:
            return x

        def miss(s):
            cc = I.cell(s, v)
            I.setcell(s, v.args[0], cc.with_ents(cc.ents + (("kv", a[0], dflt),)), "setdefault", node)
            return dflt
        if p is FALSE:
            return miss(st)
        return I.branch(st, p, lambda s: x, miss)

    def d_pop(self, st, v, c, a, kw, node):
        I = self.I
        p, x = I.dict_lookup(st, c.ents, a[0])
        p = I.dec(st, p)
        if p is FALSE or x is None:
            if len(a) > 1:
                return a[1]
            self.risky += 1
            return I.implicit(st, "KeyError", "pop", node)
        if p is TRUE and all(e[0] == "kv" for e in c.ents):
            I.setcell(st, v.args[0], c.with_ents(tuple(e for e in c.ents if I.dec(st, I.eq(st, e[1], a[0])) is not TRUE)), "pop", node)
            return x
        I.setcell(st, v.args[0], c.with_ents(c.ents + (("del", a[0]),)), "pop", node)
        if p is TRUE:
            return x
        if len(a) > 1:
            return Ite(p, x, a[1])
        return I.branch(st, p, lambda s: x, lambda s: I.implicit(s, "KeyError", "pop", node))

    # objects -------------------------------------------------------------
    def ometh(self, st, v, c, name, a, kw, node):
        I = self.I
        k = c.cls
        if isinstance(k, ClassInfo):
            if name in ("__init__",):
                return NONE
            if k.is_namedtuple and name == "_replace":
                f = dict(c.fields)
                f.update(kw)
                return I.alloc(st, OCell(k, f))
            if k.is_namedtuple and name == "_asdict":
                return I.alloc(st, DCell("dict", tuple(("kv", K(n), x) for n, x in c.fields.items())))
            return mk("ext", "%s.%s()" % (k.name, name))
        if k == "Counter":
            its = c.fields["#items"]
            if name == "items" or name == "most_common":
                ded = I.dedupe(st, its)
                r = self.loop(st, ded, lambda s, x: (mk("tup", x, self.count(s, its, x)),))
                if name == "most_common":
                    cell = I.cell(st, r)
                    st.heap[r.args[0]] = LCell("list", (("ord", "mostcommon", cell.items),)) if I.nitems(cell.items) > 1 else cell
                return r
            if name == "values":
                ded = I.dedupe(st, its)
                return self.loop(st, ded, lambda s, x: (self.count(s, its, x),))
            if name == "keys":
                return I.newlist(st, I.dedupe(st, its))
            if name == "elements":
                return I.newlist(st, its)
            if name == "get":
                n = self.count(st, its, a[0])
                return n
            if name == "update":
                st.heap[v.args[0]] = c.set("#items", its + self.items(st, a[0], node))
                return NONE
        if k == "Path":
            return self.pathmeth(st, v, c, name, a, kw, node)
        if k == "Struct":
            if name == "pack":
                return mk("call", "struct.pack", c.fields["format"], *a)
        if k == "bytearray":
            if name in ("extend", "__iadd__"):
                x = I.res(st, a[0])
                cx = I.cell(st, x) if x.op == "ref" else None
                if isinstance(cx, OCell) and cx.cls == "bytearray":
                    x = cx.fields["content"]
                if kind(x) == "bytes" or x.op in ("cat", "call") or isK(x):
                    if isK(x) and kv(x) == b"":
                        x = EMPTY
                    st.heap[v.args[0]] = c.set("content", Cat(c.fields["content"], x))
                    return NONE
            if name == "append" and isK(a[0]):
                st.heap[v.args[0]] = c.set("content", Cat(c.fields["content"], K(bytes([kv(a[0])]))))
                return NONE
            st.heap[v.args[0]] = c.set("content", I.unk("bytearray." + name))
            return NONE
        if k == "StringIO":
            if name == "write":
                st.heap[v.args[0]] = c.set("content", Cat(c.fields["content"], a[0]))
                return NONE
            if name == "writelines":
                t = self.join(st, EMPTY, self.items(st, a[0], node))
                st.heap[v.args[0]] = c.set("content", Cat(c.fields["content"], t))
                return NONE
            if name == "getvalue":
                return c.fields["content"]
            return NONE
        if k in ("ArgParser", "SubParsers"):
            return self.argmeth(st, v, c, name, a, kw, node)
        if k.startswith("textx."):
            return I.tx.method(st, v, c, name, a, kw, node)
        if k.startswith("cgen."):
            if name == "generate":
                return I.newlist(st, (("it", self.render(st, v)),), "gen")
            return I.unk("cgen." + name)
        if k == "object":
            return I.unk(name)
        I.note("method %s.%s" % (k, name))
        return I.unk("%s.%s" % (k, name))

    # paths
    def mkpath(self, st, p):
        return self.I.alloc(st, OCell("Path", self.pathfields(p)))

    def pathfields(self, p):
        d, b = self.dirbase(p)
        return {"p": p}

    def dirbase(self, p):
        if p.op == "call" and p.args[0] == "os.path.join":
            last = p.args[-1]
            al = alphabet(last)
            if al is not None and "/" not in al:
                return (mk("call", *p.args[:-1]) if len(p.args) > 3 else p.args[1]), last
        return mk("call", "os.path.dirname", p), mk("call", "os.path.basename", p)

    def pjoin(self, st, parts):
        out = []
        for p in parts:
            p = self.pathterm(st, p)
            if p.op == "call" and p.args[0] == "os.path.join":
                out.extend(p.args[1:])
            else:
                out.append(p)
        if len(out) == 1:
            return out[0]
        return mk("call", "os.path.join", *out)

    def splitext(self, p):
        """os.path.splitext of the last component, if its last dot is known: (root, extension) or None."""
        pre = ()
        if p.op == "call" and p.args[0] == "os.path.join":
            pre, p = p.args[1:-1], p.args[-1]
        wrap = lambda x: mk("call", "os.path.join", *pre, x) if pre else x
        ps = list(p.args) if p.op == "cat" else [p]
        for i in range(len(ps) - 1, -1, -1):
            x = ps[i]
            if isK(x) and isinstance(kv(x), str):
                if "/" in kv(x):
                    return None
                if "." in kv(x):
                    k = kv(x).rindex(".")
                    if i == 0 and not kv(x)[:k].strip("."):
                        return wrap(p), EMPTY
                    if i and not kv(x)[:k].strip(".") and not any(isK(y) and kv(y).strip(".") for y in ps[:i]):
                        al = [alphabet(y) for y in ps[:i]]
                        if any(z is None or "." in z for z in al):
                            return None
                    return wrap(Cat(*ps[:i], K(kv(x)[:k]))), Cat(K(kv(x)[k:]), *ps[i + 1:])
                continue
            al = alphabet(x)
            if al is None or "." in al or "/" in al:
                return None
        return wrap(p), EMPTY

    def pathmeth(self, st, v, c, name, a, kw, node):
        I = self.I
        p = c.fields["p"]
        if name in ("mkdir",):
            I.event(st, "mkdir", node, path=p)
            return NONE
        if name in ("exists", "is_dir", "is_file"):
            return I.dec(st, mk("fsq", name.replace("_", ""), p))
        if name == "open":
            return self.open(st, p, a[0] if a else kw.get("mode", K("r")), node)
        if name in ("write_text", "write_bytes"):
            m = "w" if name == "write_text" else "wb"
            f = self.open(st, p, K(m), node)
            x = a[0] if a else next(iter(kw.values()))
            self.file_method(st, f, I.cell(st, f), "write", [x], {}, node)
            self.close_file(st, f, node)
            return NONE
        if name in ("read_text", "read_bytes"):
            return mk("call", "read", p)
        if name == "joinpath":
            return self.mkpath(st, self.pjoin(st, [p] + list(a)))
        if name in ("resolve", "absolute", "expanduser"):
            return v
        if name in ("as_posix", "__str__", "__fspath__"):
            return p
        if name == "with_suffix":
            d, b = None, None
            if p.op == "call" and p.args[0] == "os.path.join":
                last = p.args[-1]
                al = alphabet(last)
                if al is not None and "." not in al:
                    return self.mkpath(st, mk("call", *p.args[:-1], Cat(last, a[0])))
                r = self.splitext(last)
                if r is not None:
                    return self.mkpath(st, mk("call", *p.args[:-1], Cat(r[0], a[0])))
            return self.mkpath(st, mk("call", "with_suffix", p, a[0]))
        if name == "with_name":
            return self.mkpath(st, mk("call", "os.path.join", self.dirbase(p)[0], a[0]))
        if name in ("unlink", "rmdir", "rename", "touch", "replace", "symlink_to"):
            I.event(st, "fsop", node, name="Path." + name, args=(p,))
            if name == "touch":
                I.event(st, "open", node, path=p, mode="a")
            return NONE
        I.note("Path." + name)
        return mk("call", "Path." + name, p, *a)

    # argparse
    def argmeth(self, st, v, c, name, a, kw, node):
        I = self.I
        if name == "add_subparsers":
            return I.alloc(st, OCell("SubParsers", {"dest": kw.get("dest", NONE)}))
        if name == "add_parser":
            cmd = a[0] if a else kw.get("name", NONE)
            r = I.alloc(st, OCell("ArgParser", {"command": cmd, "dest": c.fields.get("dest", NONE)}))
            if isK(cmd):
                self.cli.setdefault(kv(cmd), {"dest": c.fields.get("dest", NONE), "args": []})
            ps = kw.get("parents")
            if ps is not None and ps.op == "ref":
                for s in I.iter_items(st, ps):
                    if s[0] == "it":
                        pc = I.cell(st, s[1])
                        if isinstance(pc, OCell):
                            self.cli[kv(cmd)]["args"].extend(self.cli.get(("anon", s[1].args[0]), {"args": []})["args"])
            return r
        if name in ("add_argument_group", "add_mutually_exclusive_group"):
            return v
        if name == "add_argument":
            cmd = c.fields.get("command", NONE)
            key = kv(cmd) if isK(cmd) and kv(cmd) is not None else ("anon", v.args[0])
            names = [kv(x) for x in a if isK(x)]
            self.cli.setdefault(key, {"dest": NONE, "args": []})["args"].append((names, dict(kw), self.I.where(node)))
            return mk("ext", "argparse.Action()")
        if name in ("parse_args", "parse_known_args"):
            return self.parse_args(st, node)
        if name in ("error", "exit"):
            return self.sysexit(st, [K(2)], {}, node)
        return mk("ext", "argparse.%s()" % name)

    def parse_args(self, st, node):
        I = self.I
        cmd = I.scenario.command
        spec = self.cli.get(cmd)
        if spec is None:
            I.implicit(st, "SystemExit", "unknown command", node)
            return NONE
        f = {}
        if isK(spec["dest"]) and kv(spec["dest"]) is not None:
            f[kv(spec["dest"])] = K(cmd)
        for names, kw, where in spec["args"]:
            opts = [n for n in names if n.startswith("-")]
            if "dest" in kw and isK(kw["dest"]):
                dest = kv(kw["dest"])
            elif not opts:
                dest = names[0] if names else "?"
            else:
                longs = [n for n in opts if n.startswith("--")] or opts
                dest = longs[0].lstrip("-").replace("-", "_")
            raw = I.scenario.option(I, st, names, kw)
            if raw is None:                      # omitted
                raw = kw.get("default", NONE)
            elif "type" in kw and kw["type"].op != "ext":
                raw = I.call(st, kw["type"], [raw], {}, node)
            f[dest] = raw
        return I.alloc(st, OCell("Namespace", f))

    # ------------------------------------------------------------- strings
    def strmeth(self, st, v, name, a, kw, node):
        I = self.I
        # resolve choices in the arguments
        for i, x in enumerate(a):
            x = I.res(st, x)
            if x.op == "ite":
                return I.split(st, x, lambda s, y: self.strmeth(s, v, name, a[:i] + [y] + a[i + 1:], kw, node))
            a = a[:i] + [x] + a[i + 1:]
        if not hasattr(str, name):
            return I.implicit(st, "AttributeError", "str has no %s" % name, node)
        if name == "join":
            if a[0].op == "call" and a[0].args[0] == "str.split" and len(a[0].args) == 3 and isK(a[0].args[2]) \
                    and kv(a[0].args[2]):
                return Replace(a[0].args[1], a[0].args[2], v)
            return self.join(st, v, self.items(st, a[0], node))
        if name == "format":
            return self.strformat(st, v, a, kw, node)
        if isK(v) and all(isK(x) for x in a) and not kw:
            try:
                r = getattr(kv(v), name)(*[kv(x) for x in a])
            except Exception as e:
                return I.implicit(st, type(e).__name__, str(e), node)
            return self.lift(st, r)
        if name == "upper":
            return Upper(v)
        if name in ("lower", "casefold"):
            return Lower(v)
        if name == "replace":
            if len(a) == 2:
                return Replace(v, a[0], a[1])
        if name in ("startswith", "endswith"):
            if a[0].op == "tup":
                return Or(*[self.prefix(st, v, x, name) for x in a[0].args])
            if a[0].op == "ref":
                return Or(*[self.prefix(st, v, s[1], name) for s in self.items(st, a[0]) if s[0] == "it"])
            return self.prefix(st, v, a[0], name)
        if name in ("find", "index", "rfind", "rindex"):
            c = I.dec(st, Contains(v, a[0]))
            pos = mk("findpos", v, a[0])
            ops.KIND[pos] = "int"
            ops.FACTS.iv.setdefault(pos, (0, ops.INF))
            if name.endswith("find"):
                return Ite(c, pos, K(-1))
            if c is FALSE:
                return I.implicit(st, "ValueError", "substring not found", node)
            return pos
        if name == "count":
            c = I.dec(st, Contains(v, a[0]))
            if c is FALSE:
                return K(0)
            n = mk("countpos", v, a[0])
            ops.KIND[n] = "int"
            ops.FACTS.iv.setdefault(n, (1, ops.INF))
            return Ite(c, n, K(0))
        if name == "split" and len(a) == 1 and not kw:
            r = I.scenario.split(v, a[0]) if I.scenario is not None else None
            if r is not None:
                return I.newlist(st, r)
        if name in ("split", "rsplit") and not a and not kw:
            al = alphabet(v)
            if al is not None and not any(ch.isspace() for ch in al) and I.truth(st, v) is TRUE:
                return I.newlist(st, (("it", v),))
        if name in ("split", "rsplit", "partition", "rpartition") and a and isK(a[0]) and isinstance(kv(a[0]), str) \
                and len(kv(a[0])) == 1:
            ps = self.splitparts(v, kv(a[0]))
            mx = a[1] if len(a) > 1 else kw.get("maxsplit", K(-1))
            if ps is not None and (isK(mx) and isinstance(kv(mx), int)):
                sep, n = a[0], kv(mx)
                if name in ("partition", "rpartition"):
                    n = 1
                if n >= 0 and len(ps) > n + 1:
                    if name[0] == "r":
                        k = len(ps) - n
                        ps = [self.rejoin(ps[:k], sep)] + ps[k:]
                    else:
                        ps = ps[:n] + [self.rejoin(ps[n:], sep)]
                if name == "partition":
                    return mk("tup", *([ps[0], sep, ps[1]] if len(ps) == 2 else [ps[0], EMPTY, EMPTY]))
                if name == "rpartition":
                    return mk("tup", *([ps[0], sep, ps[1]] if len(ps) == 2 else [EMPTY, EMPTY, ps[0]]))
                return I.newlist(st, tuple(("it", x) for x in ps))
        if name == "split" and len(a) == 1 and not kw:
            return self.splitterm(v, a[0])
        if name == "__contains__":
            return Contains(v, a[0])
        if name == "encode":
            r = mk("call", "str.encode", v)
            return r
        if name in ("strip", "rstrip", "lstrip"):
            r = self.strip(v, a[0] if a else None, name)
            if r is not None:
                return r
        if name in ("removesuffix", "removeprefix"):
            c = I.dec(st, self.prefix(st, v, a[0], "startswith" if name == "removeprefix" else "endswith"))
            if c is FALSE:
                return v
            ps = list(v.args) if v.op == "cat" else [v]
            if c is TRUE and isK(a[0]):
                n = len(kv(a[0]))
                if name == "removesuffix" and isK(ps[-1]) and len(kv(ps[-1])) >= n:
                    return Cat(*ps[:-1], K(kv(ps[-1])[:-n] if n else kv(ps[-1])))
                if name == "removeprefix" and isK(ps[0]) and len(kv(ps[0])) >= n:
                    return Cat(K(kv(ps[0])[n:]), *ps[1:])
        if name in ("isdigit", "isnumeric", "isalpha", "isupper", "islower", "isalnum", "isspace", "isidentifier",
                    "isdecimal", "istitle"):
            al = alphabet(v)
            if al is not None and name in ("isdigit", "isspace") and not any(getattr(ch, name)() for ch in al):
                return FALSE
            return I.dec(st, mk("truthy", mk("call", "str." + name, v)))
        if name in ("ljust", "rjust", "center", "zfill"):
            if isK(a[0]) and (len(a) == 1 or kv(a[1]) == " ") and name != "zfill":
                return Fmt(v, {"ljust": "<", "rjust": ">", "center": "^"}[name] + str(kv(a[0])) + "s")
        if name == "translate":
            t = a[0]
            if t.op == "transtab":
                r = v
                for x, y in t.args:
                    r = Replace(r, x, y)
                return r
        if name == "capitalize" and v.op == "sym" and v.args[1] == "str:NameCapital":
            return v
        if name == "capitalize" or name == "title" or name == "swapcase":
            return mk("call", "str." + name, v)
        return mk("call", "str." + name, v, *a, *[kw[k] for k in sorted(kw)])

    def mkclass(self, st, name, fields, node):
        """A namedtuple class made by a call."""
        I = self.I
        ci = ClassInfo(name, I.frames[-1].module, node)
        ci.is_namedtuple = True
        ci.bases = ["typing.NamedTuple"]
        ci.fields = fields
        I.register_class(ci)
        I.class_alloc(st, ci, OCell("class", {"_fields": mk("tup", *[K(n) for n, _ in fields])}))
        return I.cls_term(ci)

    def rejoin(self, ps, sep):
        return Cat(*[y for x in ps for y in (sep, x)][1:])

    def splitparts(self, v, ch):
        """The pieces of v around the character ch, if no unknown part of v can contain it."""
        out = [[]]
        for p in (v.args if v.op == "cat" else (v,)):
            if isK(p) and isinstance(kv(p), str):
                for i, x in enumerate(kv(p).split(ch)):
                    if i:
                        out.append([])
                    out[-1].append(K(x))
            else:
                al = alphabet(p)
                if al is None or ch in al:
                    return None
                out[-1].append(p)
        return [Cat(*x) for x in out]

    def splitterm(self, v, sep):
        t = mk("call", "str.split", v, sep)
        return t

    def lift(self, st, r):
        if isinstance(r, list):
            return self.I.newlist(st, tuple(("it", self.lift(st, x)) for x in r))
        if isinstance(r, tuple):
            return mk("tup", *[self.lift(st, x) for x in r])
        if isinstance(r, dict):
            return self.I.alloc(st, DCell("dict", tuple(("kv", self.lift(st, k), self.lift(st, v)) for k, v in r.items())))
        return K(r)

    def prefix(self, st, v, x, name):
        I = self.I
        x = I.res(st, x)
        if isK(v) and isK(x):
            return B(getattr(kv(v), name)(kv(x)))
        if not isK(x):
            if x is v:
                return TRUE
            vp = list(v.args) if v.op == "cat" else [v]
            xp = list(x.args) if x.op == "cat" else [x]
            if len(xp) <= len(vp) and (vp[:len(xp)] == xp if name == "startswith" else vp[-len(xp):] == xp):
                return TRUE
            return I.dec(st, mk(name, v, x))
        s = kv(x)
        if s == "":
            return TRUE
        ps = list(v.args) if v.op == "cat" else [v]
        p = ps[0] if name == "startswith" else ps[-1]
        if isK(p):
            q = str(kv(p))
            if len(q) >= len(s):
                return B(getattr(q, name)(s))
            if name == "startswith" and not s.startswith(q) or name == "endswith" and not s.endswith(q):
                return FALSE
        al = alphabet(p)
        if al is not None and len(ps) == 1 and any(ch not in al for ch in s):
            return FALSE
        if al is not None and I.dec(st, Truth(p)) is TRUE and (s[0] if name == "startswith" else s[-1]) not in al:
            return FALSE
        # first character classes of the names
        if p.op == "sym" and name == "startswith":
            rx = ops.REGEX.get(p.args[1])
            if rx is not None and not can_start(rx, s):
                return FALSE
        return I.dec(st, mk(name, v, x))

    def strip(self, v, chars, name):
        cs = kv(chars) if chars is not None and chars is not NONE and isK(chars) else (" \t\n\r\x0b\x0c" if chars is None or chars is NONE else None)
        if cs is None:
            return None
        ps = list(v.args) if v.op == "cat" else [v]
        if name in ("strip", "lstrip"):
            while ps:
                if isK(ps[0]):
                    t = kv(ps[0]).lstrip(cs)
                    if t:
                        ps[0] = K(t)
                        break
                    ps = ps[1:]
                    continue
                al = alphabet(ps[0])
                if al is None or any(c in al for c in cs):
                    if cs.strip() == "":
                        break         # only white space may be lost
                    return None
                break
        if name in ("strip", "rstrip"):
            while ps:
                if isK(ps[-1]):
                    t = kv(ps[-1]).rstrip(cs)
                    if t:
                        ps[-1] = K(t)
                        break
                    ps = ps[:-1]
                    continue
                al = alphabet(ps[-1])
                if al is None or any(c in al for c in cs):
                    if cs.strip() == "":
                        break
                    return None
                break
        return Cat(*ps)

    def strformat(self, st, v, a, kw, node):
        if not isK(v):
            if v.op == "cat":
                return mk("call", "str.format", v, *a)
            return mk("call", "str.format", v, *a)
        out = []
        auto = 0
        for lit, field, spec, conv in _string.Formatter().parse(kv(v)):
            if lit:
                out.append(K(lit))
            if field is None:
                continue
            m = re.match(r"^([^.\[]*)(.*)$", field)
            head, rest = m.group(1), m.group(2)
            if head == "":
                x = a[auto] if auto < len(a) else None
                auto += 1
            elif head.isdigit():
                x = a[int(head)] if int(head) < len(a) else None
            else:
                x = kw.get(head)
            if x is None:
                return self.I.implicit(st, "KeyError", head, node)
            for acc in re.findall(r"\.(\w+)|\[([^\]]+)\]", rest):
                if acc[0]:
                    x = self.I.getattr(st, x, acc[0], node)
                else:
                    x = self.getitem(st, x, K(int(acc[1]) if acc[1].isdigit() else acc[1]), node)
            if "{" in (spec or ""):
                spec = self.strformat(st, K(spec), a[auto:], kw, node)
                spec = kv(spec) if isK(spec) else "?"
            if conv == "r":
                x = self.repr_(st, x)
            elif conv == "s":
                x = self.str_(st, x)
            out.append(self.format_(st, x, spec or ""))
            if st.live is None:
                return NONE
        return Cat(*out)

    def percent(self, st, v, arg, node):
        args = None
        if arg.op == "tup":
            args = list(arg.args)
        elif arg.op == "ref":
            c = self.I.cell(st, arg)
            if isinstance(c, LCell) and c.kind == "tuple":
                args = [s[1] for s in c.items if s[0] == "it"]
            elif isinstance(c, DCell):
                d = {kv(e[1]): e[2] for e in c.ents if e[0] == "kv" and isK(e[1])}
                args = d
        if args is None:
            args = [arg]
        out = []
        pos = 0
        i = 0
        s = kv(v)
        for m in re.finditer(r"%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])", s):
            out.append(K(s[pos:m.start()]))
            pos = m.end()
            conv = m.group(5)
            if conv == "%":
                out.append(K("%"))
                continue
            if isinstance(args, dict):
                x = args.get(m.group(1))
            else:
                x = args[i] if i < len(args) else None
                i += 1
            if x is None:
                return self.I.implicit(st, "TypeError", "not enough arguments", node)
            if conv in "sra":
                x = self.str_(st, x) if conv == "s" else self.repr_(st, x)
                w = m.group(3)
                out.append(Fmt(x, ("<" if "-" in m.group(2) else ">") + w + "s") if w else x)
            elif conv in "diu":
                w = m.group(3)
                out.append(self.format_(st, x, (("0" if "0" in m.group(2) else "") + w + "d") if w else ""))
            else:
                out.append(self.format_(st, x, ("#" if "#" in m.group(2) else "") + ("0" if "0" in m.group(2) else "") +
                                        m.group(3) + ("." + m.group(4) if m.group(4) else "") + conv))
        out.append(K(s[pos:]))
        return Cat(*out)

    # --------------------------------------------------------------- items
    def slc(self, st, obj, k, node):
        lo, hi, step = k.args
        I = self.I
        if not all(isK(x) for x in (lo, hi, step)):
            if is_str(obj):
                return mk("slice", obj, lo, hi)
            return I.unk("slice")
        sl = slice(kv(lo), kv(hi), kv(step))
        if isK(obj) and isinstance(kv(obj), (str, bytes)):
            return K(kv(obj)[sl])
        if is_str(obj):
            if sl.step not in (None, 1):
                return mk("call", "str.slice", obj, lo, hi, step)
            ps = list(obj.args) if obj.op == "cat" else [obj]
            # cut inside constant ends
            if (sl.start or 0) >= 0 and sl.stop is not None and sl.stop < 0 and isK(ps[-1]) and len(kv(ps[-1])) >= -sl.stop:
                ps[-1] = K(kv(ps[-1])[:sl.stop])
                obj = Cat(*ps)
                sl = slice(sl.start, None)
                hi = NONE
                ps = list(obj.args) if obj.op == "cat" else [obj]
            if sl.start and sl.start > 0 and sl.stop is None and isK(ps[0]) and len(str(kv(ps[0]))) >= sl.start:
                ps[0] = K(kv(ps[0])[sl.start:])
                return Cat(*ps)
            if not sl.start and sl.stop is None:
                return obj
            if not sl.start and sl.stop is not None and isK(ps[0]) and len(str(kv(ps[0]))) >= sl.stop >= 0:
                return K(kv(ps[0])[:sl.stop])
            if sl.start and sl.start > 0 and sl.stop is None and len(ps) > 1 and self.atleast(ps[0], sl.start):
                return Cat(mk("slice", ps[0], lo, NONE), *ps[1:])
            if not sl.start and sl.stop is not None and sl.stop > 0 and len(ps) > 1 and self.atleast(ps[0], sl.stop):
                return mk("slice", ps[0], K(0) if False else NONE, hi) if lo is NONE else mk("slice", ps[0], lo, hi)
            return mk("slice", obj, lo, hi)
        if obj.op == "tup":
            return mk("tup", *obj.args[sl])
        its = I.iter_items(st, obj, node)
        c = I.cell(st, obj)
        kd = c.kind if isinstance(c, LCell) and c.kind in ("list", "tuple") else "list"
        if all(s[0] == "it" for s in its):
            return I.newlist(st, its[sl], kd)
        if not sl.start and sl.stop is None and sl.step in (None, 1):
            return I.newlist(st, its, kd)
        if sl.step in (None, 1) and sl.stop is None and (sl.start or 0) > 0 and all(s[0] == "it" for s in its[:sl.start]):
            return I.newlist(st, its[sl.start:], kd)
        if sl.step in (None, 1) and not sl.start and (sl.stop or 0) < 0 and all(s[0] == "it" for s in its[sl.stop:]):
            return I.newlist(st, its[:sl.stop], kd)
        if sl.step in (None, 1) and not sl.start and (sl.stop or 0) > 0 and all(s[0] == "it" for s in its[:sl.stop]):
            return I.newlist(st, its[:sl.stop], kd)
        if sl.step == -1 and lo is NONE and hi is NONE:
            return I.newlist(st, self.reverse(its), kd)
        return I.newlist(st, (("sp", I.unk("slice")),), kd)

    def atleast(self, p, n):
        if isK(p):
            return len(str(kv(p))) >= n
        return n == 1 and Truth(p) is TRUE

    def getitem(self, st, obj, k, node):
        I = self.I

        def f(s, o):
            if k.op == "slc":
                return self.slc(s, o, k, node)
            return I.split(s, k, lambda s2, kk: self.getitem1(s2, o, kk, node))
        return I.split(st, obj, f)

    def getitem1(self, st, o, k, node):
        I = self.I
        if o.op == "ref":
            c = I.cell(st, o)
            if isinstance(c, DCell):
                return self.dgetitem(st, o, c, k, node)
            if isinstance(c, LCell):
                return self.lgetitem(st, c.items, k, node)
            if isinstance(c, OCell):
                if c.cls == "Counter":
                    return self.count(st, c.fields["#items"], k)
                if isinstance(c.cls, ClassInfo):
                    kk, m = I.class_find(st, c.cls, "__getitem__")
                    if m is not None:
                        return I.call(st, I.bind_method(o, c.cls, kk, m, st), [k], {}, node)
                    if c.cls.is_namedtuple and isK(k):
                        return c.fields[c.cls.fields[kv(k)][0]]
            return I.unk("getitem")
        if o.op == "tup":
            if isK(k):
                try:
                    return o.args[kv(k)]
                except IndexError:
                    return I.implicit(st, "IndexError", "tuple index", node)
            return I.unk("tuple index")
        if o.op in ("ext",):
            return o
        if o.op == "cls":
            ci = I.classes[o.args[0]]
            if ci.is_enum and isK(k):
                cell = I.class_cell(st, ci)
                if kv(k) in cell.fields:
                    return cell.fields[kv(k)]
                return I.implicit(st, "KeyError", str(kv(k)), node)
            return o
        if isK(o) and isinstance(kv(o), (str, bytes)):
            if isK(k):
                try:
                    return K(kv(o)[kv(k)])
                except Exception as e:
                    self.risky += 1
                    return I.implicit(st, type(e).__name__, str(e), node)
            return mk("index", o, k)
        if is_str(o):
            ps = list(o.args) if o.op == "cat" else [o]
            if isK(k) and isinstance(kv(k), int) and kv(k) >= 0 and isK(ps[0]) and len(str(kv(ps[0]))) > kv(k):
                return K(kv(ps[0])[kv(k)])
            if k is K(0):
                return mk("slice", o, NONE, K(1)) if o.op != "cat" else mk("slice", ps[0], NONE, K(1))
            return mk("index", o, k)
        if o is NONE:
            return I.implicit(st, "TypeError", "None is not subscriptable", node)
        if o.op == "call" and o.args[0] == "str.split" and len(o.args) == 3 and isK(k):
            return mk("call", "str.splititem", o, k)
        if kind(o) == "list":
            sh = I.shape(o)
            return self.lgetitem(st, sh if sh is not None else (("sp", o),), k, node)
        r = mk("index", o, k)
        return r

    def lgetitem(self, st, items, k, node):
        I = self.I
        if isK(k) and isinstance(kv(k), int):
            i = int(kv(k))
            its = items
            # resolve decided options
            its2 = []
            for s in its:
                if s[0] == "opt":
                    c = I.dec(st, s[1])
                    if c is TRUE:
                        its2.extend(s[2])
                        continue
                    if c is FALSE:
                        continue
                if s[0] == "sp" and I.shape(s[1]) is not None:
                    its2.extend(I.shape(s[1]))
                    continue
                if s[0] == "ord" and I.nitems(s[2]) < 2:
                    its2.extend(s[2])
                    continue
                its2.append(s)
            its = tuple(its2)
            if i >= 0 and len(its) > i and all(s[0] == "it" for s in its[:i + 1]):
                return its[i][1]
            if i < 0 and len(its) >= -i and all(s[0] == "it" for s in its[i:]):
                return its[i][1]
            self.risky += 1
            if all(s[0] == "it" for s in its):
                return I.implicit(st, "IndexError", "list index out of range", node)
            if i == 0:
                p, v = self.first_item(st, its)
                if v is None or p is FALSE:
                    return I.implicit(st, "IndexError", "list index out of range", node)
                return I.branch(st, p, lambda s: v, lambda s: I.implicit(s, "IndexError", "list index", node))
            if len(its) == 1 and its[0][0] == "ord" and all(s[0] == "it" for s in its[0][2]) and 0 <= i < len(its[0][2]):
                return mk("nth", str(its[0][1]), its[0][2], i)
            return I.unk("list index")
        if all(s[0] == "it" for s in items) and items:
            out = None
            for j, s in reversed(list(enumerate(items))):
                c = I.dec(st, Eq(k, K(j)))
                if c is TRUE:
                    return s[1]
                if c is FALSE:
                    continue
                out = s[1] if out is None else Ite(c, s[1], out)
            if out is not None:
                self.risky += 1
                return out
            return I.implicit(st, "IndexError", "list index out of range", node)
        return I.unk("list index")

    def dgetitem(self, st, o, c, k, node):
        I = self.I
        p, v = I.dict_lookup(st, c.ents, k)
        p = I.dec(st, p)
        if p is TRUE:
            return v

        def miss(s):
            if c.default is not None:
                x = I.call(s, c.default, [], {}, node)
                cc = I.cell(s, o)
                I.setcell(s, o.args[0], cc.with_ents(cc.ents + (("kv", k, x),)), "default", node)
                return x
            return I.implicit(s, "KeyError", show(k)[:60], node)
        self.risky += 1
        if p is FALSE or v is None:
            return miss(st)
        return I.branch(st, p, lambda s: v, miss)

    def setitem(self, st, obj, k, val, node):
        I = self.I

        def f(s, o):
            if o.op == "ref":
                c = I.cell(s, o)
                if isinstance(c, DCell):
                    I.setcell(s, o.args[0], c.with_ents(self.put_ent(s, c.ents, ("kv", k, val))), "setitem", node)
                    return NONE
                if isinstance(c, LCell):
                    if k.op == "slc":
                        its = I.iter_items(s, val)
                        bs = [kv(x) if isK(x) else None for x in k.args[:2]]
                        if k.args[2] is NONE and all(isK(x) for x in k.args[:2]) and all(x[0] == "it" for x in c.items):
                            l = list(c.items)
                            l[bs[0]:bs[1]] = list(its)
                            I.setcell(s, o.args[0], LCell(c.kind, tuple(l)), "setslice", node)
                        elif all(x is NONE for x in k.args):
                            I.setcell(s, o.args[0], LCell(c.kind, its), "setslice", node)
                        else:
                            I.setcell(s, o.args[0], LCell(c.kind, (("sp", I.unk("slice assignment")),)), "setslice", node)
                        return NONE
                    if isK(k) and isinstance(kv(k), int):
                        i = kv(k)
                        its = list(c.items)
                        if i >= 0 and i < len(its) and all(x[0] == "it" for x in its[:i + 1]) or \
                                i < 0 and -i <= len(its) and all(x[0] == "it" for x in its[i:]):
                            its[i] = ("it", val)
                            I.setcell(s, o.args[0], LCell(c.kind, tuple(its)), "setitem", node)
                            return NONE
                        if all(x[0] == "it" for x in its):
                            self.risky += 1
                            return I.implicit(s, "IndexError", "list assignment index out of range", node)
                    if all(x[0] == "it" for x in c.items):
                        its = []
                        for j, x in enumerate(c.items):
                            q = I.dec(s, Eq(k, K(j)))
                            its.append(("it", Ite(q, val, x[1])))
                        I.setcell(s, o.args[0], LCell(c.kind, tuple(its)), "setitem", node)
                        return NONE
                    I.setcell(s, o.args[0], LCell(c.kind, (("sp", I.unk("list after assignment")),)), "setitem", node)
                    return NONE
                if isinstance(c, OCell) and c.cls == "Counter":
                    its = c.fields["#items"]
                    if val is Add(self.count(s, its, k), K(1)):
                        I.setcell(s, o.args[0], c.set("#items", its + (("it", k),)), "setitem", node)
                    else:
                        I.setcell(s, o.args[0], c.set("#items", (("sp", I.unk("counter")),)), "setitem", node)
                    return NONE
                if isinstance(c, OCell) and isinstance(c.cls, ClassInfo):
                    kk, m = I.class_find(s, c.cls, "__setitem__")
                    if m is not None:
                        I.call(s, I.bind_method(o, c.cls, kk, m, s), [k, val], {}, node)
                        return NONE
            I.event(s, "genwrite", node, obj=o, name="[]", value=val)
            return NONE
        I.split(st, obj, f)

    def delitem(self, st, obj, k, node):
        I = self.I

        def f(s, o):
            c = I.cell(s, o)
            if isinstance(c, DCell):
                self.d_pop(s, o, c, [k], {}, node)
            elif isinstance(c, LCell):
                if k.op == "slc":
                    I.setcell(s, o.args[0], LCell(c.kind, () if all(x is NONE for x in k.args)
                                                  else (("sp", I.unk("slice deletion")),)), "del", node)
                else:
                    self.l_pop(s, o, c, [k], {}, node)
            else:
                I.event(s, "genwrite", node, obj=o, name="del", value=NONE)
            return NONE
        I.split(st, obj, f)

    # ------------------------------------------------------------ operators
    def binop(self, st, op, a, b, node):
        I = self.I
        a = I.res(st, a)
        b = I.res(st, b)
        if a.op == "enum" and a.args[2]:
            a = a.args[3]
        if b.op == "enum" and b.args[2]:
            b = b.args[3]
        # lazy: let string concatenation and arithmetic keep choices symbolic
        if isinstance(op, ast.Add):
            if (is_str(a) or a is EMPTY) and (is_str(b) or b is EMPTY):
                return Cat(a, b)
            if ops.is_num(a) and ops.is_num(b):
                return Add(self.num(a), self.num(b))
        if a.op == "ite":
            return I.branch(st, a.args[0], lambda s: self.binop(s, op, a.args[1], b, node),
                            lambda s: self.binop(s, op, a.args[2], b, node))
        if b.op == "ite":
            return I.branch(st, b.args[0], lambda s: self.binop(s, op, a, b.args[1], node),
                            lambda s: self.binop(s, op, a, b.args[2], node))
        if isinstance(op, ast.Mod) and isK(a) and isinstance(kv(a), str):
            return self.percent(st, a, b, node)
        if isK(a) and isK(b):
            try:
                return K(PYOP[type(op)](kv(a), kv(b)))
            except Exception as e:
                self.risky += 1
                return I.implicit(st, type(e).__name__, str(e), node)
        ca, cb = I.cell(st, a), I.cell(st, b)
        if isinstance(ca, OCell) and isinstance(ca.cls, ClassInfo):
            m = DUNDER.get(type(op))
            if m:
                k, f = I.class_find(st, ca.cls, m)
                if f is not None:
                    return I.call(st, I.bind_method(a, ca.cls, k, f, st), [b], {}, node)
        if isinstance(op, ast.Div) and (isinstance(ca, OCell) and ca.cls == "Path" or isinstance(cb, OCell) and cb.cls == "Path"):
            return self.mkpath(st, self.pjoin(st, [a, b]))
        if isinstance(op, ast.Add):
            la, lb = self.islist(st, a), self.islist(st, b)
            if la and lb:
                kd = ca.kind if isinstance(ca, LCell) else ("tuple" if a.op == "tup" else "list")
                if a.op == "tup" and b.op == "tup":
                    return mk("tup", *(a.args + b.args))
                return I.newlist(st, I.iter_items(st, a) + I.iter_items(st, b), kd)
            if is_str(a) and kind(b) in ("none", "int", "float", "bool") or is_str(b) and kind(a) in ("none", "int", "float", "bool"):
                self.risky += 1
                return I.implicit(st, "TypeError", "cannot add str and %s" % (kind(b) if is_str(a) else kind(a)), node)
            if is_str(a) or is_str(b):
                return Cat(a, b)
            if kind(a) == "bytes" or kind(b) == "bytes" or (isK(a) and isinstance(kv(a), bytes)):
                return Cat(a if not (isK(a) and kv(a) == b"") else EMPTY, b if not (isK(b) and kv(b) == b"") else EMPTY)
            return Add(self.num(a), self.num(b))
        if isinstance(op, ast.Sub):
            if isinstance(ca, LCell) and ca.kind in ("set", "view"):
                return I.newlist(st, self.setop(st, a, ca, [b], "diff", node), "set")
            return Sub(self.num(a), self.num(b))
        if isinstance(op, ast.Mult):
            if self.islist(st, a) and isK(b):
                c = I.iter_items(st, a)
                return I.newlist(st, c * max(0, int(kv(b))), ca.kind if isinstance(ca, LCell) else "list")
            if self.islist(st, b) and isK(a):
                return self.binop(st, op, b, a, node)
            if self.islist(st, a) or self.islist(st, b):
                l, n = (a, b) if self.islist(st, a) else (b, a)
                its = I.iter_items(st, l)
                return I.newlist(st, (("rep", mk("call", "range", n), 85, TRUE, its),))
            if (is_str(a) or isK(a) and isinstance(kv(a), str)) or (is_str(b) or isK(b) and isinstance(kv(b), str)):
                s, n = (a, b) if is_str(a) or isK(a) and isinstance(kv(a), str) else (b, a)
                if isK(n):
                    return Cat(*([s] * max(0, int(kv(n)))))
                if is_bool(n):
                    return Ite(n, s, EMPTY)
                if isK(s) and kv(s).strip() == "":
                    return mk("call", "str.repeat", s, n)
                return mk("call", "str.repeat", s, n)
            return Mul(self.num(a), self.num(b))
        if isinstance(op, ast.BitOr):
            if isinstance(ca, LCell):
                return I.newlist(st, self.setop(st, a, ca, [b], "union", node), "set")
            if isinstance(ca, DCell) and isinstance(cb, DCell):
                r = I.alloc(st, DCell(ca.kind, ca.ents, ca.default))
                self.dict_update(st, r, b, node)
                return r
            if a.op in ("cls", "ext", "union") and b.op in ("cls", "ext", "union", "K"):
                return mk("union", a, b)
            return Bor(self.num(a), self.num(b))
        if isinstance(op, ast.BitAnd):
            if isinstance(ca, LCell):
                return I.newlist(st, self.setop(st, a, ca, [b], "inter", node), "set")
            if is_bool(a) and is_bool(b):
                return And(a, b)
            return self.band(self.num(a), self.num(b))
        if isinstance(op, ast.BitXor):
            if isinstance(ca, LCell):
                return I.newlist(st, self.setop(st, a, ca, [b], "sym", node), "set")
            return mk("call", "xor", a, b)
        if isinstance(op, ast.LShift):
            if is_str(a) or self.islist(st, a) or a is NONE or isinstance(ca, OCell):
                return I.implicit(st, "TypeError", "<<", node)
            return Shl(self.num(a), self.num(b))
        if isinstance(op, ast.RShift):
            return mk("shr", self.num(a), self.num(b))
        if isinstance(op, ast.Div):
            return mk("div", a, b)
        if isinstance(op, ast.FloorDiv):
            ia, ib = interval(a), interval(b)
            if ia and ib and ib[0] == ib[1] and ib[0] > 0 and ops.INF not in map(abs, ia) and ia[0] // ib[0] == ia[1] // ib[0]:
                return K(ia[0] // ib[0])
            return mk("fdiv", a, b)
        if isinstance(op, ast.Mod):
            return mk("mod", a, b)
        if isinstance(op, ast.Pow):
            if b is K(1):
                return a
            if a is K(2):
                return Shl(K(1), b)
            return mk("pow", a, b)
        return I.unk("operator")

    def band(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isK(y) and isinstance(kv(y), int):
                m = kv(y)
                i = interval(x)
                if m >= 0 and (m & (m + 1)) == 0 and i and 0 <= i[0] and i[1] <= m:
                    return x
        return mk("band", *sorted((a, b)))

    def islist(self, st, v):
        if v.op == "tup":
            return True
        c = self.I.cell(st, v)
        return isinstance(c, LCell) or (kind(v) == "list")

    # ---------------------------------------------------------------- cgen
    CG = {
        "Include": ["filename", "system"], "Define": ["symbol", "value"], "LineComment": ["text"],
        "Comment": ["text", "skip_space"], "MultilineComment": ["text", "skip_space"], "Line": ["text"],
        "Value": ["typename", "name"], "ArrayOf": ["subdecl", "count"], "Typedef": ["subdecl"], "Const": ["subdecl"],
        "Static": ["subdecl"], "Struct": ["tpname", "fields", "declname", "pad_bytes"], "Pragma": ["value"],
        "Statement": ["text"], "Pointer": ["subdecl"], "Extern": ["language", "subdecl"], "LiteralLines": ["text"],
    }
    CGD = {"system": TRUE, "skip_space": FALSE, "declname": NONE, "pad_bytes": K(0), "count": NONE, "text": EMPTY}

    def cgen(self, st, name, a, kw, node):
        I = self.I
        names = self.CG.get(name)
        if names is None:
            I.note("cgen." + name)
            return I.alloc(st, OCell("cgen." + name, {"args": mk("tup", *a)}))
        f = dict(zip(names, a))
        f.update(kw)
        for n in names:
            if n not in f:
                if n in self.CGD:
                    f[n] = self.CGD[n]
                else:
                    return I.implicit(st, "TypeError", "cgen.%s: missing %s" % (name, n), node)
        if len(a) > len(names) or any(k not in names for k in kw):
            return I.implicit(st, "TypeError", "cgen.%s arguments" % name, node)
        return I.alloc(st, OCell("cgen." + name, f))

    def render(self, st, v):
        """text of a cgen object"""
        return self.I.split(st, v, lambda s, x: trim_lines(self.render1(s, x)))

    def render1(self, st, v):
        I = self.I
        c = I.cell(st, v)
        if not (isinstance(c, OCell) and isinstance(c.cls, str) and c.cls.startswith("cgen.")):
            if is_str(v):
                return v
            return I.unk("rendering")
        n = c.cls[5:]
        f = c.fields

        def S(x):
            return self.str_(st, f[x])
        if n == "Include":
            return I.branch(st, I.truth(st, f["system"]), lambda s: Cat(K("#include <"), self.str_(s, f["filename"]), K(">")),
                            lambda s: Cat(K('#include "'), self.str_(s, f["filename"]), K('"')))
        if n == "Define":
            return Cat(K("#define "), S("symbol"), K(" "), S("value"))
        if n == "LineComment":
            return Cat(K("// "), S("text"))
        if n == "Comment":
            return I.branch(st, I.truth(st, f["skip_space"]), lambda s: Cat(K("/*"), self.str_(s, f["text"]), K("*/")),
                            lambda s: Cat(K("/* "), self.str_(s, f["text"]), K(" */")))
        if n == "Line":
            return S("text")
        if n == "Statement":
            return Cat(S("text"), K(";"))
        if n == "Pragma":
            return Cat(K("#pragma "), S("value"))
        if n in ("Value", "ArrayOf", "Typedef", "Struct", "Const", "Static", "Pointer"):
            tp, decl = self.decl(st, v)
            if decl is None:
                return Cat(tp, K(";"))
            return Cat(tp, K(" "), decl, K(";"))
        return I.unk("cgen." + n)

    def decl(self, st, v):
        I = self.I
        v = I.res(st, v)
        c = I.cell(st, v)
        if not isinstance(c, OCell):
            return I._strunk("declarator"), None
        n = c.cls[5:]
        f = c.fields
        if n == "Value":
            return self.str_(st, f["typename"]), self.str_(st, f["name"])
        if n == "ArrayOf":
            tp, d = self.decl(st, f["subdecl"])
            cnt = f["count"]
            ct = EMPTY if cnt is NONE else self.str_(st, cnt)
            return tp, Cat(d if d is not None else EMPTY, K("["), ct, K("]"))
        if n in ("Typedef", "Static"):
            tp, d = self.decl(st, f["subdecl"])
            return Cat(K(n.lower() + " "), tp), d
        if n == "Const":
            tp, d = self.decl(st, f["subdecl"])
            return tp, Cat(K("const "), d)
        if n == "Pointer":
            tp, d = self.decl(st, f["subdecl"])
            return tp, Cat(K("*"), d)
        if n == "Struct":
            tn = self.str_(st, f["tpname"]) if f["tpname"] is not NONE else EMPTY
            out = [K("struct") if tn is EMPTY else Cat(K("struct "), tn), K("\n{\n")]
            its = self.loop(st, I.iter_items(st, f["fields"]), lambda s, x: (Cat(K("  "), self.render(s, x), K("\n")),))
            out.append(self.join(st, EMPTY, I.cell(st, its).items) if st.live is not None else EMPTY)
            attr = self.I.ext_patch.get("cgen.Struct.struct_attributes")
            if f["pad_bytes"] is not K(0):
                out.append(Cat(K("  unsigned char _cgen_pad["), self.str_(st, f["pad_bytes"]), K("];\n")))
            out.append(K("} "))
            if attr is not None:
                out.append(I.call(st, attr, [v], {}))
            return Cat(*out), (self.str_(st, f["declname"]) if f["declname"] is not NONE else None)
        return I._strunk("declarator"), None


def trim_lines(t):
    """cgen strips the end of every line (of the constant parts, here)."""
    if isK(t) and isinstance(kv(t), str):
        return K("\n".join(l.rstrip() for l in kv(t).split("\n")))
    if t.op != "cat":
        return t
    ps = []
    for i, p in enumerate(t.args):
        if isK(p) and isinstance(kv(p), str):
            ls = kv(p).split("\n")
            ls = [l.rstrip() for l in ls[:-1]] + ls[-1:]
            if i == len(t.args) - 1:
                ls[-1] = ls[-1].rstrip()
            p = K("\n".join(ls))
        ps.append(p)
    return Cat(*ps)


def can_start(rx, s):
    """Can a string that matches the (simple) name regex begin with s?"""
    pat = rx.pattern
    m = re.match(r"^\^?\[([^\]]+)\]", pat)
    if m:
        return re.match("[" + m.group(1) + "]", s[0]) is not None
    return True


import operator as _op
PYOP = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
        ast.Mod: _op.mod, ast.Pow: _op.pow, ast.LShift: _op.lshift, ast.RShift: _op.rshift, ast.BitOr: _op.or_,
        ast.BitAnd: _op.and_, ast.BitXor: _op.xor}
DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__", ast.BitAnd: "__and__"}

CONSTS = {
    "sys.float_info.max": K(sys.float_info.max),
    "sys.float_info.min": K(sys.float_info.min),
    "sys.maxsize": K(sys.maxsize),
    "os.sep": K("/"), "os.linesep": K("\n"), "os.path.sep": K("/"),
    "math.inf": K(math.inf), "math.pi": K(math.pi),
    "typing.TYPE_CHECKING": FALSE,
    "string.ascii_uppercase": K(_string.ascii_uppercase), "string.ascii_lowercase": K(_string.ascii_lowercase),
    "string.digits": K(_string.digits),
    "logging.DEBUG": K(10), "logging.INFO": K(20), "logging.WARNING": K(30), "logging.ERROR": K(40), "logging.CRITICAL": K(50),
}

from .stdlib_model import NAMES as STD  # the table only: the functions of that module are interpreted, not run
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


@ext("sys.exit", "os._exit")
def _exit(L, st, a, kw, node):
    return L.sysexit(st, a, kw, node)


@ext("os.path.join")
def _join(L, st, a, kw, node):
    return L.pjoin(st, a)


@ext("os.path.dirname")
def _dirname(L, st, a, kw, node):
    return L.dirbase(L.pathterm(st, a[0]))[0]


@ext("os.path.basename")
def _basename(L, st, a, kw, node):
    return L.dirbase(L.pathterm(st, a[0]))[1]


@ext("os.path.splitext")
def _splitext(L, st, a, kw, node):
    p = L.pathterm(st, a[0])
    r = L.splitext(p)
    if r is None:
        L.I.note("os.path.splitext")
        r = mk("call", "splitext0", p), mk("call", "splitext1", p)
    return mk("tup", *r)


@ext("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.fspath", "os.path.expanduser")
def _abspath(L, st, a, kw, node):
    return L.pathterm(st, a[0])


@ext("os.path.exists", "os.path.isdir", "os.path.isfile", "os.access")
def _exists(L, st, a, kw, node):
    return L.I.dec(st, mk("fsq", "exists", L.pathterm(st, a[0])))


@ext("os.path.isabs")
def _isabs(L, st, a, kw, node):
    return L.I.dec(st, mk("fsq", "isabs", L.pathterm(st, a[0])))


@ext("os.makedirs", "os.mkdir")
def _mkdirs(L, st, a, kw, node):
    L.I.event(st, "mkdir", node, path=L.pathterm(st, a[0] if a else kw.get("name", NONE)))
    return NONE


@ext("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
def _path(L, st, a, kw, node):
    return L.mkpath(st, L.pjoin(st, a) if a else K("."))


@ext("io.StringIO", "io.BytesIO")
def _sio(L, st, a, kw, node):
    return L.I.alloc(st, OCell("StringIO", {"content": a[0] if a else EMPTY}))


@ext("io.open", "codecs.open")
def _ioopen(L, st, a, kw, node):
    return L.b_open(st, a, kw, node)


@ext("collections.Counter")
def _counter(L, st, a, kw, node):
    return L.I.alloc(st, OCell("Counter", {"#items": L.items(st, a[0], node) if a else ()}))


@ext("collections.OrderedDict")
def _od(L, st, a, kw, node):
    return L.b_dict(st, a, kw, node)


@ext("collections.defaultdict")
def _dd(L, st, a, kw, node):
    return L.b_dict(st, a[1:], kw, node, "dict", a[0] if a and a[0] is not NONE else None)


@ext("collections.deque")
def _deque(L, st, a, kw, node):
    return L.b_list(st, a, kw, node)


@ext("contextlib.suppress")
def _suppress(L, st, a, kw, node):
    return mk("suppress", *a)


@ext("collections.namedtuple")
def _namedtuple(L, st, a, kw, node):
    I = L.I
    if len(a) < 2 or not isK(a[0]) or set(kw) - {"defaults"}:
        return I.unk("namedtuple")
    if isK(a[1]) and isinstance(kv(a[1]), str):
        names = kv(a[1]).replace(",", " ").split()
    else:
        its = I.iter_items(st, a[1])
        if not all(s[0] == "it" and isK(s[1]) for s in its):
            return I.unk("namedtuple")
        names = [kv(s[1]) for s in its]
    dfl = []
    if "defaults" in kw:
        its = I.iter_items(st, kw["defaults"])
        if not all(s[0] == "it" for s in its):
            return I.unk("namedtuple")
        dfl = [s[1] for s in its]
    return L.mkclass(st, kv(a[0]), [(n, dfl[i - len(names) + len(dfl)] if i >= len(names) - len(dfl) else None)
                                    for i, n in enumerate(names)], node)


@ext("typing.NamedTuple")
def _tnamedtuple(L, st, a, kw, node):
    I = L.I
    if len(a) != 2 or not isK(a[0]):
        return I.unk("namedtuple")
    its = I.iter_items(st, a[1])
    if not all(s[0] == "it" and s[1].op == "tup" and isK(s[1].args[0]) for s in its):
        return I.unk("namedtuple")
    return L.mkclass(st, kv(a[0]), [(kv(s[1].args[0]), None) for s in its], node)


@ext("dataclasses.replace", "copy.replace")
def _dreplace(L, st, a, kw, node):
    I = L.I

    def f(s, v):
        c = I.cell(s, v) if v.op == "ref" else None
        if not isinstance(c, OCell) or not isinstance(c.cls, ClassInfo) or not (c.cls.is_dataclass or c.cls.is_namedtuple):
            I.note("replace")
            return I.unk("replace")
        return I.construct(s, c.cls, [], dict({n: c.fields[n] for n, _ in c.cls.fields if n in c.fields}, **kw), node)
    return I.split(st, a[0], f)


@ext("dataclasses.asdict")
def _asdict(L, st, a, kw, node):
    return _asval(L, st, a[0], True)


@ext("dataclasses.astuple")
def _astuple(L, st, a, kw, node):
    return _asval(L, st, a[0], False)


@ext("dataclasses.fields")
def _dfields(L, st, a, kw, node):
    I = L.I
    c = I.cell(st, a[0]) if a[0].op == "ref" else None
    ci = c.cls if isinstance(c, OCell) else I.classes.get(a[0].args[0]) if a[0].op == "cls" else None
    ns = I.std(st).fields["SimpleNamespace"]
    if not isinstance(ci, ClassInfo):
        I.note("dataclasses.fields")
        return I.unk("fields")
    return I.newlist(st, tuple(("it", I.call(st, ns, [], {"name": K(n)}, node)) for n, _ in ci.fields), "tuple")


def _asval(L, st, v, d):
    I = L.I
    v = I.res(st, v)
    if v.op == "tup":
        return mk("tup", *[_asval(L, st, x, d) for x in v.args])
    if v.op != "ref":
        return v
    c = I.cell(st, v)
    if isinstance(c, OCell) and isinstance(c.cls, ClassInfo) and c.cls.is_dataclass:
        vs = [(n, _asval(L, st, c.fields.get(n, NONE), d)) for n, _ in c.cls.fields]
        if d:
            return I.alloc(st, DCell("dict", tuple(("kv", K(n), x) for n, x in vs)))
        return mk("tup", *[x for _, x in vs])
    if isinstance(c, LCell) and all(x[0] == "it" for x in c.items):
        return I.newlist(st, tuple(("it", _asval(L, st, x[1], d)) for x in c.items), c.kind)
    if isinstance(c, DCell) and all(x[0] == "kv" for x in c.ents):
        return I.alloc(st, DCell(c.kind, tuple(("kv", x[1], _asval(L, st, x[2], d)) for x in c.ents), c.default))
    I.note("asdict")
    return v


@ext("dataclasses.field")
def _field(L, st, a, kw, node):
    return mk("dcfield", kw.get("default", NONE), kw.get("default_factory", NONE))


@ext("enum.auto")
def _auto(L, st, a, kw, node):
    return mk("auto")


@ext("functools.partial")
def _partial(L, st, a, kw, node):
    return mk("part", a[0], tuple(a[1:]), tuple(sorted(kw.items())))


@ext("functools.reduce")
def _reduce(L, st, a, kw, node):
    I = L.I
    its = L.items(st, a[1], node)
    if len(a) > 2:
        acc = a[2]
    elif its and its[0][0] == "it":
        acc = its[0][1]
        its = its[1:]
    else:
        return I.unk("reduce")
    key = "$reduce%d" % I.uid()
    st.env[key] = acc

    def body(s, v, ctl):
        s.env[key] = I.call(s, a[0], [s.env[key], v], {}, node)
    I.run_for(st, its, body)
    if st.live is None:
        return NONE
    return st.env.pop(key)


@ext("itertools.chain")
def _chain(L, st, a, kw, node):
    its = ()
    for x in a:
        if x.op == "starred":
            its = its + (("rep", mk("starred", x.args[0]), 88, TRUE, ()),)
        else:
            its = its + L.items(st, x, node)
    return L.I.newlist(st, its, "gen")


@ext("itertools.chain.from_iterable")
def _chainit(L, st, a, kw, node):
    I = L.I
    r = I.newlist(st, (), "gen")

    def body(s, v, ctl):
        sub = I.iter_items(s, v, node)
        c = s.heap[r.args[0]]
        s.heap[r.args[0]] = LCell(c.kind, c.items + sub)
    I.run_for(st, L.items(st, a[0], node), body)
    return r


@ext("operator.attrgetter")
def _attrgetter(L, st, a, kw, node):
    return mk("opget", "attr", *a)


@ext("operator.itemgetter")
def _itemgetter(L, st, a, kw, node):
    return mk("opget", "item", *a)


@ext("operator.methodcaller")
def _methodcaller(L, st, a, kw, node):
    return mk("opget", "meth", *a)


@ext("operator.or_")
def _or(L, st, a, kw, node):
    return L.binop(st, ast.BitOr(), a[0], a[1], node)


@ext("operator.add", "operator.concat", "operator.iconcat")
def _add(L, st, a, kw, node):
    return L.binop(st, ast.Add(), a[0], a[1], node)


@ext("copy.copy")
def _copy(L, st, a, kw, node):
    def f(s, v):
        c = L.I.cell(s, v)
        if c is None:
            return v
        return L.I.alloc(s, c)
    return L.I.split(st, a[0], f)


@ext("copy.deepcopy")
def _deepcopy(L, st, a, kw, node):
    I = L.I
    memo = {}

    def g(t):
        def h(x):
            if x.op == "ref":
                if x in memo:
                    return memo[x]
                c = st.heap.get(x.args[0])
                if c is None or isinstance(c, FCell):
                    return None
                I.naddr += 1
                r = mk("ref", I.naddr)
                if I.depth:
                    I.summary[I.naddr] = I.depth
                memo[x] = r
                st.heap[r.args[0]] = I.map_cell(c, g)
                return r
            return None
        return subst(t, h)
    return g(a[0])


@ext("typing.cast")
def _cast(L, st, a, kw, node):
    return a[1]


@ext("argparse.ArgumentParser")
def _argp(L, st, a, kw, node):
    return L.I.alloc(st, OCell("ArgParser", {"command": NONE}))


@ext("struct.Struct")
def _struct(L, st, a, kw, node):
    return L.I.alloc(st, OCell("Struct", {"format": a[0]}))


@ext("struct.pack")
def _pack(L, st, a, kw, node):
    return mk("call", "struct.pack", *a)


@ext("math.log2")
def _log2(L, st, a, kw, node):
    return _log(L, st, [a[0], K(2)], kw, node)


@ext("math.log")
def _log(L, st, a, kw, node):
    def f(s, v):
        if isK(v) and all(isK(x) for x in a[1:]):
            try:
                return K(math.log(kv(v), *[kv(x) for x in a[1:]]))
            except Exception as e:
                return L.I.implicit(s, type(e).__name__, str(e), node)
        r = mk("call", "math.log", v, *a[1:])
        ops.KIND[r] = "float"
        return r
    return L.I.split(st, a[0], f)


@ext("math.ceil", "math.floor", "math.trunc")
def _ceil(L, st, a, kw, node):
    if isK(a[0]):
        return K(math.ceil(kv(a[0])))
    r = mk("call", "math.ceil", *a)
    ops.KIND[r] = "int"
    return r


EXT["math.floor"] = lambda L, st, a, kw, node: K(math.floor(kv(a[0]))) if isK(a[0]) else _ceil2(a)
EXT["math.trunc"] = EXT["math.floor"]


def _ceil2(a):
    r = mk("call", "math.floor", *a)
    ops.KIND[r] = "int"
    return r


def regex_literals(pat):
    """Alternatives of a pattern that matches one of a finite set of literal strings, or None."""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    try:
        p = sp.parse(pat)
    except Exception:
        return None

    def seq(items):
        outs = [""]
        for op, av in items:
            o = str(op)
            if o == "LITERAL":
                outs = [x + chr(av) for x in outs]
            elif o == "IN":
                chars = []
                for io, iv in av:
                    if str(io) == "LITERAL":
                        chars.append(chr(iv))
                    else:
                        return None
                outs = [x + c for x in outs for c in chars]
            elif o == "BRANCH":
                alts = []
                for b in av[1]:
                    r = seq(b)
                    if r is None:
                        return None
                    alts.extend(r)
                outs = [x + y for x in outs for y in alts]
            elif o == "SUBPATTERN":
                r = seq(av[-1])
                if r is None:
                    return None
                outs = [x + y for x in outs for y in r]
            elif o == "AT":
                return None
            else:
                return None
        return outs
    return seq(p)


@ext("re.compile")
def _recompile(L, st, a, kw, node):
    return mk("call", "re.compile", a[0])


@ext("re.sub")
def _resub(L, st, a, kw, node):
    if len(a) == 3 and not kw and isK(a[0]) and isK(a[1]) and "\\" not in kv(a[1]):
        alts = regex_literals(kv(a[0]))
        if alts is not None and len(alts) == 1:
            return Replace(a[2], K(alts[0]), a[1])
    if all(isK(x) for x in a) and all(isK(x) for x in kw.values()):
        return K(re.sub(*[kv(x) for x in a], **{k: kv(x) for k, x in kw.items()}))
    r = mk("call", "str.resub", *a)
    return r


@ext("re.search")
def _research(L, st, a, kw, node):
    I = L.I
    pat = a[0]
    if pat.op == "call" and pat.args[0] == "re.compile":
        pat = pat.args[1]
    nm = "search"
    if isK(pat) and isK(a[1]):
        return Ite(B(re.search(kv(pat), kv(a[1])) is not None), mk("matchobj", pat, a[1], "search"), NONE)
    if isK(pat):
        alts = regex_literals(kv(pat))
        if alts is not None:
            return Ite(I.dec(st, Or(*[Contains(a[1], K(x)) for x in alts])), mk("matchobj", pat, a[1]), NONE)
    return Ite(I.dec(st, mk("truthy", mk("call", "re.search", pat, a[1]))), mk("matchobj", pat, a[1]), NONE)


for _n in ("re.match", "re.fullmatch"):
    def _rm(L, st, a, kw, node, _n=_n):
        if isK(a[0]) and isK(a[1]):
            f = getattr(re, _n[3:])
            return Ite(B(f(kv(a[0]), kv(a[1])) is not None), mk("matchobj", a[0], a[1], _n[3:]), NONE)
        return Ite(L.I.dec(st, mk("truthy", mk("call", _n, a[0], a[1]))), mk("matchobj", a[0], a[1]), NONE)
    EXT[_n] = _rm


def _const(name):
    def f(L, st, a, kw, node):
        if all(isK(x) for x in a) and all(isK(x) for x in kw.values()):
            m, n = name.split(".")
            try:
                return L.lift(st, getattr(__import__(m), n)(*[kv(x) for x in a], **{k: kv(x) for k, x in kw.items()}))
            except Exception as e:
                return L.I.implicit(st, type(e).__name__, str(e), node)
        L.I.note("external call %s" % name)
        return mk("call", name, *a)
    EXT[name] = f


for _n in ("re.findall", "re.split", "re.escape", "struct.calcsize", "struct.unpack", "string.capwords", "textwrap.fill",
           "textwrap.wrap", "textwrap.shorten"):
    _const(_n)


@ext("textwrap.dedent")
def _dedent(L, st, a, kw, node):
    import textwrap
    return K(textwrap.dedent(kv(a[0]))) if isK(a[0]) else a[0]


@ext("textwrap.indent")
def _indent(L, st, a, kw, node):
    import textwrap
    if isK(a[0]) and isK(a[1]):
        return K(textwrap.indent(kv(a[0]), kv(a[1])))
    return Replace(a[0], K("\n"), Cat(K("\n"), a[1])) if isK(a[1]) and kv(a[1]).strip() == "" else mk("call", "str.indent", *a)


@ext("builtins.str.maketrans", "str.maketrans")
def _maketrans(L, st, a, kw, node):
    if len(a) == 2 and isK(a[0]) and isK(a[1]):
        return mk("transtab", *[(K(x), K(y)) for x, y in zip(kv(a[0]), kv(a[1]))])
    if len(a) == 1 and a[0].op == "ref":
        c = L.I.cell(st, a[0])
        if isinstance(c, DCell) and all(e[0] == "kv" for e in c.ents):
            return mk("transtab", *[(e[1], e[2]) for e in c.ents])
    return L.I.unk("maketrans")


@ext("builtins.str.lower", "builtins.str.upper", "builtins.str.replace", "builtins.str.join", "builtins.str.strip", "builtins.str.format")
def _strfn(L, st, a, kw, node):
    return L.I.unk("str method")


for _m in ("lower", "upper", "replace", "join", "strip", "format", "startswith", "split"):
    EXT["builtins.str." + _m] = (lambda m: lambda L, st, a, kw, node: L.call_method(st, a[0], m, a[1:], kw, node))(_m)
EXT["builtins.dict.fromkeys"] = lambda L, st, a, kw, node: _fromkeys(L, st, a, kw, node)
EXT["collections.OrderedDict.fromkeys"] = EXT["builtins.dict.fromkeys"]


def _fromkeys(L, st, a, kw, node):
    I = L.I
    r = I.alloc(st, DCell())
    v = a[1] if len(a) > 1 else NONE

    def body(s, k, ctl):
        c = I.cell(s, r)
        s.heap[r.args[0]] = c.with_ents(L.put_ent(s, c.ents, ("kv", k, v)))
    I.run_for(st, L.items(st, a[0], node), body)
    return r
