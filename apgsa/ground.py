"""Ground evaluation of terms: used to decide whether two spellings of a
symbolic text denote the same text, and to decide arithmetic terms over a
finite input space exhaustively."""
import random
import zlib

from .terms import T, K, isK, kv, subterms
from . import ops


class NoGround(Exception):
    pass


NAMES_LOW = ["a", "b", "x1", "some-name", "a-b-c", "k9-z", "q-0", "long-member-name-2", "apid", "zz"]
NAMES_CAP = ["A", "B", "X1", "Some-name", "T-b-c", "K9-z", "Q-0", "Long-type-name-2", "Msg", "Zz"]


def sample(sym, i, salt=0):
    """The i-th sample value of a symbol."""
    k = sym.args[1]
    h = zlib.crc32(("%s/%s" % (sym.args[0], k)).encode()) + i * 7919 + salt
    if k in ("str:NameLower", "str:NameCapital") and i % 6 == 5:
        n = (NAMES_LOW if k == "str:NameLower" else NAMES_CAP)[h % 10]
        return n + "-very-long-name-of-some-element" * 3 + "-v%d" % (h % 9973)
    if k == "str:NameLower":
        return NAMES_LOW[h % 10] + ("" if i % 2 else "-" + "v%d" % (h % 9973))
    if k == "str:NameCapital":
        return NAMES_CAP[h % 10] + ("" if i % 2 else "-" + "v%d" % (h % 9973))
    if k.startswith("str"):
        return ["Text %d", "t%d, (x/y)", "a.b-c_%d"][i % 3] % (h % 9973)
    iv = ops.FACTS.iv.get(sym)
    if k == "int":
        lo, hi = iv if iv else (-1000, 1000)
        if i == 0:
            return lo
        if i == 1:
            return hi
        return random.Random(h).randint(lo, hi)
    if k == "float":
        lo, hi = iv if iv else (-1000.0, 1000.0)
        return random.Random(h).uniform(lo, hi)
    raise NoGround(k)


def ev(t, env):
    if not isinstance(t, T):
        return t
    r = env.get(t)
    if r is not None:
        return r
    o, a = t.op, t.args
    if o == "K":
        return a[0]
    if o == "cat":
        return "".join(ev(x, env) if isinstance(ev(x, env), str) else str(ev(x, env)) for x in a)
    if o == "str":
        return str(ev(a[0], env))
    if o == "fmt":
        return format(ev(a[0], env), a[1])
    if o == "lower1":
        s = ev(a[0], env)
        return s[:1].lower() + s[1:]
    if o == "lin":
        return a[0] + sum(c * ev(x, env) for c, x in a[1])
    if o == "mul":
        return ev(a[0], env) * ev(a[1], env)
    if o == "shl":
        return ev(a[0], env) << ev(a[1], env)
    if o == "shr":
        return ev(a[0], env) >> ev(a[1], env)
    if o == "bor":
        r = 0
        for x in a:
            r |= ev(x, env)
        return r
    if o == "band":
        r = ev(a[0], env)
        for x in a[1:]:
            r &= ev(x, env)
        return r
    if o == "mod":
        return ev(a[0], env) % ev(a[1], env)
    if o == "fdiv":
        return ev(a[0], env) // ev(a[1], env)
    if o == "div":
        return ev(a[0], env) / ev(a[1], env)
    if o == "pow":
        return ev(a[0], env) ** ev(a[1], env)
    if o == "neg":
        return -ev(a[0], env)
    if o == "bitlen":
        return ev(a[0], env).bit_length()
    if o == "len":
        return len(ev(a[0], env))
    if o == "ite":
        return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
    if o == "eq":
        return ev(a[0], env) == ev(a[1], env)
    if o == "lt":
        return ev(a[0], env) < ev(a[1], env)
    if o == "not":
        return not ev(a[0], env)
    if o == "and":
        return all(ev(x, env) for x in a)
    if o == "or":
        return any(ev(x, env) for x in a)
    if o == "truthy":
        return bool(ev(a[0], env))
    if o == "contains":
        return ev(a[1], env) in ev(a[0], env)
    if o == "max":
        return max(ev(x, env) for x in a)
    if o == "min":
        return min(ev(x, env) for x in a)
    if o == "call":
        n = a[0]
        if n in ("str.replace", "str.upper", "str.lower", "str.capitalize", "str.title", "str.strip",
                 "str.lstrip", "str.rstrip", "str.find", "str.count", "str.swapcase", "str.casefold",
                 "str.removeprefix", "str.removesuffix", "str.ljust", "str.rjust", "str.zfill", "str.center",
                 "str.index", "str.startswith", "str.endswith"):
            s = ev(a[1], env)
            return getattr(s, n[4:])(*[ev(x, env) for x in a[2:]])
        if n == "str.join" and len(a) == 3 and isinstance(a[2], tuple):
            out = []
            for x in a[2]:
                if x[0] == "it":
                    out.append(ev(x[1], env))
                elif x[0] == "ord" and x[1] == "sorted" and all(y[0] == "it" for y in x[2]):
                    out += sorted(ev(y[1], env) for y in x[2])
                else:
                    raise NoGround("str.join")
            return ev(a[1], env).join(out)
        if n == "struct.pack":
            import struct
            return struct.pack(*[ev(x, env) for x in a[1:]])
    if o in ("slice", "index"):
        s = ev(a[0], env)
        xs = [ev(x, env) for x in a[1:]]
        if o == "index":
            return s[xs[0]]
        return s[slice(*xs)]
    raise NoGround(o if o != "call" else a[0])


def syms(ts):
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == "sym" and x not in out:
                out.append(x)
    return out
