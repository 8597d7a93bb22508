"""Building blocks of scenarios."""
from .terms import mk, K
from .scen import (low, cap, path, comment, typ, string, array, pair, members, seq, choice, enum, simple, wcomp,
                   imp, module)
from .textxm import Node, Others

INT = K("INTEGER")
REAL = K("REAL")
BOOL = K("BOOLEAN")
FMAX = 3.4e38
DMAX = 1.7976931348623157e308
INF = float("inf")

RANGES = {
    "Int8-t": (-2**7, 2**7 - 1), "Int16-t": (-2**15, 2**15 - 1), "Int32-t": (-2**31, 2**31 - 1),
    "Int64-t": (-2**63, 2**63 - 1), "Uint8-t": (0, 2**8 - 1), "Uint16-t": (0, 2**16 - 1),
    "Uint32-t": (0, 2**32 - 1), "Uint64-t": (0, 2**64 - 1), "Float": (-FMAX, FMAX), "Double": (-DMAX, DMAX),
}


def txt(l):
    return mk("sym", l, "str:text")


def isym(l):
    return mk("sym", l, "int")


def fsym(l):
    return mk("sym", l, "float")


def com(l, text=True, unit=False, little=False):
    return comment(txt("c:" + l) if text else None, txt("u:" + l) if unit else None, K(True) if little else None)


def u(b):
    """An unsigned type of b bits."""
    return typ(INT, K(0), K(2**b - 1))


def boolean():
    return typ(BOOL)


def integer(b, e):
    return typ(INT, b if not isinstance(b, int) else K(b), e if not isinstance(e, int) else K(e))


def real(b, e):
    return typ(REAL, b if not isinstance(b, float) else K(b), e if not isinstance(e, float) else K(e))


def posix(name):
    b, e = RANGES[name]
    return simple(K(name), typ(REAL if name in ("Float", "Double") else INT, K(b), K(e)))


def filler(l="Msg", k="f"):
    """A plain sequence (so that every command has something to generate)."""
    return seq(cap(l), [(low(k + "-x"), u(8)), (low(k + "-y"), boolean())])


def fill_defs(l):
    """A definition of each kind, with names that start with l."""
    return {
        "Sequence": lambda n: seq(n, [(low(l + "sa"), u(8)), (low(l + "sb"), u(3))]),
        "Choice": lambda n: choice(n, [(low(l + "ca"), typ(INT, K(0), K(255))), (low(l + "cb"), boolean())]),
        "Enumerated": lambda n: enum(n, [low(l + "ea"), low(l + "eb")]),
        "SimpleDefinition": lambda n: simple(n, u(5)),
    }


KINDS = ["Sequence", "Choice", "Enumerated", "SimpleDefinition"]


def definition(kind, name, l):
    return fill_defs(l)[kind](name)
