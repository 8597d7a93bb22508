"""Models of library functions, in Python.  Never imported or run: the interpreter loads this file as the module "$std"
and interprets it when the analysed program uses the name given in NAMES."""
NAMES = {
    "itertools.islice": "islice", "itertools.takewhile": "takewhile", "itertools.dropwhile": "dropwhile",
    "itertools.groupby": "groupby", "itertools.zip_longest": "zip_longest", "itertools.pairwise": "pairwise",
    "itertools.accumulate": "accumulate", "itertools.count": "Count", "itertools.repeat": "repeat",
    "itertools.product": "product", "itertools.starmap": "starmap", "itertools.filterfalse": "filterfalse",
    "itertools.compress": "compress", "itertools.tee": "tee", "itertools.cycle": "Cycle",
    "itertools.combinations": "combinations", "itertools.permutations": "permutations",
    "contextlib.ExitStack": "ExitStack", "contextlib.closing": "Closing", "contextlib.nullcontext": "NullContext",
    "functools.cmp_to_key": "cmp_to_key", "functools.singledispatch": "SingleDispatch",
    "functools.singledispatchmethod": "SingleDispatchMethod",
    "functools.partialmethod": "partialmethod",
    "operator.mul": "op_mul", "operator.sub": "op_sub", "operator.eq": "op_eq", "operator.ne": "op_ne",
    "operator.lt": "op_lt", "operator.le": "op_le", "operator.gt": "op_gt", "operator.ge": "op_ge",
    "operator.getitem": "op_getitem", "operator.contains": "op_contains", "operator.not_": "op_not",
    "operator.neg": "op_neg", "operator.and_": "op_and", "operator.xor": "op_xor", "operator.truediv": "op_truediv",
    "operator.floordiv": "op_floordiv", "operator.mod": "op_mod", "operator.pow": "op_pow", "operator.is_": "op_is",
    "operator.is_not": "op_isnot", "operator.lshift": "op_lshift", "operator.rshift": "op_rshift",
    "operator.truth": "op_truth", "operator.setitem": "op_setitem", "operator.indexOf": "op_index",
    "types.SimpleNamespace": "SimpleNamespace", "argparse.Namespace": "SimpleNamespace",
    "types.MappingProxyType": "mapping_proxy",
    "bisect.bisect_left": "bisect_left", "bisect.bisect_right": "bisect_right", "bisect.bisect": "bisect_right",
    "bisect.insort": "insort", "bisect.insort_right": "insort",
    "heapq.heapify": "heapify", "heapq.heappop": "heappop", "heapq.heappush": "heappush",
    "heapq.nsmallest": "nsmallest", "heapq.nlargest": "nlargest",
    "collections.ChainMap": "chain_map",
}


def islice(it, *a):
    xs = list(it)
    if len(a) == 1:
        return iter(xs[:a[0]])
    if len(a) == 2:
        return iter(xs[a[0]:a[1]])
    return iter(xs[a[0]:a[1]:a[2]])


def takewhile(p, it):
    for x in it:
        if not p(x):
            break
        yield x


def dropwhile(p, it):
    on = False
    for x in it:
        if not on and not p(x):
            on = True
        if on:
            yield x


def groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter(out)


def zip_longest(*its, fillvalue=None):
    ls = [list(x) for x in its]
    n = max(len(x) for x in ls)
    return iter([tuple(x[i] if i < len(x) else fillvalue for x in ls) for i in range(n)])


def pairwise(it):
    xs = list(it)
    return zip(xs, xs[1:])


def accumulate(it, func=None, *, initial=None):
    out = []
    started = False
    tot = None
    if initial is not None:
        tot = initial
        started = True
        out.append(tot)
    for x in it:
        if not started:
            tot = x
            started = True
        elif func is None:
            tot = tot + x
        else:
            tot = func(tot, x)
        out.append(tot)
    return iter(out)


class Count:
    def __init__(self, start=0, step=1):
        self.n = start
        self.step = step

    def __iter__(self):
        return self

    def __next__(self):
        r = self.n
        self.n = r + self.step
        return r


class Cycle:
    def __init__(self, it):
        self.xs = list(it)
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if not self.xs:
            raise StopIteration
        r = self.xs[self.i % len(self.xs)]
        self.i = self.i + 1
        return r


class Repeat:
    def __init__(self, x):
        self.x = x

    def __iter__(self):
        return self

    def __next__(self):
        return self.x


def repeat(x, times=None):
    if times is None:
        return Repeat(x)
    return iter([x for _ in range(times)])


def zip_count_first(c, xs):
    out = []
    for x in xs:
        out.append((c.__next__(), x))
    return iter(out)


def zip_count_last(xs, c):
    out = []
    for x in xs:
        out.append((x, c.__next__()))
    return iter(out)


def product(*its, repeat=1):
    ls = [list(x) for x in its] * repeat
    out = [()]
    for l in ls:
        out = [x + (y,) for x in out for y in l]
    return iter(out)


def combinations(it, r):
    xs = list(it)
    if r == 0:
        return iter([()])
    out = []
    for i, x in enumerate(xs):
        for c in combinations(xs[i + 1:], r - 1):
            out.append((x,) + c)
    return iter(out)


def permutations(it, r=None):
    xs = list(it)
    n = len(xs) if r is None else r
    if n == 0:
        return iter([()])
    out = []
    for i, x in enumerate(xs):
        for c in permutations(xs[:i] + xs[i + 1:], n - 1):
            out.append((x,) + c)
    return iter(out)


def starmap(fn, it):
    for x in it:
        yield fn(*x)


def filterfalse(p, it):
    for x in it:
        if p is None:
            if not x:
                yield x
        elif not p(x):
            yield x


def compress(it, sel):
    return iter([x for x, s in zip(it, sel) if s])


def tee(it, n=2):
    xs = list(it)
    return tuple([iter(xs) for _ in range(n)])


def drain(it):
    out = []
    while True:
        try:
            x = it.__next__()
        except StopIteration:
            break
        out.append(x)
    return out


def iter_sentinel(fn, end):
    out = []
    while True:
        x = fn()
        if x == end:
            break
        out.append(x)
    return iter(out)


class ExitStack:
    def __init__(self):
        self.cbs = []

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        while self.cbs:
            fn, a, k = self.cbs.pop()
            fn(*a, **k)
        return False

    def close(self):
        self.__exit__(None, None, None)

    def pop_all(self):
        new = ExitStack()
        new.cbs = self.cbs
        self.cbs = []
        return new

    def callback(self, fn, *a, **k):
        self.cbs.append((fn, a, k))
        return fn

    def enter_context(self, cm):
        r = cm.__enter__()
        self.cbs.append((cm.__exit__, (None, None, None), {}))
        return r

    def push(self, cm):
        self.cbs.append((cm.__exit__, (None, None, None), {}))
        return cm


class Closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()


class NullContext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *exc):
        return None


class CmpKey:
    def __init__(self, fn, x):
        self.fn = fn
        self.x = x

    def __lt__(self, o):
        return self.fn(self.x, o.x) < 0

    def __gt__(self, o):
        return self.fn(self.x, o.x) > 0

    def __le__(self, o):
        return self.fn(self.x, o.x) <= 0

    def __ge__(self, o):
        return self.fn(self.x, o.x) >= 0

    def __eq__(self, o):
        return self.fn(self.x, o.x) == 0


def cmp_to_key(fn):
    return lambda x: CmpKey(fn, x)


class SingleDispatch:
    def __init__(self, fn):
        self.fn = fn
        self.reg = []

    def register(self, cls, fn=None):
        if fn is not None:
            self.reg.append((cls, fn))
            return fn

        def deco(g):
            self.reg.append((cls, g))
            return g
        return deco

    def dispatch(self, cls):
        best = None
        found = self.fn
        for c, fn in self.reg:
            if issubclass(cls, c) and (best is None or issubclass(c, best)):
                best = c
                found = fn
        return found

    def __call__(self, x, *a, **k):
        best = None
        found = self.fn
        for c, fn in self.reg:
            if isinstance(x, c) and (best is None or issubclass(c, best)):
                best = c
                found = fn
        return found(x, *a, **k)


class SingleDispatchMethod(SingleDispatch):
    def call(self, me, x, *a, **k):
        best = None
        found = self.fn
        for c, fn in self.reg:
            if isinstance(x, c) and (best is None or issubclass(c, best)):
                best = c
                found = fn
        return found(me, x, *a, **k)


def partialmethod(fn, *a, **k):
    return lambda self, *b, **m: fn(self, *a, *b, **{**k, **m})


def op_mul(a, b): return a * b
def op_sub(a, b): return a - b
def op_eq(a, b): return a == b
def op_ne(a, b): return a != b
def op_lt(a, b): return a < b
def op_le(a, b): return a <= b
def op_gt(a, b): return a > b
def op_ge(a, b): return a >= b
def op_getitem(a, b): return a[b]
def op_contains(a, b): return b in a
def op_not(a): return not a
def op_neg(a): return -a
def op_and(a, b): return a & b
def op_xor(a, b): return a ^ b
def op_truediv(a, b): return a / b
def op_floordiv(a, b): return a // b
def op_mod(a, b): return a % b
def op_pow(a, b): return a ** b
def op_is(a, b): return a is b
def op_isnot(a, b): return a is not b
def op_lshift(a, b): return a << b
def op_rshift(a, b): return a >> b
def op_truth(a): return bool(a)
def op_setitem(a, b, c): a[b] = c
def op_index(a, b): return list(a).index(b)


class SimpleNamespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def mapping_proxy(d):
    return d


def chain_map(*maps):
    out = {}
    for m in reversed(maps):
        out.update(m)
    return out


def bisect_left(a, x, lo=0, hi=None):
    n = len(a) if hi is None else hi
    i = lo
    while i < n and a[i] < x:
        i += 1
    return i


def bisect_right(a, x, lo=0, hi=None):
    n = len(a) if hi is None else hi
    i = lo
    while i < n and not x < a[i]:
        i += 1
    return i


def insort(a, x):
    a.insert(bisect_right(a, x), x)


def heapify(h):
    h.sort()


def heappop(h):
    m = min(h)
    h.remove(m)
    return m


def heappush(h, x):
    h.append(x)
    h.sort()


def nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]


def nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]


def total_le(self, o):
    return self < o or self == o


def total_gt(self, o):
    return not (self < o or self == o)


def total_ge(self, o):
    return not self < o


def total2_lt(self, o):
    return not (self > o or self == o)
