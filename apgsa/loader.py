"""Source loading: modules, classes and functions of /repo/asn1_parser as
syntax trees.  Nothing of the repository is imported or executed."""
import ast
import os


class AnalysisError(Exception):
    """The analysis lost an anchor (error exit, no verdict)."""


class FuncInfo:
    def __init__(self, node, module, cls, name, closure=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = name
        self.closure = closure
        self.deco = []
        self.defaults = {}
        self.is_lambda = isinstance(node, ast.Lambda)
        self._gen = None

    @property
    def qual(self):
        return "%s:%s%s" % (self.module.name, (self.cls.name + ".") if self.cls else "", self.name)

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = False
            if not self.is_lambda:
                todo = list(self.node.body)
                while todo:
                    n = todo.pop()
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self._gen = True
                        break
                    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    todo.extend(ast.iter_child_nodes(n))
        return self._gen

    def __repr__(self):
        return "fn:" + self.qual


class ClassInfo:
    def __init__(self, name, module, node):
        self.name = name
        self.key = name        # name under which terms refer to the class
        self.module = module
        self.node = node
        self.bases = []
        self.ns = {}
        self.is_enum = False
        self.is_strenum = False
        self.is_exc = False
        self.is_dataclass = False
        self.is_namedtuple = False
        self.fields = []

    @property
    def qual(self):
        return self.module.name + ":" + self.name

    def mro(self):
        bs = [b for b in self.bases if isinstance(b, ClassInfo)]
        seqs = [list(b.mro()) for b in bs] + [list(bs)]
        out = [self]
        while any(seqs):
            seqs = [q for q in seqs if q]
            for q in seqs:
                if not any(q[0] in r[1:] for r in seqs):
                    break
            c = q[0]
            out.append(c)
            for r in seqs:
                if r and r[0] is c:
                    del r[0]
            if len(out) > 200:
                break
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, str):
                    out.append(b)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c, c.ns[name]
        return None, None

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return "cls:" + self.qual


class ModInfo:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.env = {}
        self.started = False
        self.done = False

    def __repr__(self):
        return "mod:" + self.name


class Loader:
    def __init__(self, root, package="asn1_parser"):
        self.root = root
        self.package = package
        self.mods = {}
        self.files = []
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError("package %s not found in %s" % (package, root))
        for d, subs, fs in os.walk(base):
            subs[:] = sorted(s for s in subs if s != "__pycache__")
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path, encoding="utf8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (rel, e))
                self.mods[name] = ModInfo(name, rel, tree)
                self.files.append(rel)
        std = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stdlib_model.py")
        with open(std, encoding="utf8") as fh:
            self.mods["$std"] = ModInfo("$std", "<library>", ast.parse(fh.read(), "<library>"))
        self.packages = set()
        for n in self.mods:
            parts = n.split(".")
            for i in range(1, len(parts)):
                self.packages.add(".".join(parts[:i]))

    def stats(self):
        funcs = 0
        classes = 0
        for m in self.mods.values():
            if m.name == "$std":
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    funcs += 1
                elif isinstance(n, ast.ClassDef):
                    classes += 1
        return {"modules": len(self.mods) - 1, "functions": funcs, "classes": classes}
