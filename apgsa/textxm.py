"""Model of the textX library: reads the grammar text, and builds the abstract
module objects a scenario describes (allocation, attribute defaults, the
order of __init__, object processors and model processors as in textX)."""
import re

from .terms import T, mk, K, NONE, TRUE, FALSE, EMPTY, isK, kv, subterms, Cat
from . import ops
from .heap import LCell, DCell, OCell
from .grammar import Grammar, BASE
from .ground import ev, NoGround
from .peg import Peg, Builder, Spell, Obj, Missing, Semantic, Imprecise, piece
from .loader import AnalysisError, ClassInfo


class Node:
    """An object of the parsed module: a grammar rule and its attributes.
    Attribute values: terms, Nodes, lists of Nodes / terms / Others."""

    def __init__(self, rule, **attrs):
        self.rule = rule
        self.attrs = attrs
        self.ref = None

    def __repr__(self):
        return "<%s %s>" % (self.rule, self.attrs)


class Others:
    """Any number of further list elements, summarised."""

    def __init__(self, label, kind):
        self.term = mk("others", label, kind)


SEM = "textx.exceptions.TextXSemanticError"


def relocate(old, new, marks):
    """Where the marked parts of a text are after a transformation of it."""
    out = []
    pos = 0
    for s, e, t in marks:
        w = old[s:e]
        i = new.find(w, pos)
        if i < 0 or new.count(w) != old.count(w):
            raise Imprecise("transformed text of a module")
        # as many occurrences before it as there were
        k = old[:s].count(w)
        i = -1
        for _ in range(k + 1):
            i = new.find(w, i + 1)
        out.append((i, i + len(w), t))
        pos = i + len(w)
    return out


PYDEF = {"int": K(0), "float": K(0.0), "bool": FALSE, "str": EMPTY}


class TextX:
    def __init__(self, interp):
        self.I = interp
        self.grammar = None
        self.tmpl = {}
        self.user = {}
        self.models = []
        self.names = {}
        self.texts = {}
        self.refused = None
        self._g = {}
        self._trees = {}

    # ------------------------------------------------------------ library
    def call(self, st, name, args, kw, node):
        I = self.I
        short = name.split(".")[-1]
        if short == "metamodel_from_str":
            g = kw.get("lang_desc", kw.get("grammar", args[0] if args else None))
            if g is None or not isK(g) or not isinstance(kv(g), str):
                raise AnalysisError("the grammar given to metamodel_from_str is not a constant text")
            cl = kw.get("classes", args[1] if len(args) > 1 else None)
            user = {}
            if cl is not None and I.res(st, cl) is not NONE:
                for s in I.iter_items(st, cl, node):
                    if s[0] == "it" and s[1].op == "cls":
                        user[I.classes[s[1].args[0]].name] = I.classes[s[1].args[0]]
                    else:
                        I.note("class list of the metamodel")
            opts = {}
            for k in ("skipws", "ws", "ignore_case", "autokwd", "auto_init_attributes"):
                if k in kw:
                    if not isK(kw[k]):
                        raise AnalysisError("option %s of metamodel_from_str is not a constant" % k)
                    opts[k] = kv(kw[k])
            try:
                self.load_grammar(kv(g), opts)
            except Missing:
                I.raise_(st, mk("ext", SEM), mk("excobj", SEM), node)
                return NONE
            if any(n not in self.grammar.rules for n in user):
                I.raise_(st, mk("ext", SEM), mk("excobj", SEM), node)
                return NONE
            self.user = user
            self.texts[(kv(g), tuple(sorted(opts.items())))] = self.peg
            return I.alloc(st, OCell("textx.MetaModel", {
                "grammar": mk("gr", kv(g), tuple(sorted(opts.items()))), "op": I.newlist(st), "mp": I.newlist(st)}))
        if short.startswith("TextX") and short.endswith("Error"):
            return mk("excobj", name, *args)
        if short in ("get_children_of_type", "get_children"):
            return I.unk(name)
        return mk("call", name, *args)

    def load_grammar(self, text, opts=None):
        key = (text, tuple(sorted((opts or {}).items())))
        if key not in self._g:
            G = Grammar(text)
            P = Peg(G, opts)
            for n, r in G.rules.items():
                r.kind = P.cls[n].kind
                for x, a in P.cls[n].attrs.items():
                    r.attrs[x]["mult"] = "many" if a.mult == "many" else "one"
            self._g[key] = G, P
        G, P = self._g[key]
        self.grammar = G
        self.peg = P
        for r in G.rules.values():
            if r.kind == "match":
                x = G.regex(r.name)
                if x:
                    ops.REGEX["str:" + r.name] = re.compile(x)
                    from .scen import regex_alphabet
                    ops.ALPHABETS["str:" + r.name] = regex_alphabet(x)
        # the names of the scenarios, whatever the grammar calls their rules
        from .scen import regex_alphabet
        for n, x in (("NameLower", r"[a-z][a-z\d]*(-[a-z\d]+)*"), ("NameCapital", r"[A-Z][a-z\d]*(-[a-z\d]+)*")):
            if n not in G.rules:
                ops.REGEX["str:" + n] = re.compile(x)
                ops.ALPHABETS["str:" + n] = regex_alphabet(x)
        return G

    def method(self, st, v, c, name, a, kw, node):
        I = self.I
        if name == "register_obj_processors":
            d = a[0] if a else kw.get("obj_processors")
            lst = c.fields["op"]
            st.heap[lst.args[0]] = LCell("list", (("it", d),))
            return NONE
        if name == "register_model_processor":
            lst = I.cell(st, c.fields["mp"])
            st.heap[c.fields["mp"].args[0]] = lst.with_items(lst.items + (("it", a[0]),))
            return NONE
        if name in ("model_from_str", "model_from_file"):
            src = a[0] if a else (kw.get("model_str") or kw.get("file_name"))
            if name == "model_from_file":
                I.lib.opened(st, src, "r", node) if hasattr(I.lib, "opened") else None
                src = mk("call", "read", src)
            return I.split(st, src, lambda s, t: self.model(s, v, t, node))
        I.note("textX method " + name)
        return I.unk("textx." + name)

    # --------------------------------------------------------- the modules
    def source(self, st, text):
        """The scenario module a text term stands for, its text and marks."""
        I = self.I
        reads = [x for x in subterms(text) if x.op == "call" and x.args[0] == "read"]
        hit = [(p, m) for p, m in I.scenario.modules if any(r.args[1] is p for r in reads)]
        if len(hit) != 1:
            return None
        p, spec = hit[0]
        if spec.rule == "!syntax":
            return spec, None
        outs = []
        iv = ops.FACTS.iv
        for hi in (False, True):
            sp = Spell(iv, I.scenario.reserved, hi, self.names)
            sp.module(spec)
            t, marks = sp.text(), sp.marks
            rd = [r for r in reads if r.args[1] is p]
            if text not in rd:
                try:
                    t2 = ev(text, {r: t for r in rd})
                except NoGround as e:
                    raise Imprecise("text of a module after %s" % e)
                if not isinstance(t2, str):
                    raise Imprecise("text of a module")
                if t2 != t:
                    marks = relocate(t, t2, marks)
                    sp.starts = {}
                    t = t2
            outs.append((t, marks, sp.starts))
            if not hi and not any(m[2].args[1] == "int" and iv.get(m[2], (-1, 1))[0] < 0 <= iv.get(m[2], (-1, 1))[1] for m in marks):
                break
        return spec, outs

    def model(self, st, mm, text, node):
        I = self.I
        try:
            src = self.source(st, text)
        except Imprecise as e:
            I.note(str(e))
            return I.unk("module text")
        if src is None:
            return I.unk("module of an unknown text")
        spec, outs = src
        c = I.cell(st, mm)
        gr = c.fields["grammar"]
        self.load_grammar(gr.args[0], dict(gr.args[1]))
        procs = None
        opl = I.cell(st, c.fields["op"]).items
        if opl:
            procs = I.cell(st, opl[0][1])
        if spec.rule == "!syntax":
            return self.refuse(st, node)
        trees = []
        for t, marks, starts in outs:
            tree = self.parsed(t)
            if isinstance(tree, int):
                return self.refuse(st, node, t, tree)
            trees.append(tree)
        t, marks, starts = outs[0]
        old = I.phase
        I.phase = "parse"
        b = Builder(self.peg, t, lambda x, y, n: self.convert(st, t, marks, procs, x, y, n, node))
        b.matchproc = lambda n, v: self.matchproc(st, procs, n, v, node)
        try:
            top = b.build(trees[0])
        except Imprecise as e:
            I.note(str(e))
            I.phase = old
            return I.unk("module text")
        except Semantic:
            I.phase = old
            return self.refuse(st, node, exc=SEM)
        if not isinstance(top, Obj):
            I.phase = old
            I.note("the grammar makes no object of a module")
            return I.unk("module text")
        self.identify(top, starts)
        objs = []
        m = self.alloc(st, top, None, objs)
        if st.live is None:
            return NONE
        for o in objs:
            self.init(st, o)
            if st.live is None:
                return NONE
        if procs is not None:
            self.process(st, top, top.rule, procs, node)
        if st.live is None:
            return NONE
        for s in I.cell(st, c.fields["mp"]).items:
            if s[0] == "it":
                I.call(st, s[1], [m, mm], {}, node)
            else:
                I.note("conditional model processor")
            if st.live is None:
                return NONE
        I.phase = old
        self.models.append((top, m))
        return m

    def refuse(self, st, node, text=None, pos=None, exc=None):
        e = exc or "textx.exceptions.TextXSyntaxError"
        if text is not None:
            self.refused = text[max(0, pos - 60):pos] + " <HERE> " + text[pos:pos + 30]
        self.I.raise_(st, mk("ext", e), mk("excobj", e), node)
        return NONE

    def parsed(self, text):
        k = (id(self.peg), text)
        if k not in self._trees:
            if len(self._trees) > 4000:
                self._trees.clear()
            self._trees[k] = self.peg.parse(text)
        return self._trees[k]

    def proc(self, st, procs, name, v, node):
        """Result of the processor registered under a name, or None."""
        I = self.I
        if procs is None:
            return None
        p, f = I.dict_lookup(st, procs.ents, K(name))
        p = I.dec(st, p)
        if p is FALSE or f is None:
            return None
        if p is not TRUE:
            I.note("conditional object processor")
        return I.res(st, I.call(st, f, [v], {}, node))

    def matchproc(self, st, procs, name, v, node):
        r = self.proc(st, procs, name, v, node)
        return v if r is None else r

    def convert(self, st, text, marks, procs, a, b, name, node):
        ps = piece(marks, text, a, b)
        one = ps[0] if len(ps) == 1 else None
        lit = kv(one) if one is not None and isK(one) else None
        s = Cat(*[x if isK(x) or ops.kind(x) == "str" else mk("str", x) for x in ps]) if ps else EMPTY
        if name:
            r = self.proc(st, procs, name, s, node)
            if r is not None:
                return r
        if name == "INT":
            if lit is not None:
                return K(int(lit))
            if one is not None and ops.kind(one) in ("int", "num", "float"):
                return one
            raise Imprecise("number '%s'" % text[a:b])
        if name in ("FLOAT", "STRICTFLOAT"):
            if lit is not None:
                return K(float(lit))
            if one is not None and ops.kind(one) in ("int", "num", "float"):
                return one
            raise Imprecise("number '%s'" % text[a:b])
        if name == "BOOL":
            if lit is not None:
                return K(lit in ("1", "True", "true"))
            raise Imprecise("truth value '%s'" % text[a:b])
        if name == "STRING":
            if lit is not None:
                return K(lit[1:-1].replace(chr(92) + lit[0], lit[0]).replace(chr(92) * 2, chr(92)))
            raise Imprecise("string '%s'" % text[a:b])
        if any(not isK(x) and ops.kind(x) == "float" for x in ps):
            raise Imprecise("text of a number")
        return s

    def identify(self, top, starts):
        at = {}
        todo = [top]
        while todo:
            o = todo.pop()
            at.setdefault(o.pos, []).append(o)
            for v in o.attrs.values():
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, Obj):
                        todo.append(x)
        for p, ns in starts.items():
            os_ = sorted(at.get(p, ()), key=lambda o: -o.end)
            for i, n in enumerate(ns):
                if os_:
                    o = os_[i] if len(os_) == len(ns) else os_[0] if i == 0 else os_[-1]
                    o.src = n
                    n.obj = o

    def cls_of(self, rule):
        return self.user.get(rule)

    def rule(self, name):
        r = self.grammar.rules.get(name)
        if r is None:
            raise AnalysisError("the grammar has no rule %s" % name)
        return r

    def alloc(self, st, o, parent, objs):
        I = self.I
        ci = self.cls_of(o.rule)
        ref = I.alloc(st, OCell(ci if ci is not None else "object", {}))
        o.ref = ref
        if o.src is not None:
            o.src.ref = ref
        vals = {}
        for a, v in o.attrs.items():
            if isinstance(v, Obj):
                vals[a] = self.alloc(st, v, ref, objs)
            elif isinstance(v, list):
                l = I.newlist(st, tuple(("it", self.alloc(st, x, ref, objs) if isinstance(x, Obj) else x) for x in v))
                I.watch[l.args[0]] = "ir:list"
                vals[a] = l
            else:
                vals[a] = v
        if parent is not None:
            vals["parent"] = parent
        I.watch[ref.args[0]] = "ir:%s" % o.rule
        o.vals = vals
        objs.append(o)
        return ref

    def init(self, st, o):
        """Direct attributes first, then __init__ (children come first)."""
        I = self.I
        ref = o.ref
        ci = self.cls_of(o.rule)
        fields = {}
        for k, v in o.vals.items():
            if ci is not None:
                _, m = I.class_find(st, ci, k)
                if m is not None and m.op == "fn" and "property" in I.fns[m.args[0]].deco:
                    continue
            fields[k] = v
        st.heap[ref.args[0]] = OCell(ci if ci is not None else "object", fields)
        if ci is None:
            return
        k, f = I.class_find(st, ci, "__init__")
        if f is None:
            return
        w = I.watch.pop(ref.args[0], None)
        I.call(st, mk("bm", ref, f), [], dict(o.vals))
        I.watch[ref.args[0]] = w

    def process(self, st, o, rulecls, procs, node):
        """Object processors, depth first; the result of the outermost."""
        I = self.I
        mc = self.peg.cls[o.rule]
        for a in mc.attrs.values():
            v = o.attrs.get(a.name)
            ac = self.peg.cls.get(a.cls)
            if ac is not None and ac.kind == "match":
                continue
            for i, x in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(x, Obj):
                    r = self.process(st, x, a.cls, procs, node)
                    if st.live is None:
                        return None
                    if r is not None:
                        if isinstance(v, list):
                            l = o.vals[a.name]
                            c = I.cell(st, l)
                            st.heap[l.args[0]] = c.with_items(c.items[:i] + (("it", r),) + c.items[i + 1:])
                        else:
                            I.setattr(st, o.ref, a.name, r, node)
        cur = None
        if o.rule != rulecls:
            cur = self.proc(st, procs, o.rule, o.ref, node)
            if st.live is None:
                return None
        res = self.proc(st, procs, rulecls, o.ref, node)
        if st.live is None:
            return None
        r = cur if cur is not None and cur is not NONE else res
        return None if r is None or r is NONE else r

    # ---------------------------------------------------- generic objects
    def attr_kind(self, rule, a):
        """Kind of attribute a of a generic object of a rule."""
        spec = self.rule(rule).attrs[a]
        objs = self.grammar.attr_rules(rule, a)
        sc = sorted(self.grammar.attr_scalars(rule, a))
        names = [t for t in sorted(spec["types"]) if t in self.grammar.rules
                 and self.grammar.rules[t].kind == "match"]
        if objs and not sc:
            k = "obj:" + "|".join(objs)
        elif sc and not objs:
            if sc == ["str"]:
                k = "str:" + names[0] if names and spec["types"] == {names[0]} else "str"
            elif len(sc) == 1:
                k = sc[0]
            else:
                k = "num" if all(x in ("int", "float", "num") for x in sc) else "any"
        else:
            k = "any"
        if spec["mult"] == "many":
            k = "list:" + k
        return k

    def parents(self, rule):
        out = []
        for r in self.grammar.rules.values():
            for a in r.attrs:
                if rule in self.grammar.attr_rules(r.name, a) and r.name not in out:
                    out.append(r.name)
        return out

    def template(self, st, ci):
        """Fields of a generic object of class ci over attr(self, ...)."""
        I = self.I
        if ci.name in self.tmpl:
            return self.tmpl[ci.name]
        if self.grammar is None or ci.name not in self.grammar.rules or \
                self.grammar.rules[ci.name].kind != "common":
            self.tmpl[ci.name] = None
            return None
        self.tmpl[ci.name] = None
        hole = mk("self")
        vals = {}
        for a in self.rule(ci.name).order:
            vals[a] = mk("attr", hole, a, self.attr_kind(ci.name, a))
        ps = self.parents(ci.name)
        if ps:
            vals["parent"] = mk("attr", hole, "parent", "obj:" + "|".join(ps))
        s = st.fork()
        s.live = ()
        ref = I.alloc(s, OCell(ci, dict(vals)))
        ev = len(I.events)
        k, f = I.class_find(s, ci, "__init__")
        if f is not None:
            I.call(s, mk("bm", ref, f), [], dict(vals))
        del I.events[ev:]
        c = s.heap.get(ref.args[0])
        self.tmpl[ci.name] = dict(c.fields) if s.live is not None and c is not None else None
        return self.tmpl[ci.name]
