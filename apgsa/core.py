"""Obligations and verdicts.

A rule states obligations; each is discharged, violated or undecided.  Only a
definite counterexample in terms the analysis fully understands is a
violation; anything that rests on a construct it does not model is reported
as undecided."""
import hashlib
import json
import os
import signal
import time

from .terms import T, mk, K, TRUE, isK, kv, show, And
from . import ops
from .outp import (Out, Text, feasible, has_unknown, env_text, TooMany, split_path, is_write, nonzero)
from .run import Analyzer
from .loader import AnalysisError
from .scen import Scenario, path
from .ground import ev, sample, syms, NoGround
from .textxm import Node, Others

POSIX = ["Int8-t", "Int16-t", "Int32-t", "Int64-t", "Uint8-t", "Uint16-t", "Uint32-t", "Uint64-t", "Float", "Double"]
CCSDS = ["primary", "packet-version-number", "packet-identification", "packet-type-is-cmd",
         "sec-hdr-flag-is-present", "application-process-identifier"]
COMMANDS = ["generate-cfs", "generate-c", "generate-binary", "generate-cosmos"]
CLIKE = COMMANDS[:3]
OUT = mk("sym", "out", "str:path")
OFN = mk("sym", "ofn", "str:text")


class Undecided(Exception):
    pass


class Bad(Exception):
    """A definite difference between the analysed output and the rule."""

    def __init__(self, msg, where=None):
        Exception.__init__(self, msg)
        self.where = where


def text_of(v):
    """Human readable form of a scenario value."""
    if isinstance(v, Node):
        inner = ", ".join("%s=%s" % (k, text_of(x)) for k, x in v.attrs.items())
        return "%s(%s)" % (v.rule, inner)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(text_of(x) for x in v) + "]"
    if isinstance(v, Others):
        return "any further"
    if isinstance(v, T):
        return show(v)
    return str(v)


class Ob:
    def __init__(self, name, verdict, detail="", where=None, scen=None, stack=None):
        self.name, self.verdict, self.detail, self.where, self.scen = name, verdict, detail, where, scen
        self.stack = stack


class TimeUp(BaseException):
    """The time for one obligation is over."""


def _alarm(*a):
    raise TimeUp()


def timed_quiet(f):
    return timed(f, True)


def timed(f, quiet=False):
    """Decide one obligation within the time for one; else it is reported as undecided."""
    def g(self, *a, **k):
        ctx = self
        if ctx.armed:
            return f(self, *a, **k)
        n = len(ctx.obs)
        ctx.armed = True
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, ctx.per)
        try:
            return f(self, *a, **k)
        except TimeUp:
            names = [x for x in a if isinstance(x, str)]
            if len(ctx.obs) == n and not quiet:
                ctx.ob(names[0] if names else f.__name__, "undecided", "not decided within %d s" % ctx.per)
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            ctx.armed = False
    return g


class Ctx:
    def __init__(self, prop, tier, root="/repo"):
        self.prop = prop
        self.tier = tier
        # the family of scenarios written for the property is walked in full on
        # every run where that takes seconds; the tiers differ in the mixed bundles
        self.deep = tier == "thorough"
        self.thorough = self.deep or prop != "C27"
        self.A = Analyzer(root)
        self.obs = []
        self.t0 = time.time()
        self.samples = []
        self.cache = {}
        self.stop = False
        self.seed = 1
        self.armed = False
        self.per = 20 if not self.deep else 90
        self.only = os.environ.get("APGSA_ONLY")
        self.findings = {}
        self.shard, self.shards, self.tick = 0, 1, 0
        self.deadline = self.t0 + (700 if not self.deep else 3000)

    # ------------------------------------------------------------ scenarios
    def scen(self, cmd, mods, requested=None, msgs=None, module=None, endian="little-endian", reserved=None,
             facts=None, assume=None, label="", paths=None, options=None):
        paths = paths or [path("file%d" % i) for i in range(len(mods))]
        distinct(mods, {})
        names = [m.attrs["module_name"] for m in mods]
        opts = {"input_paths": list(paths), "--output-dir": OUT}
        if cmd == "generate-cosmos":
            opts["--asn1-module"] = module if module is not None else names[0]
            opts["--asn1-messages"] = list(msgs) if msgs is not None else self.default_msgs(mods[0])
            opts["--output-file-name"] = OFN
        else:
            opts["--asn1-modules"] = list(requested) if requested is not None else list(names)
            if cmd == "generate-binary":
                opts["--endianness"] = K(endian)
        opts.update(options or {})
        return Scenario(cmd, list(zip(paths, mods)), opts,
                        reserved=(POSIX + CCSDS if reserved is None else list(reserved)) + constants(mods),
                        facts=facts, assume=assume, label=label)

    def default_msgs(self, m):
        for d in m.attrs["definitions"]:
            if isinstance(d, Node) and d.rule == "Sequence":
                return [d.attrs["type_name"]]
        return [K("None-such")]

    def run(self, scen):
        for _, m in scen.modules:
            reset(m)
        return self.A.run(scen)

    # ------------------------------------------------------------- verdicts
    def ob(self, name, verdict, detail="", where=None, scen=None, stack=None):
        o = Ob(name, verdict, detail, where, scen, stack)
        o.tick = self.tick
        self.obs.append(o)
        if os.environ.get("APGSA_VERBOSE"):
            print(verdict, name, detail[:300], where or "", flush=True)

    def late(self):
        """Asked once per obligation: is it left to another worker, or is the time over?"""
        self.tick += 1
        if self.tick % self.shards != self.shard:
            return True
        if time.time() > self.deadline:
            self.stop = True
        return self.stop

    def mine(self):
        """Will the next obligation be decided here?"""
        return (self.tick + 1) % self.shards == self.shard and not self.stop

    def precise(self, r):
        """None, or why nothing definite may be said about this run."""
        if r.error:
            return "analysis of this input did not complete (%s)" % r.error
        bad = [n for n in r.notes if not n.startswith("recursion summarised")]
        if bad:
            return "construct not modelled: " + "; ".join(sorted(bad))[:300]
        return None

    @timed
    def rejects(self, scen, name, writes_ok=False):
        """The input is refused, before anything is written."""
        if self.late():
            return
        r = self.run(scen)
        why = self.precise(r)
        o = Out(r)
        st = "discharged"
        det, where, stack = "", None, None
        if r.st.live is not None:
            f, env = feasible(r.st.live)
            if f == "yes":
                st = "violated"
                w = o.writes
                det = "accepted (%s)" % env_text(env)
                if w:
                    where, stack = w[-1].where, w[-1].stack
            elif f == "unknown":
                st, det = "undecided", "may be accepted under %s" % env_text(env)
        if st == "discharged":
            st, det, where, stack = self.diverges(r) or (st, det, where, stack)
        if st == "discharged":
            for e in r.events:
                if e.kind == "raise" and not e.caught and not nonzero(e):
                    f, env = feasible(e.live)
                    if f != "no":
                        st, where, stack = "violated" if f == "yes" else "undecided", e.where, e.stack
                        det = "ends with exit status zero (%s)" % env_text(env)
        if st == "discharged" and not writes_ok:
            for w in o.writes:
                f, env = feasible(w.live)
                if f == "yes":
                    st, where, stack = "violated", w.where, w.stack
                    det = "output is touched (%s) before the rejection (%s)" % (w.kind, env_text(env))
                    break
                if f == "unknown" and st == "discharged":
                    st, where, det = "undecided", w.where, "output may be touched before the rejection"
        if st == "violated" and why:
            st, det = "undecided", why + " / " + det
        if st == "discharged" and r.error:
            st, det = "undecided", why
        if r.refused and st == "discharged":
            det = "the grammar itself does not accept it: " + r.refused
        self.ob("rejects: " + name, st, det, where, scen, stack)
        return r

    def diverges(self, r):
        for e in r.events:
            if e.kind == "diverge":
                f, env = feasible(e.live)
                if f != "no":
                    v = "violated" if f == "yes" and self.prop == "C12" else "undecided"
                    return v, "does not end: %s (%s)" % (e.data["text"], env_text(env)), e.where, e.stack
        return None

    @timed
    def accepts(self, scen, name):
        if self.late():
            return
        r = self.run(scen)
        self.judge_accept(r, "accepts: " + name)
        return r

    def judge_accept(self, r, name):
        why = self.precise(r)
        o = Out(r)
        st, det, where, stack = "discharged", "", None, None
        for e in o.raises:
            f, env = feasible(e.live)
            if f == "yes":
                st, where, stack = "violated", e.where, e.stack
                det = "rejected by %s (%s)" % (show(e.data["exc"]), env_text(env))
                break
            if f == "unknown":
                st, det, where = "undecided", "may be rejected: %s" % show(e.data["exc"]), e.where
        if st == "discharged" and r.st.live is None:
            st, det = ("undecided", "no path to the end") if not o.raises else ("undecided", "ends without result")
        if st == "violated" and why:
            st, det = "undecided", why + " / " + det
        if st == "discharged" and r.error:
            st, det = "undecided", why
        self.ob(name, st, det, where, r.scen, stack)
        return st

    @timed
    def output(self, scen, name, spec, may_fail=False):
        """The input is accepted, and spec(files, text) finds nothing wrong."""
        if self.late():
            return
        r = self.run(scen)
        why = self.precise(r)
        o = Out(r)
        if r.error:
            return self.ob("output: " + name, "undecided", why, None, scen)
        for e in o.raises:
            f, env = feasible(e.live)
            if f != "no":
                if may_fail and r.st.live is None:
                    return self.ob("output: " + name, "discharged", "refused", e.where, scen)
                st = "violated" if f == "yes" and not why else "undecided"
                return self.ob("output: " + name, st, "no output: %s raised (%s)" % (
                    show(e.data["exc"]), env_text(env)), e.where, scen, e.stack)
        dv = self.diverges(r)
        if dv:
            return self.ob("output: " + name, "undecided" if why else dv[0], dv[1], dv[2], scen, dv[3])
        if r.st.live is None:
            return self.ob("output: " + name, "undecided", "no path to the end", None, scen)
        try:
            n = 0
            for c in o.cases():
                n += 1
                env_bad = any(has_unknown(a) for a in c.env)
                tx = Text()
                fs = FileSet(c, tx)
                try:
                    spec(fs, tx)
                except Bad as b:
                    unk = env_bad or why or fs.unknown()
                    if unk:
                        return self.ob("output: " + name, "undecided",
                                       "%s; %s" % (b, why or "text not fully determined"), b.where, scen)
                    return self.ob("output: " + name, "violated", "%s [case: %s]" % (tx.show(str(b)), c.case),
                                   b.where, scen, fs.stack(b))
                except Undecided as u:
                    return self.ob("output: " + name, "undecided", tx.show(str(u)), None, scen)
                except TooMany:
                    raise
                except Exception as x:
                    if os.environ.get("APGSA_DEBUG"):
                        raise
                    return self.ob("output: " + name, "undecided", "output not understood: %r" % x, None, scen)
            if n == 0:
                return self.ob("output: " + name, "undecided", "no feasible case", None, scen)
        except TooMany:
            return self.ob("output: " + name, "undecided", "too many cases", None, scen)
        if why:
            # everything that reaches the files was nevertheless resolved
            pass
        self.ob("output: " + name, "discharged", "", None, scen)
        return r


def distinct(n, seen):
    """Every element of a scenario is an object of its own."""
    if isinstance(n, Node):
        if id(n) in seen:
            raise AssertionError("scenario uses one element twice: %s" % text_of(n))
        seen[id(n)] = n
        for v in n.attrs.values():
            distinct(v, seen)
    elif isinstance(n, (list, tuple)):
        for x in n:
            distinct(x, seen)


def constants(n):
    """Literal names the scenario itself uses: the symbolic names differ from them."""
    out = []
    if isinstance(n, Node):
        for a, v in n.attrs.items():
            if isinstance(v, T):
                if isK(v) and isinstance(kv(v), str):
                    out.append(kv(v))
            else:
                out += constants(v)
    elif isinstance(n, (list, tuple)):
        for x in n:
            out += constants(x) if not isinstance(x, T) else [kv(x)] if isK(x) and isinstance(kv(x), str) else []
    return out


def reset(n):
    if isinstance(n, Node):
        n.ref = None
        for v in n.attrs.values():
            reset(v)
    elif isinstance(n, (list, tuple)):
        for x in n:
            reset(x)


class FileSet:
    """The files of one case, by rendered name."""

    def __init__(self, case, tx):
        self.case = case
        self.tx = tx
        self.files = []          # (dir term, name text, mode, content text, term, event)
        for p, mode, t, e in case.files:
            d = split_path(p)
            if d is None:
                self.files.append((None, tx.render(p), mode, t, e, p))
            else:
                self.files.append((d[0], tx.render(d[1]), mode, t, e, p))
        self.last = None

    def unknown(self):
        return any(has_unknown(f[3]) or has_unknown(f[5]) for f in self.files)

    def stack(self, b):
        return None

    def names(self):
        return [f[1] for f in self.files]

    def get(self, name_term):
        """Content term of the file named so, in the output directory."""
        n = self.tx.render(name_term)
        hit = [f for f in self.files if f[1] == n]
        if not hit:
            hit = [f for f in self.files if same(self.tx, f[1], n) is True]
        if not hit:
            if self.unknown():
                raise Undecided("file %s not found" % n)
            raise Bad("file %s is not written (written: %s)" % (n, ", ".join(self.names())))
        if len(hit) > 1:
            raise Bad("file %s is written %d times" % (n, len(hit)), hit[1][4].where)
        f = hit[0]
        if isinstance(f[3], T) and has_unknown(f[3]):
            raise Undecided("content of %s is not determined" % n)
        return f

    def text(self, name_term):
        f = self.get(name_term)
        self.last = f[4]
        return self.tx.render(f[3]), f[4].where


def expand(tx, s, env):
    return "".join(str(ev(tx.term(c), env)) if tx.is_ph(c) else c for c in s)


def same(tx, a, b, n=12):
    """Do two rendered texts denote the same text?  True / False / None."""
    if a == b:
        return True
    terms = [tx.term(c) for c in a + b if tx.is_ph(c)]
    if not terms:
        return False
    if any(has_unknown(t) for t in terms):
        return None
    ss = syms(terms)
    try:
        for i in range(n):
            env = {s: sample(s, i) for s in ss}
            if expand(tx, a, env) != expand(tx, b, env):
                return False
        return True
    except NoGround:
        return None
    except Exception:
        return None


def need(tx, got, want, what, where=None):
    r = same(tx, got, want)
    if r is True:
        return
    if r is None:
        raise Undecided("%s: %s against %s" % (what, got, want))
    raise Bad("%s is '%s', expected '%s'" % (what, got, want), where)
