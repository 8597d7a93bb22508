"""Abstract runs of the entry point main() under a scenario."""
import os
import sys
import time

from .terms import mk, K, NONE, TRUE, FALSE, isK, kv, And, Or, Not
from . import ops
from .loader import Loader, AnalysisError
from .interp import Interp, Budget
from .heap import State
from .scen import Scenario, regex_alphabet

sys.setrecursionlimit(20000)


class Result:
    def __init__(self, scen, interp, st, events, notes, error=None):
        self.scen = scen
        self.I = interp
        self.st = st
        self.events = events
        self.notes = notes
        self.error = error


class Analyzer:
    ENTRY = ("asn1_parser.main", "main")

    def __init__(self, root="/repo"):
        self.loader = Loader(root)
        self.I = Interp(self.loader)
        st = State({}, {}, ())
        st.heap = {}
        m, f = self.ENTRY
        if m not in self.loader.mods:
            raise AnalysisError("entry module %s not found" % m)
        self.I.scenario = Scenario("load", [], {})
        self.I.load(st, "$std")
        self.I.load(st, m)
        if st.live is None:
            raise AnalysisError("module initialisation does not complete")
        cell = st.heap[self.I.modcells["m:" + m]]
        if f not in cell.fields or cell.fields[f].op != "fn":
            raise AnalysisError("entry function %s.%s not found" % (m, f))
        self.main = cell.fields[f]
        self.base = st
        self.load_events = list(self.I.events)
        self.load_notes = dict(self.I.notes)
        self.patch = dict(self.I.ext_patch)
        self.watch = dict(self.I.watch)
        for a in list(st.heap):
            self.watch.setdefault(a, "static")
        self.runs = 0
        self.functions = set()
        self.steps = 0

    def run(self, scen, entry=None, args=(), after=None, set_order=None):
        """after: the result of an earlier run in the same process."""
        I = self.I
        I.set_order = set_order
        I.gen_snap = None
        I.scenario = scen
        I.events = []
        I.notes = {}
        I.frames, I.envs, I.trys, I.loops = [], [], [], []
        I.depth = 0
        I.ctls = []
        I.enumsrc = {}
        I.steps = 0
        I.summary = {}
        I.hints = {}
        I.ext_patch = dict(self.patch) if after is None else dict(after.patch)
        I.fncache = {} if after is None else after.fncache
        I.watch = dict(self.watch)
        I.lib.cli = {}
        I.tx.models = []
        I.tx.refused = None
        I.tx.names = {}
        I.phase = "main"
        f = ops.Facts()
        if scen.facts:
            for t, iv in scen.facts.get("iv", {}).items():
                f.iv[t] = iv
            f.rel = list(scen.facts.get("rel", ()))
            f.lt = list(scen.facts.get("lt", ()))
        ops.set_facts(f)
        st = self.base.fork()
        if after is not None and after.st.live is not None:
            st.heap = dict(after.st.heap)
        err = None
        try:
            I.call(st, entry or self.main, list(args), {})
            I.lib.finish(st)
        except Budget as e:
            err = "budget: %s" % e
        except RecursionError as e:
            err = "recursion"
        except AnalysisError as e:
            err = "not supported: %s" % e
        except Exception as e:
            if os.environ.get("APGSA_DEBUG"):
                raise
            err = "internal: %r" % e
        self.runs += 1
        self.functions |= {q for q in I.call_log if not q.startswith("$std")}
        self.steps += I.steps
        r = Result(scen, I, st, I.events, dict(I.notes), err)
        r.patch, r.fncache, r.snap, r.watch = I.ext_patch, I.fncache, I.gen_snap, I.watch
        r.models = list(I.tx.models)
        r.refused = I.tx.refused
        return r
