"""Run the rule of a property, report, write evidence."""
import json
import os
import pickle
import sys
import traceback
import time

from .terms import show
from .core import Ctx, text_of
from .loader import AnalysisError
from .rules import RULES, ABOUT


def known(here, prop):
    out = []
    p = os.path.join(here, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                body = l.split(" ", 2)[2]
                key = body.split(" :: ", 1)[0].strip()
                out.append((key, body))
    return out


class Rec:
    """What is left of an obligation when it comes from a worker."""

    def __init__(self, o):
        self.tick, self.name, self.verdict, self.detail, self.where = o.tick, o.name, o.verdict, o.detail, o.where
        self.stack = [str(x) for x in o.stack or ()]
        s = o.scen
        self.input = text_of([m for _, m in s.modules]) if s is not None and (o.verdict == "violated" or o.tick % 37 == 1) else None
        self.command = s.command if s is not None else None
        self.options = {k: text_of(v) for k, v in s.options.items()} if s is not None and o.verdict == "violated" else None


def work(ctx, rule):
    """The obligations are dealt out to one process per core."""
    n = int(os.environ.get("APGSA_WORKERS", "0") or 0) or max(1, min(8, len(os.sched_getaffinity(0))))
    if n == 1:
        rule(ctx)
        ctx.obs = [Rec(o) for o in ctx.obs]
        return
    kids = []
    for k in range(n):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = None
            try:
                ctx.shard, ctx.shards = k, n
                rule(ctx)
                res = ("ok", [Rec(o) for o in ctx.obs], ctx.A.runs, ctx.A.steps, set(ctx.A.functions), ctx.stop)
            except AnalysisError as e:
                res = ("analysis", str(e))
            except BaseException:
                res = ("crash", traceback.format_exc())
            try:
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
                sys.stdout.flush()
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    obs, errs = [], []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        res = pickle.loads(data) if data else ("crash", "worker ended")
        if res[0] != "ok":
            errs.append(res)
            continue
        obs += res[1]
        ctx.A.runs += res[2]
        ctx.A.steps += res[3]
        ctx.A.functions |= res[4]
        ctx.stop = ctx.stop or res[5]
    ctx.obs = sorted(obs, key=lambda o: o.tick)
    for e in errs:
        if e[0] == "analysis":
            raise AnalysisError(e[1])
        print(e[1])
        raise AnalysisError("a worker failed")


def main(prop, tier, root, here, evidence=True):
    t0 = time.time()
    if prop not in RULES:
        print("unknown property", prop)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        ctx = Ctx(prop, tier, root)
        ctx.seed = seed
        work(ctx, RULES[prop])
    except AnalysisError as e:
        print("ERROR analysis not possible: %s" % e)
        return 2
    bad = [o for o in ctx.obs if o.verdict == "violated"]
    und = [o for o in ctx.obs if o.verdict == "undecided"]
    ok = [o for o in ctx.obs if o.verdict == "discharged"]
    kn = known(here, prop)
    new = []
    for o in bad:
        k = [b for key, b in kn if key == o.name]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]))
        else:
            new.append(o)
    wall = time.time() - t0
    about = ABOUT[prop]
    cov = {
        "explanation": about["rule"],
        "obligations": len(ctx.obs),
        "discharged": len(ok),
        "undecided": len(und),
        "violated": len(new),
        "abstract_runs": ctx.A.runs,
        "statements_interpreted": ctx.A.steps,
        "functions_analysed": len(ctx.A.functions),
        "functions": sorted(ctx.A.functions)[:400],
        "modules_loaded": len(ctx.A.loader.mods),
        "rule": about["rule"],
        "samples": [{"obligation": o.name, "verdict": o.verdict, "input": o.input[:1500]} for o in pick([
                         o for o in ok if o.input], 3)],
        "undecided_list": [{"obligation": o.name, "why": o.detail[:300], "where": o.where} for o in und[:40]],
    }
    if ctx.stop:
        cov["stopped_early"] = True
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "assumptions": about["assume"], "wall_s": round(wall, 3), "violations": len(new),
    }
    if evidence:
        d = os.path.join(here, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d functions, %.1f s)" % (
        prop, len(ctx.obs), len(ok), len(und), len(new), len(ctx.A.functions), wall))
    for o in und[:8]:
        print("UNDECIDED %s: %s %s" % (o.name, o.detail[:200], o.where or ""))
    if new:
        rep = os.path.join(here, "evidence", "replay_%s.json" % prop)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, "w", encoding="utf-8") as f:
            json.dump([{"obligation": o.name, "what": o.detail, "construct": o.where, "call_path": list(o.stack or ()),
                        "command": o.command, "input": o.input, "options": o.options}
                       for o in new], f, indent=1, ensure_ascii=False)
        for o in new[:10]:
            print("  %s: %s  at %s%s" % (o.name, o.detail[:400], o.where, "  via " + " > ".join(o.stack) if o.stack else ""))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if not ok:
        print("ERROR nothing could be decided")
        return 2
    return 0


def pick(xs, n):
    if len(xs) <= n:
        return xs
    return [xs[i * len(xs) // n] for i in range(n)]
