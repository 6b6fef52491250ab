"""Contract declarations and obligation bookkeeping."""
import time, traceback
from core import *
import core
import smt, numev
from smt import Prover, prove
from vals import *
from interp import explore, Interp, Ctx, PathEnd, REPO, parse

CONTRACTS = {}          # property id -> [Contract]


class Contract:
    def __init__(self, pid, name, quals, run, facts=None, summaries=None, hints=None, opts=None, stubs=None, maxpaths=300,
                 trust=(), thorough=False):
        self.pid, self.name, self.quals, self.run = pid, name, list(quals), run
        self.facts, self.summaries, self.hints = facts or (), summaries, hints or {}
        self.opts, self.stubs, self.maxpaths, self.trust = opts or {}, stubs or {}, maxpaths, list(trust)
        self.thorough = thorough


def contract(pid, name, quals, **kw):
    def deco(f):
        CONTRACTS.setdefault(pid, []).append(Contract(pid, name, quals, f, **kw))
        return f
    return deco


class Raised:
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg

    def __repr__(self):
        return "Raised(%s,%s)" % (self.kind, self.msg)


def invoke(it, f, args, kw=None):
    """call; python exceptions become Raised"""
    try:
        return it.call(f, list(args), dict(kw or {}))
    except PyRaise as e:
        return Raised(e.kind, e.msg)


def post(it, name, goal, soft=False, **kw):
    n = len(it.ctx.obs)
    r = it.ctx.oblige(name, goal, kind="post", assume=False, **kw)
    for o in it.ctx.obs[n:]:
        o.soft = soft
    return r


def fail(it, name, why, soft=False):
    """a postcondition that is false on this (feasible) path; soft: open, but no refutation by itself"""
    from interp import Ob
    it.ctx.obs.append(Ob(name, "pathfail", "", why, "post", model=None if soft else (it.ctx.prover.copy(), B("F")), path=list(it.ctx.log)))
    it.ctx.obs[-1].soft = soft
    return False


def ok(it, name):
    from interp import Ob
    it.ctx.obs.append(Ob(name, "proved", "path", "", "post"))
    return True


def expect_value(it, name, r):
    """the call must return normally"""
    if isinstance(r, Raised):
        fail(it, name, "raises %s: %s" % (r.kind, r.msg))
        raise PathEnd2()
    return r


class PathEnd2(Exception):
    pass


def el(it, r, idx=()):
    """element of an array-like result as a term"""
    if isinstance(r, Arr):
        e = r.get(tuple(idx))
        return e
    if isinstance(r, SV):
        return r.e
    if isinstance(r, SB):
        return r.b
    if isinstance(r, (int, float)) or isinstance(r, bool):
        return toE(r)
    return num(r)


def run_contract(c):
    """-> dict(name, status, obligations=[(name,status,by,detail,kind)], paths, seconds, stuck)"""
    t0 = time.time()
    z0 = dict(smt.STATS)
    out = dict(name=c.name, pid=c.pid, quals=c.quals, obs=[], paths=0, stuck=None, error=None)

    def run(it, ctx):
        try:
            c.run(it, ctx)
        except PathEnd2:
            pass
        out.setdefault("inlined", set()).update(it.used)

    try:
        summ = c.summaries() if callable(c.summaries) else (c.summaries or {})
        facts = c.facts() if callable(c.facts) else c.facts
        paths = explore(run, list(facts), summaries=summ, hints=c.hints, opts=c.opts, stubs=c.stubs, maxpaths=c.maxpaths)
        out["paths"] = len(paths)
        for p in paths:
            for o in p.obs:
                out["obs"].append(o)
        if getattr(c, "refutable", True):
            for o in out["obs"]:
                if o.status != "proved" and o.model is not None and o.kind == "post":
                    try:
                        o.refuted = numev.refute(*o.model)
                    except Exception as e:
                        o.refuted = None
                        o.detail = (o.detail or "") + " [evaluation: %s: %s]" % (type(e).__name__, e)
        if not any(o.kind == "post" for o in out["obs"]):
            out["stuck"] = "no postcondition was reached (vacuous)"
    except Stuck as e:
        out["stuck"] = "out of reach: %s" % e
    except RecursionError:
        out["stuck"] = "recursion limit of the generator"
    except Exception as e:      # a defect of the generator, never a verdict
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-3000:]
    out["seconds"] = time.time() - t0
    out["solver"] = smt.STATS["z3_time"] - z0["z3_time"] + smt.STATS["cvc5_time"] - z0["cvc5_time"]
    out["used"] = sorted(out.pop("inlined", set()))
    return out
