"""loops that are not solved in closed form: proved against a loop invariant the contract states

ctx.opts["invariant"] = template for the arrays the loop writes:
    template.state(it, store, entry_fn, name)   -> function of the index: the state after any number of iterations
    template.keep(it, store, phname, fn, prover) -> obligations that one iteration preserves it
Scalars keep those of the facts v > 0, v >= 0 that hold on entry and are preserved (Houdini); everything else
a loop writes is unknown afterwards.  Termination is not proved."""
import ast
import core
import npstub
import text
from core import *
from vals import *
import loops
from interp import PathEnd, WLog


def wanted(it):
    return it.ctx.opts.get("invariant") is not None


def has_while(st):
    return any(isinstance(x, ast.While) for s in st.body for x in ast.walk(s))


def stores(st):
    """may write an array element (else only scalars change and their exact values are not needed)"""
    for s in st.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                return True
            if isinstance(x, ast.Expr):
                return True
    return False


CANDS = [(">0", lambda e: cmp_(">", e, ZERO)), (">=0", lambda e: cmp_(">=", e, ZERO))]


class InvLoop(loops.Summary):
    def __init__(self, it, env, body, n, tag):
        it.ctx.invcount = getattr(it.ctx, "invcount", 0) + 1
        self.tpl = it.ctx.opts["invariant"]
        super().__init__(it, env, body, n, tag)

    # fresh state of the written locations
    def havoc(self):
        it, ctx = self.it, self.it.ctx
        self.names = {}
        facts = []
        for k, l in self.locs.items():
            if self.temp_only(l):
                continue
            if l.kind in ("list", "dict"):
                raise Stuck("loop writes a %s" % l.kind)
            v = self.v0[k]
            if l.kind == "store":
                nm = ctx.freshname("inv")
                st = l.obj
                self.names[k] = nm
                self.write(l, lambda ix, nm=nm: uf(nm, list(ix)))
                continue
            if isinstance(v, (bool, SB)) or isinstance(self.posts.get(k), (bool, SB)):
                x = ctx.fresh("b", "I")
                self.write(l, SB(cmp_("==", x, 1)))
                continue
            if isinstance(v, (int, SV)):
                ty = tyof(v)
                p = self.posts.get(k)
                if isinstance(p, (int, SV)):
                    ty = join_ty(ty, tyof(p))
                a = ctx.fresh("v", "I" if is_intty(ty) else "R")
                for c in self.cands[k]:
                    facts.append(CANDS[c][1](a))
                self.write(l, SV(a, ty))
                continue
            if isinstance(v, (str, text.Txt)) and ctx.opts.get("text"):
                self.write(l, text.Txt([text.Piece(ctx.freshname("text"))]))
                continue
            if v is None:
                continue
            raise Stuck("loop-carried %s" % type(v).__name__)
        return facts

    def entry(self):
        """values on entry, and the candidates that hold there"""
        for k, l in self.locs.items():
            if self.temp_only(l) or k in self.v0:
                continue
            self.v0[k] = l.obj.fn if l.kind == "store" else list(l.obj) if l.kind == "list" else dict(l.obj) if l.kind == "dict" else self.read(l)
            v = self.v0[k]
            if l.kind in ("var", "attr") and isinstance(v, (int, SV)) and not isinstance(v, bool):
                self.cands[k] = [i for i, (_, f) in enumerate(CANDS) if self.holds(self.it.ctx.prover, f(num(v)))]

    def holds(self, prover, goal):
        if goal.op == "T":
            return True
        return prover.copy().check_unsat([Not(goal)], 500) is True

    def generic(self, keep_obs=False):
        it = self.it
        w = WLog()
        it.ctx.wlog.append(w)
        snap = dict(self.env.vars)
        try:
            facts = self.havoc()
            ps = loops.local_paths(it, self.env, lambda: self.body(self.t), self.rng + facts, keep_obs=keep_obs)
            pre = dict(self.env.vars)
        finally:
            it.ctx.wlog.pop()
            w.undo()
            self.env.vars.clear()
            self.env.vars.update(snap)
        for p in ps:
            for k in list(p.env):
                if k in pre and p.env[k] is pre[k] and k in snap:
                    l = loops.Loc("var", None, k)
                    if l.key() not in self.locs:
                        p.env[k] = snap[k]
        return ps

    def analyse(self):
        """inner loops are only summarised optimistically (no proof) while the invariant is being searched;
        the pass that counts, the last one, proves everything"""
        it, ctx = self.it, self.it.ctx
        self.stores_before = loops.StoresBefore(Store.count)
        self.cands, self.posts = {}, {}
        quick = getattr(ctx, "inv_quick", False)
        ctx.inv_quick = True
        try:
            ps = loops.local_paths(it, self.env, lambda: self.body(self.t), self.rng)
            self.collect(ps)
            self.record_posts(ps, self.posts)
            for rnd in range(8):
                self.entry()
                ctx.inv_quick = True
                ps = self.generic()
                more = self.collect(ps)
                self.record_posts(ps, self.posts)
                if more:
                    continue
                if quick:
                    self.exits = [p for p in ps if p.out != "normal"]
                    return
                if self.drop(ps):
                    continue
                ctx.inv_quick = False
                n = len(ctx.obs)
                ps = self.generic(keep_obs=True)
                if self.collect(ps) or self.drop(ps):
                    del ctx.obs[n:]
                    continue
                break
            else:
                raise Stuck("loop invariant does not stabilise")
        finally:
            ctx.inv_quick = quick
        self.exits = [p for p in ps if p.out != "normal"]
        for k, l in self.locs.items():
            if l.kind != "store":
                continue
            for p in ps:
                if p.out != "normal":
                    continue
                o = p.objs.get(id(l.obj))
                if o is None:
                    continue
                fn = o[1][0] if isinstance(o[1], tuple) else o[1]
                self.tpl.keep(it, l.obj, self.names[k], fn, p.prover, self.tag)

    def drop(self, ps):
        """remove the facts some iteration does not preserve"""
        some = False
        for k, l in self.locs.items():
            if k not in self.cands:
                continue
            for p in ps:
                if p.out != "normal":
                    continue
                v = p.env.get(l.name) if l.kind == "var" else (p.objs[id(l.obj)][1].get(l.name) if id(l.obj) in p.objs else None)
                if v is None:
                    continue
                for c in list(self.cands[k]):
                    if not isinstance(v, (int, SV)) or not self.holds(p.prover, CANDS[c][1](num(v))):
                        self.cands[k].remove(c)
                        some = True
        return some

    def after(self):
        """the state after any number of iterations"""
        facts = self.havoc()
        it = self.it
        for k, l in self.locs.items():
            if l.kind == "store":
                f = self.tpl.state(it, l.obj, self.v0[k], it.ctx.freshname("scale"))
                self.write(l, f)
            elif self.temp_only(l):
                # value of the last iteration: unknown
                self.env.vars.pop(l.name, None)
        for f in facts:
            it.ctx.prover.assume(f)


def for_loop(it, st, seq, env):
    ctx = it.ctx

    def body(tE, last=False):
        it.assign(st.target, seq.fn(tE), env)
        it.exec_block(st.body, env)
    old = {}
    for nm in loops.dead_in(st):
        if nm in env.vars:
            old[nm] = env.vars.pop(nm)
    try:
        S = InvLoop(it, env, body, seq.n, "L%d" % st.lineno)
    except BaseException:
        for nm, v in old.items():
            env.vars.setdefault(nm, v)
        raise
    S.after()
    if S.exits and ctx.decide(2, "loop L%d leaves early" % st.lineno) == 1:
        tau = ctx.fresh("tau", "I", 0)
        ctx.prover.assume(cmp_("<", tau, seq.n))
        loops.early(it, lambda: body(tau))
        return
    it.exec_block(st.orelse, env)


def while_loop(it, st, env):
    ctx = it.ctx

    def body(tE, last=False):
        if not it.truth(it.ev(st.test, env), "while L%d" % st.lineno):
            raise PathEnd()
        it.exec_block(st.body, env)
    S = InvLoop(it, env, body, None, "L%d" % st.lineno)
    S.after()
    forever = isinstance(st.test, ast.Constant) and bool(st.test.value)
    if S.exits and (forever or ctx.decide(2, "loop L%d leaves early" % st.lineno) == 1):
        if not it.truth(it.ev(st.test, env), "while L%d" % st.lineno):
            raise PathEnd()
        loops.early(it, lambda: it.exec_block(st.body, env))
        return
    if it.truth(it.ev(st.test, env), "while L%d" % st.lineno):
        raise PathEnd()
    it.exec_block(st.orelse, env)


def attempt(it, st, seq, env):
    """closed form where there is one, else the invariant; a closed form over an unknown inner loop is no closed form"""
    if not has_while(st) and stores(st):
        n = getattr(it.ctx, "invcount", 0)
        snap = dict(env.vars)
        w = WLog()
        it.ctx.wlog.append(w)
        try:
            loops.summarize_for(it, st, seq, env)
            if getattr(it.ctx, "invcount", 0) != n:
                raise Stuck("inner loop without closed form")
            it.ctx.wlog.pop()
            return
        except (Stuck, loops.Peel):
            it.ctx.wlog.pop()
            w.undo()
            env.vars.clear()
            env.vars.update(snap)
    for_loop(it, st, seq, env)


class Similarity:
    """the array stays a positive diagonal similarity of what it was: entry (i, j) times d(j)/d(i)"""
    def state(self, it, store, fn, nm):
        return lambda ix: fn(ix) * uf(nm, [ix[1]], "R", 1) / uf(nm, [ix[0]], "R", 1)

    def keep(self, it, store, ph, fn, prover, tag):
        similar(it, "loop %s: one pass is a diagonal similarity" % tag, store.shape, lambda ix: uf(ph, list(ix)), ph, fn, prover)


def similar(it, name, shape, before, bname, after, prover):
    """obligations: after(a, b) == before(a, b) * d(b) / d(a) for some d > 0, with the witness d(b) = after(0, b) where before = 1"""
    if len(shape) != 2:
        raise Stuck("similarity of a %d-d array" % len(shape))
    p = prover.copy()
    ix = []
    for s in shape:
        v = it.ctx.fresh("q", "I", 0)
        p.assume(cmp_("<", v, s))
        ix.append(v)
    a, b = ix

    def w(j):
        return loops.subst_uf(npstub.asnum(after((ZERO, j))), bname, lambda args: ONE)

    def go():
        return cmp_("==", npstub.asnum(after((a, b))) * w(a), before((a, b)) * w(b)), cmp_(">", w(b), ZERO), cmp_("==", npstub.asnum(after((a, a))), before((a, a)))
    g1, g2, g3 = npstub.with_prover(p, go)
    it.ctx.oblige(name + ": scale factors are positive", g2, kind="post", prover=p)
    it.ctx.oblige(name, g1, kind="post", prover=p)
    it.ctx.oblige(name + ": the diagonal is unchanged", g3, kind="post", prover=p)
