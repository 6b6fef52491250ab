"""Loop rules.

Concrete iteration unrolls.  A loop of symbolic length is summarised by executing its body once
for a *generic* iteration t from a generic state (every location the body may write is a fresh
symbol / uninterpreted content), exploring all paths of the body, and solving the resulting
recurrences exactly: temporaries, accumulators (finite sums), geometric factors, write-once array
cells (maps, block fills, recurrences over already written cells).  What cannot be solved needs an
inductive invariant: candidates come from the contract (ctx.hints) or are simple sign predicates;
each is *proved* inductive before it is used, everything else is forgotten (havoc).
Early exits become a case "leaves in iteration tau", executed for real from the state before tau.
"""
import ast
from core import *
import core
from vals import *
from interp import (ReturnEx, BreakEx, ContinueEx, PathEnd, PyIter, WLog, obj_state, obj_restore, Env)
from smt import prove
import npstub

MAXUNROLL = 64


class Peel(Exception):
    """the summary needs the first iteration to be executed separately"""


# ----------------------------------------------------------------------------- helpers
def has_uf(e, name):
    return any(ATOMS[a].kind == "uf" and ATOMS[a].name == name for a in all_atoms(e))


def subst_uf(e, name, fn):
    """replace every application name(args) by fn(args)"""
    isb = isinstance(e, B)
    for _ in range(6):
        ids = [a for a in all_atoms(e) if ATOMS[a].kind == "uf" and ATOMS[a].name == name]
        if not ids:
            return e
        inner = [a for a in ids if not any(has_uf(x, name) for x in ATOMS[a].args)]
        mp = {a: fn(ATOMS[a].args) for a in inner}
        e = bsubst(e, mp) if isb else subst(e, mp)
    raise Stuck("nested placeholder")


def vsubst(v, mp):
    if isinstance(v, SV):
        return SV(subst(v.e, mp), v.ty) if v.ty != "int" else sv(subst(v.e, mp), "int")
    if isinstance(v, SB):
        return npstub.mkb(bsubst(v.b, mp))
    if isinstance(v, Arr):
        g = v.snap()
        return mkarr(tuple(subst(s, mp) for s in v.shape), lambda ix: ssub(g, ix, mp), v.dtype)
    if isinstance(v, tuple):
        return tuple(vsubst(x, mp) for x in v)
    if isinstance(v, list):
        return [vsubst(x, mp) for x in v]
    if isinstance(v, SymList):
        f = v.fn
        return SymList(subst(v.n, mp), lambda j: vsubst(f(j), mp))
    if hasattr(v, "nc_subst"):
        return v.nc_subst(mp)
    return v


_ixv = [0]


def ssub(g, ix, mp):
    """g(ix) with mp applied to g's own symbols only (not to the index)"""
    tmp, back = [], {}
    for i in ix:
        if i.const() is not None or not any(a in mp for a in all_atoms(i)):
            tmp.append(i)
        else:
            _ixv[0] += 1
            f = var("ix%d@g" % _ixv[0], "I", None)
            tmp.append(f)
            back[npstub.aid(f)] = i
    e = g(tuple(tmp))
    e = bsubst(e, mp) if isinstance(e, B) else subst(e, mp)
    if back:
        e = bsubst(e, back) if isinstance(e, B) else subst(e, back)
    return e


def sametype(a, b):
    if isinstance(a, (int, SV, SB, bool)) and isinstance(b, (int, SV, SB, bool)):
        return True
    return type(a) is type(b)


def merge(it, alts):
    """[(cond, value)] with exclusive exhaustive conditions -> value"""
    vals = [v for _, v in alts]
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(isinstance(v, (bool, SB)) for v in vals):
        r = FALSE
        for c, v in alts:
            r = Or(r, And(c, v.b if isinstance(v, SB) else Bo(v)))
        return npstub.mkb(r)
    if all(isinstance(v, (int, SV, SB)) for v in vals):
        ty = tyof(v0)
        for v in vals[1:]:
            ty = join_ty(ty, tyof(v))
        r = num(vals[-1])
        for c, v in reversed(alts[:-1]):
            r = ite(c, num(v), r)
        return sv(r, ty)
    if all(isinstance(v, Arr) for v in vals):
        sh = v0.shape
        for v in vals[1:]:
            if len(v.shape) != len(sh) or not all(npstub.dim_eq(it, a, b) for a, b in zip(sh, v.shape)):
                raise Stuck("arrays of different shape merged")
        gs = [(c, v.snap()) for c, v in alts]
        if v0.dtype == "bool":
            raise Stuck("merge of boolean arrays")

        def el(ix):
            r = npstub.asnum(gs[-1][1](ix))
            for c, g in reversed(gs[:-1]):
                r = ite(c, npstub.asnum(g(ix)), r)
            return r
        return mkarr(sh, el, v0.dtype)
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(merge(it, [(c, v[k]) for c, v in alts]) for k in range(len(v0)))
    if all(isinstance(v, list) for v in vals) and len({len(v) for v in vals}) == 1:
        return [merge(it, [(c, v[k]) for c, v in alts]) for k in range(len(v0))]
    if all(isinstance(v, str) for v in vals) and len(set(vals)) == 1:
        return v0
    if all(hasattr(v, "nc_key") for v in vals) and len({v.nc_key() for v in vals}) == 1:
        return v0
    raise Stuck("cannot merge %s" % ", ".join(type(v).__name__ for v in vals))


# ----------------------------------------------------------------------------- local exploration
class LP:
    pass


def local_paths(it, env, body, assume=(), keep_obs=False, setup=None, limit=40):
    """run body() on every feasible local path from the current state; the state is restored"""
    ctx = it.ctx
    saved = (ctx.decisions, ctx.pos, ctx.alts, ctx.prover, ctx.log, ctx.obs, ctx.branchlog, ctx.created)
    base = ctx.prover.copy()
    for b in assume:
        base.assume(b)
    snap = dict(env.vars)
    work, res = [[]], []
    allobs = []
    n = 0
    try:
        while work:
            dec = work.pop()
            n += 1
            if n > limit:
                raise Stuck("too many paths in a loop body")
            ctx.decisions, ctx.pos, ctx.alts = list(dec), 0, []
            ctx.prover = base.copy()
            core.PROVER[0] = ctx.prover
            ctx.branchlog, ctx.created = [], []
            ctx.obs = []
            ctx.log = list(saved[4])
            w = WLog()
            ctx.wlog.append(w)
            p = LP()
            p.val = None
            try:
                try:
                    p.val = body()
                    p.out = "normal"
                except ContinueEx:
                    p.out = "normal"
                except BreakEx:
                    p.out = "break"
                except ReturnEx as r:
                    p.out, p.val = "return", r.v
                except PyRaise as r:
                    p.out, p.val = "raise", r
                except PathEnd:
                    p.out = None
                p.cond = And(*ctx.branchlog)
                p.prover = ctx.prover
                p.env = dict(env.vars)
                p.objs = {k: (o, obj_state(o)) for k, (o, s) in w.objs.items()}
                p.pre = {k: s for k, (o, s) in w.objs.items()}
                p.created = list(ctx.created)
                allobs.extend(ctx.obs)
            finally:
                ctx.wlog.pop()
                w.undo()
                env.vars.clear()
                env.vars.update(snap)
            if p.out is not None:
                res.append(p)
            work.extend(ctx.alts)
    finally:
        (ctx.decisions, ctx.pos, ctx.alts, ctx.prover, ctx.log, ctx.obs, ctx.branchlog, ctx.created) = saved
        core.PROVER[0] = ctx.prover
    if keep_obs:
        ctx.obs.extend(allobs)
    return res


def skolem(created, tE, val):
    """variables created inside the generic iteration become functions of the iteration"""
    mp = {}
    for c in created:
        a = ATOMS[npstub.aid(c)]
        mp[a.id] = uf("sk:" + a.name, [tE], a.sort, a.pos)
    return vsubst(val, mp) if mp else val


# ----------------------------------------------------------------------------- comprehension
def map_symbolic(it, g, iterable, env, rest, k):
    seq = npstub.as_symseq(it, iterable)
    if rest:
        raise Stuck("nested symbolic comprehension")
    ctx = it.ctx
    j = ctx.fresh("cj", "I", 0)
    e2 = Env({}, env, env.glob)

    def body():
        it.assign(g.target, seq.fn(j), e2)
        fl = True
        for c in g.ifs:
            t = it.ev(c, e2)
            b = npstub.tob(it, t)
            if b.op == "T":
                continue
            fl = And(fl if fl is not True else TRUE, b)
        sub = ctx.prover
        if fl is not True:
            if fl.op == "F":
                return (fl, None)
            sub.assume(fl)
        v = k(e2)
        return (fl, v)
    rng = [cmp_(">=", j, 0), cmp_("<", j, seq.n), cmp_(">=", seq.n, 1)]
    ps = local_paths(it, e2, body, rng, keep_obs=True)
    if not ps:
        return SymList(ZERO, lambda i: None)
    for p in ps:
        if p.objs:
            raise Stuck("comprehension with side effects")
        if p.out == "raise":
            if it.ctx.prover.check_unsat([cmp_(">=", seq.n, 1), p.cond], 1500) is True:
                continue
            # an element may raise: the whole comprehension raises when such an element exists
            if len(ps) == 1:
                if ctx.branch(cmp_(">=", seq.n, 1), "nonempty"):
                    raise p.val
                return []
            raise Stuck("comprehension element may raise")
    ps = [p for p in ps if p.out == "normal"]
    cr = [c for p in ps for c in p.created]
    val = merge(it, [(p.cond, p.val[1]) for p in ps if p.val[1] is not None])
    val = skolem(cr, j, val)
    jid = npstub.aid(j)
    conds = [(p.cond, p.val[0]) for p in ps]
    if all(f is True for _, f in conds):
        return SymList(seq.n, lambda i: vsubst(val, {jid: toE(i)}))
    fb = FALSE
    for c, f in conds:
        fb = Or(fb, And(c, TRUE if f is True else f))
    return SymFilter(seq.n, lambda i: vsubst(val, {jid: toE(i)}), lambda i: bsubst(fb, {jid: toE(i)}))


class SymFilter:
    """[f(x) for x in symbolic list if cond(x)]"""

    def __init__(self, n, fn, cond):
        self.n, self.fn, self.cond = n, fn, cond

    def nonempty(self, it, desc="nonempty selection"):
        ctx = it.ctx
        n, cond = self.n, self.cond
        i = var("flt@g", "I", 0)
        key = "flt%x" % (hash((cond(i).key(), n.key())) & 0xffffffffff)

        def on(val):
            if val:
                w = ctx.fresh("sel", "I", 0)
                ctx.prover.assume(cmp_("<", w, n))
                ctx.prover.assume(cond(w))
            else:
                ctx.prover.assume_forall("flt", lambda at: npstub.all_inst(at, lambda ix: Not(cond(ix[0])), n))
        ctx.quant[key] = (on,)
        return ctx.branch(bsym(key), desc)

    def extreme(self, it, sign):
        if not self.nonempty(it):
            raise PyRaise("ValueError", "empty sequence")
        ctx = it.ctx
        w = ctx.fresh("ext", "I", 0)
        ctx.prover.assume(cmp_("<", w, self.n))
        ctx.prover.assume(self.cond(w))
        top = num(self.fn(w))
        cond, fn, n = self.cond, self.fn, self.n
        ctx.prover.assume_forall("ext", lambda at: npstub.all_inst(
            at, lambda ix: Or(Not(cond(ix[0])), cmp_("<=", num(fn(ix[0])), top) if sign > 0 else cmp_(">=", num(fn(ix[0])), top)), n))
        return self.fn(w)

    def count(self, it):
        return SV(npstub.esum_ctx(self.n, lambda j: ite(self.cond(j), ONE, ZERO)), "int")

    def total(self, it):
        return SV(npstub.esum_ctx(self.n, lambda j: ite(self.cond(j), num(self.fn(j)), ZERO)), "float")


# ----------------------------------------------------------------------------- for
def run_for(it, st, iterable, env):
    items = None
    try:
        items = it.aslist(iterable)
    except Stuck:
        items = None
    if items is not None:
        if len(items) > 400:
            raise Stuck("loop over %d items" % len(items))
        for x in items:
            it.assign(st.target, x, env)
            try:
                it.exec_block(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
        it.exec_block(st.orelse, env)
        return
    if isinstance(iterable, SymFilter):
        flt = iterable
        nm = "@flt%d" % st.lineno
        iterable = SymList(flt.n, lambda j: (SB(flt.cond(toE(j))), flt.fn(j)))
        st2 = ast.For(target=ast.Tuple(elts=[ast.Name(id=nm, ctx=ast.Store()), st.target], ctx=ast.Store()), iter=st.iter,
                      body=[ast.If(test=ast.Name(id=nm, ctx=ast.Load()), body=st.body, orelse=[])], orelse=st.orelse)
        st = ast.fix_missing_locations(ast.copy_location(st2, st))
    seq = npstub.as_symseq(it, iterable)
    import inv
    for peel in range(3):
        ctx = it.ctx
        if not ctx.branch(cmp_(">=", seq.n, 1), "loop L%d entered" % st.lineno):
            it.exec_block(st.orelse, env)
            return
        try:
            if inv.wanted(it):
                inv.attempt(it, st, seq, env)
            else:
                summarize_for(it, st, seq, env)
            return
        except Peel:
            it.assign(st.target, seq.fn(ZERO), env)
            try:
                it.exec_block(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
            seq = shift(seq)
    raise Stuck("loop at line %d could not be summarised" % st.lineno)


def shift(seq):
    return SymList(seq.n - 1, lambda j: seq.fn(j + 1))


def summarize_for(it, st, seq, env):
    ctx = it.ctx
    n = seq.n

    def body(tE, last=False):
        it.assign(st.target, seq.fn(tE), env)
        it.exec_block(st.body, env)
    # locals whose old value no iteration reads are temporaries of the body (the loop is entered: n >= 1)
    old = {}
    for nm in dead_in(st):
        if nm in env.vars:
            old[nm] = env.vars.pop(nm)
    try:
        S = Summary(it, env, body, n, "L%d" % st.lineno)
    except BaseException:
        for nm, v in old.items():
            env.vars.setdefault(nm, v)
        raise
    exits = S.exits
    if exits:
        v = ctx.decide(2, "loop L%d leaves early" % st.lineno)
        if v == 1:
            tau = ctx.fresh("tau", "I", 0)
            ctx.prover.assume(cmp_("<", tau, n))
            S.assume_no_exit(tau)
            S.set_state(tau)
            early(it, lambda: body(tau))
            return
        S.assume_no_exit(n)
        if ctx.prover.check_unsat([], 1500) is True:
            raise PathEnd()
    S.finish(n)
    it.exec_block(st.orelse, env)


def dead_in(st):
    """names the loop body assigns, unconditionally, before it reads them"""
    assigned, read = set(), set()

    def names(t):
        if isinstance(t, ast.Name):
            return [t.id]
        if isinstance(t, (ast.Tuple, ast.List)):
            return [x for e in t.elts for x in names(e)]
        if isinstance(t, ast.Starred):
            return names(t.value)
        return []

    def loads(node):
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store) and x.id not in assigned:
                read.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id not in assigned:
                read.add(x.target.id)
    assigned.update(names(st.target))
    for s in st.body:
        loads(s)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                assigned.update(names(t))
    return assigned - read


def early(it, run):
    """execute the iteration in which the loop is left"""
    try:
        run()
    except BreakEx:
        return
    except ContinueEx:
        raise PathEnd()
    raise PathEnd()


# ----------------------------------------------------------------------------- while
def counted(it, st, env):
    """while v < e: ...; v += c  with nothing else assigning v or what e reads: the same as a for loop over
    range(v, e, c) that leaves v at its final value.  Returns (v, range) or None."""
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(st.body) >= 2):
        return None
    a, op, b = t.left, t.ops[0], t.comparators[0]
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    if type(op) not in flip:
        return None
    inc = st.body[-1]
    if isinstance(inc, ast.AugAssign) and isinstance(inc.target, ast.Name) and isinstance(inc.op, (ast.Add, ast.Sub)):
        v, c, sgn = inc.target.id, inc.value, 1 if isinstance(inc.op, ast.Add) else -1
    elif (isinstance(inc, ast.Assign) and len(inc.targets) == 1 and isinstance(inc.targets[0], ast.Name) and isinstance(inc.value, ast.BinOp)
          and isinstance(inc.value.op, (ast.Add, ast.Sub)) and isinstance(inc.value.left, ast.Name) and inc.value.left.id == inc.targets[0].id):
        v, c, sgn = inc.targets[0].id, inc.value.right, 1 if isinstance(inc.value.op, ast.Add) else -1
    else:
        return None
    if not (isinstance(c, ast.Constant) and type(c.value) is int and c.value > 0):
        return None
    o = type(op)
    if isinstance(b, ast.Name) and b.id == v:
        a, b, o = b, a, flip[o]
    if not (isinstance(a, ast.Name) and a.id == v) or (o in (ast.Lt, ast.LtE)) != (sgn > 0):
        return None
    reads = set()
    for x in ast.walk(b):
        if isinstance(x, ast.Name):
            reads.add(x.id)
        elif not isinstance(x, (ast.BinOp, ast.Constant, ast.Load, ast.operator)):
            return None
    if v in reads:
        return None
    for s in st.body[:-1]:
        for x in ast.walk(s):
            if isinstance(x, (ast.Continue, ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef)):
                return None
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and x.id in reads | {v}:
                return None
    v0, e = env.vars.get(v), None
    if not isinstance(v0, (int, SV)) or isinstance(v0, bool) or not is_intty(tyof(v0)):
        return None
    e = it.ev(b, env)
    if not isinstance(e, (int, SV)) or isinstance(e, bool) or not is_intty(tyof(e)):
        return None
    if o in (ast.LtE, ast.GtE):
        e = npstub.binop(it, "Add", e, sgn)
    return v, npstub.b_range(it, [v0, e, sgn * c.value], {})


def run_counted(it, st, env, v, rng):
    st2 = ast.For(target=ast.Name(id=v, ctx=ast.Store()), iter=st.test, body=st.body[:-1], orelse=[])
    st2 = ast.fix_missing_locations(ast.copy_location(st2, st))
    v0 = env.vars[v]
    n = C(len(rng)) if isinstance(rng, range) else rng.length()
    step = rng.step

    def finish():
        k = n.const()
        none = k < 1 if k is not None else it.ctx.branch(cmp_("<", n, 1), "no iteration")
        it.assign(st2.target, v0 if none else npstub.sv(num(v0) + n * step, "int"), env)
    fin = ast.Expr(value=ast.Constant(value=None))
    fin.verif_hook = finish
    st2.orelse = [ast.copy_location(fin, st)] + list(st.orelse)
    run_for(it, st2, rng, env)


def run_while(it, st, env):
    ctx = it.ctx
    import inv
    c = counted(it, st, env)
    if c is not None:
        return run_counted(it, st, env, *c)
    if inv.wanted(it):
        return inv.while_loop(it, st, env)
    # constant iteration: unroll as long as the test is decided
    for k in range(MAXUNROLL if counting(st.test) else 0):
        t = it.ev(st.test, env)
        b = npstub.tob(it, t) if isinstance(t, (SB, SV, bool, int, Arr)) else None
        if b is None:
            b = TRUE if it.truth(t) else FALSE
        if b.op == "T" and not (isinstance(st.test, ast.Constant)):
            dec = True
        elif b.op == "F":
            it.exec_block(st.orelse, env)
            return
        elif k == 0 or k == 1:
            break
        else:
            break
        try:
            snap_try = it.exec_block(st.body, env)
        except BreakEx:
            return
        except ContinueEx:
            pass
    else:
        if counting(st.test):
            raise Stuck("while loop unrolled too often")
    if not (isinstance(st.test, ast.Constant) and st.test.value):
        if not it.truth(it.ev(st.test, env), "while L%d" % st.lineno):
            it.exec_block(st.orelse, env)
            return

    def body(tE, last=False):
        """iteration tE, entered because the test holds"""
        if not it.truth(it.ev(st.test, env), "while L%d" % st.lineno):
            raise PathEnd()
        try:
            it.exec_block(st.body, env)
        except ContinueEx:
            pass
        if not last and not it.truth(it.ev(st.test, env), "while again L%d" % st.lineno):
            raise LastIter()

    def gbody(tE, last=False):
        try:
            body(tE)
        except LastIter:
            raise BreakEx()
    S = Summary(it, env, gbody, None, "L%d" % st.lineno)
    tau = ctx.fresh("tau", "I", 0)
    S.assume_no_exit(tau)
    S.set_state(tau)
    try:
        if not it.truth(it.ev(st.test, env), "while L%d" % st.lineno):
            raise PathEnd()
        try:
            it.exec_block(st.body, env)
        except ContinueEx:
            pass
    except BreakEx:
        S.settle(tau)
        return
    if it.truth(it.ev(st.test, env), "while again L%d" % st.lineno):
        raise PathEnd()
    S.settle(tau)
    it.exec_block(st.orelse, env)


def counting(test):
    return isinstance(test, ast.Compare) and all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)) for o in test.ops)


class LastIter(Exception):
    pass


# ----------------------------------------------------------------------------- summaries
class Loc:
    """a location the loop body writes"""
    def __init__(self, kind, obj, name=None):
        self.kind, self.obj, self.name = kind, obj, name

    def key(self):
        return (self.kind, id(self.obj) if self.obj is not None else 0, self.name)

    def __repr__(self):
        return "%s:%s" % (self.kind, self.name)


class Summary:
    def __init__(self, it, env, body, n, tag):
        self.it, self.env, self.body, self.n, self.tag = it, env, body, n, tag
        ctx = it.ctx
        self.t = ctx.fresh("t", "I", 0)
        self.tid = npstub.aid(self.t)
        self.rng = [cmp_(">=", self.t, 0)]
        if n is not None:
            self.rng += [cmp_("<", self.t, n), cmp_(">=", n, 1)]
        self.locs = {}
        self.v0 = {}
        self.ph = {}
        self.sol = {}
        self.facts = []
        self.analyse()

    # ---- locations
    def read(self, loc):
        if loc.kind == "var":
            return self.env.vars.get(loc.name)
        if loc.kind == "attr":
            return loc.obj.attrs.get(loc.name)
        if loc.kind == "store":
            return loc.obj
        return loc.obj

    def write(self, loc, v):
        if loc.kind == "var":
            self.env.vars[loc.name] = v
        elif loc.kind == "attr":
            self.it.mark(loc.obj)
            loc.obj.attrs[loc.name] = v
        elif loc.kind == "store":
            self.it.mark(loc.obj)
            loc.obj.set_fn(v)
        elif loc.kind == "list":
            self.it.mark(loc.obj)
            loc.obj[:] = v
        elif loc.kind == "dict":
            self.it.mark(loc.obj)
            loc.obj.clear()
            loc.obj.update(v)

    def collect(self, ps):
        """locations written on some path"""
        new = False
        pre = self.env.vars
        for p in ps:
            for k, v in p.env.items():
                if k not in pre or p.env[k] is not pre[k]:
                    l = Loc("var", None, k)
                    if l.key() not in self.locs:
                        self.locs[l.key()] = l
                        new = True
            for oid, (o, s) in p.objs.items():
                pr = p.pre[oid]
                if isinstance(o, Store):
                    ls = [Loc("store", o)]
                elif isinstance(o, Obj):
                    ls = [Loc("attr", o, a) for a in s if a not in pr or s[a] is not pr[a]]
                elif isinstance(o, list):
                    ls = [Loc("list", o)]
                elif isinstance(o, dict):
                    ls = [Loc("dict", o)]
                else:
                    raise Stuck("loop writes %s" % type(o).__name__)
                for l in ls:
                    if l.key() not in self.locs and self.preexists(l):
                        self.locs[l.key()] = l
                        new = True
        return new

    def preexists(self, l):
        if l.kind == "store":
            return l.obj.id in self.stores_before
        return True

    def placeholder(self, loc, v, post):
        ctx = self.it.ctx
        nm = ctx.freshname("ph")
        if loc.kind == "store":
            st = loc.obj
            return ("uf", nm, (lambda ix: uf(nm, list(ix), "I" if st.dtype == "int" else "R")))
        if loc.kind in ("list", "dict"):
            return ("obj", nm, None)
        if isinstance(v, bool) or isinstance(v, SB):
            if post is not None and not isinstance(post, (bool, SB)):
                raise Peel()
            return ("sym", nm, SB(bsym(nm)))
        if isinstance(v, (int, SV)):
            if post is not None and not isinstance(post, (int, SV)):
                raise Peel()
            ty = tyof(v) if post is None else join_ty(tyof(v), tyof(post))
            a = var(nm, "I" if is_intty(ty) else "R")
            return ("var", nm, SV(a, ty))
        if isinstance(v, Arr):
            if post is not None and not isinstance(post, Arr):
                raise Peel()
            a = mkarr(v.shape, lambda ix: uf(nm, list(ix)), v.dtype)
            return ("arr", nm, a)
        if hasattr(v, "nc_placeholder"):
            return ("nc", nm, v.nc_placeholder(nm))
        if v is None and post is not None:
            raise Peel()
        if isinstance(v, tuple) and post is not None and isinstance(post, tuple):
            raise Stuck("tuple carried through a loop")
        if v is None or isinstance(v, (str, Obj, Func, Bound, Native, Inf)):
            raise Peel() if not (post is None or post is v) else Stuck("loop-carried %s" % type(v).__name__)
        raise Stuck("loop-carried %s" % type(v).__name__)

    def temp_only(self, loc):
        return loc.kind == "var" and loc.name not in self.env.vars

    # ---- analysis
    def analyse(self):
        it, ctx = self.it, self.it.ctx
        self.stores_before = StoresBefore(Store.count)
        # which locations are written; repeated with placeholders until stable
        ps = local_paths(it, self.env, lambda: self.body(self.t), self.rng)
        if not ps and self.n is None:
            pass
        self.collect(ps)
        posts = {}
        self.record_posts(ps, posts)
        for rnd in range(5):
            ps = self.run_generic(posts)
            if not self.collect(ps):
                break
            self.record_posts(ps, posts)
        else:
            raise Stuck("loop state does not stabilise")
        self.paths = ps
        self.solve()
        # all obligations inside the body, from the solved state, for every iteration
        ps = self.run_solved()
        self.exits = [p for p in ps if p.out != "normal"]
        self.final_paths = ps

    def record_posts(self, ps, posts):
        for p in ps:
            if p.out != "normal":
                continue
            for k, l in self.locs.items():
                if l.kind == "var" and l.name in p.env:
                    posts.setdefault(k, p.env[l.name])
                elif l.kind == "attr":
                    o = p.objs.get(id(l.obj))
                    if o is not None and l.name in o[1]:
                        posts.setdefault(k, o[1][l.name])

    def run_generic(self, posts):
        it = self.it
        self.ph = {}
        env_over = {}
        w = WLog()
        it.ctx.wlog.append(w)
        snap = dict(self.env.vars)
        try:
            for k, l in self.locs.items():
                if self.temp_only(l):
                    continue
                if k not in self.v0:
                    self.v0[k] = (l.obj.fn, l.obj.memo) if l.kind == "store" else (list(l.obj) if l.kind == "list" else dict(l.obj) if l.kind == "dict" else self.read(l))
                ph = self.placeholder(l, self.v0[k], posts.get(k))
                self.ph[k] = ph
                if l.kind in ("list", "dict"):
                    continue
                self.write(l, ph[2])
            ps = local_paths(it, self.env, lambda: self.body(self.t), self.rng)
            for p in ps:
                # locations written relative to the placeholder state
                for k, l in self.locs.items():
                    pass
            pre = dict(self.env.vars)
        finally:
            it.ctx.wlog.pop()
            w.undo()
            self.env.vars.clear()
            self.env.vars.update(snap)
        # writes compared with the placeholder environment
        for p in ps:
            p.env = {k: v for k, v in p.env.items()}
            for k in list(p.env):
                if k in pre and p.env[k] is pre[k] and k in snap:
                    l = Loc("var", None, k)
                    if l.key() not in self.locs:
                        p.env[k] = snap[k]
        self.pre_env = pre
        return ps

    def post_of(self, p, k, l):
        if l.kind == "var":
            return p.env.get(l.name, self.ph[k][2] if k in self.ph else None)
        o = p.objs.get(id(l.obj))
        if l.kind == "attr":
            return o[1].get(l.name) if o is not None else self.ph[k][2]
        if l.kind == "store":
            return o[1] if o is not None else None
        return o[1] if o is not None else None

    # ---- solving recurrences
    def solve(self):
        it, ctx = self.it, self.it.ctx
        ps = [p for p in self.paths if p.out == "normal"]
        self.normal = ps
        if not ps:
            # every iteration leaves the loop: only iteration 0 matters
            for k, l in self.locs.items():
                if not self.temp_only(l):
                    self.sol[k] = ("const", None)
            return
        self.created = [c for p in ps for c in p.created]
        todo = [k for k in self.locs]
        self.post = {}
        for k in todo:
            l = self.locs[k]
            if l.kind == "store":
                continue
            if l.kind in ("list", "dict"):
                continue
            vals = []
            for p in ps:
                vals.append((p.cond, self.post_of(p, k, l)))
            if any(v is None for _, v in vals):
                if all(v is None for _, v in vals):
                    continue
                if self.temp_only(l):
                    self.sol[k] = ("undef", None)      # defined on some paths only
                    continue
            try:
                self.post[k] = skolem(self.created, self.t, merge(it, vals))
            except Stuck:
                if self.temp_only(l):
                    self.sol[k] = ("undef", None)
                    continue
                raise
        progress = True
        while progress:
            progress = False
            for k in list(todo):
                if k in self.sol:
                    todo.remove(k)
                    continue
                s = self.try_solve(k)
                if s is not None:
                    self.sol[k] = s
                    todo.remove(k)
                    progress = True
        if todo:
            self.invariants(todo)

    def unresolved_ids(self):
        out = set()
        for k, ph in self.ph.items():
            if k not in self.sol and ph[0] not in ("obj",):
                out.add(ph[1])
        return out

    def apply_sol(self, e, tE):
        """replace solved placeholders in e by their value before iteration tE"""
        isb = isinstance(e, B)
        for _ in range(4):
            hit = False
            for k, ph in self.ph.items():
                s = self.sol.get(k)
                if s is None or ph[0] == "obj":
                    continue
                if not mentions(e, ph[1]):
                    continue
                hit = True
                if ph[0] == "var":
                    v = s[1](tE)
                    mp = {npstub.aid(ph[2].e): num(v)}
                    e = bsubst(e, mp) if isb else subst(e, mp)
                elif ph[0] == "uf":
                    f = s[1](tE)
                    e = subst_uf(e, ph[1], f)
                elif ph[0] == "arr":
                    a = s[1](tE)
                    g = a.snap()
                    e = subst_uf(e, ph[1], g)
                elif ph[0] == "nc":
                    from ncmat import subst_trace
                    mp = subst_trace(e, ph[1], s[1](tE))
                    e = bsubst(e, mp) if isb else subst(e, mp)
                else:
                    raise Stuck("substitution of %s" % ph[0])
            if not hit:
                break
        return e

    def dep_unresolved(self, e):
        un = self.unresolved_ids()
        return any(mentions(e, nm) for nm in un)

    def try_solve(self, k):
        l = self.locs[k]
        it, t = self.it, self.t
        if l.kind == "store":
            return self.solve_store(k, l)
        if l.kind == "list":
            return self.solve_list(k, l)
        if l.kind == "dict":
            return ("havoc", lambda T: {"<havoc>": True})
        post = self.post[k]
        tid = self.tid
        temp = self.temp_only(l)
        v0 = None if temp else self.v0[k]
        if hasattr(post, "nc_placeholder"):
            from ncmat import nc_solve
            return nc_solve(self, k, post, v0)
        if isinstance(post, (bool, SB)):
            b = post.b if isinstance(post, SB) else Bo(post)
            b = self.apply_sol(b, t)
            if self.dep_unresolved(b):
                return None
            if temp:
                return ("temp", lambda T: npstub.mkb(bsubst(b, {tid: T - 1})))
            b0 = v0.b if isinstance(v0, SB) else Bo(v0) if isinstance(v0, bool) else None
            if b0 is None:
                return None
            return ("temp", lambda T: npstub.mkb(Or(And(cmp_("<=", T, 0), b0), And(cmp_(">", T, 0), bsubst(b, {tid: T - 1})))))
        if isinstance(post, (int, SV)):
            g = self.apply_sol(num(post), t)
            ty = tyof(post)
            if temp:
                if self.dep_unresolved(g):
                    return None
                return ("temp", lambda T: sv(subst(g, {tid: T - 1}), ty))
            z = num(v0)
            ty = join_ty(tyof(v0), ty)
            V = self.ph[k][2].e
            f = self.closed(g, V, z, k)
            if f is None:
                return None
            return ("closed", lambda T: sv(f(T), ty))
        if isinstance(post, Arr):
            idx = tuple(var("a%d@g" % i, "I", 0) for i in range(post.ndim))
            p = it.ctx.prover.copy()
            for b in self.rng:
                p.assume(b)
            for a, s in zip(idx, post.shape):
                p.assume(cmp_("<", a, s))
            g = npstub.with_prover(p, lambda: self.apply_sol(npstub.asnum(post.get(idx)), t))
            if self.dep_unresolved(npstub.asnum(ZERO) + sum((s for s in post.shape), ZERO)):
                return None
            if temp:
                if self.dep_unresolved(g):
                    return None
                ids = [npstub.aid(i) for i in idx]
                shp = tuple(self.apply_sol(s, t) for s in post.shape)
                return ("temp", lambda T: mkarr(tuple(subst(s, {tid: T - 1}) for s in shp),
                                                lambda ix: subst(g, dict([(tid, T - 1)] + list(zip(ids, ix)))), post.dtype))
            for a, b in zip(post.shape, v0.shape):
                if not npstub.dim_eq(it, a, b):
                    raise Peel()
            V = uf(self.ph[k][1], list(idx))
            ids = [npstub.aid(i) for i in idx]
            z0 = v0.snap()
            z = z0(idx)
            f = self.closed(g, V, z, k)
            if f is None:
                return None
            return ("closed", lambda T: mkarr(v0.shape, lambda ix: subst(f(T), dict(zip(ids, ix))), post.dtype))
        if temp:
            return ("temp", lambda T: vsubst(post, {tid: T - 1}))
        raise Stuck("loop-carried %s" % type(post).__name__)

    def closed(self, g, V, z, k):
        """closed form of v(0)=z, v(t+1)=g(v(t),t); None if not solvable"""
        t, tid = self.t, self.tid
        me = self.ph[k][1]
        vid = npstub.aid(V)
        others = [nm for nm in self.unresolved_ids() if nm != me]
        if any(mentions(g, nm) for nm in others):
            return None
        if not mentions(g, me):
            if self.n is not None or True:
                try:
                    g1 = subst(g, {tid: C(-1)})
                    same = eq_exact(g1, z)
                except Exception:
                    same = False
                if same:
                    return lambda T: subst(g, {tid: T - 1})
            return lambda T: self.first(T, z, subst(g, {tid: T - 1}))
        d = g - V
        if not mentions(d, me):
            return lambda T: z + npstub.esum_ctx(T, lambda j: subst(d, {tid: j}))
        if not edepends(d, vid) and mentions(d, me):
            return None
        # ite(c, V+d1, V+d2)
        cases = leaves(g)
        if len(cases) > 1 and all(not mentions(c, me) and not mentions(e - V, me) for c, e in cases):
            dd = ZERO
            for c, e in reversed(cases):
                dd = ite(c, e - V, dd)
            return lambda T: z + npstub.esum_ctx(T, lambda j: subst(dd, {tid: j}))
        try:
            q = g / V
        except Exception:
            return None
        if not mentions(q, me) and not edepends(q, tid):
            return lambda T: z * powsym(q, T)
        return None

    def first(self, T, z, later):
        c = cmp_("<=", T, 0)
        pr = core.PROVER[0]
        if c.op == "F" or (pr is not None and pr.quick(cmp_(">=", T, 1))):
            return later
        if c.op == "T" or (pr is not None and pr.quick(c)):
            return z
        return ite(c, z, later)

    # ---- lists
    def solve_list(self, k, l):
        ps = self.normal
        L0 = self.v0[k]
        vals = []
        for p in ps:
            o = p.objs.get(id(l.obj))
            if o is None or len(o[1]) != len(L0) + 1 or any(a is not b for a, b in zip(o[1], L0)):
                raise Stuck("list changed in a loop")
            vals.append((p.cond, o[1][-1]))
        v = skolem(self.created, self.t, merge(self.it, vals))
        un = self.unresolved_ids()
        tid = self.tid
        if any(vmentions(v, nm) for nm in un):
            return None
        v = self.vapply(v)
        n0 = len(L0)

        def at(T):
            def fn(j):
                c = j.const()
                if c is not None and c < n0:
                    return L0[int(c)]
                if n0 and not core.PROVER[0].quick(cmp_(">=", j, n0)):
                    raise Stuck("index into a list built in a loop")
                return vsubst(v, {tid: j - n0})
            return SymList(T + n0, fn)
        return ("list", at)

    def vapply(self, v):
        if isinstance(v, SV):
            return sv(self.apply_sol(v.e, self.t), v.ty)
        if isinstance(v, Arr):
            g = v.snap()
            return mkarr(v.shape, lambda ix: self.apply_sol(npstub.asnum(g(ix)), self.t), v.dtype)
        if isinstance(v, (tuple, list)):
            return type(v)(self.vapply(x) for x in v)
        return v

    # ---- stores
    def content(self, k, l):
        """merged content after one generic iteration, as function of generic indices"""
        st = l.obj
        idx = tuple(var("s%d@g" % i, "I", 0) for i in range(len(st.shape)))
        alts = []
        for p in self.normal:
            pr = p.prover.copy()
            for a, s in zip(idx, st.shape):
                pr.assume(cmp_("<", a, s))
            o = p.objs.get(id(st))
            if o is None:
                e = uf(self.ph[k][1], list(idx), "I" if st.dtype == "int" else "R")
            else:
                fn = o[1][0]
                e = npstub.with_prover(pr, lambda: npstub.asnum(fn(idx)))
            alts.append((p.cond, e, pr))
        r = alts[-1][1]
        for c, e, _ in reversed(alts[:-1]):
            r = ite(c, e, r)
        mp = {}
        for c in self.created:
            a = ATOMS[npstub.aid(c)]
            mp[a.id] = uf("sk:" + a.name, [self.t], a.sort, a.pos)
        self.alts = alts
        self.skmap = mp
        return idx, (subst(r, mp) if mp else r)

    def solve_store(self, k, l):
        it, ctx, t, tid = self.it, self.it.ctx, self.t, self.tid
        st = l.obj
        if st.dtype == "bool":
            raise Stuck("boolean array written in a loop")
        nm = self.ph[k][1]
        idx, e = self.content(k, l)
        others = [x for x in self.unresolved_ids() if x != nm]
        base = ctx.prover.copy()
        for b in self.rng:
            base.assume(b)
        for a, s in zip(idx, st.shape):
            base.assume(cmp_("<", a, s))
        e = npstub.with_prover(base, lambda: self.apply_sol(e, t))
        if any(mentions(e, x) for x in others):
            return None
        own = uf(nm, list(idx), "I" if st.dtype == "int" else "R")
        fn0, memo0 = self.v0[k]
        P0 = lambda ix: fn0(tuple(ix))
        ids = [npstub.aid(i) for i in idx]
        cases = leaves(e)
        written = [(c, v) for c, v in cases if v.key() != own.key()]
        if not written:
            return ("closed", lambda T: P0)
        plan = []
        ok = True
        for c, v in written:
            s = self.solve_t(c, idx)
            if s is None:
                ok = False
                break
            plan.append((c, v) + s)
        if not ok:
            # same cells in every iteration: accumulation
            d = e - own
            if not mentions(d, nm):
                return ("closed", lambda T: (lambda ix: P0(ix) + npstub.esum_ctx(T, lambda j: subst(d, dict([(tid, j)] + list(zip(ids, ix)))))))
            if all(not mentions(c, nm) and not mentions(v - own, nm) for c, v in cases):
                dd = ZERO
                for c, v in reversed(cases):
                    dd = ite(c, v - own, dd)
                return ("closed", lambda T: (lambda ix: P0(ix) + npstub.esum_ctx(T, lambda j: subst(dd, dict([(tid, j)] + list(zip(ids, ix)))))))
            return None
        # distinct writers must not overlap (else the later one wins)
        for a in range(len(plan)):
            for b in range(a):
                if plan[a][2].key() != plan[b][2].key():
                    both = [plan[a][3], plan[b][3]]
                    if base_unsat(ctx.prover, idx, st.shape, both) is not True:
                        raise Stuck("loop writes a cell twice")
        for c, v, ts, cs in plan:
            if mentions(c, nm):
                raise Stuck("write position depends on the array")

        # writtenness of a cell before iteration T (exclusive)
        def written_before(ix, T):
            r = FALSE
            mp = dict(zip(ids, ix))
            for c, v, ts, cs in plan:
                tt = subst(ts, mp)
                r = Or(r, And(bsubst(cs, mp), cmp_(">=", tt, 0), cmp_("<", tt, T)))
            return r
        rec = [False]

        def value(pl, F):
            """cell value written, reads resolved; F(ix) = value of an already written cell"""
            c, v, ts, cs = pl
            p = ctx.prover.copy()
            for a, s in zip(idx, st.shape):
                p.assume(cmp_("<", a, s))
            p.assume(cs)
            p.assume(cmp_(">=", ts, 0))
            if self.n is not None:
                p.assume(cmp_("<", ts, self.n))

            def go():
                vv = subst(v, {tid: ts})

                def rd(args):
                    if tuple(a.key() for a in args) == tuple(a.key() for a in idx):
                        return P0(idx)
                    wb = written_before(args, ts)
                    if wb.op == "F" or p.entails(Not(wb)):
                        return P0(args)
                    rec[0] = True
                    if wb.op == "T" or p.entails(wb):
                        return F(args)
                    return ite(wb, F(args), P0(args))
                return subst_uf(vv, nm, rd), p
            return npstub.with_prover(p, go)
        rname = ctx.freshname("rec")
        vals = [value(pl, lambda a: uf(rname, list(a))) for pl in plan]
        if rec[0]:
            G = self.rec_hint(k, l, plan, idx, P0, value)
            if G is not None:
                vals = [(G(idx), p) for _, p in vals]
            else:
                self.unfold(rname, plan, vals, idx)
                vals = [(uf(rname, list(idx)), p) for _, p in vals]
        cells = [(cs, ts, v) for (c, _, ts, cs), (v, _) in zip(plan, vals)]

        def at(T):
            def fn(ix):
                mp = dict(zip(ids, ix))
                r = None
                pr = core.PROVER[0]
                for cs, ts, v in cells:
                    tt = subst(ts, mp)
                    cond = And(bsubst(cs, mp), cmp_(">=", tt, 0), cmp_("<", tt, T))
                    if cond.op == "F" or (cond.op != "T" and pr is not None and pr.entails(Not(cond), 800)):
                        continue
                    vv = subst(v, mp)
                    if cond.op == "T" or (pr is not None and pr.entails(cond, 800)):
                        return vv if r is None else chain(r, vv)
                    r = (r or []) + [(cond, vv)]
                old = P0(ix)
                return old if r is None else chain(r, npstub.asnum(old))
            return fn
        return ("closed", at)

    def fill_hint(self, k, l):
        """cells of one axis are filled in order: before iteration T exactly the cells below Phi(T) hold their final
        value W.  W and the offset come from the contract, Phi(T) = v(T) - offset for a carried integer v; the step is
        proved by executing the body from the hypothesis."""
        ctx, t = self.it.ctx, self.t
        st = l.obj
        fn0, memo0 = self.v0[k]
        P0 = lambda ix: npstub.asnum(fn0(tuple(ix)))
        idx = tuple(var("s%d@g" % i, "I", 0) for i in range(len(st.shape)))
        for cand in ctx.hints.get("fill", ()):
            c = cand(self.it, st)
            if c is None:
                continue
            W, ax, offset = c
            phis = [lambda T, s=s: num(s[1](T)) - offset for k2, s in list(self.sol.items())
                    if s[0] == "closed" and self.locs[k2].kind in ("var", "attr") and isinstance(self.v0.get(k2), (int, SV)) and not isinstance(self.v0.get(k2), bool)
                    and is_intty(tyof(self.v0[k2]))]
            for sq in ctx.hints.get("seq", ()):
                phis += [lambda T, G=G: G(T, ()) - offset for G in sq(self.it)]
            for Phi in phis:
                cont = lambda T: (lambda ix: ite(cmp_("<", ix[ax], Phi(T)), W(ix), P0(ix)))
                p0 = ctx.prover.copy()
                for a, sh in zip(idx, st.shape):
                    p0.assume(cmp_("<", a, sh))
                p0.assume(cmp_("<", idx[ax], Phi(ZERO)))
                if not self.eqp(p0, lambda: P0(idx), lambda: W(idx)):
                    continue
                self.sol[k] = ("closed", cont)
                good = True
                try:
                    ps = self.run_solved(keep=False)
                except Stuck:
                    ps = None
                if ps is not None:
                    for p in ps:
                        if p.out != "normal":
                            continue
                        pr = p.prover.copy()
                        for a, sh in zip(idx, st.shape):
                            pr.assume(cmp_("<", a, sh))
                        o = p.objs.get(id(st))
                        fn = o[1][0] if o is not None else cont(t)
                        # leave each region separately
                        for below in (True, False):
                            q = pr.copy()
                            q.assume(cmp_("<", idx[ax], Phi(t + 1)) if below else cmp_(">=", idx[ax], Phi(t + 1)))
                            if q.check_unsat([], 1000) is True:
                                continue
                            if not self.eqp(q, lambda: npstub.asnum(fn(idx)), lambda: W(idx) if below else P0(idx)):
                                good = False
                                break
                        if not good:
                            break
                if ps is None or not good:
                    del self.sol[k]
                    continue
                from interp import Ob
                ctx.obs.append(Ob("loop %s: cells are filled in order (induction)" % self.tag, "proved", "induction", "", "loop"))
                return self.sol[k]
        return None

    def eqp(self, p, f, g):
        old = core.PROVER[0]
        core.PROVER[0] = p
        try:
            return prove(p, npstub.with_prover(p, lambda: cmp_("==", f(), g())), rewrites=self.it.ctx.rewrites, timeout=3000).status == "proved"
        finally:
            core.PROVER[0] = old

    def solve_t(self, c, idx):
        """t as a function of the cell index, from the condition under which the cell is written"""
        t, tid = self.t, self.tid
        conj = list(c.args) if c.op == "and" else ([] if c.op == "T" else [c])
        for x in conj:
            if x.op == "==" and not x.args[0].den and edepends(x.args[0], tid):
                d = x.args[0]
                lin = linear_in(d, tid)
                if lin is None:
                    continue
                a, b = lin
                ac = a.const()
                if ac is None or ac == 0:
                    continue
                ts = (-b) / a
                cs = TRUE
                for y in conj:
                    if y is not x:
                        cs = And(cs, bsubst(y, {tid: ts}))
                if not is_int(ts):
                    cs = And(cs, cmp_("==", emod(-b, C(abs(ac))), 0))
                return ts, cs
        # block fill: 0 <= idx_k - s(t) < len with slope len
        for x in conj:
            if x.op in (">=", ">") and edepends(x.args[0], tid):
                lin = linear_in(x.args[0], tid)
                if lin is None:
                    continue
                a, b = lin                     # a*t + b >= 0
                step = -a
                if x.op == ">":
                    b = b - 1
                # need partner  step - 1 - (a*t+b) >= 0
                want = step - 1 - (a * self.t + b)
                for y in conj:
                    if y is x or y.op not in (">=", ">"):
                        continue
                    yy = y.args[0] - (1 if y.op == ">" else 0)
                    if eq_exact(yy, want):
                        pr = self.it.ctx.prover
                        if not pr.entails(cmp_(">=", step, 1)):
                            continue
                        ts = efloor(b / step)
                        cs = TRUE
                        for z in conj:
                            if z is not x and z is not y:
                                cs = And(cs, bsubst(z, {tid: ts}))
                        return ts, cs
        return None

    def rec_hint(self, k, l, plan, idx, P0, value):
        """closed form of a recursively filled array: candidate from the contract, proved by induction"""
        ctx = self.it.ctx
        st = l.obj
        for cand in ctx.hints.get("rec", ()):
            G = cand(self.it, st, P0)
            if G is None:
                continue
            good = True
            for pl in plan:
                v, p = value(pl, lambda a: G(tuple(a)))
                old = core.PROVER[0]
                core.PROVER[0] = p
                r = prove(p, cmp_("==", v, G(idx)), rewrites=ctx.rewrites, timeout=3000)
                core.PROVER[0] = old
                if r.status != "proved":
                    good = False
                    ctx.notes = getattr(ctx, "notes", [])
                    ctx.notes.append("recurrence candidate rejected: %s" % r.detail[:300])
                    break
            if good:
                from interp import Ob
                ctx.obs.append(Ob("loop %s: recurrence equals its closed form (induction)" % self.tag, "proved", "induction+" + (r.by or ""), "", "loop"))
                return G
        return None

    def unfold(self, rname, plan, vals, idx):
        ids = [npstub.aid(i) for i in idx]

        def inst(at):
            if at.kind != "uf" or at.name != rname:
                return []
            out = []
            mp = dict(zip(ids, at.args))
            for (c, _, ts, cs), (v, _) in zip(plan, vals):
                tt = subst(ts, mp)
                cond = And(bsubst(cs, mp), cmp_(">=", tt, 0))
                if self.n is not None:
                    cond = And(cond, cmp_("<", tt, self.n))
                out.append(Or(Not(cond), cmp_("==", A2E(at), subst(v, mp))))
            return out
        self.it.ctx.prover.assume_forall("rec", inst)

        def defs(at):
            out = []
            mp = dict(zip(ids, at.args))
            for (c, _, ts, cs), (v, _) in zip(plan, vals):
                tt = subst(ts, mp)
                cond = And(bsubst(cs, mp), cmp_(">=", tt, 0))
                if self.n is not None:
                    cond = And(cond, cmp_("<", tt, self.n))
                try:
                    out.append((cond, subst(v, mp)))
                except ZeroDivisionError:
                    pass
            return out
        self.it.ctx.prover.recdefs.append((rname, defs))

    # ---- invariants for what could not be solved
    def invariants(self, todo):
        it, ctx, t, tid = self.it, self.it.ctx, self.t, self.tid
        # contract-provided closed forms of carried sequences, tried jointly
        for cand in ctx.hints.get("seq", ()):
            if self.seq_hint(cand, todo):
                todo[:] = [k for k in todo if k not in self.sol]
                if not todo:
                    return
        for k in list(todo):
            l = self.locs[k]
            if l.kind == "store":
                s = self.store_inv(k, l)
                if s is None:
                    nm = ctx.freshname("hv")
                    st = l.obj
                    s = ("havoc", lambda T, nm=nm, st=st: (lambda ix: uf(nm, [T] + list(ix), "I" if st.dtype == "int" else "R")))
                self.sol[k] = s
                continue
            if self.temp_only(l):
                self.sol[k] = ("undef", None)
                continue
            v0 = self.v0[k]
            if isinstance(v0, (int, SV)) and not isinstance(v0, bool):
                self.sol[k] = self.scalar_inv(k, l)
                continue
            if isinstance(v0, (bool, SB)):
                nm = ctx.freshname("hb")
                self.sol[k] = ("havoc", lambda T, nm=nm: SB(cmp_("==", uf(nm, [T], "I"), 0)))
                continue
            if isinstance(v0, Arr):
                nm = ctx.freshname("hv")
                self.sol[k] = ("havoc", lambda T, nm=nm, v0=v0: mkarr(v0.shape, lambda ix: uf(nm, [T] + list(ix)), v0.dtype))
                continue
            raise Stuck("no invariant for %s" % l)

    def scalar_inv(self, k, l):
        """v unknown, with the sign predicates that are inductive"""
        ctx = self.it.ctx
        v0 = num(self.v0[k])
        V = self.ph[k][2].e
        post = num(self.post[k])
        ty = join_ty(tyof(self.v0[k]), tyof(self.post[k]))
        keep = None
        for op in (">", ">="):
            if not ctx.prover.entails(cmp_(op, v0, 0)):
                continue
            good = True
            for p in self.normal:
                pr = p.prover.copy()
                pr.assume(cmp_(op, V, 0))
                pv = self.post_of(p, k, l)
                if not npstub.with_prover(pr, lambda: pr.entails(cmp_(op, num(pv), 0))):
                    good = False
                    break
            if good:
                keep = op
                break
        nm = ctx.freshname("hv")
        so = "I" if is_intty(ty) else "R"
        pos = {">": 1, ">=": 0, None: None}[keep]
        return ("havoc", lambda T: SV(uf(nm, [T], so, pos), ty))

    def store_inv(self, k, l):
        for cand in self.it.ctx.hints.get("inv", ()):
            s = cand(self, k, l)
            if s is not None:
                return s
        return self.fill_hint(k, l)

    def seq_hint(self, cand, todo):
        """cand(it) -> list of G: (t, ix) -> E ; try v(t, ix) = G(t+s, ix) for all unresolved jointly"""
        it, ctx, t, tid = self.it, self.it.ctx, self.t, self.tid
        ks = [k for k in todo if self.locs[k].kind in ("var", "attr") and not self.temp_only(self.locs[k])
              and isinstance(self.v0[k], (int, SV, Arr)) and not isinstance(self.v0[k], bool)]
        if not ks:
            return False
        asg = {}
        for k in ks:
            v0 = self.v0[k]
            idx = tuple(var("q%d@g" % i, "I", 0) for i in range(v0.ndim)) if isinstance(v0, Arr) else ()
            pr = ctx.prover.copy()
            if isinstance(v0, Arr):
                for a, s in zip(idx, v0.shape):
                    pr.assume(cmp_("<", a, s))
            z = v0.snap()(idx) if isinstance(v0, Arr) else num(v0)
            for G in cand(it):
                done = False
                for s in (0, 1, 2, -1, 3):
                    try:
                        g = G(C(s), idx)
                    except Exception:
                        continue
                    if g is None:
                        continue
                    core.PROVER[0] = pr
                    r = prove(pr, cmp_("==", npstub.asnum(z), g), rewrites=ctx.rewrites, timeout=2000)
                    core.PROVER[0] = ctx.prover
                    if r.status == "proved":
                        asg[k] = (G, s, idx)
                        done = True
                        break
                if done:
                    break
        ks = [k for k in ks if k in asg]
        if not ks:
            return False
        # temporaries that depend on them are re-expressed; prove the step for each
        old = dict(self.sol)
        for k in ks:
            G, s, idx = asg[k]
            v0 = self.v0[k]
            if isinstance(v0, Arr):
                self.sol[k] = ("closed", lambda T, G=G, s=s, v0=v0: mkarr(v0.shape, lambda ix: G(T + s, ix), v0.dtype))
            else:
                ty = join_ty(tyof(v0), tyof(self.post[k]))
                self.sol[k] = ("closed", lambda T, G=G, s=s, ty=ty: SV(G(T + s, ()), ty))
        good = True
        for k in ks:
            G, s, idx = asg[k]
            post = self.post[k]
            pr = ctx.prover.copy()
            for b in self.rng:
                pr.assume(b)
            if isinstance(post, Arr):
                for a, sh in zip(idx, post.shape):
                    pr.assume(cmp_("<", a, sh))
            core.PROVER[0] = pr
            e = post.get(idx) if isinstance(post, Arr) else num(post)
            e = self.apply_sol(npstub.asnum(e), t)
            r = prove(pr, cmp_("==", e, G(t + 1 + s, idx)), rewrites=ctx.rewrites, timeout=3000)
            core.PROVER[0] = ctx.prover
            if r.status != "proved":
                good = False
                break
        if not good:
            self.sol = old
            return False
        # the remaining ones may now be solvable
        prog = True
        while prog:
            prog = False
            for k in todo:
                if k not in self.sol:
                    s = self.try_solve(k)
                    if s is not None:
                        self.sol[k] = s
                        prog = True
        return True

    # ---- using the summary
    def set_state(self, T):
        """state before iteration T"""
        T = toE(T)
        it = self.it
        vals = []
        for k, l in self.locs.items():
            s = self.sol.get(k)
            if s is None or self.temp_only(l) and k not in self.v0:
                continue
            if s[0] == "undef":
                continue
            if s[0] == "const":
                continue
            vals.append((k, l, s[1](T), s[0]))
        for k, l, v, kind in vals:
            if l.kind == "list":
                self.rebind(l.obj, v)
                continue
            self.write(l, v)

    def rebind(self, old, new):
        """a list grown in a loop becomes a list of symbolic length"""
        for kk, vv in list(self.env.vars.items()):
            if vv is old:
                self.env.vars[kk] = new

    def run_solved(self, keep=True):
        it = self.it
        w = WLog()
        it.ctx.wlog.append(w)
        snap = dict(self.env.vars)
        try:
            for k, l in self.locs.items():
                if l.kind == "list":
                    continue
                s = self.sol.get(k)
                if s is None or s[0] in ("undef", "const") or (self.temp_only(l) and k not in self.v0):
                    continue
                self.write(l, s[1](self.t))
            ps = local_paths(it, self.env, lambda: self.body(self.t), self.rng, keep_obs=keep)
        finally:
            it.ctx.wlog.pop()
            w.undo()
            self.env.vars.clear()
            self.env.vars.update(snap)
        return ps

    def assume_no_exit(self, T):
        """no iteration before T leaves the loop"""
        it, ctx = self.it, self.it.ctx
        c = FALSE
        cr = []
        for p in self.exits:
            c = Or(c, p.cond)
            cr += p.created
        if c.op == "F":
            return
        if cr and any(edepends_b(c, npstub.aid(x)) for x in cr):
            return
        tid = self.tid
        T = toE(T)
        memo = {}

        def f(ix):
            k = ix[0].key()
            if k not in memo:
                memo[k] = Not(bsubst(c, {tid: ix[0]}))
            return memo[k]
        big = len(all_atoms(c)) > 25

        def inst(at):
            if big and at.kind == "uf" and (at.name.startswith("argext") or any(ATOMS[x].kind != "var" or ATOMS[x].name.startswith("@") for a in at.args if is_int(a) for x in a.atoms())):
                return ()
            return npstub.all_inst(at, f, T)
        ctx.prover.assume_forall("noexit", inst)
        # useful instances: the previous and the first iteration
        for x in (T - 1, ZERO):
            g = And(cmp_(">=", x, 0), cmp_("<", x, T))
            ctx.prover.assume(Or(Not(g), f((x,))))
        self.noexit = getattr(self, "noexit", []) + [(T, f)]

    def finish(self, n):
        """state after all n iterations, including temporaries of the last one"""
        self.set_state(n)
        for k, l in self.locs.items():
            if self.temp_only(l) and k not in self.v0:
                s = self.sol.get(k)
                if s is not None and s[0] != "undef" and s[1] is not None:
                    self.env.vars[l.name] = s[1](toE(n))

    def settle(self, tau):
        """eliminate the number of iterations of a while loop when the path condition determines it"""
        ctx = self.it.ctx
        tid = npstub.aid(tau)
        cands = []
        for f in ctx.prover.facts:
            if f.op in (">", ">=", "==") and edepends(f.args[0], tid):
                lin = linear_in(E(f.args[0].num), tid)
                if lin is None:
                    continue
                a, b = lin
                if a.is_zero():
                    continue
                for off in (0, 1, -1):
                    try:
                        cands.append((-b) / a + off)
                    except Exception:
                        pass
        for c in cands:
            if is_int(c) and ctx.prover.entails(cmp_("==", tau, c)):
                mp = {tid: c}
                for k, v in list(self.env.vars.items()):
                    self.env.vars[k] = vsubst(v, mp)
                for k, l in self.locs.items():
                    if l.kind == "store":
                        fn = l.obj.fn
                        l.obj.set_fn(lambda ix, fn=fn: ssub(fn, ix, mp))
                return


class StoresBefore:
    def __init__(self, n):
        self.n = n

    def __contains__(self, i):
        return i <= self.n


def chain(cases, last):
    r = last
    for c, v in reversed(cases):
        r = ite(c, npstub.asnum(v), r)
    return r


def mentions(e, nm):
    for a in all_atoms(e):
        at = ATOMS[a]
        if at.name == nm or at.kind == "uf" and at.name[:3] == "tr:" and nm in at.name:
            return True
        if at.kind == "ite" and bmentions_sym(at.args[0], nm):
            return True
    if isinstance(e, B):
        return bmentions_sym(e, nm)
    return False


def bmentions_sym(b, nm):
    if b.op == "sym":
        return b.args[0] == nm
    return any(isinstance(x, B) and bmentions_sym(x, nm) for x in b.args)


def vmentions(v, nm):
    if isinstance(v, SV):
        return mentions(v.e, nm)
    if isinstance(v, SB):
        return mentions(v.b, nm)
    if isinstance(v, Arr):
        idx = tuple(var("a%d@g" % i, "I", 0) for i in range(v.ndim))
        return mentions(npstub.asnum(v.get(idx)), nm)
    if isinstance(v, (tuple, list)):
        return any(vmentions(x, nm) for x in v)
    return False


def edepends_b(b, aid):
    return bdepends(b, aid)


def leaves(e):
    """[(cond, leaf)] of a term that is an if-then-else tree at the top"""
    m = e.mono()
    if m is not None and m[0] == 1 and len(m[1]) == 1 and m[1][0][1] == 1:
        at = ATOMS[m[1][0][0]]
        if at.kind == "ite":
            c, a, b = at.args
            out = []
            for c2, v in leaves(a):
                out.append((And(c, c2), v))
            for c2, v in leaves(b):
                out.append((And(Not(c), c2), v))
            return out
    return [(TRUE, e)]


def linear_in(d, tid):
    """d = a*t + b with a, b free of t"""
    if d.den:
        return None
    a, b = {}, {}
    for m, c in d.num.items():
        ex = [x for x in m if x[0] == tid]
        rest = tuple(x for x in m if x[0] != tid)
        if any(depends(x[0], tid) for x in rest):
            return None
        if not ex:
            b[m] = c
        elif ex[0][1] == 1:
            a[rest] = c
        else:
            return None
    return E(a), E(b)


def base_unsat(prover, idx, shape, conds):
    p = prover.copy()
    for a, s in zip(idx, shape):
        p.assume(cmp_("<", a, s))
    return p.check_unsat(conds, 1500)
