from common import *

from geo import *


def D(m, i):
    return uf("D", [m, i])


def blockmatrices(it, args, kw, f):
    a = dict(zip(("self", "m", "k"), args))
    for n, v in kw.items():
        a["m" if n == "m" else "k"] = v
    m, k = num(a["m"]), a["k"]
    if not isinstance(k, Arr) or len(k.shape) != 1:
        raise Stuck("wavenumbers must be an array")
    it.ctx.oblige("blockmatrices: 0 <= m <= lmax", And(cmp_(">=", m, 0), cmp_("<=", m, var("lmax", "I", 1))), kind="pre")
    ix, p = idx(it, k.shape)
    it.ctx.oblige("blockmatrices: at the wavenumbers asked for", cmp_("==", k.get(ix), kval(ix)), kind="pre", prover=p, assume=False)
    n = block(m)
    return [mkarr((k.shape[0], n, n), lambda ix, b=b: uf("b" + b, [m] + list(ix))) for b in ("EE", "EM", "ME", "MM")]


def which(it, M):
    """m such that M[i] is the round-trip matrix [[EE, EM], [ME, MM]] of m, for every i (obliged)"""
    if not isinstance(M, Arr) or len(M.shape) != 3:
        raise Stuck("stack of matrices expected")
    i, p = idx(it, (M.shape[0],))
    e = npstub.with_prover(p, lambda: M.get((i[0], ZERO, ZERO)))
    ms = [ATOMS[a].args[0] for a in e.atoms() if ATOMS[a].kind == "uf" and ATOMS[a].name == "bEE"]
    if len(ms) != 1:
        raise Stuck("determinant of something else than M(m): %s" % show(e)[:80])
    m = ms[0]
    n = block(m)
    it.ctx.oblige("matrix of one m: 2(lmax-max(m,1)+1) rows and columns", And(cmp_("==", M.shape[1], 2 * n), cmp_("==", M.shape[2], 2 * n)), kind="pre")
    for r, c, b in ((0, 0, "EE"), (0, 1, "EM"), (1, 0, "ME"), (1, 1, "MM")):
        ix, p = idx(it, (M.shape[0], n, n))
        g = npstub.with_prover(p, lambda: cmp_("==", M.get((ix[0], ix[1] + r * n, ix[2] + c * n)), uf("b" + b, [m] + list(ix))))
        it.ctx.oblige("matrix of one m: block %s in its quadrant" % b, g, kind="pre", prover=p, assume=False)
    return m


def slogdet(it, args, kw, f):
    M = args[0]
    m = which(it, M)
    return mkarr((M.shape[0],), lambda ix: D(m, ix[0]))


SUM = {GEO + "blockmatrices": blockmatrices, "geometry.balanced_slogdet": slogdet}
TS = ["blockmatrices(m, k): the blocks of the round-trip matrix at k (C11), a function of geometry, m and k only (roundTrip_elements below)",
      "balanced_slogdet: one number per wavenumber (C12)"]


def S(M):
    return lambda i: D(ZERO, i) + 2 * esum(M, lambda j: D(j + 1, i))


def largest(it, M, N):
    """index of the largest |S_M|"""
    f = S(M)
    a = mkarr((N,), lambda ix: eabs(f(ix[0])))
    return npstub.extremum(it, a, 1, True).e


def zero(it, m, N):
    return cmp_("==", S(m)(largest(it, m, N)), 0)


def small(it, m, N):
    """the largest of the values accumulated up to m-1 changed by less than a tenth of the precision"""
    x = largest(it, m - 1, N)
    return cmp_("<", eabs(eabs((S(m - 1)(x) + 2 * D(m, x)) / S(m - 1)(x)) - 1), var("prec", pos=1) / 10)


def last(it, e, want, p):
    """the last m that was added"""
    taus = [A2E(ATOMS[a]) for a in sorted(set().union(all_atoms(e), *[all_atoms(f) for f in it.ctx.prover.facts])) if ATOMS[a].kind == "var" and ATOMS[a].name.startswith("tau#")]
    c = [var("lmax", "I", 1)] + [t + d for t in taus for d in (0, 1)] + [ZERO, ONE]
    for M in c:
        if (e - want(M)).is_zero():
            return M
    for M in c:
        if prove(p.copy(), cmp_("==", e, want(M)), 2000).status == "proved":
            return M
    return c[0]


def msum(it, ctx):
    g = geom(it)
    N = var("N", "I", 1)
    k = mkarr((N,), kval)
    fn = k.store.fn
    r = expect_value(it, "returns", invoke(it, it.getattr(g, "mSumme"), [k]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one value per wavenumber", "%r" % (r,))
    post(it, "one value per wavenumber", cmp_("==", r.shape[0], N))
    ix, p = idx(it, (N,))
    e = el(it, r, ix)
    M = last(it, e, lambda M: S(M)(ix[0]), p)
    post(it, "m=0 once, every m=1..M twice", cmp_("==", e, S(M)(ix[0])), prover=p)
    stops(it, M, lambda m: zero(it, m, N), lambda m: small(it, m, N))
    frame_arr(it, "wavenumbers unchanged", k, fn)


def stops(it, M, zero, small):
    lm = var("lmax", "I", 1)
    post(it, "M <= lmax", cmp_("<=", M, lm))
    post(it, "M is lmax, or the value has settled", Or(cmp_("==", M, lm), zero(M), And(cmp_(">=", M, 1), small(M)) if M.const() != 0 else FALSE))
    m = it.ctx.fresh("m@g", "I", 0)
    p = it.ctx.prover.copy()
    p.assume(cmp_("<", m + 1, M))
    old = it.ctx.prover
    it.ctx.prover = p
    try:
        g = Not(small(m + 1))
    finally:
        it.ctx.prover = old
    post(it, "no earlier m settled", g, prover=p)


contract("C14", "mSumme", [GEO + "mSumme"], summaries=SUM, trust=TS)(msum)


# ---------------------------------------------------------------- zero frequency, leading zero
def D0(m):
    return -uf("D0", [m], pos=1)


def S0(M):
    return D0(ZERO) + 2 * esum(M, lambda j: D0(j + 1))


def blocks_k0(it, args, kw, f):
    a = dict(zip(("self", "m"), args))
    a.update(kw)
    m = num(a["m"])
    it.ctx.oblige("blockmatrices_k0: 0 <= m <= lmax", And(cmp_(">=", m, 0), cmp_("<=", m, var("lmax", "I", 1))), kind="pre")
    n = block(m)
    return [mkarr((n, n), lambda ix, b=b: uf("z" + b, [m] + list(ix))) for b in ("EE", "MM")]


def slogdet_k0(it, args, kw, f):
    a = dict(zip(("A", "B"), args))
    a.update({k: v for k, v in kw.items() if k in "AB"})
    A, B = a["A"], a["B"]
    ms = []
    for X in (A, B):
        if not isinstance(X, Arr) or len(X.shape) != 2:
            raise Stuck("square blocks expected")
        e = X.get((ZERO, ZERO))
        ms.append([(ATOMS[a].name, ATOMS[a].args[0]) for a in e.atoms() if ATOMS[a].kind == "uf" and ATOMS[a].name in ("zEE", "zMM")])
    if any(len(x) != 1 for x in ms) or len({x[0][0] for x in ms}) != 2:
        raise Stuck("determinant of something else than the two static blocks")
    m = ms[0][0][1]
    it.ctx.oblige("the two static blocks of one m", cmp_("==", m, ms[1][0][1]), kind="pre")
    for X, x in zip((A, B), ms):
        ix, p = idx(it, X.shape)
        it.ctx.oblige("static block as returned", cmp_("==", X.get(ix), uf(x[0][0], [m] + list(ix))), kind="pre", prover=p, assume=False)
    return SV(D0(m), "npfloat")


K0 = {GEO + "blockmatrices_k0": blocks_k0, GEO + "blockmatrices_k0_ext": blocks_k0, GEO + "blockmatrices_k0_int": blocks_k0,
      "geometry.sln_det_blockdiagonal": slogdet_k0}
T0 = ["sln_det_blockdiagonal: a number per m (C12; the 1x1 case returns it as a 1x1 array), negative (no static contrast at all gives 0/0 = NaN, which never stops the sum)"]


def msum0(it, ctx):
    g = geom(it)
    g.attrs["blockmatrices_k0"] = it.getattr(g, "blockmatrices_k0_ext")
    r = expect_value(it, "returns", invoke(it, it.getattr(g, "mSumme_k0"), []))
    e = el(it, r)
    M = last(it, e, S0, it.ctx.prover)
    post(it, "m=0 once, every m=1..M twice", cmp_("==", e, S0(M)))
    small = lambda m: cmp_("<", eabs(eabs(S0(m - 1) / (S0(m - 1) + 2 * D0(m))) - 1), var("prec", pos=1) / 10)
    stops(it, M, lambda m: FALSE, small)


contract("C14", "mSumme_k0", [GEO + "mSumme_k0"], summaries=K0, trust=T0)(msum0)


def again(it, args, kw, f):
    """mSumme of the positive wavenumbers that follow a leading zero (its contract above)"""
    it.depth14 = getattr(it, "depth14", 0) + 1
    if it.depth14 == 1:
        return NotImplemented
    k = args[1]
    ix, p = idx(it, k.shape)
    it.ctx.oblige("the wavenumbers after the zero, in order", cmp_("==", k.get(ix), kval(ix)), kind="pre", prover=p, assume=False)
    it.ctx.oblige("none is lost", cmp_("==", k.shape[0], var("N", "I", 1)), kind="pre")
    return mkarr(k.shape, lambda ix: uf("Sum", [ix[0]]))


def leading(fn, more):
    def run(it, ctx):
        it.depth14 = 0
        g = geom(it)
        N = var("N", "I", 1) if more else ZERO
        k = mkarr((N + 1,), lambda ix: ite(cmp_("==", ix[0], 0), ZERO, kval((ix[0] - 1,))))
        fnk = k.store.fn
        a = [SV(var("m", "I", 0), "int"), k] if fn == "single_m" else [k]
        r = expect_value(it, "returns", invoke(it, it.getattr(g, fn), a))
        if not more and isinstance(r, SV):
            return post(it, "the zero-frequency value", cmp_("==", r.e, var("Z0")))
        if not isinstance(r, Arr) or len(r.shape) != 1:
            return fail(it, "one value per wavenumber", "%r" % (r,))
        post(it, "one value per wavenumber", cmp_("==", r.shape[0], N + 1))
        post(it, "first the zero-frequency value", cmp_("==", el(it, r, (ZERO,)), var("Z0")))
        if more:
            ix, p = idx(it, (N,))
            post(it, "then the others in order", npstub.with_prover(p, lambda: cmp_("==", el(it, r, (ix[0] + 1,)), uf("Sum", [ix[0]]))), prover=p)
        frame_arr(it, "wavenumbers unchanged", k, fnk)
    return run


def again_m(it, args, kw, f):
    it.depth14 = getattr(it, "depth14", 0) + 1
    if it.depth14 == 1:
        return NotImplemented
    it.ctx.oblige("the same m", cmp_("==", num(args[1]), var("m", "I", 0)), kind="pre")
    it.depth14 = 1
    return again(it, [args[0], args[2]], kw, f)


def z0(it, args, kw, f):
    if len(args) > 1:
        it.ctx.oblige("the same m", cmp_("==", num(args[1]), var("m", "I", 0)), kind="pre")
    return SV(var("Z0"), "npfloat")


for more in (True, False):
    nm = "leading zero" if more else "zero only"
    contract("C14", "mSumme[%s]" % nm, [GEO + "mSumme"], summaries={GEO + "mSumme": again, GEO + "mSumme_k0": z0})(leading("mSumme", more))
    contract("C14", "single_m[%s]" % nm, [GEO + "single_m"], summaries={GEO + "single_m": again_m, GEO + "single_m_k0": z0})(leading("single_m", more))


def single(it, ctx):
    g = geom(it)
    N, m = var("N", "I", 1), var("m", "I", 0)
    it.ctx.prover.assume(cmp_("<=", m, var("lmax", "I", 1)))
    k = mkarr((N,), kval)
    r = expect_value(it, "returns", invoke(it, it.getattr(g, "single_m"), [SV(m, "int"), k]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one value per wavenumber", "%r" % (r,))
    post(it, "one value per wavenumber", cmp_("==", r.shape[0], N))
    ix, p = idx(it, (N,))
    post(it, "log-determinant of M(m)", cmp_("==", el(it, r, ix), D(m, ix[0])), prover=p)


contract("C14", "single_m", [GEO + "single_m"], summaries=SUM, trust=TS)(single)


def single0(it, ctx):
    g = geom(it)
    m = var("m", "I", 0)
    it.ctx.prover.assume(cmp_("<=", m, var("lmax", "I", 1)))
    g.attrs["blockmatrices_k0"] = it.getattr(g, "blockmatrices_k0_int")
    r = expect_value(it, "returns", invoke(it, it.getattr(g, "single_m_k0"), [SV(m, "int")]))
    post(it, "log-determinant of the static blocks of m", cmp_("==", el(it, r), D0(m)))


contract("C14", "single_m_k0", [GEO + "single_m_k0"], summaries=K0, trust=T0)(single0)


# ---------------------------------------------------------------- history
# The matrices after any earlier call are those of a fresh geometry.  One earlier call (any m1, any wavenumbers k1, whose array the
# caller then overwrites) is followed by the call in question; "state as after this call alone" carries this to every history.
from c11 import SUM as PARTS, SCALE, SUM0, blocks0, setup, spec, dims, TB, T0 as TB0


def same(it, name, x, y, soft=True, seen=()):
    """the two values are equal now (arrays element by element)"""
    if isinstance(x, Arr) and isinstance(y, Arr):
        if len(x.shape) != len(y.shape):
            return fail(it, name, "shape", soft=soft)
        post(it, name + ": shape", And(*[cmp_("==", u, v) for u, v in zip(x.shape, y.shape)]), soft=soft)
        ix, p = idx(it, y.shape)
        a, b = npstub.with_prover(p, lambda: (x.get(ix), y.get(ix)))
        return post(it, name, cmp_("==", a, b), prover=p, soft=soft)
    if isinstance(x, (SV, int, float)) and isinstance(y, (SV, int, float)) and not isinstance(x, bool):
        return post(it, name, cmp_("==", num(x), num(y)), soft=soft)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y):
        for u, v in zip(x, y):
            same(it, name, u, v, soft)
        return
    if isinstance(x, dict) and isinstance(y, dict) and list(x) == list(y):
        for u in x:
            same(it, name, x[u], y[u], soft)
        return
    if x is y or type(x) is type(y) and not isinstance(x, Obj):
        return ok(it, name)
    if isinstance(x, Obj) and isinstance(y, Obj) and x.name == y.name:
        return ok(it, name)
    return fail(it, name, "%r / %r" % (x, y), soft=soft)


def history(ext, strat, mc):
    def run(it, ctx):
        it.n11 = 0
        g, A, B, V = setup(it, ext, strat)
        h, _, _, _ = setup(it, ext, strat)
        m, lo, n1, n2 = dims(it, mc)
        lmax = lo + n1 - 1
        for o in (g, h):
            o.attrs["lmax"], o.attrs["lssmax"] = SV(lmax, "int"), SV(lo + n2 - 1, "int")
        N, N1, m1 = var("N", "I", 1), var("N1", "I", 1), var("m1", "I", 0)
        it.ctx.prover.assume(cmp_("<=", m1, lmax))
        k, k1 = mkarr((N,), kval), mkarr((N1,), lambda ix: uf("k1", list(ix), pos=1))
        expect_value(it, "returns (earlier call)", invoke(it, it.getattr(g, "blockmatrices"), [SV(m1, "int"), k1]))
        overwrite(k1, "kother")
        it.n11 = 0
        r = expect_value(it, "returns", invoke(it, it.getattr(g, "blockmatrices"), [SV(m, "int"), k]))
        if not isinstance(r, (list, tuple)) or len(r) != 4:
            return fail(it, "the blocks", "%r" % (r,))
        if it.n11 != 1:
            raise Stuck("scaling is not done by dynamic_scaling")
        ix, p = idx(it, (N, n1, n1))
        w = npstub.with_prover(p, lambda: spec(A, B, V, kval(ix), m, lo, ix[1], ix[2], n2))
        sim = eexp(uf("T", [ix[0]]) * (ix[1] - ix[2]))
        for nm, x, y in zip(("EE", "EM", "ME", "MM"), r, w):
            if not isinstance(x, Arr) or len(x.shape) != 3:
                return fail(it, "block " + nm, "%r" % (x,))
            post(it, "block %s: one square matrix per wavenumber" % nm, And(cmp_("==", x.shape[0], N), cmp_("==", x.shape[1], n1), cmp_("==", x.shape[2], n1)))
            e = npstub.with_prover(p, lambda: el(it, x, ix))
            post(it, "block %s after another call is that of a fresh geometry" % nm, cmp_("==", e, sim * y), prover=p)
        it.n11 = 0
        expect_value(it, "returns (fresh)", invoke(it, it.getattr(h, "blockmatrices"), [SV(m, "int"), k]))
        overwrite(k, "kother2")
        if sorted(g.attrs) != sorted(h.attrs):
            return fail(it, "state as after this call alone", "attributes differ", soft=True)
        for n in sorted(g.attrs):
            same(it, "state as after this call alone: " + n, g.attrs[n], h.attrs[n])
    return run


for ext in (True, False):
    for mc in ("m = 0", "m > 0"):
        nm = "%s, %s" % ("external" if ext else "internal", mc)
        contract("C14", "history[%s]" % nm, [GEO + "blockmatrices", GEO + "roundTrip_elements"], summaries=dict(PARTS, **SCALE), trust=TB)(history(ext, "", mc))
        contract("C14", "history at k = 0[%s]" % nm, [GEO + "blockmatrices_k0_" + ("ext" if ext else "int"), GEO + "roundTrip_elements_k0"], summaries=SUM0, trust=TB0)(blocks0(ext, mc, True))
contract("C14", "history[layers on 1+2]", [GEO + "blockmatrices", GEO + "roundTrip_elements"], summaries=dict(PARTS, **SCALE), trust=TB)(history(True, "12", "m > 0"))
from c11 import coated, CS
contract("C14", "history[coated spheres]", [CS + "roundTrip_elements", GEO + "blockmatrices"], summaries=dict(PARTS, **SCALE), trust=TB)(coated("m > 0", True))
