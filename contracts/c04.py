from common import *
from bessel_spec import *
from mpmath import mp
import numev

PI = core.PI
X = lambda t: uf("x", [t], pos=1)


def xarr():
    N = var("N", "I", 1)
    return N, mkarr((N,), lambda ix: X(ix[0]))


# ---- continued fraction: tail(t, j) = a(t, j) + 1/tail(t, j+1), tail(t, last) = a(t, last)
def fraction(it, ctx):
    N, n = var("N", "I", 1), var("n", "I", 1)
    a = lambda t, j: uf("a", [t, j], pos=1)
    tail = lambda t, j: uf("tail", [t, j], pos=1)
    x = mkarr((N, n), lambda ix: a(ix[0], ix[1]))
    fn = x.store.fn
    act = {}

    def rec(it2, args, kw, f):
        if not act:
            act["in"] = 1
            return NotImplemented
        y = args[0] if args else list(kw.values())[0]
        if not isinstance(y, Arr) or len(y.shape) != 2:
            raise Stuck("fraction of %r" % (y,))
        post(it2, "recursion: fewer columns", cmp_("<", y.shape[1], n))
        post(it2, "recursion: exactly the first column is dropped", cmp_("==", y.shape[1], n - 1))
        post(it2, "recursion: at least one column is left", cmp_(">=", y.shape[1], 1))
        ix, p = idx(it2, (N, n - 1))
        post(it2, "recursion: the remaining columns in order", cmp_("==", y.get(ix), a(ix[0], ix[1] + 1)), prover=p)
        return mkarr((y.shape[0],), lambda ix: tail(ix[0], ONE))
    it.ctx.summaries = {"bessel_sk.fraction": rec}
    # definition of the tails, for an evaluation from the last column to the first
    it.ctx.prover.recdefs.append(("tail", lambda at: [
        (cmp_("==", at.args[1], n - 1), a(*at.args)),
        (And(cmp_(">=", at.args[1], 0), cmp_("<", at.args[1], n - 1)), a(*at.args) + 1 / tail(at.args[0], at.args[1] + 1))]))
    it.ctx.hints = dict(it.ctx.hints or {}, seq=[lambda it2: [lambda T, ix: tail(ix[0], n - 1 - T) if len(ix) == 1 else None]])
    r = expect_value(it, "returns", invoke(it, it.func("bessel_sk.fraction"), [x]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one value per row", "%r" % (r,))
    post(it, "one value per row", cmp_("==", r.shape[0], N))
    ix, p = idx(it, (N,))
    t = ix[0]
    if it.ctx.prover.entails(cmp_("==", n, 1)):
        post(it, "last term", cmp_("==", el(it, r, ix), a(t, ZERO)), prover=p)
    else:
        post(it, "a_0 + 1/(tail)", cmp_("==", el(it, r, ix), a(t, ZERO) + 1 / tail(t, ONE)), prover=p)
    frame_arr(it, "argument unchanged", x, fn)


numev.AXIOM |= {"tail", "cf"}
contract("C04", "fraction: continued fraction of a row", ["bessel_sk.fraction"], trust=["induction over the number of columns (fraction is recursive)"])(fraction)


def s_fraction(nu):
    def s(it, args, kw, f):
        y = args[0] if args else list(kw.values())[0]
        N = var("N", "I", 1)
        if not isinstance(y, Arr) or len(y.shape) != 2:
            raise Stuck("fraction of %r" % (y,))
        post(it, "at least 80 terms", cmp_(">=", y.shape[1], 80))
        ix, p = idx(it, (N, y.shape[1]))
        post(it, "terms 2(nu+n)/x, n = 1, 2, ...", cmp_("==", y.get(ix), 2 * (nu + ix[1] + 1) / X(ix[0])), prover=p)
        return mkarr((y.shape[0],), lambda ix: uf("cf", [nu, X(ix[0])], pos=1))
    return s


def fnu(it, ctx):
    N, x = xarr()
    nu = var("nu", pos=1)
    fn = x.store.fn
    it.ctx.summaries = {"bessel_sk.fraction": s_fraction(nu)}
    r = expect_value(it, "returns", invoke(it, it.func("bessel_sk.fnu"), [x, SV(nu, "float")]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one value per argument", "%r" % (r,))
    post(it, "one value per argument", cmp_("==", r.shape[0], N))
    ix, p = idx(it, (N,))
    post(it, "the continued fraction of I_nu/I_{nu+1}", cmp_("==", el(it, r, ix), uf("cf", [nu, X(ix[0])], pos=1)), prover=p)
    frame_arr(it, "argument unchanged", x, fn)


contract("C04", "fnu: at least 80 terms of the right continued fraction", ["bessel_sk.fnu"])(fnu)


def s_fnu(it, args, kw, f):
    a = dict(zip(("x", "nu"), args))
    a.update(kw)
    x, nu = a["x"], num(a["nu"])
    if not isinstance(x, Arr) or len(x.shape) != 1:
        raise Stuck("fnu")
    g = x.snap()
    return mkarr(x.shape, lambda ix: uf("cf", [nu, g(ix)], pos=1))


def ifrac(it, ctx):
    N, x = xarr()
    M = var("M", "I", 1)
    nu = mkarr((M,), lambda ix: uf("nu", [ix[0]], pos=1))
    r = expect_value(it, "returns", invoke(it, it.func("bessel_sk.i_fraction"), [x, nu]))
    if not isinstance(r, Arr) or len(r.shape) != 2:
        return fail(it, "one row per order", "%r" % (r,))
    post(it, "one row per order, one column per argument", And(cmp_("==", r.shape[0], M), cmp_("==", r.shape[1], N)))
    ix, p = idx(it, (M, N))
    post(it, "entry", cmp_("==", el(it, r, ix), uf("cf", [uf("nu", [ix[0]], pos=1), X(ix[1])], pos=1)), prover=p)


contract("C04", "i_fraction", ["bessel_sk.i_fraction"], summaries={"bessel_sk.fnu": s_fnu})(ifrac)


def tanh_fact(at, prover):
    """tanh a < a for a > 0, that is (a-1) e^{2a} + a + 1 > 0"""
    if at.kind != "exp":
        return ()
    a, A = at.args[0], A2E(at)
    return [Implies(cmp_(">", a, 0), cmp_(">", (a - 1) * A ** 2 + a + 1, 0))]


FACT_PROVIDERS.append(tanh_fact)


# ---- logarithms of the regular functions
THR = Fraction(1, 1000)


def low(it, r, ix, p, l, x):
    """order 0 or 1 (l concrete): closed form above the threshold, series below"""
    v = el(it, r, (ix[0], C(l)))
    big, small = p.copy(), p.copy()
    big.assume(cmp_(">=", x, THR))
    small.assume(cmp_("<", x, THR))
    if l == 0:
        ex = elog((eexp(x) - eexp(-x)) / 2 / x)
        lo, hi = x ** 2 / 6 - x ** 4 / 180, x ** 2 / 6 - x ** 4 / 180 + x ** 6 / 2835
    else:
        ex = elog((x * (eexp(x) + eexp(-x)) / 2 - (eexp(x) - eexp(-x)) / 2) / x ** 2)
        z = elog(x) - elog(C(3)) + x ** 2 / 10
        lo, hi = z - x ** 4 / 700, z
    post(it, "ln i_%d: closed form for x >= 1e-3" % l, cmp_("==", v, ex), prover=big)
    post(it, "ln i_%d: series for x < 1e-3" % l, And(cmp_(">=", v, lo), cmp_("<=", v, hi)), prover=small)


def lni(case):
    def run(it, ctx):
        N, x = xarr()
        L = C(int(case)) if case.isdigit() else var("d", "I", 0) + 2
        fn = x.store.fn
        r = expect_value(it, "returns", invoke(it, it.func("bessel_sk.lniknu"), [x, SV(L, "int")]))
        if not isinstance(r, (tuple, list)) or len(r) != 2 or not all(isinstance(a, Arr) and len(a.shape) == 2 for a in r):
            return fail(it, "returns (ln i, ln k)", "%r" % (r,))
        for a in r:
            post(it, "one row per argument", cmp_("==", a.shape[0], N))
            post(it, "one column per order 0..lmax", cmp_("==", a.shape[1], L + 1))
        ix, p = idx(it, (N,))
        xx = X(ix[0])
        low(it, r[0], ix, p, 0, xx)
        if case != "0":
            low(it, r[0], ix, p, 1, xx)
        if not case.isdigit():
            l = it.ctx.fresh("l", "I", 0) + 2
            p2 = p.copy()
            p2.assume(cmp_("<=", l, L))
            f = uf("cf", [l + Fraction(1, 2), xx], pos=1)
            v = el(it, r[0], (ix[0], l))
            post(it, "Wronskian: i_l k_{l+1} + i_{l+1} k_l = pi/(2x^2), i_{l+1} = i_l/f", cmp_("==", eexp(v) * (sk(l + 1, xx) + sk(l, xx) / f), PI / (2 * xx ** 2)), prover=p2)
        jx, p3 = idx(it, (N, L + 1))
        post(it, "matching ln k_l", cmp_("==", el(it, r[1], jx), elog(sk(jx[1], X(jx[0])))), prover=p3)
        frame_arr(it, "argument unchanged", x, fn)
    return run


for c in ("0", "1", "general"):
    contract("C04", "lniknu[lmax %s]" % c, ["bessel_sk.lniknu"], summaries={"bessel_sk.lnknu": s_lnknu, "bessel_sk.fnu": s_fnu},
             trust=["bessel_sk.lnknu returns ln k_l (contract C03)", "bessel_sk.fnu returns the continued fraction f of i_l/i_{l+1} (contracts above)"])(lni(c))


def window(fnname):
    def run(it, ctx):
        N, x = xarr()
        lo, hi = var("lmin", "I", 0), var("lmax", "I", 0)
        r = invoke(it, it.func("bessel_sk.mie_bessels"), [x, SV(lo, "int"), SV(hi, "int")])
        inv = it.ctx.prover.entails(cmp_(">", lo, hi))
        if isinstance(r, Raised):
            if inv and r.kind == "ValueError":
                return ok(it, "an inverted window is rejected")
            return fail(it, "only an inverted window is rejected", "%r" % (r,))
        post(it, "an inverted window is rejected", cmp_("<=", lo, hi))
        if not isinstance(r, (tuple, list)) or len(r) != 2:
            return fail(it, "returns (ln i, ln k)", "%r" % (r,))
        ix, p = idx(it, (N, hi - lo + 1))
        p.assume(cmp_("<=", lo, hi))
        for a, f, nm in ((r[0], si, "i"), (r[1], sk, "k")):
            post(it, "window of exactly the orders lmin..lmax", cmp_("==", a.shape[1], hi - lo + 1))
            post(it, "one row per argument", cmp_("==", a.shape[0], N))
            post(it, "window entry ln %s_l" % nm, cmp_("==", el(it, a, ix), elog(f(lo + ix[1], X(ix[0])))), prover=p)
    return run


contract("C04", "mie_bessels: order window", ["bessel_sk.mie_bessels"], summaries=BESSEL, trust=TRUST[:1])(window("mie"))


def trans(it, ctx):
    N, x = xarr()
    L = var("L", "I", 0)
    r = expect_value(it, "returns", invoke(it, it.func("bessel_sk.trans_bessels"), [x, SV(L, "int"), 0]))
    ix, p = idx(it, (N, L + 1))
    post(it, "internal translations use i_l", cmp_("==", el(it, r, ix), elog(si(ix[1], X(ix[0])))), prover=p)


contract("C04", "trans_bessels[internal]", ["bessel_sk.trans_bessels"], summaries=BESSEL)(trans)
