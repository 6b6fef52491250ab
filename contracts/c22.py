from common import *

ND = "helper_functions.num_derivative"


def grid(n, x0, h):
    return mkarr((n,), lambda ix: x0 + ix[0] * h)


def stencil(kind, nval=None):
    """the result equals the stated differences of arbitrary samples"""
    def run(it, ctx):
        n = var("n", "I", 1) if nval is None else C(nval)
        if nval is None:
            it.ctx.prover.assume(cmp_(">=", n, C(5)))
        x0, h = var("x0"), var("h", pos=1)
        x = grid(n, x0, h)
        F = lambda i: uf("f", [i])
        f = mkarr((n,), lambda ix: F(ix[0]))
        fx, ff = x.store.fn, f.store.fn
        r = expect_value(it, "returns", invoke(it, it.func(ND), [f, x]))
        if not isinstance(r, Arr) or r.ndim != 1:
            return fail(it, "one value per grid point", "%r" % (r,))
        post(it, "one value per grid point", cmp_("==", r.shape[0], n))
        spec5 = lambda i: (F(i - 2) - 8 * F(i - 1) + 8 * F(i + 1) - F(i + 2)) / (12 * h)
        spec2 = lambda i: (F(i + 1) - F(i - 1)) / (2 * h)
        if nval is None:
            i = it.ctx.fresh("i", "I", 0)
            p = it.ctx.prover.copy()
            p.assume(cmp_(">=", i, C(2)))
            p.assume(cmp_("<=", i, n - 3))
            post(it, "five-point formula in the interior", cmp_("==", el(it, r, (i,)), spec5(i)), prover=p)
        else:
            for i in range(2, nval - 2):
                post(it, "five-point formula in the interior", cmp_("==", el(it, r, (C(i),)), spec5(C(i))))
        for i in (ONE, n - 2):
            post(it, "central difference next to the edges", cmp_("==", el(it, r, (i,)), spec2(i)))
        post(it, "one-sided difference at the lower edge", cmp_("==", el(it, r, (ZERO,)), (F(ONE) - F(ZERO)) / h))
        post(it, "one-sided difference at the upper edge", cmp_("==", el(it, r, (n - 1,)), (F(n - 1) - F(n - 2)) / h))
        frame_arr(it, "x is unchanged", x, fx)
        frame_arr(it, "f is unchanged", f, ff)
    return run


contract("C22", "num_derivative[n >= 5]", [ND])(stencil("sym"))
for nv in (4, 5, 6):
    contract("C22", "num_derivative[n = %d]" % nv, [ND])(stencil("c", nv))


def exact(it, ctx):
    """polynomial exactness, from the code itself"""
    n = var("n", "I", 1)
    it.ctx.prover.assume(cmp_(">=", n, C(5)))
    x0, h = var("x0"), var("h", pos=1)
    x = grid(n, x0, h)
    c = [var("c%d" % j) for j in range(5)]
    for deg, lo in ((4, 2), (2, 1), (1, 0)):
        P = lambda t: sum((c[j] * t ** j for j in range(1, deg + 1)), c[0])
        D = lambda t: sum((j * c[j] * t ** (j - 1) for j in range(2, deg + 1)), c[1])
        f = mkarr((n,), lambda ix: P(x0 + ix[0] * h))
        r = expect_value(it, "returns", invoke(it, it.func(ND), [f, x]))
        where = [(var("i%d" % deg, "I", 0), True)] if deg == 4 else [(C(lo), False), (n - 1 - lo, False)]
        for i, q in where:
            p = it.ctx.prover.copy()
            if q:
                p.assume(cmp_(">=", i, C(2)))
                p.assume(cmp_("<=", i, n - 3))
            post(it, "exact for degree %d" % deg, cmp_("==", el(it, r, (i,)), D(x0 + i * h)), prover=p)


contract("C22", "num_derivative[exactness]", [ND])(exact)


def reject(it, ctx):
    n = var("n", "I", 1)
    it.ctx.prover.assume(cmp_(">=", n, C(5)))
    X = lambda i: uf("x", [i])
    x = mkarr((n,), lambda ix: X(ix[0]))
    f = mkarr((n,), lambda ix: uf("f", [ix[0]]))
    it.ctx.prover.assume(cmp_("<=", X(ONE), X(ZERO)))
    r = invoke(it, it.func(ND), [f, x])
    if isinstance(r, Raised) and r.kind == "ValueError":
        ok(it, "a grid that does not increase is rejected")
    else:
        fail(it, "a grid that does not increase is rejected", "%r" % (r,))


contract("C22", "num_derivative[rejects]", [ND])(reject)


def facs(kind):
    def run(it, ctx):
        n = var("n", "I", 0)

        def at(fn, v):
            f = it.func("helper_functions." + fn)
            if kind == "scalar":
                return el(it, expect_value(it, "returns", invoke(it, f, [SV(v, "int") if v.const() is None else int(v.const())])))
            N = var("N", "I", 1)
            t = it.ctx.fresh("t", "I", 0)
            it.ctx.prover.assume(cmp_("<", t, N))
            a = mkarr((N,), lambda ix: ite(cmp_("==", ix[0], t), v, uf("other", [ix[0]], "I", 0)), "int")
            fa = a.store.fn
            r = expect_value(it, "returns", invoke(it, f, [a]))
            frame_arr(it, "array unchanged", a, fa)
            if not isinstance(r, Arr) or r.ndim != 1:
                fail(it, "shape of the argument", "%r" % (r,))
                raise PathEnd2()
            post(it, "shape of the argument", cmp_("==", r.shape[0], N))
            return el(it, r, (t,))
        post(it, "lfac(0) = 0", cmp_("==", at("lfac", ZERO), ZERO))
        post(it, "lfac(n+1) = lfac(n) + ln(n+1)", cmp_("==", at("lfac", n + 1), at("lfac", n) + elog(n + 1)))
        post(it, "ln_2dbl(0) = 0", cmp_("==", at("ln_2dbl", ZERO), ZERO))
        post(it, "ln_2dbl(n+1) = ln_2dbl(n) + ln(2n+1)", cmp_("==", at("ln_2dbl", n + 1), at("ln_2dbl", n) + elog(2 * n + 1)))
    return run


for kd in ("scalar", "array"):
    contract("C22", "lfac, ln_2dbl[%s]" % kd, ["helper_functions.lfac", "helper_functions.ln_2dbl"],
             trust=["scipy.special.gammaln is the logarithm of the gamma function: lgamma(1)=0, lgamma(x+1)=lgamma(x)+ln x",
                    "lfac and ln_2dbl for every n follow from the two proved equations by induction on n"])(facs(kd))
