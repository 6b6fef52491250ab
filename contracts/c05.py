from common import *

PI = core.PI


def lg(x):
    return elgamma(x)


def top(l, lp, m):
    """closed form of the coefficient of the largest total angular momentum (Xu (4), times the normalisation)"""
    L = l + lp
    h = Fraction(1, 2)
    return eexp(lg(2 * l + 1) + lg(2 * lp + 1) + 2 * lg(L + 1) - lg(l + 1) - lg(lp + 1) - lg(2 * L + 1)
                - h * (lg(l - m + 1) + lg(lp + m + 1) + lg(l + m + 1) + lg(lp - m + 1))
                + h * (elog(2 * l + 1) + elog(2 * lp + 1) - elog(4 * PI)))


def alpha(p, l, lp):
    return (p ** 2 - (l + lp + 1) ** 2) * (p ** 2 - (l - lp) ** 2) / (4 * p ** 2 - 1)


def case(order, mcase):
    def run(it, ctx):
        s, d = var("s", "I", 1), var("d", "I", 0 if order == "l >= l'" else 1)
        l, lp = (s + d, s) if order == "l >= l'" else (s, s + d)
        if mcase == "inside":
            m, u = var("m", "I"), None
            it.ctx.prover.assume(cmp_("<=", m, s))
            it.ctx.prover.assume(cmp_(">=", m, -s))
        elif mcase == "above":
            m = s + 1 + var("u", "I", 0)
        else:
            m = -(s + 1 + var("u", "I", 0))
        lo = d                                           # |l - l'|
        r = expect_value(it, "returns", invoke(it, it.func("cython_gaunt.gaunt"), [SV(l, "int"), SV(lp, "int"), SV(m, "int")]))
        if not isinstance(r, Arr) or len(r.shape) != 1:
            return fail(it, "one coefficient per total angular momentum", "%r" % (r,))
        post(it, "one coefficient per total angular momentum", cmp_("==", r.shape[0], s + 1))
        if mcase != "inside":
            ix, p = idx(it, (s + 1,))
            post(it, "all zero for |m| > min(l, l')", cmp_("==", el(it, r, ix), ZERO), prover=p)
            return
        g = lambda i: el(it, r, (i,)) * eroot(2 * (lo + 2 * i) + 1, 2)
        a = top(l, lp, m)
        post(it, "largest total angular momentum: closed form", cmp_("==", g(s), a))
        post(it, "second largest: closed-form multiple", cmp_("==", g(s - 1), a * (2 * (l + lp) - 3) * (l * lp - m ** 2 * (2 * (l + lp) - 1)) / ((2 * l - 1) * (2 * lp - 1) * (l + lp))))
        for nm, back in (("next to the top", 2), ("second from the top", 3), ("below", None)):
            p = it.ctx.prover.copy()
            if back is None:
                i = it.ctx.fresh("i", "I", 0)
                p.assume(cmp_("<=", i, s - 4))
            else:
                i = s - back
                p.assume(cmp_(">=", s, back))
            if p.check_unsat([], 2000) is True:
                continue
            pp = lo + 2 * i

            def goal():
                h = lambda j: smt.prune(p, g(j))
                return cmp_("==", alpha(pp + 1, l, lp) * h(i), (4 * m ** 2 + alpha(pp + 2, l, lp) + alpha(pp + 3, l, lp)) * h(i + 1) - alpha(pp + 4, l, lp) * h(i + 2))
            post(it, "three-term recurrence, " + nm, npstub.with_prover(p, goal), prover=p)
    return run


for o in ("l >= l'", "l < l'"):
    for mc in ("inside", "above", "below"):
        contract("C05", "gaunt[%s, m %s]" % (o, mc), ["cython_gaunt.gaunt"],
                 trust=["extraction of cython_gaunt.pyx drops the C types: int and double are unbounded integers and reals",
                        "lgamma, exp, log, sqrt of math.h"])(case(o, mc))
