from common import *
from bessel_spec import *
from c05 import top
from c06 import make, PI

# Leading coefficients for x = n k L -> 0 of the multipole sum of C06:
#   k_l(x) ~ (pi/2) (2l-1)!!/x^(l+1)   external, dominated by l'' = l1 + l2
#   i_l(x) ~ x^l/(2l+1)!!              internal, dominated by l'' = |l1 - l2|


def F(x):
    return eexp(elgamma(x + 1))


def df(n):
    """(2n-1)!!"""
    return F(2 * n) / (F(n) * eexp(n * elog(C(2))))


def gbottom(lg, ls, m):
    """Gaunt coefficient of the smallest total angular momentum lg-ls: product of two stretched 3j symbols, up to (-1)^m"""
    d = lg - ls
    return (eroot((2 * d + 1) * (2 * lg + 1) * (2 * ls + 1) / (4 * PI), 2) * F(2 * ls) * F(2 * d) * F(lg) / (F(2 * lg + 1) * F(ls) * F(d) ** 2)
            * eexp((elgamma(lg + m + 1) + elgamma(lg - m + 1) - elgamma(ls + m + 1) - elgamma(ls - m + 1)) / 2))


def want(ext, l1, l2, lg, ls, m):
    nk = l1 * (l1 + 1) * l2 * (l2 + 1)
    if ext:
        L = l1 + l2
        g = top(l1, l2, m) / eroot(2 * L + 1, 2)
        return -2 / PI * (l1 * (l1 + 1) + l2 * (l2 + 1) - L * (L + 1)) * eroot(PI * (2 * L + 1) / nk, 2) * g * PI / 2 * df(L)
    d = lg - ls
    return (l1 * (l1 + 1) + l2 * (l2 + 1) - d * (d + 1)) * eroot(PI * (2 * d + 1) / nk, 2) * gbottom(lg, ls, m) / df(d + 1)


def case(ext, order, mcase, ktype):
    def run(it, ctx):
        a, b = var("a", "I", 0), var("b", "I", 0)
        m = ZERO if mcase == "m = 0" else var("m", "I", 1)
        lmin = ONE if mcase == "m = 0" else m
        L = var("L", pos=1)
        med = abs_material(it, "M")
        k = mkarr((ONE,), lambda ix: ZERO)
        t = expect_value(it, "construct", invoke(it, it.module("translation").ns["translation"],
                         [SV(lmin + a, "int"), SV(lmin + b, "int"), SV(m, "int"), med, SV(L, "float"), k, 1 if ext else 0]))
        r = expect_value(it, "returns", invoke(it, it.getattr(t, "trans_ab"), []))
        if not isinstance(r, (list, tuple)) or len(r) != 2:
            return fail(it, "sign and logarithm", "%r" % (r,))
        p = it.ctx.prover.copy()
        i, d = it.ctx.fresh("i", "I", 0), it.ctx.fresh("d", "I", 0 if order == "l1 >= l2" else 1)
        ls, lg = lmin + i, lmin + i + d
        (u, v) = (i + d, i) if order == "l1 >= l2" else (i, i + d)
        p.assume(cmp_("<=", u, a))
        p.assume(cmp_("<=", v, b))
        for x in r:
            if not isinstance(x, Arr) or len(x.shape) != 2:
                return fail(it, "one entry per (l1, l2)", "%r" % (x,))
            post(it, "one entry per (l1, l2)", And(cmp_("==", x.shape[0], a + 1), cmp_("==", x.shape[1], b + 1)))
        s, ln = (npstub.with_prover(p, lambda x=x: el(it, x, (u, v))) for x in r)
        post(it, "sign", cmp_("==", s, sg(m) if ext else ONE), prover=p)
        w = npstub.with_prover(p, lambda: want(ext, lmin + u, lmin + v, lg, ls, m))
        post(it, "logarithm of the leading coefficient", npstub.with_prover(p, lambda: cmp_("==", eexp(ln) ** 2, w ** 2)), prover=p)
        if order == "l1 >= l2":
            p.assume(cmp_("<=", u, b))
            p.assume(cmp_("<=", v, a))
            s2, l2 = (npstub.with_prover(p, lambda x=x: el(it, x, (v, u))) for x in r)
            post(it, "symmetric", npstub.with_prover(p, lambda: And(cmp_("==", s, s2), cmp_("==", ln, l2))), prover=p)
    return run


for ext in (True, False):
    for o in ("l1 >= l2", "l1 < l2"):
        for mc in ("m = 0", "m > 0"):
            contract("C07", "trans_ab at k = 0[%s, %s, %s]" % ("external" if ext else "internal", o, mc),
                     ["translation.translation.__init__", "translation.translation.trans_ab", "translation.translation.trans_k0_" + ("ext" if ext else "int"), "helper_functions.lfac", "helper_functions.ln_2dbl"],
                     trust=["leading terms of k_l, i_l at 0", "scipy.special.gammaln is ln Gamma"] + ([] if ext else ["lowest Gaunt coefficient = stretched 3j symbols"]))(case(ext, o, mc, None))
