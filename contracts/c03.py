from common import *
from bessel_spec import *


def hint(it, st, P0):
    """column l of a table with one row per argument"""
    if len(st.shape) != 2:
        return None
    return lambda ix: elog(sk(ix[1], uf("x", [ix[0]], pos=1)))


def run_case(case):
    def run(it, ctx):
        N = var("N", "I", 1)
        x = mkarr((N,), lambda ix: uf("x", [ix[0]], pos=1))
        L = {"0": ZERO, "1": ONE}.get(case, None)
        if L is None:
            L = var("d", "I", 0) + 2
        fn = x.store.fn
        r = expect_value(it, "returns", invoke(it, it.func("bessel_sk.lnknu"), [x, SV(L, "int")]))
        if not isinstance(r, Arr) or len(r.shape) != 2:
            return fail(it, "one row per argument, one column per order", "%r" % (r,))
        post(it, "one row per argument", cmp_("==", r.shape[0], N))
        post(it, "one column per order 0..lmax", cmp_("==", r.shape[1], L + 1))
        ix, p = idx(it, (N, L + 1))
        xx = uf("x", [ix[0]], pos=1)
        post(it, "every entry is ln k_l(x)", cmp_("==", el(it, r, ix), elog(sk(ix[1], xx))), prover=p)
        frame_arr(it, "x unchanged", x, fn)
        if case == "general":
            q, p = idx(it, (N,))
            l = it.ctx.fresh("l", "I", 1)
            p.assume(cmp_("<", l, L))
            E_ = lambda j: eexp(el(it, r, (q[0], j)))
            xx = uf("x", [q[0]], pos=1)
            post(it, "recurrence k_{l+1} = k_{l-1} + (2l+1)/x k_l", cmp_("==", E_(l + 1), E_(l - 1) + (2 * l + 1) / xx * E_(l)), prover=p)
    return run


for c in ("0", "1", "general"):
    contract("C03", "lnknu[lmax %s]" % c, ["bessel_sk.lnknu"], hints={"rec": [hint]}, opts={"rewrites": (down,)},
             trust=["k_l is defined by k_0 = (pi/2) exp(-x)/x, k_1 = k_0 (1+1/x) and the three-term recurrence"])(run_case(c))


def rejects(it, ctx):
    N = var("N", "I", 1)
    x = mkarr((N,), lambda ix: uf("x", [ix[0]], pos=1))
    r = invoke(it, it.func("bessel_sk.lnknu"), [x, SV(var("lf", pos=1), "float")])
    if isinstance(r, Raised) and r.kind == "TypeError":
        ok(it, "a maximal order that is not an integer is rejected")
    else:
        fail(it, "a maximal order that is not an integer is rejected", "%r" % (r,))


contract("C03", "lnknu rejects non-integer orders", ["bessel_sk.lnknu"])(rejects)


def trans(it, ctx):
    N, L = var("N", "I", 1), var("L", "I", 0)
    x = mkarr((N,), lambda ix: uf("x", [ix[0]], pos=1))
    r = expect_value(it, "returns", invoke(it, it.func("bessel_sk.trans_bessels"), [x, SV(L, "int"), 1]))
    ix, p = idx(it, (N, L + 1))
    post(it, "external translations use k_l", cmp_("==", el(it, r, ix), elog(sk(ix[1], uf("x", [ix[0]], pos=1)))), prover=p)


contract("C03", "trans_bessels[external]", ["bessel_sk.trans_bessels"], summaries=BESSEL)(trans)
