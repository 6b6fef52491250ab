from common import *
from bessel_spec import *

PI = core.PI


def G(l1, l2, m, j):
    """Gaunt coefficient of total angular momentum |l1-l2|+2j (contract C05)"""
    return uf("G", [l1, l2, m, j])


def _gaunt(l, lp, m, j):
    """the coefficient itself (recurrence of C05), for numerical refutation"""
    from mpmath import mp, mpf, factorial as F_, sqrt
    l, lp, m, j = (int(x) for x in (l, lp, m, j))
    low, n = abs(l - lp), min(l, lp) + 1
    if l < 1 or lp < 1 or abs(m) > min(l, lp) or not 0 <= j < n:
        return mpf(0)
    top = l + lp
    al = lambda p: mpf((p * p - (l + lp + 1) ** 2) * (p * p - (l - lp) ** 2)) / (4 * p * p - 1)
    g = [mpf(0)] * n
    g[-1] = (F_(2 * l) * F_(2 * lp) * F_(top) ** 2 / (F_(l) * F_(lp) * F_(2 * top)) / sqrt(F_(l - m) * F_(lp + m) * F_(l + m) * F_(lp - m))
             * sqrt(mpf(2 * l + 1) * (2 * lp + 1) / (4 * mp.pi)))
    g[-2] = g[-1] * (2 * top - 3) * (l * lp - m * m * (2 * top - 1)) / mpf((2 * l - 1) * (2 * lp - 1) * top)
    for i in range(n - 3, -1, -1):
        p = low + 2 * i
        g[i] = ((4 * m * m + al(p + 2) + al(p + 3)) * g[i + 1] - al(p + 4) * g[i + 2]) / al(p + 1)
    return g[j] / sqrt(mpf(2 * (low + 2 * j) + 1))


numev.SPEC_EVAL["G"] = _gaunt


def s_gaunt(it, args, kw, f):
    a = dict(zip(("l", "lp", "m"), args))
    a.update(kw)
    l, lp, m = (num(a[x]) for x in ("l", "lp", "m"))
    for x in (l, lp, m):
        if not is_int(x):
            raise Stuck("gaunt needs integers")
    it.ctx.oblige("gaunt: angular momenta are positive", And(cmp_(">=", l, 1), cmp_(">=", lp, 1)), kind="pre")
    pr = it.ctx.prover
    if pr.entails(cmp_(">=", l, lp)):
        n = lp + 1
    elif pr.entails(cmp_("<=", l, lp)):
        n = l + 1
    else:
        n = emin(l, lp) + 1
    return mkarr((n,), lambda ix: G(l, lp, m, ix[0]))


SUM = dict(BESSEL)
SUM["cython_gaunt.gaunt"] = s_gaunt


def make(it, ext, lmax, lssmax, m, N):
    k = mkarr((N,), lambda ix: uf("k", [ix[0]], pos=1))
    L = var("L", pos=1)
    med = abs_material(it, "M")
    return k, L, med, expect_value(it, "construct", invoke(it, it.module("translation").ns["translation"],
                                   [SV(lmax, "int"), SV(lssmax, "int"), SV(m, "int"), med, SV(L, "float"), k, 1 if ext else 0]))


def spec(l1, l2, m, kk, L, ext, s, lo):
    x = kk * L * eroot(eps("M", kk), 2)
    nk = l1 * (l1 + 1) * l2 * (l2 + 1)

    def term(j, mix, back):
        lpp = lo + 2 * j
        b = sk(lpp, x) if ext else si(lpp, x)
        w = 2 * m * x if mix else l1 * (l1 + 1) + l2 * (l2 + 1) - lpp * (lpp + 1)
        sign = -sg(m) * 2 / PI if ext else sg(m + lpp)
        bk = ONE if not back else (sg(lo) if not mix else -sg(lo))
        return sign * bk * w * eroot(PI * (2 * lpp + 1) / nk, 2) * G(l1, l2, m, j) * b
    return [lambda j, a=a: term(j, *a) for a in ((False, False), (False, True), (True, False), (True, True))]


def coeff(ext, order, m0=False):
    def run(it, ctx):
        N = var("N", "I", 1)
        s, d = var("s", "I", 1), var("d", "I", 0 if order == "l1 >= l2" else 1)
        l1, l2 = (s + d, s) if order == "l1 >= l2" else (s, s + d)
        m = ZERO if m0 else var("m", "I", 0)
        e1, e2 = var("e1", "I", 0), var("e2", "I", 0)
        it.ctx.prover.assume(cmp_("<=", m, s))
        k, L, med, t = make(it, ext, l1 + e1, l2 + e2, m, N)
        snap = snapshot(t)
        fn = k.store.fn
        r = expect_value(it, "returns", invoke(it, it.getattr(t, "get_vl1l2"), [SV(l1, "int"), SV(l2, "int")]))
        if not isinstance(r, (list, tuple)) or len(r) != 5:
            return fail(it, "five results", "%r" % (r,))
        for a in r:
            if not isinstance(a, Arr) or len(a.shape) != 1:
                return fail(it, "one value per wavenumber", "%r" % (a,))
            post(it, "one value per wavenumber", cmp_("==", a.shape[0], N))
        ix, p = idx(it, (N,))
        kk = uf("k", [ix[0]], pos=1)
        if m0:
            post(it, "no mixing for m = 0", cmp_("==", el(it, r[2], ix), ZERO), prover=p)
            post(it, "no mixing for m = 0", cmp_("==", el(it, r[3], ix), ZERO), prover=p)
        sc = eexp(el(it, r[4], ix))
        for nm, a, body in zip(("conserving", "conserving, back", "mixing", "mixing, back"), r, spec(l1, l2, m, kk, L, ext, s, d)):
            want = esum(s + 1, body)
            post(it, nm + ": equals the multipole sum", cmp_("==", el(it, a, ix) * sc, want), prover=p)
        post(it, "reverse translation: sign (-1)^(l1+l2)", cmp_("==", el(it, r[1], ix), sg(l1 + l2) * el(it, r[0], ix)), prover=p)
        post(it, "reverse mixing: opposite sign", cmp_("==", el(it, r[3], ix), -sg(l1 + l2) * el(it, r[2], ix)), prover=p)
        frame_obj(it, "translation object unchanged", t, snap)
        frame_arr(it, "k unchanged", k, fn)
    return run


for ext in (True, False):
    for o in ("l1 >= l2", "l1 < l2"):
      for m0 in (False, True):
        contract("C06", "get_vl1l2[%s, %s%s]" % ("external" if ext else "internal", o, ", m = 0" if m0 else ""),
                 ["translation.translation.__init__", "translation.translation.get_vl1l2", "translation.translation.get_scaled_bessels", "translation.translation.gnt", "bessel_sk.trans_bessels"],
                 summaries=SUM, trust=TRUST + ["cython_gaunt.gaunt (contract C05)"])(coeff(ext, o, m0))


def table(ext):
    # any k, every pair (l1, l2): the entry of each table is what get_vl1l2 returns for exactly that pair
    def run(it, ctx):
        N = var("N", "I", 1)
        m, a, b = var("m", "I", 0), var("a", "I", 0), var("b", "I", 0)
        lmin = emax_(m)
        k, L, med, t = make(it, ext, lmin + a, lmin + b, m, N)

        def s_v(it, args, kw, f):
            q = dict(zip(("self", "l1", "l2"), args))
            q.update(kw)
            l1, l2 = num(q["l1"]), num(q["l2"])
            lo = And(cmp_("<=", lmin, l1), cmp_("<=", lmin, l2))
            it.ctx.oblige("get_vl1l2: orders inside the table", And(lo, cmp_("<=", l1, lmin + a), cmp_("<=", l2, lmin + b)), kind="pre")
            return [mkarr((N,), lambda ix, c=c: uf("V%d" % c, [ix[0], l1, l2])) for c in range(5)]
        it.ctx.summaries = dict(it.ctx.summaries)
        it.ctx.summaries["translation.translation.get_vl1l2"] = s_v
        r = expect_value(it, "returns", invoke(it, it.getattr(t, "trans_ab"), []))
        if not isinstance(r, (list, tuple)) or len(r) != 5:
            return fail(it, "five tables", "%r" % (r,))
        ix, p = idx(it, (N, a + 1, b + 1))
        for c, x in enumerate(r):
            if not isinstance(x, Arr) or len(x.shape) != 3:
                return fail(it, "five tables", "%r" % (x,))
            for u, v in zip(x.shape, (N, a + 1, b + 1)):
                post(it, "one entry per (k, l1, l2)", cmp_("==", u, v))
            post(it, "entry sits at its own position", cmp_("==", el(it, x, ix), uf("V%d" % c, [ix[0], lmin + ix[1], lmin + ix[2]])), prover=p)
    return run


def emax_(m):
    return ite(cmp_(">=", m, 1), m, ONE)


for ext in (True, False):
    contract("C06", "trans_ab[%s]" % ("external" if ext else "internal"), ["translation.translation.__init__", "translation.translation.trans_ab"],
             summaries=SUM, trust=TRUST)(table(ext))
