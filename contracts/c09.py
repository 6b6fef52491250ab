from common import *
from bessel_spec import *
from c08 import shape3

PI = core.PI
C299 = C(Fraction(2998)) * C(Fraction(10) ** 11)       # 2.998e14


def lndbl(l):
    """ln (2l-1)!!, the value the contract of helper_functions.ln_2dbl (C22) gives"""
    return elgamma(2 * l + 1) - l * elog(C(2)) - elgamma(l + 1)


def s_fnu(it, args, kw, f):
    a = dict(zip(("x", "nu"), args))
    a.update(kw)
    x, nu = a["x"], num(a["nu"])
    if not isinstance(x, Arr) or len(x.shape) != 1:
        raise Stuck("fnu needs a one-dimensional array")
    l = nu - Fraction(1, 2)
    ix, p = idx(it, x.shape)
    it.ctx.oblige("fnu: argument is positive", cmp_(">", x.get(ix), 0), kind="pre", prover=p, assume=False)
    g = x.snap()
    return mkarr(x.shape, lambda ix: si(l, g(ix)) / si(l + 1, g(ix)))


SUMM = dict(BESSEL)
SUMM["bessel_sk.fnu"] = s_fnu


def diverging(it, what):
    def call(it2, args, kw):
        fail(it, "the permittivity of a conductor is not evaluated at k = 0", what, soft=True)
        raise Stuck("permittivity of a conductor at k = 0")
    return Native(call, what)


def mat(it, tag, cls):
    n = var("nosc" + tag, "I", 0)
    P = lambda nm: (lambda i: SV(uf(nm + tag, [i], pos=0), "float"))
    lst = SymList(n, lambda i: (P("wP")(i), P("wR")(i), P("gam")(i)), name="osc" + tag)
    m = abs_material(it, tag, pec=cls == "pec", sigma=cls in ("dielectric", "drude"), diel=cls == "dielectric")
    wp2 = esum(n, lambda i: ite(And(cmp_("==", uf("wR" + tag, [i], pos=0), 0), cmp_("==", uf("gam" + tag, [i], pos=0), 0)), uf("wP" + tag, [i], pos=0) ** 2, ZERO))
    if cls != "pec":
        m.attrs["e_properties"] = lst
        m.attrs["b_properties"] = ()
        if cls != "dielectric":
            m.attrs["epsilon"] = diverging(it, "epsilon" + tag)
        if cls == "plasma":
            it.ctx.prover.assume(cmp_(">", wp2, 0))     # C02: infinite conductivity <=> such an oscillator exists
    return m, wp2


def case(ext, cls):
    """cls: class of the scatterer (ext) or of the surroundings (internal)"""
    def run(it, ctx):
        lmin, d, R = var("lmin", "I", 1), var("dl", "I", 0), var("R", pos=1)
        lmax = lmin + d
        m1, w1 = mat(it, "1", cls if ext else "dielectric")
        m2, w2 = mat(it, "2", "dielectric" if ext else cls)
        s = it.call(it.module("scattering").ns["scattering"], [m1, m2], {})
        s1, s2 = snapshot(m1), snapshot(m2)
        f = it.getattr(s, "mie_k0" if ext else "mie_internal_k0")
        r = expect_value(it, "returns", invoke(it, f, [SV(lmin, "int"), SV(lmax, "int"), SV(R, "float")]))
        if not isinstance(r, Arr) or len(r.shape) != 2:
            return fail(it, "shape (3, lmax-lmin+1)", "%r" % (r,))
        for a, b in zip(r.shape, (C(3), lmax - lmin + 1)):
            post(it, "shape (3, lmax-lmin+1)", cmp_("==", a, b))
        ix, p = idx(it, (lmax - lmin + 1,))
        l = lmin + ix[0]
        k0 = ZERO
        e1, e2, u1, u2 = eps("1", k0), eps("2", k0), mu("1", k0), mu("2", k0)
        # leading behaviour at small argument: d ln(x i_l)/d ln x -> l+1, d ln(x k_l)/d ln x -> -l
        Di, Dk = l + 1, -l
        if ext:
            if cls == "pec":
                cond = [(ONE, ONE), (Dk, Di)]
            else:
                y = eroot(u1 * w1, 2) * R / C299
                ri = Di if cls != "plasma" else -l + y * si(l - 1, y) / si(l, y)
                te = (u2 * ri - u1 * Dk, u2 * ri - u1 * Di)
                tm = (e2 * Di - e1 * Dk, e2 * Di - e1 * Di) if cls == "dielectric" else (Dk, Di)
                cond = [te, tm]
            scale = -elog(2 * l + 1) - 2 * lndbl(l)
        else:
            if cls == "pec":
                cond = [(ONE, ONE), (Di, Dk)]
            else:
                y = eroot(u2 * w2, 2) * R / C299
                ro = Dk if cls != "plasma" else -l - y * sk(l - 1, y) / sk(l, y)
                te = (u2 * Di - u1 * ro, u2 * Dk - u1 * ro)
                tm = (e2 * Di - e1 * Dk, e2 * Dk - e1 * Dk) if cls == "dielectric" else (Di, Dk)
                cond = [te, tm]
            scale = elog(2 * l + 1) + 2 * lndbl(l)
        for j, nm in enumerate(("TE", "TM")):
            lhs, rhs = cond[j]
            c = el(it, r, (C(j),) + ix) * sg(l)
            f_ = eexp(el(it, r, (C(2),) + ix) - scale)
            post(it, nm + ": static limit of the continuity condition", cmp_("==", c * f_ * lhs, rhs), prover=p)
        frame_obj(it, "materials unchanged", m1, s1)
        frame_obj(it, "materials unchanged", m2, s2)
    return run


CL = ("dielectric", "drude", "plasma", "pec")
for ext in (True, False):
    fn = "scattering.scattering.mie_k0" if ext else "scattering.scattering.mie_internal_k0"
    for cls in CL:
        contract("C09", "%s[%s]" % (fn.split(".")[-1], cls), [fn, "bessel_sk.i_fraction", "helper_functions.ln_2dbl"], summaries=SUMM,
                 trust=["epsilon(0), mu(0): arbitrary positive numbers (contract C01), finite for dielectrics only",
                        "infinite conductivity <=> the free oscillators have non-zero total strength (contract C02)",
                        "bessel_sk.fnu returns i_l/i_{l+1} (C04; the truncated continued fraction is treated as exact)",
                        "small-argument behaviour i_l ~ x^l/(2l+1)!!, k_l ~ (pi/2)(2l-1)!!/x^(l+1)"] + TRUST)(case(ext, cls))


def rejects(ext, cls):
    def run(it, ctx):
        m1, _ = mat(it, "1", "dielectric" if ext else cls)
        m2, _ = mat(it, "2", cls if ext else "dielectric")
        s = it.call(it.module("scattering").ns["scattering"], [m1, m2], {})
        lmin, d, R = var("lmin", "I", 1), var("dl", "I", 0), var("R", pos=1)
        f = it.getattr(s, "mie_k0" if ext else "mie_internal_k0")
        r = invoke(it, f, [SV(lmin, "int"), SV(lmin + d, "int"), SV(R, "float")])
        if isinstance(r, Raised) and r.kind == "NotImplementedError":
            return ok(it, "a conducting medium between the objects is rejected")
        fail(it, "a conducting medium between the objects is rejected", "%r" % (r,))
    return run


for ext in (True, False):
    for cls in ("drude", "plasma"):
        contract("C09", "rejects a %s medium[%s]" % (cls, "external" if ext else "internal"),
                 ["scattering.scattering.mie_k0" if ext else "scattering.scattering.mie_internal_k0"], summaries=SUMM)(rejects(ext, cls))
