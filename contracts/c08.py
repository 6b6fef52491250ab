from common import *
from bessel_spec import *


def setup(it):
    N, lmin, d = var("N", "I", 1), var("lmin", "I", 1), var("dl", "I", 0)
    k = mkarr((N,), lambda ix: uf("k", [ix[0]], pos=1))
    r = var("r", pos=1)
    return N, lmin, lmin + d, k, r


def logder(l, x):
    """d ln(x i_l)/d ln x and d ln(x k_l)/d ln x"""
    return -l + x * si(l - 1, x) / si(l, x), -l - x * sk(l - 1, x) / sk(l, x)


def conditions(l, k, r, ext, mid, pec):
    """the two continuity conditions as (factor of the coefficient, right-hand side), per polarisation.

    external: field i_l(x_e) - (-1)^l (2/pi) a k_l(x_e) outside, b i_l(x_i) inside
    internal: field k_l(x_i) - (-1)^l (pi/2) a i_l(x_i) inside, b k_l(x_e) outside
    Tangential E and H continuous <=> the logarithmic derivative of x*field divided by mu (TE) or eps (TM) agrees."""
    xi, xe = eroot(eps("1", k) * mu("1", k), 2) * k * r, eroot(eps("2", k) * mu("2", k), 2) * k * r
    out = []
    for resp in (mu, eps):
        if ext:
            Di, De = logder(l, xe)
            f, g = si(l, xe), sk(l, xe)
            if pec:
                # TE: field vanishes; TM: derivative of x*field vanishes
                out.append((g, f) if resp is mu else (De * g, Di * f))
            else:
                ri = logder(l, xi)[0] * resp("2", k)
                out.append(((ri - resp("1", k) * De) * g, (ri - resp("1", k) * Di) * f))
        else:
            Di, De = logder(l, xi)
            f, g = si(l, xi), sk(l, xi)
            if pec:
                out.append((f, g) if resp is mu else (Di * f, De * g))
            else:
                ro = logder(l, xe)[1] * resp("1", k)
                out.append(((resp("2", k) * Di - ro) * f, (resp("2", k) * De - ro) * g))
    return out


def shape3(it, r, shape):
    if not isinstance(r, Arr) or len(r.shape) != 3:
        fail(it, "shape (3, len(k), lmax-lmin+1)", "%r" % (r,))
        raise PathEnd2()
    for a, b in zip(r.shape, shape):
        post(it, "shape (3, len(k), lmax-lmin+1)", cmp_("==", a, b))


def mie(ext, pec, shift=None):
    def run(it, ctx):
        N, lmin, lmax, k, r = setup(it)
        m1, m2 = abs_material(it, "1", pec=pec and ext), abs_material(it, "2", pec=pec and not ext)
        s = it.call(it.module("scattering").ns["scattering"], [m1, m2], {})
        s1, s2, fn = snapshot(m1), snapshot(m2), k.store.fn
        f = it.getattr(s, "mie" if ext else "mie_internal")
        res = expect_value(it, "returns", invoke(it, f, [k, SV(lmin, "int"), SV(lmax, "int"), SV(r, "float")]))
        shape3(it, res, (C(3), N, lmax - lmin + 1))
        ix, p = idx(it, (N, lmax - lmin + 1))
        l, kk = lmin + ix[1], uf("k", [ix[0]], pos=1)
        cond = conditions(l, kk, r, ext, False, pec)
        pref = sg(l) * (2 / PI if ext else PI / 2)
        sc = eexp(el(it, res, (C(2),) + ix))
        for j, nm in enumerate(("TE", "TM")):
            lhs, rhs = cond[j]
            c = el(it, res, (C(j),) + ix) * sc * pref
            post(it, nm + ": tangential fields are continuous", cmp_("==", c * lhs, rhs), prover=p)
        frame_obj(it, "materials unchanged", m1, s1)
        frame_obj(it, "materials unchanged", m2, s2)
        frame_arr(it, "k unchanged", k, fn)
    return run


PI = core.PI if hasattr(core, "PI") else None
Q = {True: ("scattering.scattering.mie", "scattering.scattering.miePEC"), False: ("scattering.scattering.mie_internal", "scattering.scattering.miePEC_internal")}
for ext in (True, False):
    for pec in (False, True):
        contract("C08", "%s[%s]" % ("mie" if ext else "mie_internal", "perfect conductor" if pec else "general"),
                 ["scattering.scattering.__init__", Q[ext][pec], "bessel_sk.mie_bessels"], summaries=BESSEL,
                 trust=["epsilon, mu: arbitrary positive elementwise functions (contract C01)"] + TRUST)(mie(ext, pec))


def lemmas(ext):
    def run(it, ctx):
        N, lmin, lmax, k, r = setup(it)
        S = it.module("scattering").ns["scattering"]
        nm = "mie" if ext else "mie_internal"
        a = [k, SV(lmin, "int"), SV(lmax, "int"), SV(r, "float")]
        z = expect_value(it, "returns", invoke(it, it.getattr(it.call(S, [abs_material(it, "1"), abs_material(it, "1")], {}), nm), a))
        ix, p = idx(it, (N, lmax - lmin + 1))
        for j in (0, 1):
            post(it, "no contrast, no scattering", cmp_("==", el(it, z, (C(j),) + ix), ZERO), prover=p)
        dual = lambda t: abs_material(it, t, epsilon=response("mu" + t), mu=response("eps" + t))
        u = expect_value(it, "returns", invoke(it, it.getattr(it.call(S, [abs_material(it, "1"), abs_material(it, "2")], {}), nm), a))
        v = expect_value(it, "returns", invoke(it, it.getattr(it.call(S, [dual("1"), dual("2")], {}), nm), a))
        for j in (0, 1, 2):
            post(it, "exchanging epsilon and mu exchanges the polarisations",
                 cmp_("==", el(it, u, (C(j),) + ix), el(it, v, (C((1, 0, 2)[j]),) + ix)), prover=p)
    return run


for ext in (True, False):
    contract("C08", "lemma: no contrast, duality[%s]" % ("external" if ext else "internal"), ["scattering.scattering.mie" if ext else "scattering.scattering.mie_internal"],
             summaries=BESSEL, trust=TRUST)(lemmas(ext))
