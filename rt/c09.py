from gens import *

TINY = mpf(10) ** -60


def mat(c, kinds, pec=0.15):
    M = need("materials")
    if c.p(pec):
        return M.PerfectConductor, None, (lambda k: mpf(1)), "pec"
    kd = c.pick(*kinds)
    b = bprops(c, 0.35)
    if kd == "diel":
        o = osclist(c, 3, ("lor",))
    elif kd == "drude":
        o = [oscillator(c, ("drude",))] + osclist(c, 2, ("lor", "drude"))
    elif kd == "plasma":
        o = [(c.lu(1e13, 3e16), 0, 0)] + osclist(c, 2, ("lor", "drude", "plasma"))
    c.r.shuffle(o)
    L = M.LorentzMaterial(o, b)
    L.__class__.__repr__ = lambda s: "LorentzMaterial(%r, %r)" % (s.e_properties, s.b_properties)
    return L, (lambda k: O.eps_lorentz(o, k)), (lambda k: O.mu_model(b, k)), kd


def compare(r, lmin, lmax, f, what, trunc=lambda l: 0.0):
    r = np.asarray(r)
    check(r.shape == (3, lmax - lmin + 1), "%s: shape %s" % (what, r.shape))
    for l in range(lmin, lmax + 1):
        w = f(l)
        for j in (0, 1):
            got = mpf(float(r[j, l - lmin])) * mp.exp(mpf(float(r[2, l - lmin])))
            mag = mp.exp(mpf(float(r[2, l - lmin])))
            if not abs(got - w[j]) <= (1e-9 + trunc(l)) * (abs(w[j]) + 1e-2 * mag):
                bad("%s: %s coefficient l=%d is %s instead of %s" % (what, ("TE", "TM")[j], l, mp.nstr(got, 12), mp.nstr(w[j], 12)))


def win(c):
    lmin = c.pick(1, 1, 2, c.int(1, 4))
    return lmin, lmin + c.int(0, 4), c.pick(c.lu(0.1, 20), c.lu(0.02, 1))


@rt("C09", "mie_k0 is the static limit", 150, quals=["scattering.scattering.mie_k0"])
def ext(c):
    S = need("scattering", "scattering")
    m1, e1, u1, kd = mat(c, ("diel", "drude", "plasma"))
    m2, e2, u2, _ = mat(c, ("diel",), 0)
    lmin, lmax, R = win(c)
    c.note(mat1=m1, mat2=m2, lmin=lmin, lmax=lmax, R=R, kind=kd)
    r = call("mie_k0", lambda: S(m1, m2).mie_k0(lmin, lmax, R))

    def f(l):
        with mp.workdps(80 + 70 * l):
            k = TINY
            te, tm = O.sphere(l, k, [(R, None if e1 is None else e1(k), u1(k))], (e2(k), u2(k)))
            x = mp.sqrt(e2(k) * u2(k)) * k * mpf(R)
            return te / x ** (2 * l + 1), tm / x ** (2 * l + 1)
    trunc = lambda l: 0.0
    if kd == "plasma":
        x = float(mp.sqrt(sum(mpf(p[0]) ** 2 for p in m1.e_properties if p[1] == 0 and p[2] == 0) * u1(0)) / O.C299 * mpf(R))
        trunc = lambda l: 0.0 if x < 40 else 100 * (1 + x) * abs(float(O.cf(l - 1, x, 80) / (O.i_(l - 1, mpf(x)) / O.i_(l, mpf(x))) - 1))
    compare(r, lmin, lmax, f, "mie_k0 (%s)" % kd, trunc)


@rt("C09", "mie_internal_k0 is the static limit", 150, quals=["scattering.scattering.mie_internal_k0"])
def inn(c):
    S = need("scattering", "scattering")
    m1, e1, u1, _ = mat(c, ("diel",), 0)
    m2, e2, u2, kd = mat(c, ("diel", "drude", "plasma"))
    lmin, lmax, R = win(c)
    c.note(mat1=m1, mat2=m2, lmin=lmin, lmax=lmax, R=R, kind=kd)
    r = call("mie_internal_k0", lambda: S(m1, m2).mie_internal_k0(lmin, lmax, R))

    def f(l):
        with mp.workdps(80 + 70 * l):
            k = TINY
            te, tm = O.wall(l, k, R, (e1(k), u1(k)), None if e2 is None else (e2(k), u2(k)))
            x = mp.sqrt(e1(k) * u1(k)) * k * mpf(R)
            return te * x ** (2 * l + 1), tm * x ** (2 * l + 1)
    compare(r, lmin, lmax, f, "mie_internal_k0 (%s)" % kd)


@rt("C09", "conducting media are rejected", 40, quals=["scattering.scattering.mie_k0", "scattering.scattering.mie_internal_k0"])
def reject(c):
    S = need("scattering", "scattering")
    m1, _, _, _ = mat(c, ("diel", "drude", "plasma"))
    m2, _, _, kd = mat(c, ("drude", "plasma"), 0)
    c.note(mat=m1, medium=m2)
    raises(lambda: S(m1, m2).mie_k0(1, 3, 1.0), Exception, "mie_k0 with a conducting medium (%s)" % kd)
    raises(lambda: S(m2, m1).mie_internal_k0(1, 3, 1.0), Exception, "mie_internal_k0 with a conducting interior (%s)" % kd)
