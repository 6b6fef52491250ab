from gens import *


def wants(e1, u1, e2, u2, kp, k):
    with mp.workdps(40):
        e1, u1, e2, u2, kp, k = map(mpf, (e1, u1, e2, u2, kp, k))
        qp, qm = mp.sqrt(kp ** 2 + e1 * u1 * k ** 2), mp.sqrt(kp ** 2 + e2 * u2 * k ** 2)
        return (u1 * qm - u2 * qp) / (u1 * qm + u2 * qp), (e1 * qm - e2 * qp) / (e1 * qm + e2 * qp)


def resp(c):
    return c.pick(1.0, c.lu(1, 3), c.lu(0.1, 1e4)), c.pick(1.0, 1.0, c.lu(0.1, 100))


@rt("C18", "Fresnel coefficients: formula, bounds, antisymmetry", 400, quals=["scattering.scattering.fresnel"])
def fres(c):
    S = need("scattering", "scattering")
    a, b = Mat(*resp(c)), Mat(*resp(c))
    if c.p(0.15):
        b = Mat(a.e, a.m)
    kp, k = c.pick(0.0, c.lu(1e-4, 1e3), c.lu(1e-2, 10)), c.lu(1e-4, 1e3)
    c.note(mat1=a, mat2=b, kperp=kp, kn=k)
    r = call("fresnel", S(a, b).fresnel, kp, k)
    check(len(r) == 2, "two coefficients expected")
    w = wants(a.e, a.m, b.e, b.m, kp, k)
    for j in (0, 1):
        check(abs(mpf(float(r[j])) - w[j]) <= 1e-11, "%s is %r instead of %s" % (("TE", "TM")[j], r[j], mp.nstr(w[j], 15)))
        check(-1 < r[j] < 1, "%s is %r" % (("TE", "TM")[j], r[j]))
    s = call("fresnel", S(b, a).fresnel, kp, k)
    for j in (0, 1):
        check(abs(r[j] + s[j]) <= 1e-12, "exchange: %r and %r" % (r[j], s[j]))
    if a.e == b.e and a.m == b.m:
        check(abs(r[0]) <= 1e-15 and abs(r[1]) <= 1e-15, "no contrast: %r" % (r,))


@rt("C18", "Fresnel coefficients of oscillator materials, scalar and array wavenumbers", 150, quals=["scattering.scattering.fresnel"])
def mats(c):
    S = need("scattering", "scattering")
    a, b = material(c), material(c)
    kp, k = c.pick(0.0, c.lu(1e-2, 50)), c.lu(1e-2, 50)
    arr = c.p(0.3)
    c.note(mat1=a[0], mat2=b[0], kperp=kp, kn=k, array=arr)
    r = call("fresnel", S(a[0], b[0]).fresnel, kp, np.array([k]) if arr else k)
    w = wants(a[1](k), a[2](k), b[1](k), b[2](k), kp, k)
    for j in (0, 1):
        check(abs(mpf(float(np.ravel(r[j])[0])) - w[j]) <= 1e-10, "%s is %r instead of %s" % (("TE", "TM")[j], r[j], mp.nstr(w[j], 15)))


@rt("C18", "perfect conductor", 40, quals=["scattering.scattering.fresnelPEC", "scattering.scattering.__init__"])
def pec(c):
    S = need("scattering", "scattering")
    M = need("materials")
    b = Mat(*resp(c))
    kp, k = c.pick(0.0, c.lu(1e-4, 1e3)), c.lu(1e-4, 1e3)
    c.note(mat2=b, kperp=kp, kn=k)
    for p in (M.PerfectConductor, Pec()):
        r = call("fresnel", S(p, b).fresnel, kp, k)
        check(tuple(float(x) for x in r) == (-1.0, 1.0), "perfect conductor: %r" % (r,))
