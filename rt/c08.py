from gens import *


def bessel_tol(x):
    """relative accuracy of the tabulated Bessel functions at x (documented truncation)"""
    return 1e-10 + (1e-14 / x ** 3 if 1e-3 <= x < 0.05 else 0) + 1e-13 * x


def tolfor(l, k, R, mats):
    t = 0
    for e, m in mats:
        x = float(mp.sqrt(e * m) * mpf(k) * mpf(R))
        t += bessel_tol(x)
        if x > 60:
            for ll in (l - 1, l):
                if ll >= 1:
                    ex = O.i_(ll, mpf(x)) / O.i_(ll + 1, mpf(x))
                    t += 10 * (1 + x) * abs(float(O.cf(ll, x, 80) / ex - 1))
    return t


def compare(r, lmin, lmax, ks, oracle, R, mats, what):
    r = np.asarray(r)
    check(r.shape == (3, len(ks), lmax - lmin + 1), "%s: shape %s" % (what, r.shape))
    for q, k in enumerate(ks.tolist()):
        for l in range(lmin, lmax + 1):
            te, tm, mag = oracle(l, k)
            s = mp.exp(mpf(float(r[2, q, l - lmin])))
            for j, w in ((0, te), (1, tm)):
                got = mpf(float(r[j, q, l - lmin])) * s
                t = tolfor(l, k, R, mats(k)) * (abs(w) + mag)
                if not abs(got - w) <= t:
                    bad("%s: %s coefficient l=%d k=%r is %s instead of %s" % (what, ("TE", "TM")[j], l, k, mp.nstr(got, 14), mp.nstr(w, 14)))


def geo(c):
    lmin = c.pick(1, 1, 1, 2, c.int(1, 5))
    lmax = lmin + c.int(0, 4)
    R = c.lu(0.1, 20)
    k = np.array([c.lu(1e-3, 8) / R * c.pick(1, 1, 5) for _ in range(c.int(1, 3))])
    return lmin, lmax, R, k


@rt("C08", "mie: external scattering", 130, quals=["scattering.scattering.mie"])
def ext(c):
    S = need("scattering", "scattering")
    m1, e1, u1 = material(c)
    m2, e2, u2 = material(c, ("lor",), 0.2)
    lmin, lmax, R, k = geo(c)
    c.note(mat1=m1, mat2=m2, lmin=lmin, lmax=lmax, R=R, k=k)
    k0 = k.copy()
    r = call("mie", lambda: S(m1, m2).mie(k, lmin, lmax, R))
    unchanged(k0, k, "k")

    def orc(l, q):
        te, tm = O.sphere(l, q, [(R, e1(q), u1(q))], (e2(q), u2(q)))
        x = mp.sqrt(e2(q) * u2(q)) * mpf(q) * mpf(R)
        return te, tm, O.i_(l, x) / O.k_(l, x)
    compare(r, lmin, lmax, k, orc, R, lambda q: [(e1(q), u1(q)), (e2(q), u2(q))], "mie")


@rt("C08", "mie: internal scattering", 100, quals=["scattering.scattering.mie_internal"])
def inn(c):
    S = need("scattering", "scattering")
    m1, e1, u1 = material(c, ("lor",), 0.2)
    m2, e2, u2 = material(c)
    lmin, lmax, R, k = geo(c)
    c.note(mat1=m1, mat2=m2, lmin=lmin, lmax=lmax, R=R, k=k)
    r = call("mie_internal", lambda: S(m1, m2).mie_internal(k, lmin, lmax, R))

    def orc(l, q):
        te, tm = O.wall(l, q, R, (e1(q), u1(q)), (e2(q), u2(q)))
        x = mp.sqrt(e1(q) * u1(q)) * mpf(q) * mpf(R)
        return te, tm, O.k_(l, x) / O.i_(l, x)
    compare(r, lmin, lmax, k, orc, R, lambda q: [(e1(q), u1(q)), (e2(q), u2(q))], "mie_internal")


@rt("C08", "mie: perfect conductors", 80, quals=["scattering.scattering.miePEC", "scattering.scattering.miePEC_internal"])
def pec(c):
    S = need("scattering", "scattering")
    P = need("materials", "PerfectConductor")
    m, e, u = material(c, ("lor",), 0.3)
    lmin, lmax, R, k = geo(c)
    c.note(medium=m, lmin=lmin, lmax=lmax, R=R, k=k)
    r = call("mie of a perfect conductor", lambda: S(P, m).mie(k, lmin, lmax, R))

    def orc(l, q):
        te, tm = O.sphere(l, q, [(R, None, None)], (e(q), u(q)))
        x = mp.sqrt(e(q) * u(q)) * mpf(q) * mpf(R)
        return te, tm, O.i_(l, x) / O.k_(l, x)
    compare(r, lmin, lmax, k, orc, R, lambda q: [(e(q), u(q))], "mie of a perfect conductor")
    r = call("mie_internal of a perfect conductor", lambda: S(m, P).mie_internal(k, lmin, lmax, R))

    def orc2(l, q):
        te, tm = O.wall(l, q, R, (e(q), u(q)), None)
        x = mp.sqrt(e(q) * u(q)) * mpf(q) * mpf(R)
        return te, tm, O.k_(l, x) / O.i_(l, x)
    compare(r, lmin, lmax, k, orc2, R, lambda q: [(e(q), u(q))], "mie_internal of a perfect conductor")


@rt("C08", "mie: no contrast, duality, windows", 60, quals=["scattering.scattering.mie"])
def dual(c):
    S = need("scattering", "scattering")
    a, b = Mat(c.lu(1, 50), c.lu(0.3, 5)), Mat(c.lu(1, 10), c.lu(0.3, 3))
    lmin, lmax, R, k = geo(c)
    c.note(mat1=a, mat2=b, lmin=lmin, lmax=lmax, R=R, k=k)
    for f in ("mie", "mie_internal"):
        r = call(f, lambda: getattr(S(a, Mat(a.e, a.m)), f)(k, lmin, lmax, R))
        check(np.all(np.abs(np.asarray(r)[:2]) < 1e-9), "%s does not vanish without contrast" % f)
        r = np.asarray(call(f, lambda: getattr(S(a, b), f)(k, lmin, lmax, R)))
        s = np.asarray(call(f, lambda: getattr(S(Mat(a.m, a.e), Mat(b.m, b.e)), f)(k, lmin, lmax, R)))
        close(s[0], r[1], 1e-10, 1e-10, f + ": duality TE")
        close(s[1], r[0], 1e-10, 1e-10, f + ": duality TM")
        w = np.asarray(call(f, lambda: getattr(S(a, b), f)(k, 1, lmax, R)))
        close(w[:, :, lmin - 1:], r, 1e-10, 1e-10, f + ": order window")
