from gens import *


def mods(c):
    out = []
    for m in ("PFA", "raw_PFA"):
        try:
            out.append((m, need(m, "SphereSpherePFA")))
        except Skip:
            pass
    if not out:
        raise Skip("no PFA module")
    return out


def resp(c, pec=0.15):
    if c.p(pec):
        return Pec(), None
    m = Mat(c.pick(1.0, c.lu(1, 50)), c.pick(1.0, 1.0, c.lu(0.5, 5)))
    return m, (m.e, m.m)


def rr(a, md, kp, k):
    from c18 import wants
    if a is None:
        return mpf(-1), mpf(1)
    return wants(a[0], a[1], md[0], md[1], kp, k)


def rt2(a, b, md, kp, k, L):
    with mp.workdps(40):
        q = mp.sqrt(mpf(kp) ** 2 + mpf(md[0]) * mpf(md[1]) * mpf(k) ** 2)
        r1, r2 = rr(a, md, kp, k), rr(b, md, kp, k)
        e = [x * y * mp.exp(-2 * q * mpf(L)) for x, y in zip(r1, r2)]
        return [mp.log(1 - x) for x in e], [-2 * q * x / (1 - x) for x in e]


def num(x):
    return mpf(float(np.ravel(x)[0]))


@rt("C19", "integrands: sum over polarisations of ln(1-r1 r2 exp(-2qL)) and minus its derivative", 250, quals=["PFA.SphereSpherePFA.roundTrip", "PFA.SphereSpherePFA.roundTrips", "PFA.SphereSpherePFA.pressureRoundTrip", "PFA.SphereSpherePFA.pressureRoundTrips", "raw_PFA.SphereSpherePFA.roundTrips", "raw_PFA.SphereSpherePFA.pressureRoundTrips"])
def integrands(c):
    a, A = resp(c)
    b, B = resp(c)
    md, MD = resp(c, 0)
    L = c.lu(0.05, 5)
    kp, k = c.pick(0.0, c.lu(1e-3, 5)) / L, c.lu(1e-3, 5) / L
    if kp == 0 and k * L < 1e-2:
        k = 0.1 / L
    c.note(mat1=a, mat2=b, medium=md, L=L, kperp=kp, kn=k)
    f, p = rt2(A, B, MD, kp, k, L)
    for name, P in mods(c):
        o = P(a, b, md)
        for fn, w in (("roundTrips", f), ("pressureRoundTrips", p)):
            if hasattr(o, fn):
                r = call(name + "." + fn, getattr(o, fn), kp, k, L)
                for j in (0, 1):
                    check(abs(num(r[j]) - w[j]) <= 1e-10 * abs(w[j]) + 1e-13 * (1 + abs(w[1 - j])), "%s.%s[%d] is %r instead of %s" % (name, fn, j, r[j], mp.nstr(w[j], 14)))
        for fn, w in (("roundTrip", f), ("pressureRoundTrip", p)):
            if hasattr(o, fn):
                r = num(call(name + "." + fn, getattr(o, fn), kp, k, L))
                s = w[0] + w[1]
                check(abs(r - s) <= 1e-10 * abs(s) + 1e-13 * (abs(w[0]) + abs(w[1]) + 1), "%s.%s is %s instead of %s" % (name, fn, r, mp.nstr(s, 14)))


class Spy:
    """stand-in integrands with known integral over kperp: int k exp(-s k) dk = 1/s^2"""

    def __init__(self, P, c, L0):
        self.g = c.lu(0.3, 3)
        self.f, self.p = -c.lu(10, 1000), -c.lu(10, 1000)
        self.fr = c.u(0.1, 0.9)
        s = self

        class Q(P):
            def roundTrips(q, kp, kn, L):
                v = s.f * np.exp(-(kp + s.h(kn)) * L)
                return (s.fr * v, (1 - s.fr) * v)

            def roundTrip(q, kp, kn, L):
                return s.f * np.exp(-(kp + s.h(kn)) * L)

            def pressureRoundTrips(q, kp, kn, L):
                v = s.p * np.exp(-(kp + s.h(kn)) * L)
                return (s.fr * v, (1 - s.fr) * v)

            def pressureRoundTrip(q, kp, kn, L):
                return s.p * np.exp(-(kp + s.h(kn)) * L)
        self.Q = Q

    def h(self, k):
        return self.g * np.ravel(k)[0]

    def I(self, amp, k, L):
        return amp * math.exp(-self.g * k * L) / L ** 2 / (2 * math.pi)

    def sum(self, amp, T, L, shield, cut):
        n = int(cut / (T * L))
        v = [0.0 if shield else 0.5 * self.I(amp, 0, L)] + [self.I(amp, i * T, L) for i in range(1, n + 1)]
        return T * math.fsum(v), n


def close1(got, want, rel, what, abs_=0.0):
    """abs_: absolute accuracy of the quadrature (1.5e-8 per integral)"""
    g = float(np.ravel(got)[0])
    if not abs(g - want) <= rel * abs(want) + abs_ + 1e-300:
        bad("%s: %r instead of %r" % (what, g, want))


@rt("C19", "Matsubara sums: half weight at n=0, every nT once, shielding", 60, quals=["PFA.SphereSpherePFA.planeplaneFreeEnergy", "PFA.SphereSpherePFA.planeplanePressure", "PFA.SphereSpherePFA.planeplaneFreeEnergyHT", "PFA.SphereSpherePFA.planeplane_e0", "raw_PFA.SphereSpherePFA.planeplaneFreeEnergy", "raw_PFA.SphereSpherePFA.planeplanePressure"])
def sums(c):
    md, _ = resp(c, 0)
    L = c.lu(0.2, 3)
    T = c.lu(0.5, 4) / L
    sh = c.pick(False, True)
    c.note(T=T, L=L, shielding=sh)
    for name, P in mods(c):
        s = Spy(P, c, L)
        s.g = c.u(1.0, 1.5)     # terms beyond any reasonable cut-off are negligible
        c.note(mod=name, g=s.g, f=s.f, p=s.p)
        o = s.Q(md, md, md)
        cut = {"PFA": 20, "raw_PFA": 100}[name]
        w, n = s.sum(s.f, T, L, sh, 200)
        close1(call(name + ".planeplaneFreeEnergy", o.planeplaneFreeEnergy, T, L, sh), w, 1e-6, name + " free energy", T * 1e-7)
        w, n = s.sum(s.p, T, L, sh, 200)
        close1(call(name + ".planeplanePressure", o.planeplanePressure, T, L, sh), w, 1e-6, name + " pressure", T * 1e-7)
        r = float(np.ravel(call(name + ".planeplaneFreeEnergyHT", o.planeplaneFreeEnergyHT, L, sh))[0])
        w = 0.0 if sh else 0.5 * s.I(s.f, 0, L)
        check(abs(r - w) <= 1e-6 * abs(w) + 3e-8, "%s high temperature limit %r instead of %r" % (name, r, w))


@rt("C19", "Matsubara frequencies up to the cut-off are all used", 40, quals=["PFA.SphereSpherePFA.planeplaneFreeEnergy", "raw_PFA.SphereSpherePFA.planeplaneFreeEnergy"])
def cutoff(c):
    cut_off(c, c.lu(1, 19), 0.02)


def cut_off(c, TL, g):
    md, _ = resp(c, 0)
    L = c.lu(0.2, 3)
    T = TL / L
    c.note(T=T, L=L)
    for name, P in mods(c):
        s = Spy(P, c, L)
        s.g = g
        o = s.Q(md, md, md)
        cut = {"PFA": 20, "raw_PFA": 100}[name]
        if abs(cut / (T * L) - round(cut / (T * L))) < 1e-6:
            continue
        for fn, amp in (("planeplaneFreeEnergy", s.f), ("planeplanePressure", s.p)):
            got = float(np.ravel(call(name + "." + fn, getattr(o, fn), T, L))[0])
            w, n = s.sum(amp, T, L, False, cut)
            v, N, ok = w, n, False
            while N <= 4 * n + 8 and not ok:
                ok = abs(got - v) <= 1e-6 * abs(v) + T * 2e-8 * (N + 1)
                N += 1
                v += T * s.I(amp, N * T, L)
            check(ok, "%s.%s is %r, the sum of %d terms is %r" % (name, fn, got, n, w))


@rt("C19", "Matsubara frequencies up to the cut-off are all used, low temperature", 2, quals=["PFA.SphereSpherePFA.planeplaneFreeEnergy", "raw_PFA.SphereSpherePFA.planeplaneFreeEnergy"])
def cutoff_low(c):
    cut_off(c, c.lu(0.05, 0.1), 0.002)


@rt("C19", "zero temperature energy is the double integral", 6, quals=["PFA.SphereSpherePFA.planeplane_e0", "raw_PFA.SphereSpherePFA.planeplane_e0"])
def e0(c):
    md, _ = resp(c, 0)
    L = c.lu(0.5, 2)
    c.note(L=L)
    for name, P in mods(c):
        s = Spy(P, c, L)
        o = s.Q(md, md, md)
        w = s.f / (2 * math.pi) / L ** 2 / (s.g * L)
        close1(call(name + ".planeplane_e0", o.planeplane_e0, L), w, 1e-5, name + " zero-temperature energy")
        close1(call(name + ".planeplaneFreeEnergy", o.planeplaneFreeEnergy, 0, L), w, 1e-5, name + " free energy at T=0")


@rt("C19", "per-frequency contributions", 30, quals=["PFA.SphereSpherePFA.get_f_matsubaras", "raw_PFA.SphereSpherePFA.get_f_matsubaras"])
def perfreq(c):
    md, _ = resp(c, 0)
    L = c.lu(0.2, 3)
    T = c.lu(0.5, 5) / L
    sh = c.pick(False, True)
    n = c.int(1, 5)
    k = np.append(c.pick(1e-12, 0.0), T * np.arange(1, n + 1))
    c.note(T=T, L=L, shielding=sh, matsubaras=k)
    for name, P in mods(c):
        s = Spy(P, c, L)
        o = s.Q(md, md, md)
        k0 = k.copy()
        r = np.asarray(call(name + ".get_f_matsubaras", o.get_f_matsubaras, T, L, k, sh))
        unchanged(k0, k, "array of wavenumbers")
        r = r.sum(axis=0) if r.ndim > 1 else r
        for i in range(1, n + 1):
            close1(r[i], s.I(s.f, k[i], L), 1e-6, "%s contribution %d" % (name, i), 3e-8)
        if sh:
            check(r[0] == 0, "%s n=0 contribution %r with shielding" % (name, r[0]))
        elif name == "PFA":
            close1(r[0], 0.5 * s.I(s.f, 0, L), 1e-6, "PFA n=0 contribution", 3e-8)


@rt("C19", "real materials: the n=0 contribution is the limit of vanishing wavenumber", 8, quals=["PFA.SphereSpherePFA.get_f_matsubaras", "raw_PFA.SphereSpherePFA.get_f_matsubaras"])
def static(c):
    M = need("materials")
    met = lambda: c.pick(M.LorentzMaterial([(c.lu(1e15, 2e16), 0, c.pick(0, c.lu(1e12, 1e14)))], ()), resp(c)[0])
    a, b, md = met(), met(), resp(c, 0)[0]
    L = c.lu(0.3, 2)
    T = c.lu(0.5, 5) / L
    c.note(mat1=a, mat2=b, medium=md, T=T, L=L)
    for name, P in mods(c):
        o = P(a, b, md)
        f = lambda k: np.asarray(call(name + ".get_f_matsubaras", o.get_f_matsubaras, T, L, np.array([k, T]), False))
        # (PFA takes the wavenumbers as they are; raw_PFA replaces a leading zero)
        u, v = f(0.0 if name == "raw_PFA" else 1e-18), f(1e-20)
        check(u.shape == v.shape and np.isfinite(u).all(), "%s contributions %r" % (name, u))
        close(u, v, 1e-6, 1e-9, "%s contributions at vanishing wavenumber" % name)


@rt("C19", "real materials: pressure is minus the derivative of the energy", 4, big=12, quals=["PFA.SphereSpherePFA.planeplaneFreeEnergy", "PFA.SphereSpherePFA.planeplanePressure"])
def deriv(c):
    a, A = resp(c)
    b, B = resp(c)
    md, _ = resp(c, 0)
    L = c.lu(0.3, 2)
    T = c.lu(6, 12) / L
    sh = c.pick(False, True)
    h = 1e-3 * L
    if int(20 / (T * (L + h))) != int(20 / (T * (L - h))):
        return
    c.note(mat1=a, mat2=b, medium=md, T=T, L=L, shielding=sh)
    for name, P in mods(c):
        if name == "raw_PFA" and int(100 / (T * (L + h))) != int(100 / (T * (L - h))):
            continue
        o = P(a, b, md)
        f = lambda x: float(np.ravel(call(name + ".planeplaneFreeEnergy", o.planeplaneFreeEnergy, T, x, sh))[0])
        d = -(f(L + h) - f(L - h)) / (2 * h)
        p = float(np.ravel(call(name + ".planeplanePressure", o.planeplanePressure, T, L, sh))[0])
        check(abs(p - d) <= 3e-3 * abs(p) + 1e-7 * T, "%s pressure %r, minus derivative of the free energy %r" % (name, p, d))


@rt("C19", "local distance of the two spheres", 300, quals=["PFA.SphereSpherePFA.distance"])
def dist(c):
    P = need("PFA", "SphereSpherePFA")
    md, _ = resp(c, 0)
    r1, r2 = c.lu(0.1, 10), c.lu(0.1, 10)
    rho = min(r1, r2) * c.pick(0.0, 1.0, c.u(0, 1))
    ext = c.p(0.5) or abs(r1 - r2) < 1e-6
    d = (r1 + r2) * c.u(1.001, 3) if ext else abs(r1 - r2) * c.u(0.01, 0.999)
    c.note(r1=r1, r2=r2, d=d, rho=rho)
    z1, z2 = math.sqrt(max(0, r1 * r1 - rho * rho)), math.sqrt(max(0, r2 * r2 - rho * rho))
    w = d - z1 - z2 if ext else abs(z2 - z1) - d
    o = P(md, md, md)
    tol = 1e-7 * max(r1, r2)
    g = call("distance", o.distance, r1, r2, d, rho)
    check(abs(g - w) <= tol, "distance %r instead of %r" % (g, w))
    g = call("distance", o.distance, r2, r1, d, rho)
    check(abs(g - w) <= tol, "distance with spheres exchanged %r instead of %r" % (g, w))


@rt("C19", "sphere-sphere energy and force", 40, quals=["PFA.SphereSpherePFA.spheresphereEnergy", "PFA.SphereSpherePFA.spheresphereForce", "raw_PFA.SphereSpherePFA.spheresphereForce", "raw_PFA.SphereSpherePFA.spheresphereEnergy"])
def ss(c):
    import scipy.integrate as si
    md, _ = resp(c, 0)
    r1, r2 = c.lu(0.3, 4), c.lu(0.3, 4)
    ext = c.p(0.6) or abs(r1 - r2) < 0.1 * max(r1, r2)
    gap = c.lu(0.1, 2) if ext else abs(r1 - r2) * c.u(0.2, 0.8)
    d = r1 + r2 + gap if ext else abs(r1 - r2) - gap
    T = c.pick(0, np.inf, c.lu(0.1, 3), c.lu(0.1, 3))
    sh = c.pick(False, True)
    q = c.pick(2, 3)
    A = c.lu(0.1, 10)
    seen = []
    c.note(r1=r1, r2=r2, d=d, T=T, shielding=sh, external=ext)

    def pp(t, L, s=False):
        seen.append((t, bool(s)))
        return -A / L ** q * (0.3 if s else 1.0) * (1 + (t if math.isfinite(t) else 7.0))
    for name, P in mods(c):
        class Q(P):
            def planeplaneFreeEnergy(self, T, L, n0_shielding=False):
                return pp(T, L, n0_shielding)

            def planeplane_e0(self, L, n0_shielding=False):
                return pp(0, L, n0_shielding)

            def planeplaneFreeEnergyHT(self, L, n0_shielding=False):
                return pp(np.inf, L, n0_shielding)
        o = Q(md, md, md)
        del seen[:]
        eff = r1 * r2 / (r1 + r2) if ext else r1 * r2 / abs(r1 - r2)
        if name == "PFA":
            for a, b in ((r1, r2), (r2, r1)):
                g = call("spheresphereForce", o.spheresphereForce, a, b, T, d, sh)
                close1(g, 2 * math.pi * eff * pp(T, gap, sh), 1e-9, "PFA force")
                g = call("spheresphereEnergy", o.spheresphereEnergy, a, b, T, d, sh)
                m = min(r1, r2)
                # rho = m sin(u): smooth integrand
                def fn(u):
                    rho = m * math.sin(u)
                    z1, z2 = math.sqrt(max(0, r1 * r1 - rho * rho)), math.sqrt(max(0, r2 * r2 - rho * rho))
                    D = d - z1 - z2 if ext else abs(z2 - z1) - d
                    return 2 * math.pi * rho * pp(T, D, sh) * m * math.cos(u)
                close1(g, si.quad(fn, 0, math.pi / 2)[0], 1e-6, "PFA energy")
        else:
            a, b = (r1, r2) if ext else (min(r1, r2), max(r1, r2))
            g = call("spheresphereForce", o.spheresphereForce, a, b, T, gap, sh, ext)
            close1(g, 2 * math.pi * eff * pp(T, gap, sh), 1e-9, "raw_PFA force")
            g = call("spheresphereEnergy", o.spheresphereEnergy, a, b, T, gap, sh, ext)
            close1(g, gap * math.pi * eff * pp(T, gap, sh), 1e-9, "raw_PFA energy")
