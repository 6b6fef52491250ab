from common import *

MODS = ("PFA", "raw_PFA")


def one(x):
    """number held by a scalar or by an array of one element"""
    if isinstance(x, Arr):
        for s in x.shape:
            if s.const() != 1:
                raise Stuck("scalar or one-element array expected")
        return x.get((ZERO,) * len(x.shape))
    return num(x)


# ---------------------------------------------------------------- integrands
# contract of scattering.fresnel (C18): TE, TM coefficients of the plane medium|material; both lie in [-1,1]
def refl(pol, tag, kp, k):
    return uf("r%s%s" % (pol, tag), [kp, k])


def fresnel(it, args, kw, f):
    a = dict(zip(("self", "k_perp", "kn"), args))
    a.update(kw)
    v = [x for n, x in a.items() if n != "self"]
    s = a["self"]
    m, md = s.attrs.get("mat1"), s.attrs.get("mat2")
    if not isinstance(md, Obj) or md.name != "matM" or not isinstance(m, Obj) or m.name not in ("mat1", "mat2"):
        raise Stuck("fresnel called for other media")
    kp, k = num(v[0]), one(v[1])
    it.ctx.oblige("fresnel: k_perp >= 0", cmp_(">=", kp, 0), kind="pre")
    it.ctx.oblige("fresnel: wavenumber is positive", cmp_(">", k, 0), kind="pre")
    for pol in ("TE", "TM"):
        r = refl(pol, m.name[3:], kp, k)
        it.ctx.prover.assume(cmp_("<=", r, ONE))
        it.ctx.prover.assume(cmp_(">=", r, -ONE))
    out = tuple(refl(pol, m.name[3:], kp, k) for pol in ("TE", "TM"))
    if isinstance(v[1], Arr):
        return tuple(mkarr((ONE,), lambda ix, e=e: e) for e in out)
    return tuple(SV(e, "float") for e in out)


FR = {"scattering.scattering.fresnel": fresnel}
TF = ["fresnel coefficients as in C18 (each within [-1,1])", "epsilon, mu: arbitrary positive functions (C01)"]


def pfa(it, mod, pec=()):
    a = [abs_material(it, t, pec=t in pec) for t in ("1", "2")] + [abs_material(it, "M")]
    return expect_value(it, "construct", invoke(it, it.module(mod).ns["SphereSpherePFA"], a))


def spec(kp, kn, L, pec=()):
    q = eroot(kp ** 2 + eps("M", kn) * mu("M", kn) * kn ** 2, 2)
    r = lambda p, t: refl(p, t, kp, kn) if t not in pec else toE({"TE": -1, "TM": 1}[p])
    e = [r(p, "1") * r(p, "2") * eexp(-2 * q * L) for p in ("TE", "TM")]
    return e, q


def integrand(mod, fn, arr, pec=()):
    def run(it, ctx):
        o = pfa(it, mod, pec)
        kp, kn, L = var("kp", pos=0), var("kn", pos=1), var("L", pos=1)
        k = mkarr((ONE,), lambda ix: kn) if arr else SV(kn, "float")
        r = expect_value(it, "returns", invoke(it, it.getattr(o, fn), [SV(kp, "float"), k, SV(L, "float")]))
        e, q = spec(kp, kn, L, pec)
        if fn.startswith("pressure"):
            w = [-2 * q * x / (1 - x) for x in e]
            nm = "minus the derivative of the energy integrand with respect to L"
        else:
            w = [elog(1 - x) for x in e]
            nm = "ln(1 - r1 r2 exp(-2 q L))"
        if fn.endswith("s"):
            if not isinstance(r, (tuple, list)) or len(r) != 2:
                return fail(it, "returns (TE, TM)", "%r" % (r,))
            for x, y, p in zip(r, w, ("TE", "TM")):
                post(it, "%s: %s" % (p, nm), cmp_("==", one(x), y))
        elif "pressure" in fn:
            post(it, "sum over polarisations: " + nm, cmp_("==", one(r), w[0] + w[1]))
        else:
            post(it, "sum over polarisations: " + nm, cmp_("==", one(r), w[0] + w[1]))
    return run


for mod, fns in (("PFA", ("roundTrips", "roundTrip", "pressureRoundTrips", "pressureRoundTrip")), ("raw_PFA", ("roundTrips", "pressureRoundTrips"))):
    for fn in fns:
        for arr, pec in ((False, ()), (True, ()), (False, "1"), (False, "2"), (False, "12"), (True, "12")):
            if arr and fn != "roundTrips":
                continue
            tag = "[%s%s]" % ("array" if arr else "float", " perfect conductor " + " and ".join(pec) if pec else "")
            contract("C19", "%s.%s%s" % (mod, fn, tag), ["%s.SphereSpherePFA.%s" % (mod, fn), "%s.SphereSpherePFA.__init__" % mod, "scattering.scattering.fresnelPEC"],
                     summaries=FR, trust=TF)(integrand(mod, fn, arr, tuple(pec)))


# ---------------------------------------------------------------- plane-plane sums
# the integrands enter through their contracts above: arbitrary functions l<pol>(kp, kn, L) and p<pol>(kp, kn, L)
def term(kind, pol, kp, kn, L):
    return uf(kind + pol, [kp, kn, L])


def integ(kind, both):
    def s(it, args, kw, f):
        a = dict(zip(("self", "k_perp", "kn", "L"), args))
        a.update(kw)
        kp, kn, L = one(a["k_perp"]), one(a["kn"]), num(a["L"])
        it.ctx.oblige("integrand: k_perp >= 0", cmp_(">=", kp, 0), kind="pre")
        it.ctx.oblige("integrand: wavenumber is positive", cmp_(">", kn, 0), kind="pre")
        it.ctx.oblige("integrand: distance is positive", cmp_(">", L, 0), kind="pre")
        v = [term(kind, pol, kp, kn, L) for pol in ("TE", "TM")]
        return SV(v[0] + v[1], "float") if both else tuple(SV(x, "float") for x in v)
    return s


RT = {}
for mod in MODS:
    for fn, kind, both in (("roundTrips", "l", 0), ("roundTrip", "l", 1), ("pressureRoundTrips", "p", 0), ("pressureRoundTrip", "p", 1)):
        RT["%s.SphereSpherePFA.%s" % (mod, fn)] = integ(kind, both)
TQ = ["scipy.integrate.quad: the exact integral of the function it is given", "integrands as proved above"]
CUT = {"PFA": 20, "raw_PFA": 100}


def I(kind, pol, kn, L, lo=ZERO):
    """integral over k_perp of k_perp/(2 pi) times the integrand"""
    x = fresh("x", "R", 1)
    (m, _), = x.num.items()
    return npstub.integral(toE(lo), var("inf", "R", 1), x * term(kind, pol, x, kn, L) / (2 * core.PI), m[0][0])


def both(kind, kn, L, lo=ZERO):
    return I(kind, "TE", kn, L, lo) + I(kind, "TM", kn, L, lo)


def planes(mod, fn, kind, shield):
    """T (w I(0+) + sum_{n=1}^{N} I(n T)), N = int(c/(T L)), w = 1/2 or, shielded, 0"""
    def run(it, ctx):
        o = pfa(it, mod)
        T, L = var("T", pos=1), var("L", pos=1)
        r = expect_value(it, "returns", invoke(it, it.getattr(o, fn), [SV(T, "float"), SV(L, "float")] + ([True] if shield else [])))
        N = efloor(CUT[mod] / (T * L))
        k0 = num(1e-10 if kind == "l" else 1e-20)
        w = ZERO if shield else T * both(kind, k0, L) / 2
        w = w + T * esum(N, lambda j: both(kind, (j + 1) * T, L))
        post(it, "each Matsubara wavenumber once, half weight of n=0" if not shield else "shielded: the n=0 term is dropped, the others stay",
             cmp_("==", one(r), w))
    return run


for mod in MODS:
    for fn, kind in (("planeplaneFreeEnergy", "l"), ("planeplanePressure", "p")):
        for sh in (False, True):
            contract("C19", "%s.%s%s" % (mod, fn, "[shielded]" if sh else ""), ["%s.SphereSpherePFA.%s" % (mod, fn)], summaries=RT, trust=TQ)(planes(mod, fn, kind, sh))


def special(mod, fn, shield):
    def run(it, ctx):
        o = pfa(it, mod)
        L = var("L", pos=1)
        k0 = num(1e-20)
        lo = num(1e-10) if mod == "raw_PFA" and fn == "high" else ZERO
        f = {"high": "planeplaneFreeEnergyHT", "zero": "planeplane_e0", "T=inf": "planeplaneFreeEnergy", "T=0": "planeplaneFreeEnergy"}[fn]
        a = [SV(L, "float")] + ([True] if shield else [])
        if fn.startswith("T="):
            a = [npstub_inf() if fn == "T=inf" else SV(ZERO, "float")] + a
        r = expect_value(it, "returns", invoke(it, it.getattr(o, f), a))
        if fn in ("high", "T=inf"):
            post(it, "half the n=0 term, which shielding drops", cmp_("==", one(r), ZERO if shield else both("l", k0, L, lo) / 2))
        else:
            x = fresh("x", "R", 1)
            (m, _), = x.num.items()
            post(it, "integral over all wavenumbers", cmp_("==", one(r), npstub.integral(k0, var("inf", "R", 1), both("l", x, L), m[0][0])))
    return run


def npstub_inf():
    from vals import INF
    return INF


for mod in MODS:
    for sh in (False, True):
        for fn, q in (("high", "planeplaneFreeEnergyHT"), ("zero", "planeplane_e0"), ("T=0", "planeplaneFreeEnergy")) + ((("T=inf", "planeplaneFreeEnergy"),) if mod == "PFA" else ()):
            contract("C19", "%s %s%s" % (mod, fn, "[shielded]" if sh else ""), ["%s.SphereSpherePFA.%s" % (mod, q)], summaries=RT, trust=TQ)(special(mod, fn, sh))


def terms(mod, shield):
    def run(it, ctx):
        o = pfa(it, mod)
        T, L, N = var("T", pos=1), var("L", pos=1), var("N", "I", 1)
        k = mkarr((N,), lambda ix: uf("k", [ix[0]], pos=1))
        fn = k.store.fn
        r = expect_value(it, "returns", invoke(it, it.getattr(o, "get_f_matsubaras"), [SV(T, "float"), SV(L, "float"), k] + ([True] if shield else [])))
        want = (2, N) if mod == "PFA" else (N,)
        if not isinstance(r, Arr) or len(r.shape) != len(want):
            return fail(it, "one value per wavenumber", "%r" % (r,))
        for a, b in zip(r.shape, want):
            post(it, "one value per wavenumber", cmp_("==", a, b))
        ix, p = idx(it, (N,))
        i = ix[0]
        w0 = ZERO if shield else C(Fraction(1, 2)) if mod == "PFA" else ONE
        w = ite(cmp_("==", i, 0), w0, ONE)
        kk = uf("k", [i], pos=1)
        if mod == "PFA":
            for j, pol in enumerate(("TE", "TM")):
                post(it, "%s term, weight of n=0" % pol, cmp_("==", el(it, r, (C(j), i)), w * I("l", pol, kk, L)), prover=p)
        else:
            post(it, "sum over polarisations", cmp_("==", el(it, r, (i,)), w * both("l", kk, L)), prover=p)
        frame_arr(it, "wavenumbers unchanged", k, fn)
    return run


for mod in MODS:
    for sh in (False, True):
        contract("C19", "%s.get_f_matsubaras%s" % (mod, "[shielded]" if sh else ""), ["%s.SphereSpherePFA.get_f_matsubaras" % mod], summaries=RT, trust=TQ)(terms(mod, sh))


# ---------------------------------------------------------------- two spheres
def F(it, T, L, sh):
    return uf("F%s%s" % ("s" if sh else "", "" if T is None else ""), ([T] if T is not None else []) + [L])


def s_free(it, args, kw, f):
    a = dict(zip(("self", "T", "L", "n0_shielding"), args))
    a.update(kw)
    T = num(a["T"])
    L = num(a["L"])
    it.ctx.oblige("plane-plane free energy: distance is positive", cmp_(">", L, 0), kind="pre")
    sh = a.get("n0_shielding", False)
    return SV(uf("Fs" if sh is True else "F", [T, L]), "float")


def s_one(name):
    def s(it, args, kw, f):
        a = dict(zip(("self", "L", "n0_shielding"), args))
        a.update(kw)
        it.ctx.oblige("plane-plane free energy: distance is positive", cmp_(">", num(a["L"]), 0), kind="pre")
        return SV(uf(name + ("s" if a.get("n0_shielding", False) is True else ""), [num(a["L"])]), "float")
    return s


FE = {}
for mod in MODS:
    FE["%s.SphereSpherePFA.planeplaneFreeEnergy" % mod] = s_free
    FE["%s.SphereSpherePFA.planeplaneFreeEnergyHT" % mod] = s_one("FH")
    FE["%s.SphereSpherePFA.planeplane_e0" % mod] = s_one("F0")


def geo(case):
    r1, r2, g = var("r1", pos=1), var("r2", pos=1), var("gap", pos=1)
    dd = var("d", pos=0)
    if case == "outside":
        return r1, r2, r1 + r2 + g
    if case == "outside, 2 larger":
        return r1, r1 + dd, 2 * r1 + dd + g
    if case == "outside, 1 larger":
        dd = var("d1", pos=1)
        return r2 + dd, r2, 2 * r2 + dd + g
    if case == "1 inside 2":
        return r1, r1 + dd + g, dd
    return r2 + dd + g, r2, dd


def dist(r1, r2, d, rho, case):
    a, b = eroot(r1 ** 2 - rho ** 2, 2), eroot(r2 ** 2 - rho ** 2, 2)
    return d - a - b if case.startswith("outside") else b - d - a if case == "1 inside 2" else a - d - b


def distance(case):
    def run(it, ctx):
        o = pfa(it, "PFA")
        r1, r2, d = geo(case)
        rho = var("rho", pos=0)
        p = it.ctx.prover
        p.assume(cmp_("<=", rho, r1))
        p.assume(cmp_("<=", rho, r2))
        f = it.getattr(o, "distance")
        v = [SV(x, "float") for x in (r1, r2, d, rho)]
        x = expect_value(it, "returns", invoke(it, f, v))
        y = expect_value(it, "returns", invoke(it, f, [v[1], v[0]] + v[2:]))
        post(it, "geometric distance at rho", cmp_("==", num(x), dist(r1, r2, d, rho, case)))
        post(it, "exchange of the spheres", cmp_("==", num(x), num(y)))
    return run


CASES = ("outside", "1 inside 2", "2 inside 1")
for c in CASES:
    contract("C19", "distance[%s]" % c, ["PFA.SphereSpherePFA.distance"])(distance(c))


def spheres(fn, case, shield):
    def run(it, ctx):
        o = pfa(it, "PFA")
        r1, r2, d = geo(case)
        T = var("T", pos=1)
        r = expect_value(it, "returns", invoke(it, it.getattr(o, fn), [SV(x, "float") for x in (r1, r2, T, d)] + ([True] if shield else [])))
        ff = lambda L: uf("Fs" if shield else "F", [T, L])
        if fn == "spheresphereForce":
            R = r1 * r2 / (r1 + r2 if case.startswith("outside") else r2 - r1 if case == "1 inside 2" else r1 - r2)
            post(it, "2 pi times effective radius times the free energy at the smallest distance", cmp_("==", num(r), 2 * core.PI * R * ff(var("gap", pos=1))))
        else:
            x = fresh("x", "R", 1)
            (m, _), = x.num.items()
            h = r1 if case in ("outside, 2 larger", "1 inside 2") else r2
            w = npstub.integral(ZERO, h, 2 * core.PI * x * ff(dist(r1, r2, d, x, case)), m[0][0])
            post(it, "area integral of the free energy at the local distance", cmp_("==", num(r), w))
    return run


for c in ("outside, 2 larger", "outside, 1 larger") + CASES[1:]:
    for sh in (False, True):
        for fn in ("spheresphereForce", "spheresphereEnergy"):
            contract("C19", "PFA.%s[%s%s]" % (fn, c, ", shielded" if sh else ""), ["PFA.SphereSpherePFA.%s" % fn, "PFA.SphereSpherePFA.distance"], summaries=FE, trust=TQ)(spheres(fn, c, sh))


def rawspheres(fn, ext, Tk, shield):
    def run(it, ctx):
        o = pfa(it, "raw_PFA")
        r1, L = var("r1", pos=1), var("L", pos=1)
        r2 = var("r2", pos=1) if ext else r1 + var("dr", pos=1)
        T = var("T", pos=1)
        tv = SV(T, "float") if Tk == "T" else SV(ZERO, "float") if Tk == "T=0" else npstub_inf()
        r = expect_value(it, "returns", invoke(it, it.getattr(o, fn), [SV(r1, "float"), SV(r2, "float"), tv, SV(L, "float")], dict(n0_shielding=shield, ext=ext)))
        s = "s" if shield else ""
        ff = uf("F" + s, [T, L]) if Tk == "T" else uf(("F0" if Tk == "T=0" else "FH") + s, [L])
        R = r1 * r2 / (r1 + r2 if ext else r2 - r1)
        w = 2 * core.PI * R * ff if fn == "spheresphereForce" else core.PI * L * R * ff
        post(it, "prefactor times the plane-plane free energy", cmp_("==", one(r), w))
    return run


for fn in ("spheresphereForce", "spheresphereEnergy"):
    for ext in (True, False):
        for Tk in ("T", "T=0", "T=inf"):
            for sh in (False, True):
                contract("C19", "raw_PFA.%s[%s, %s%s]" % (fn, "outside" if ext else "inside", Tk, ", shielded" if sh else ""),
                         ["raw_PFA.SphereSpherePFA.%s" % fn], summaries=FE, trust=TQ)(rawspheres(fn, ext, Tk, sh))
