from common import *


def S(n):
    return uf("S", [n])


def func():
    def call(it, args, kw):
        x = args[0] if args else list(kw.values())[0]
        if not isinstance(x, Arr) or len(x.shape) != 1:
            raise Stuck("function applied to %r" % (x,))
        g = x.snap()
        return mkarr(x.shape, lambda ix: S(g(ix)))
    return Native(call, "func")


def slices(it, ctx):
    n0, d, w = var("n0", "I", 0), var("d", "I", 0), var("w", "I", 1)
    n1 = n0 + d
    r = expect_value(it, "returns", invoke(it, it.func("thermodynamics.slicewise_eval"), [func(), SV(n0, "int"), SV(n1, "int"), SV(w, "int")]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one value per argument", "%r" % (r,))
    post(it, "one value per argument", cmp_("==", r.shape[0], d + 1))
    ix, p = idx(it, (d + 1,))
    post(it, "every argument once, in order", cmp_("==", el(it, r, ix), S(n0 + ix[0])), prover=p)


def seq(it):
    n0, d, w = var("n0", "I", 0), var("d", "I", 0), var("w", "I", 1)
    return [lambda T, ix: ite(cmp_("<=", T * w, d + 1), n0 + T * w, n0 + d + 1)]


def fill(it, st):
    n0 = var("n0", "I", 0)
    return (lambda ix: S(n0 + ix[0])), 0, n0


contract("C16", "slicewise_eval", ["thermodynamics.slicewise_eval"], hints={"seq": [seq], "fill": [fill]})(slices)


def rejects(it, ctx):
    w = var("w", "I", 0)
    for arg, nm in ((SV(-w, "int"), "not positive"), ("abc", "no number")):
        r = invoke(it, it.func("thermodynamics.slicewise_eval"), [func(), 0, 5, arg])
        if isinstance(r, Raised) and r.kind == "ValueError":
            ok(it, "slice size %s: rejected" % nm)
        else:
            fail(it, "slice size %s: rejected" % nm, "%r" % (r,))


contract("C16", "slicewise_eval rejects invalid slice sizes", ["thermodynamics.slicewise_eval"])(rejects)


# ---------------------------------------------------------------- channel values
# The geometry is abstract: mSumme(k) is an arbitrary elementwise function Sm(k), mSumme_k0() an arbitrary number.
def geom(it, lists=False):
    cls = it.module("geometry").ns["SphereSphere"]
    mat = lambda t: [abs_material(it, t), abs_material(it, t + "b")] if lists else abs_material(it, t)
    return Obj(cls, dict(mat1=mat("1"), mat2=mat("2"), r1=SV(var("r1", pos=1), "float"), r2=SV(var("r2", pos=1), "float"),
                         L=SV(var("L", pos=1), "float"), lmax=SV(var("lmax", "I", 1), "int")), name="geom")


def elementwise(name):
    def s(it, args, kw, f):
        a = dict(zip(("self", "k"), args))
        a.update(kw)
        k = [v for n, v in a.items() if n != "self"][0]
        if not isinstance(k, Arr) or len(k.shape) != 1:
            raise Stuck("%s needs a one-dimensional array" % name)
        it.ctx.oblige("%s: at least one wavenumber" % name, cmp_(">=", k.shape[0], 1), kind="pre")
        ix, p = idx(it, k.shape)
        it.ctx.oblige("%s: wavenumbers are positive" % name, cmp_(">", k.get(ix), 0), kind="pre", prover=p, assume=False)
        g = k.snap()
        return mkarr(k.shape, lambda ix: uf(name, [g(ix)]))
    return s


GEO = {"geometry.SphereSphere.mSumme": elementwise("Sm"), "geometry.SphereSphere.mSum_oneRoundtrip": elementwise("S1"),
       "geometry.SphereSphere.mSumme_k0": lambda it, args, kw, f: SV(var("S0"), "float")}
TG = ["geometry.mSumme, mSum_oneRoundtrip act on each wavenumber separately (C14, C15; the common truncation in m is below the requested precision)"]


def make(it, cls, analytic=None, nmax=None, maxstep=None):
    g = geom(it)
    dT = var("dT", pos=1)
    a = [SV(dT, "float"), SV(nmax if nmax is not None else var("nmax", "I", 0), "int"), SV(var("Tmax", pos=1), "float"), g]
    if cls == "finiteT":
        a.append(analytic)
    o = expect_value(it, "construct", invoke(it, it.module("thermodynamics").ns[cls], a))
    return o, dT


def init(it, ctx):
    o, dT = make(it, "finiteT", True)
    ms = num(it.getattr(o, "maxstep"))
    q = var("Tmax", pos=1) / dT
    post(it, "number of temperatures: Tmax/deltaT, rounded", And(cmp_("<=", ms - q, Fraction(1, 2)), cmp_("<=", q - ms, Fraction(1, 2))))
    post(it, "number of Matsubara terms as given", cmp_("==", num(it.getattr(o, "nmax")), var("nmax", "I", 0)))
    post(it, "step as given", cmp_("==", num(it.getattr(o, "deltaT")), dT))


contract("C16", "finiteT()", ["thermodynamics.finiteT.__init__"], trust=["round: nearest integer"])(init)


def channel(cls, analytic, case):
    def run(it, ctx):
        o, dT = make(it, cls, analytic)
        N = var("N", "I", 1) + (1 if case == "zero and more" else 0)
        if case == "zero only":
            N = ONE
        kk = (lambda i: ite(cmp_("==", i, 0), ZERO, uf("k", [i], pos=1))) if case != "no zero" else (lambda i: uf("k", [i], pos=1))
        if case == "zero only":
            kk = lambda i: ZERO
        k = mkarr((N,), lambda ix: kk(ix[0]))
        fn = k.store.fn
        r = expect_value(it, "returns", invoke(it, it.getattr(o, "F_alle"), [k]))
        if case == "zero only" and isinstance(r, SV):
            v = r.e
            p = None
            shape_ok = True
        else:
            if not isinstance(r, Arr) or len(r.shape) != 1:
                return fail(it, "one value per wavenumber", "%r" % (r,))
            post(it, "one value per wavenumber", cmp_("==", r.shape[0], N))
        S_ = "Sm" if cls == "finiteT" else "S1"
        z = (var("S0") if analytic and cls == "finiteT" else uf(S_, [C(Fraction(1, 10 ** 10))])) / 2
        if case != "no zero":
            post(it, "zero frequency counts half", cmp_("==", el(it, r, (ZERO,)), z))
            if case == "zero only":
                return
            i = it.ctx.fresh("i", "I", 1)
        else:
            i = it.ctx.fresh("i", "I", 0)
        p = it.ctx.prover.copy()
        p.assume(cmp_("<", i, N))
        post(it, "finite frequencies count once", npstub.with_prover(p, lambda: cmp_("==", el(it, r, (i,)), uf(S_, [uf("k", [i], pos=1)]))), prover=p)
        frame_arr(it, "wavenumbers unchanged", k, fn)
    return run


for cl, an in (("finiteT", True), ("finiteT", False), ("oneRoundtrip", True)):
    for c in ("zero only", "zero and more", "no zero"):
        contract("C16", "%s.F_alle[%s%s]" % (cl, c, "" if cl != "finiteT" else ", analytic" if an else ", numeric"), ["thermodynamics.%s.F_alle" % cl, "thermodynamics.%s.__init__" % cl],
                 summaries=GEO, trust=TG)(channel(cl, an, c))


# ---------------------------------------------------------------- the sum
def s_alle(it, args, kw, f):
    a = dict(zip(("self", "matsubaras"), args))
    a.update(kw)
    k = a["matsubaras"]
    if not isinstance(k, Arr) or len(k.shape) != 1:
        raise Stuck("F_alle needs a one-dimensional array")
    it.ctx.oblige("F_alle: at least one wavenumber", cmp_(">=", k.shape[0], 1), kind="pre")
    g = k.snap()
    it.ctx.oblige("F_alle: first wavenumber not negative", cmp_(">=", g((ZERO,)), 0), kind="pre")
    p = it.ctx.prover.copy()
    i = it.ctx.fresh("q", "I", 1)
    p.assume(cmp_("<", i, k.shape[0]))
    it.ctx.oblige("F_alle: the others are positive", npstub.with_prover(p, lambda: cmp_(">", g((i,)), 0)), kind="pre", prover=p, assume=False)
    return mkarr(k.shape, lambda ix: uf("Fm", [g(ix)]))


def hints(n0, d, w):
    return {"seq": [lambda it: [lambda T, ix: ite(cmp_("<=", T * w, d + 1), n0 + T * w, n0 + d + 1)]],
            "fill": [lambda it, st: (lambda ix: uf("Fm", [var("dT", pos=1) * (n0 + ix[0])]), 0, n0)]}


def matsubaras(it, ctx):
    o, dT = make(it, "finiteT", True)
    n = var("nmax", "I", 0)
    r = expect_value(it, "returns", invoke(it, it.getattr(o, "get_f_matsubaras"), [0]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one value per Matsubara term", "%r" % (r,))
    post(it, "one value per Matsubara term 0..nmax", cmp_("==", r.shape[0], n + 1))
    ix, p = idx(it, (n + 1,))
    post(it, "term n is the channel value at n deltaT", npstub.with_prover(p, lambda: cmp_("==", el(it, r, ix), uf("Fm", [dT * ix[0]]))), prover=p)


contract("C16", "get_f_matsubaras", ["thermodynamics.finiteT.get_f_matsubaras", "thermodynamics.slicewise_eval"],
         summaries={"thermodynamics.finiteT.F_alle": s_alle}, hints=hints(ZERO, var("nmax", "I", 0), C(50)))(matsubaras)


def s_get(it, args, kw, f):
    """terms of the channel selected by forceFlag at the time of the call"""
    o = args[0]
    ff = o.attrs["forceFlag"]
    n = var("nmax", "I", 0)
    return mkarr((n + 1,), lambda ix: uf("fm", [num(ff), ix[0]]))


def want(i, ch=ZERO):
    n = var("nmax", "I", 0)
    return i * var("dT", pos=1) * esum(efloor((n + i) / i), lambda j: uf("fm", [ch, i * j]))


def energy(state, what):
    def run(it, ctx):
        o, dT = make(it, "finiteT", True)
        M = var("M", "I", 1) + (0 if what == "free_energy" else 1)
        o.attrs["maxstep"] = SV(M, "int")
        if state == "after a force evaluation":
            o.attrs["forceFlag"] = 1
            o.attrs["force_matsubaras"] = mkarr((var("nmax", "I", 0) + 1,), lambda ix: uf("fm", [ONE, ix[0]]))
        if state == "second call":
            expect_value(it, "returns", invoke(it, it.getattr(o, "free_energy"), []))
        if state == "after entropy":
            expect_value(it, "returns", invoke(it, it.getattr(o, "entropy"), []))
        r = expect_value(it, "returns", invoke(it, it.getattr(o, what), []))
        if not isinstance(r, Arr) or len(r.shape) != 1:
            return fail(it, "one value per temperature", "%r" % (r,))
        post(it, "one value per temperature", cmp_("==", r.shape[0], M))
        if what == "free_energy":
            ix, p = idx(it, (M,))
            post(it, "T times the sum over every i-th term", npstub.with_prover(p, lambda: cmp_("==", el(it, r, ix), want(ix[0] + 1))), prover=p)
            return
        F = lambda j: want(j + 1)
        post(it, "lowest temperature: one-sided difference", npstub.with_prover(it.ctx.prover, lambda: cmp_("==", el(it, r, (ZERO,)), -(F(ONE) - F(ZERO)) / dT)))
        post(it, "highest temperature: one-sided difference", npstub.with_prover(it.ctx.prover, lambda: cmp_("==", el(it, r, (M - 1,)), -(F(M - 1) - F(M - 2)) / dT)))
        p = it.ctx.prover.copy()
        i = it.ctx.fresh("i", "I", 1)
        p.assume(cmp_("<", i, M - 1))
        post(it, "central difference", npstub.with_prover(p, lambda: cmp_("==", el(it, r, (i,)), -(F(i + 1) - F(i - 1)) / (2 * dT))), prover=p)
    return run


for st in ("fresh", "after a force evaluation", "second call", "after entropy"):
    for wh in ("free_energy", "entropy"):
        if st == "after entropy" and wh == "free_energy":
            continue                                   # np.gradient needs two temperatures, covered by the entropy contract
        contract("C16", "%s[%s]" % (wh, st), ["thermodynamics.finiteT." + wh], summaries={"thermodynamics.finiteT.get_f_matsubaras": s_get},
                 trust=["numpy.gradient: central differences inside, one-sided at the ends"])(energy(st, wh))


# ---------------------------------------------------------------- zero temperature
def e0(case):
    def run(it, ctx):
        o, dT = make(it, "finiteT", True)
        a, b = var("a", pos=0), var("a", pos=0) + var("d", pos=1)
        args = {"default": [], "bounds": [SV(a, "float"), SV(b, "float")], "up to the computed maximum": [SV(ZERO, "float"), None]}[case]
        if case == "up to the computed maximum":
            o.attrs["nmax"] = SV(var("nmax", "I", 0) + 1, "int")
        r = expect_value(it, "returns", invoke(it, it.getattr(o, "e0"), args))
        if not isinstance(r, Arr) or len(r.shape) != 2:
            return fail(it, "energy and error estimate", "%r" % (r,))
        lo, hi = {"default": (ZERO, var("inf", "R", 1)), "bounds": (a, b), "up to the computed maximum": (ZERO, (var("nmax", "I", 0) + 1) * dT)}[case]
        x = fresh("x", "R", 1)
        (m, _), = x.num.items()
        post(it, "integral of the channel sum over the wavenumber", cmp_("==", el(it, r, (ZERO, ZERO)), npstub.integral(lo, hi, uf("Sm", [x]), m[0][0])))
    return run


for c in ("default", "bounds", "up to the computed maximum"):
    contract("C16", "e0[%s]" % c, ["thermodynamics.finiteT.e0"], summaries=GEO,
             trust=TG + ["scipy.integrate.quad: the exact integral of the function it is given, evaluated inside the interval"])(e0(c))
