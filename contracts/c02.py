from common import *

# The oscillator list has a symbolic number n of symbolic oscillators.  Quantified statements over the list are
# decided at a Skolem index for the direction "flag implies all" and with a witness for "exists implies flag".


def osc(n):
    P = lambda nm: (lambda i: uf(nm, [i], pos=0))
    wp, wr, ga = P("wP"), P("wR"), P("gam")
    lst = SymList(n, lambda i: (SV(wp(i), "float"), SV(wr(i), "float"), SV(ga(i), "float")), name="osc")
    return lst, wp, wr, ga


def flag(it, r):
    """truth of the returned flag as a formula"""
    from interp import Interp
    if isinstance(r, SB):               # one path per truth value: a quantified flag brings its witness or instances
        r = it.truth(r, "flag")
    if isinstance(r, bool):
        return B("T") if r else B("F")
    if r is None:
        return B("F")
    raise Stuck("flag %r" % (r,))


def via_function(name):
    return lambda it, lst: invoke(it, it.func("materials." + name), [lst])


def via_ctor(cls, name):
    def f(it, lst):
        o = Obj(it.module("materials").ns[cls], {}, name="mat")
        r = invoke(it, it.func("materials.%s.__init__" % cls), [o, lst, ()])
        return r if isinstance(r, Raised) else it.getattr(o, name)
    return f


VIA = [("", lambda nm: via_function(nm))] + [("%s()." % c, lambda nm, c=c: via_ctor(c, nm)) for c in ("LorentzMaterial", "LorentzSmithMaterial")]


def diel(it, ctx, via):
    """is_dielectric: False as soon as one oscillator has strength and no resonance, True only if none has"""
    n = var("nosc", "I", 0)
    lst, wp, wr, ga = osc(n)
    j = var("j", "I", 0)
    it.ctx.prover.assume(cmp_("<", j, n))
    it.ctx.prover.assume(cmp_("!=", wp(j), ZERO))
    it.ctx.prover.assume(cmp_("==", wr(j), ZERO))
    r = expect_value(it, "returns", via(it, lst))
    post(it, "an oscillator with strength and zero resonance makes it a conductor", Not(flag(it, r)))




def diel2(it, ctx, via):
    n = var("nosc", "I", 0)
    lst, wp, wr, ga = osc(n)
    r = expect_value(it, "returns", via(it, lst))
    # not dielectric only with a witness: the path conditions must contain one
    f = flag(it, r)
    if f.op == "T":
        return ok(it, "dielectric unless a witness exists")
    wit = witness(it, lambda i: And(cmp_("!=", wp(i), ZERO), cmp_("==", wr(i), ZERO)), n)
    post(it, "dielectric unless a witness exists", Or(f, wit))


def witness(it, pred, n):
    """some index the path introduced satisfies pred and lies in the list"""
    cs = [v for v in it.ctx.created if v.is_int()] if hasattr(ONE, "is_int") else list(it.ctx.created)
    return Or(*[And(cmp_("<=", ZERO, v), cmp_("<", v, n), pred(v)) for v in cs]) if cs else B("F")




def sig(it, ctx, via):
    n = var("nosc", "I", 0)
    lst, wp, wr, ga = osc(n)
    j = var("j", "I", 0)
    for c in (cmp_("<", j, n), cmp_("!=", wp(j), ZERO), cmp_("==", wr(j), ZERO), cmp_("==", ga(j), ZERO)):
        it.ctx.prover.assume(c)
    r = expect_value(it, "returns", via(it, lst))
    post(it, "an undamped free oscillator means infinite conductivity", Not(flag(it, r)))




def sig2(it, ctx, via):
    n = var("nosc", "I", 0)
    lst, wp, wr, ga = osc(n)
    r = expect_value(it, "returns", via(it, lst))
    f = flag(it, r)
    if f.op == "T":
        return ok(it, "finite unless a witness exists")
    wit = witness(it, lambda i: And(cmp_("!=", wp(i), ZERO), cmp_("==", wr(i), ZERO), cmp_("==", ga(i), ZERO)), n)
    post(it, "finite unless a witness exists", Or(f, wit))




for pre, mk in VIA:
    q = ["materials.is_dielectric", "materials.is_sigma_finite"] + (["materials.%s.__init__" % pre[:-3]] if pre else [])
    for nm, cases in (("is_dielectric", (("some free charge", diel), ("no witness", diel2))), ("is_sigma_finite", (("undamped free oscillator", sig), ("no witness", sig2)))):
        for tag, f in cases:
            contract("C02", "%s%s[%s]" % (pre, nm, tag), q)(lambda it, ctx, f=f, v=mk(nm): f(it, ctx, v))


def mag(it, ctx):
    r = expect_value(it, "returns", invoke(it, it.func("materials.is_magnetic"), [()]))
    post(it, "no parameters: not magnetic", Not(flag(it, r)))
    mu0, wM = var("mu0"), var("wM")
    r = expect_value(it, "returns", invoke(it, it.func("materials.is_magnetic"), [(SV(mu0, "float"), SV(wM, "float"))]))
    f = flag(it, r)
    post(it, "magnetic iff mu(0) != 0", And(Implies(f, cmp_("!=", mu0, ZERO)), Implies(cmp_("!=", mu0, ZERO), f)))


def mag2(cls):
    def run(it, ctx):
        mu0, wM = var("mu0"), var("wM")
        o = Obj(it.module("materials").ns[cls], {}, name="mat")
        expect_value(it, "construct", invoke(it, it.func("materials.%s.__init__" % cls), [o, [], (SV(mu0, "float"), SV(wM, "float"))]))
        f = flag(it, it.getattr(o, "is_magnetic"))
        post(it, "magnetic iff mu(0) != 0", And(Implies(f, cmp_("!=", mu0, ZERO)), Implies(cmp_("!=", mu0, ZERO), f)))
        o = Obj(it.module("materials").ns[cls], {}, name="mat")
        expect_value(it, "construct", invoke(it, it.func("materials.%s.__init__" % cls), [o, [], ()]))
        post(it, "not magnetic without parameters", Not(flag(it, it.getattr(o, "is_magnetic"))))
        post(it, "not a perfect conductor", Not(flag(it, it.getattr(o, "is_perfect_conductor"))))
    return run


for cl in ("LorentzMaterial", "LorentzSmithMaterial"):
    contract("C02", "%s().is_magnetic" % cl, ["materials.is_magnetic", "materials.%s.__init__" % cl])(mag2(cl))
contract("C02", "is_magnetic", ["materials.is_magnetic"])(mag)


def pec(it, ctx):
    o = it.module("materials").ns["PerfectConductor"]
    post(it, "perfect conductor is flagged", flag(it, it.getattr(o, "is_perfect_conductor")))
    m = 0
    for nm, v in it.module("materials").ns.items():
        if isinstance(v, Obj) and v is not o:
            m += 1
            post(it, "%s is no perfect conductor" % nm, Not(flag(it, it.getattr(v, "is_perfect_conductor"))))
    if m == 0:
        fail(it, "materials are defined", "none found")


contract("C02", "predefined materials", ["materials.PerfectConductor", "materials.LorentzMaterial.__init__"])(pec)
