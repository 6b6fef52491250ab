from common import *

GL = "geometry.get_lmax"


# All positions of two spheres that do not touch, parametrised by the radii (or centre distance) and the gap g > 0:
#   external  L = r1 + r2 + g;   internal, sphere 1 inside: r2 = r1 + L + g;  sphere 2 inside: r1 = r2 + L + g
# and every precision below 1 as exp(-t), t > 0.
WHERE = ("external", "1 inside", "2 inside")


def place(where, g):
    """radii and distance with gap g, everything else equal"""
    a, b, c = var("r", pos=1), var("s", pos=1), var("c", pos=0)
    if where == "external":
        return a, b, a + b + g
    # moving the inner sphere towards the wall: radii fixed, distance c varies, gap = R - r - c
    R = a + c + g
    return (a, R, c) if where == "1 inside" else (R, a, c)


def params(it, where):
    r1, r2, L = place(where, var("g", pos=1))
    p = eexp(-var("t", pos=1))
    o = SV(var("off", "I"), "int")
    F = lambda e: SV(e, "float")
    return F(r1), F(r2), F(L), F(p), o


def lmax_of(it, *a):
    r = expect_value(it, "get_lmax returns", invoke(it, it.func(GL), list(a)))
    if isinstance(r, SV) and r.ty not in ("int", "npint"):
        fail(it, "get_lmax is an integer", "type %s" % r.ty)
    return el(it, r)


def basic(where):
    def run(it, ctx):
        r1, r2, L, p, o = params(it, where)
        a = lmax_of(it, r1, r2, L, p, o)
        post(it, "at least 1", cmp_(">=", a, ONE))
        b = lmax_of(it, r2, r1, L, p, o)
        post(it, "symmetric in the spheres", cmp_("==", a, b))
    return run


def mono(where, what):
    def run(it, ctx):
        r1, r2, L, p, o = params(it, where)
        L2, p2, o2 = L, p, o
        d = var("d", pos=0)
        if what == "distance":          # closer by d
            g = var("g", pos=1)
            if where == "external":
                L = SV(L.e + d, "float")
            else:                       # the inner sphere is closer to the wall: larger centre distance, same radii
                L2 = SV(L.e + d, "float")
                it.ctx.prover.assume(cmp_("<", d, g))
        elif what == "precision":
            p2 = SV(eexp(-var("t", pos=1) - d), "float")
        else:
            o2 = SV(o.e + var("od", "I", 0), "int")
        a = lmax_of(it, r1, r2, L, p, o)
        b = lmax_of(it, r1, r2, L2, p2, o2)
        post(it, {"distance": "never decreases when the spheres approach", "precision": "never decreases when the precision is tightened",
                  "offset": "never decreases when the offset grows"}[what], cmp_(">=", b, a))
    return run


SPLIT = {"branch_extreme": True}        # min and max of radii: one path each
for wh in WHERE:
    contract("C17", "get_lmax[%s]" % wh, [GL], opts=SPLIT)(basic(wh))
    for w in ("distance", "precision", "offset"):
        contract("C17", "get_lmax monotone in %s[%s]" % (w, wh), [GL], opts=SPLIT)(mono(wh, w))


# ---------------------------------------------------------------- constructor
def geom(it, r1, r2, L, lmax, o, lss, p, ev="lndet"):
    cls = it.module("geometry").ns["SphereSphere"]
    m = [abs_material(it, t) for t in "123"]
    return invoke(it, cls, [r1, r2, L] + m + [lmax, o, lss, p, 0, ev])


def ctor(where, auto, lauto, lists=False):
    def run(it, ctx):
        r1, r2, L, p, o = params(it, where)
        lm = "automatic" if auto else SV(var("lmax", "I", 1), "int")
        ls = "automatic" if lauto else SV(var("lss", "I", 1), "int")
        R1 = [SV(var("ra", pos=1), "float"), r1] if lists else r1
        R2 = [SV(var("rb", pos=1), "float"), SV(var("rc", pos=1), "float"), r2] if lists else r2
        g = expect_value(it, "constructor returns", geom(it, R1, R2, L, lm, o, ls, p))
        a, s = it.getattr(g, "lmax"), it.getattr(g, "lssmax")
        if auto:
            post(it, "automatic cut-off is get_lmax of the outer radii", cmp_("==", el(it, a), lmax_of(it, r1, r2, L, p, o)))
        else:
            post(it, "a given cut-off is used unchanged", cmp_("==", el(it, a), lm.e))
        if lauto:
            post(it, "second cut-off at least the first", cmp_(">=", el(it, s), el(it, a)))
            if isinstance(s, SV) and s.ty not in ("int", "npint"):
                fail(it, "second cut-off is an integer", s.ty)
            h = expect_value(it, "constructor returns", geom(it, R2, R1, L, lm, o, ls, p))
            post(it, "second cut-off symmetric", cmp_("==", el(it, s), el(it, it.getattr(h, "lssmax"))))
        else:
            post(it, "a given second cut-off is used unchanged", cmp_("==", el(it, s), ls.e))
        post(it, "precision kept", cmp_("==", el(it, it.getattr(g, "precision")), p.e))
        post(it, "offset kept", cmp_("==", el(it, it.getattr(g, "l_offset")), o.e))
        post(it, "distance kept", cmp_("==", el(it, it.getattr(g, "L")), L.e))
    return run


for wh in WHERE:
    for au, la, li in ((1, 1, 0), (0, 1, 0), (1, 0, 0), (0, 0, 0), (1, 1, 1)):
        contract("C17", "SphereSphere[%s, lmax %s, lssmax %s%s]" % (wh, "auto" if au else "given", "auto" if la else "given", ", layered" if li else ""),
                 ["geometry.SphereSphere.__init__", GL], opts=SPLIT)(ctor(wh, au, la, li))


def modes(it, ctx):
    r1, r2, L, p, o = params(it, "external")
    for e in ("", "Lndet", "lndet ", "traces", "det", None, 1, "automatic"):
        r = geom(it, r1, r2, L, 3, 1, 3, p, e)
        if isinstance(r, Raised) and r.kind == "ValueError":
            ok(it, "unknown evaluation mode %r is rejected" % (e,))
        else:
            fail(it, "unknown evaluation mode %r is rejected" % (e,), "%r" % (r,))
    for e in ("lndet", "trace"):
        r = expect_value(it, "mode %s is accepted" % e, geom(it, r1, r2, L, 3, 1, 3, p, e))
        v = it.getattr(r, "evaluation")
        (ok if v == e else lambda i, n: fail(i, n, "%r" % (v,)))(it, "mode %s is kept" % e)


contract("C17", "evaluation modes", ["geometry.SphereSphere.__init__"])(modes)


# ------------------------------------------------- number of Matsubara terms
def nterms(where, auto, lists=False):
    def run(it, ctx):
        r1, r2, L, p, o = params(it, where)
        lm = SV(var("lmax", "I", 1), "int")
        R1 = [SV(var("ra", pos=1), "float"), r1] if lists else r1
        g = expect_value(it, "constructor returns", geom(it, R1, r2, L, lm, o, lm, p))
        dT, Tm = SV(var("dT", pos=1), "float"), SV(var("Tmax", pos=1), "float")
        n = "automatic" if auto else SV(var("nmax", "I", 1), "int")
        f = expect_value(it, "finiteT returns", invoke(it, it.module("thermodynamics").ns["finiteT"], [dT, n, Tm, g]))
        v = it.getattr(f, "nmax")
        if auto:
            post(it, "at least one Matsubara term", cmp_(">=", el(it, v), ONE))
            if isinstance(v, SV) and v.ty not in ("int", "npint"):
                fail(it, "the number of terms is an integer", v.ty)
            h = expect_value(it, "constructor returns", geom(it, r2, R1, L, lm, o, lm, p))
            f2 = expect_value(it, "finiteT returns", invoke(it, it.module("thermodynamics").ns["finiteT"], [dT, n, Tm, h]))
            post(it, "symmetric in the spheres", cmp_("==", el(it, v), el(it, it.getattr(f2, "nmax"))))
        else:
            post(it, "a given number of terms is used unchanged", cmp_("==", el(it, v), n.e))
    return run


for wh in WHERE:
    for au, li in ((1, 0), (0, 0), (1, 1)):
        contract("C17", "finiteT nmax[%s, %s%s]" % (wh, "auto" if au else "given", ", layered" if li else ""), ["thermodynamics.finiteT.__init__"])(nterms(wh, au, li))
