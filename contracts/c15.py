from geo import *
import ncmat
from ncmat import MVal


def tr(n, i):
    """tr(M^n) of matrix i"""
    return ncmat.trace_word((("M", n),), var("n", "I", 1), i)


def S(T, i):
    return esum(T, lambda j: tr(j + 1, i) / (j + 1))


def mats(it):
    N, n = var("N", "I", 1), var("n", "I", 1)
    it.ctx.opts["nc_structures"] = [[n]]
    return MVal(N, [n], [n], [[ncmat.atom("M")]]), N


def fixed(it, ctx):
    g = geom(it, roundTrip_dct={7: SV(var("earlier", "I", 1), "int")})
    M, N = mats(it)
    before = M.nc_key()
    order = var("order", "I", 1)
    r = expect_value(it, "returns", invoke(it, it.getattr(g, "arbitrary_roundtrips"), [M, SV(order, "int"), 7]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one value per matrix", "%r" % (r,))
    post(it, "one value per matrix", cmp_("==", r.shape[0], N))
    ix, p = idx(it, (N,))
    e = npstub.with_prover(p, lambda: el(it, r, ix))
    post(it, "minus the sum of tr(M^n)/n, n = 1..order", cmp_("==", e, -S(order, ix[0])), prover=p)
    (ok(it, "matrices unchanged") if M.nc_key() == before else fail(it, "matrices unchanged", "written"))
    rec = g.attrs["roundTrip_dct"].get(7)
    if not isinstance(rec, (SV, int, float)):
        return fail(it, "round trips recorded", "%r" % (g.attrs["roundTrip_dct"],))
    post(it, "recorded number of round trips", Or(cmp_("==", num(rec), order), cmp_("==", num(rec), order + 1)))


contract("C15", "arbitrary_roundtrips[fixed order]", [GEO + "arbitrary_roundtrips"], opts={"nc": True}, trust=["matrices as words in a free algebra; trace of a word"])(fixed)


def auto(it, ctx):
    ncmat.TRACE_POS[0] = 1
    g = geom(it, roundTrip_dct={7: SV(var("earlier", "I", 1), "int")})
    M, N = mats(it)
    before = M.nc_key()
    r = expect_value(it, "returns", invoke(it, it.getattr(g, "arbitrary_roundtrips"), [M, "automatic", 7]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one value per matrix", "%r" % (r,))
    post(it, "one value per matrix", cmp_("==", r.shape[0], N))
    rec = g.attrs["roundTrip_dct"].get(7)
    if not isinstance(rec, (SV, int, float)):
        return fail(it, "round trips recorded", "%r" % (g.attrs["roundTrip_dct"],))
    rec = num(rec)
    ix, p = idx(it, (N,))
    e = npstub.with_prover(p, lambda: el(it, r, ix))
    T = rec - 1
    if prove(p.copy(), cmp_("==", e, -S(T, ix[0])), 4000).status != "proved":
        T = rec
    post(it, "at least one round trip", cmp_(">=", T, 1))
    post(it, "minus the sum of tr(M^n)/n, n = 1..T, T recorded", cmp_("==", e, -S(T, ix[0])), prover=p)
    prec = var("prec", pos=1)
    npstub.with_prover(p, lambda: npstub.extremal(p, ix[0]))
    post(it, "the last term is at most the precision times the sum", cmp_("<=", tr(T, ix[0]) / T, prec * -e), prover=p)
    (ok(it, "matrices unchanged") if M.nc_key() == before else fail(it, "matrices unchanged", "written"))


contract("C15", "arbitrary_roundtrips[automatic]", [GEO + "arbitrary_roundtrips"], opts={"nc": True},
         trust=["matrices as words in a free algebra; trace of a word", "tr(M^n) > 0 (a vanishing partial sum makes numpy's nan)"])(auto)


# ---------------------------------------------------------------- sum over m
def R(m, i):
    """minus the round-trip sum of one channel: never positive for a round-trip matrix"""
    return -uf("R", [m, i], pos=1)


def channel(it, args, kw, f):
    a = dict(zip(("self", "m", "matsubaras", "forceFlag"), args))
    a.update(kw)
    k = a["matsubaras"]
    m = num(a["m"])
    it.ctx.oblige("supermatrix: 0 <= m <= lmax", And(cmp_(">=", m, 0), cmp_("<=", m, var("lmax", "I", 1))), kind="pre")
    if num(a.get("forceFlag", 0)).const() != 0:
        raise Stuck("force")
    ix, p = idx(it, k.shape)
    it.ctx.oblige("supermatrix: at the wavenumbers asked for", cmp_("==", k.get(ix), kval(ix)), kind="pre", prover=p, assume=False)
    return mkarr((k.shape[0], C(1), C(1)), lambda ix: uf("bigM", [m, ix[0]]))


def channel_sum(it, args, kw, f):
    a = dict(zip(("self", "Matrices", "order", "m"), args))
    a.update(kw)
    M, m = a["Matrices"], num(a["m"])
    if not isinstance(M, Arr) or len(M.shape) != 3:
        raise Stuck("round trips of something else than M(m)")
    ix, p = idx(it, (M.shape[0],))
    e = npstub.with_prover(p, lambda: M.get((ix[0], ZERO, ZERO)))
    it.ctx.oblige("arbitrary_roundtrips: matrices of this m", cmp_("==", e, uf("bigM", [m, ix[0]])), kind="pre", prover=p, assume=False)
    want = it.order15
    if isinstance(want, str) != isinstance(a["order"], str) or isinstance(want, str) and want != a["order"]:
        return fail(it, "arbitrary_roundtrips: the order asked for", "%r" % (a["order"],))
    if not isinstance(want, str):
        it.ctx.oblige("arbitrary_roundtrips: the order asked for", cmp_("==", num(a["order"]), num(want)), kind="pre", assume=False)
    return mkarr((M.shape[0],), lambda ix: R(m, ix[0]))


def channels(auto):
    def run(it, ctx):
        it.order15 = "automatic" if auto else SV(var("order", "I", 1), "int")
        g = geom(it, roundTrip_dct={})
        it.ctx.prover.assume(cmp_("<", var("prec", pos=1), 1))
        N, lmax = var("N", "I", 1), var("lmax", "I", 1)
        k = mkarr((N,), kval)
        fk = k.store.fn
        r = expect_value(it, "returns", invoke(it, it.getattr(g, "mSum_roundtrips"), [k] if auto else [k, it.order15]))
        if not isinstance(r, Arr) or len(r.shape) != 1:
            return fail(it, "one value per wavenumber", "%r" % (r,))
        post(it, "one value per wavenumber", cmp_("==", r.shape[0], N))
        ix, p = idx(it, (N,))
        e = npstub.with_prover(p, lambda: el(it, r, ix))
        w = R(ZERO, ix[0]) + 2 * esum(lmax, lambda j: R(j + 1, ix[0]))
        post(it, "m = 0 once, every m = 1..lmax twice", cmp_("==", e, w), prover=p)
        frame_arr(it, "wavenumbers unchanged", k, fk)
    return run


for a in (True, False):
    contract("C15", "mSum_roundtrips[%s]" % ("automatic" if a else "fixed order"), [GEO + "mSum_roundtrips"],
             summaries={GEO + "supermatrix": channel, GEO + "arbitrary_roundtrips": channel_sum},
             trust=["the round-trip sum of a channel is positive (C11, C15 above)", "precision < 1"])(channels(a))


from c14 import blockmatrices


def tr1(m, i):
    return esum(block(m), lambda j: uf("bEE", [m, i, j, j]) + uf("bMM", [m, i, j, j]))


def one(auto):
    def run(it, ctx):
        g = geom(it)
        N, lmax = var("N", "I", 1), var("lmax", "I", 1)
        k = mkarr((N,), kval)
        fk = k.store.fn
        mm = var("mmax", "I", 1)
        if not auto:
            it.ctx.prover.assume(cmp_("<=", mm, lmax))
        r = expect_value(it, "returns", invoke(it, it.getattr(g, "mSum_oneRoundtrip"), [k] if auto else [k, SV(mm, "int")]))
        if not isinstance(r, Arr) or len(r.shape) != 1:
            return fail(it, "one value per wavenumber", "%r" % (r,))
        post(it, "one value per wavenumber", cmp_("==", r.shape[0], N))
        ix, p = idx(it, (N,))
        e = npstub.with_prover(p, lambda: el(it, r, ix))
        taus = [A2E(ATOMS[a]) for a in sorted(set().union(all_atoms(e), *[all_atoms(f) for f in it.ctx.prover.facts])) if ATOMS[a].kind == "var" and ATOMS[a].name.startswith("tau#")]
        want = lambda M: -(tr1(ZERO, ix[0]) + 2 * esum(M, lambda j: tr1(j + 1, ix[0])))
        c = [lmax, ONE, mm] + [t + d for t in taus for d in (0, 1, 2)]
        M = next((x for x in c if npstub.with_prover(p, lambda: prove(p.copy(), cmp_("==", e, want(x)), 2000)).status == "proved"), lmax)
        post(it, "minus the trace: m = 0 once, m = 1..M twice", npstub.with_prover(p, lambda: cmp_("==", e, want(M))), prover=p)
        post(it, "1 <= M <= lmax", And(cmp_(">=", M, 1), cmp_("<=", M, lmax)))
        if not auto:
            post(it, "M = mmax", cmp_("==", M, mm))
        frame_arr(it, "wavenumbers unchanged", k, fk)
    return run


for a in (True, False):
    contract("C15", "mSum_oneRoundtrip[%s]" % ("automatic" if a else "given mmax"), [GEO + "mSum_oneRoundtrip"], summaries={GEO + "blockmatrices": blockmatrices},
             trust=["blockmatrices: C11"])(one(a))


def construct(it, **kw):
    s = lambda n: SV(var(n, pos=1), "float")
    cls = it.module("geometry").ns["SphereSphere"]
    return invoke(it, cls, [s("r1"), s("r2"), s("L"), abs_material(it, "1"), abs_material(it, "2"), abs_material(it, "3")],
                  dict(lmax=SV(var("lmax", "I", 1), "int"), lssmax=SV(var("lssmax", "I", 1), "int"), precision=SV(var("prec", pos=1), "float"), **kw))


def selected(it, ctx):
    it.order15 = "automatic"
    it.ctx.prover.assume(cmp_("<", var("prec", pos=1), 1))
    g = expect_value(it, "constructed", construct(it, evaluation="trace"))
    N, lmax = var("N", "I", 1), var("lmax", "I", 1)
    k = mkarr((N,), kval)
    r = expect_value(it, "returns", invoke(it, it.getattr(g, "mSumme"), [k]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one value per wavenumber", "%r" % (r,))
    ix, p = idx(it, (N,))
    e = npstub.with_prover(p, lambda: el(it, r, ix))
    post(it, "evaluation by traces sums the round trips", cmp_("==", e, R(ZERO, ix[0]) + 2 * esum(lmax, lambda j: R(j + 1, ix[0]))), prover=p)


contract("C15", "SphereSphere(evaluation='trace')", [GEO + "__init__", GEO + "mSum_roundtrips"],
         summaries={GEO + "supermatrix": channel, GEO + "arbitrary_roundtrips": channel_sum}, trust=["precision < 1"])(selected)


def unknown(it, ctx):
    r = construct(it, evaluation="det")
    (ok(it, "unknown evaluation is rejected") if isinstance(r, Raised) else fail(it, "unknown evaluation is rejected", "constructed"))


contract("C15", "SphereSphere(evaluation=unknown)", [GEO + "__init__"])(unknown)
