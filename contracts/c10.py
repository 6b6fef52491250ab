"""Coated and stratified spheres.

In every layer the field is U(x) = i_l(x) - c k_l(x); the coefficient a returned by the code is c = (-1)^l (2/pi) a exp(scaling).
At an interface (radius r, inside medium a, outside medium b) continuity of the tangential fields is
    (w_b U' - w_a Dk_b U) k_l(x_b) c_new = (w_b U' - w_a Di_b U) i_l(x_b),   U' = Di i - c Dk k at x_a,   w = mu (TE) or eps (TM).
Field invariant P: U > 0 and U' > 0 at the outer surface of the layer (so that no denominator vanishes).
"""
from common import *
from bessel_spec import *
from c08 import shape3, logder

PI = core.PI


def wave(resp_e, resp_m, k, r):
    return eroot(resp_e * resp_m, 2) * k * r


def field(l, x, c):
    Di, Dk = logder(l, x)
    return si(l, x) - c * sk(l, x), Di * si(l, x) - c * Dk * sk(l, x)


def rule(l, xa, wa, xb, wb, c):
    """(factor of c_new, right-hand side)"""
    U, dU = field(l, xa, c)
    Di, Dk = logder(l, xb)
    return (wb * dU - wa * Dk * U) * sk(l, xb), (wb * dU - wa * Di * U) * si(l, xb)


def inner(p, q, l):
    return uf(("innerTE", "innerTM", "innerSC")[p], [q, l])


def cin(p, q, l):
    return sg(l) * 2 / PI * inner(p, q, l) * eexp(inner(2, q, l))


def dims():
    N, lmin, d = var("N", "I", 1), var("lmin", "I", 1), var("dl", "I", 0)
    return N, lmin, lmin + d


KQ = lambda q: uf("k", [q], pos=1)
RI, RA = var("ri", pos=1), var("ra", pos=1)


def inner_facts(at, prover):
    """P for the coefficient handed in, at the outer radius (lemma 'field invariant' below carries it from ri to ra)"""
    if at.kind != "uf" or at.name not in ("innerTE", "innerTM"):
        return ()
    q, l = at.args
    p = 0 if at.name == "innerTE" else 1
    x = wave(eps("2", KQ(q)), mu("2", KQ(q)), KQ(q), RA)
    U, dU = field(l, x, cin(p, q, l))
    w = (mu, eps)[p]
    xb = wave(eps("3", KQ(q)), mu("3", KQ(q)), KQ(q), RA)
    lhs, _ = rule(l, x, w("2", KQ(q)), xb, w("3", KQ(q)), cin(p, q, l))
    return [cmp_(">", U, 0), cmp_(">", dU, 0), cmp_(">", lhs / sk(l, xb), 0)]


FACT_PROVIDERS.append(inner_facts)


def s_mie(it, args, kw, f):
    a = dict(zip(("self", "k", "lmin", "lmax", "r"), args))
    a.update(kw)
    lmin, lmax, k = num(a["lmin"]), num(a["lmax"]), a["k"]
    post(it, "core coefficient is taken at the core radius", cmp_("==", num(a["r"]), RI))
    m1, m2 = it.getattr(a["self"], "mat1"), it.getattr(a["self"], "mat2")
    if m1.attrs.get("name") != "mat1" or m2.attrs.get("name") != "mat2":
        fail(it, "core coefficient is that of the core inside the coating", "%r %r" % (m1, m2), soft=True)
    ln = lambda j, q, i: core_sel(j, q, lmin + i)
    return mkarr((C(3), k.shape[0], lmax - lmin + 1), lambda ix: ln(ix[0], ix[1], ix[2]))


def core_sel(j, q, l):
    if j.const() is not None:
        return inner(int(j.const()), q, l)
    return ite(cmp_("==", j, 0), inner(0, q, l), ite(cmp_("==", j, 1), inner(1, q, l), inner(2, q, l)))


def check_layer(it, res, N, lmin, lmax, ta, tb, ra):
    shape3(it, res, (C(3), N, lmax - lmin + 1))
    ix, p = idx(it, (N, lmax - lmin + 1))
    l, kk = lmin + ix[1], KQ(ix[0])
    xa, xb = wave(eps(ta, kk), mu(ta, kk), kk, ra), wave(eps(tb, kk), mu(tb, kk), kk, ra)
    sc = el(it, res, (C(2),) + ix)
    post(it, "scaling is that of the outer surface", cmp_("==", sc, elog(si(l, xb)) - elog(sk(l, xb))), prover=p)
    for j, (nm, resp) in enumerate((("TE", mu), ("TM", eps))):
        c = el(it, res, (C(j),) + ix) * eexp(sc) * sg(l) * 2 / PI
        lhs, rhs = rule(l, xa, resp(ta, kk), xb, resp(tb, kk), cin(j, ix[0], l))
        post(it, nm + ": continuity at the outer surface", cmp_("==", c * lhs, rhs), prover=p)


def coated(it, ctx):
    N, lmin, lmax = dims()
    k = mkarr((N,), lambda ix: KQ(ix[0]))
    ms = [abs_material(it, t) for t in "123"]
    s = it.call(it.module("scattering").ns["coated_miescattering"], ms, {})
    sn = [snapshot(m) for m in ms]
    fn = k.store.fn
    r = expect_value(it, "returns", invoke(it, it.getattr(s, "mie_coated"), [k, SV(lmin, "int"), SV(lmax, "int"), SV(RI, "float"), SV(RA, "float")]))
    check_layer(it, r, N, lmin, lmax, "2", "3", RA)
    for m, q in zip(ms, sn):
        frame_obj(it, "materials unchanged", m, q)
    frame_arr(it, "k unchanged", k, fn)


TR = ["epsilon, mu: arbitrary positive elementwise functions (contract C01)", "the inner coefficient satisfies the field invariant P (lemmas below, by induction over the layers)"] + TRUST
contract("C10", "coated sphere", ["scattering.coated_miescattering.__init__", "scattering.coated_miescattering.mie_coated", "bessel_sk.mie_bessels"],
         summaries=dict(BESSEL, **{"scattering.scattering.mie": s_mie, "scattering.scattering.miePEC": s_mie}), trust=TR)(coated)


def layer(it, ctx):
    N, lmin, lmax = dims()
    k = mkarr((N,), lambda ix: KQ(ix[0]))
    ms = [abs_material(it, t) for t in "123"]
    s = it.call(it.module("stratified_sphere_scattering").ns["StratifiedMieScattering"], [list(ms), [SV(RI, "float"), SV(RA, "float")]], {})
    mi = mkarr((C(3), N, lmax - lmin + 1), lambda ix: core_sel(ix[0], ix[1], lmin + ix[2]))
    fm = mi.store.fn
    sn = [snapshot(m) for m in ms] + [snapshot(s)]
    r = expect_value(it, "returns", invoke(it, it.getattr(s, "mie_coated"), [k, SV(lmin, "int"), SV(lmax, "int"), SV(RI, "float"), SV(RA, "float"), ms[1], ms[2], mi]))
    check_layer(it, r, N, lmin, lmax, "2", "3", RA)
    for m, q in zip(ms + [s], sn):
        frame_obj(it, "nothing else changes", m, q)
    frame_arr(it, "inner coefficients unchanged", mi, fm)


contract("C10", "one more layer", ["stratified_sphere_scattering.StratifiedMieScattering.mie_coated", "bessel_sk.mie_bessels"], summaries=BESSEL, trust=TR)(layer)


# ---- field invariant
def lemma_base(pec):
    def run(it, ctx):
        l, xa, xb, wa, wb = var("l", "I", 1), var("xa", pos=1), var("xb", pos=1), var("wa", pos=1), var("wb", pos=1)
        c = var("c")
        pr = it.ctx.prover
        lhs, rhs = rule(l, xa, wa, xb, wb, ZERO) if not pec else ((sk(l, xb), si(l, xb)) if pec == "TE" else (logder(l, xb)[1] * sk(l, xb), logder(l, xb)[0] * si(l, xb)))
        pr.assume(cmp_("==", c * lhs, rhs))
        U, dU = field(l, xb, c)
        post(it, "U >= 0 outside the core", cmp_(">=", U, 0))
        post(it, "U' >= 0 outside the core", cmp_(">=", dU, 0))
        post(it, "U and U' do not vanish together", Or(cmp_(">", U, 0), cmp_(">", dU, 0)))
    return run


for pec in (False, "TE", "TM"):
    contract("C10", "lemma: field invariant outside the core[%s]" % (pec and "perfect conductor " + pec or "general"), ["scattering.scattering.mie"],
             trust=["the core coefficient satisfies the continuity conditions (contract C08)"] + TRUST)(lemma_base(pec))


def lemma_step(it, ctx):
    """U, U' > 0 inside; i, k > 0, Di > 0 > Dk outside (x i_l increases, x k_l decreases)"""
    l, x = var("l", "I", 1), var("x", pos=1)
    post(it, "x i_l increases", cmp_(">", logder(l, x)[0] * si(l, x), 0))
    post(it, "x k_l decreases", cmp_("<", logder(l, x)[1] * sk(l, x), 0))
    U, dU, i, k, Di, mDk, wa, wb = [var(n, pos=1) for n in ("U", "dU", "i", "kk", "Di", "mDk", "wa", "wb")]
    lhs, rhs = (wb * dU + wa * mDk * U) * k, (wb * dU - wa * Di * U) * i
    post(it, "factor of the new coefficient is positive", cmp_(">", lhs, 0))
    c = rhs / lhs
    post(it, "U > 0 outside the layer", cmp_(">", i - c * k, 0))
    post(it, "U' > 0 outside the layer", cmp_(">", Di * i + c * mDk * k, 0))
    # these are the field and the rule used above
    xa, xb, cc = var("xa", pos=1), var("xb", pos=1), var("c")
    u, du = field(l, xa, cc)
    l1, r1 = rule(l, xa, wa, xb, wb, cc)
    di, dk = logder(l, xb)
    post(it, "rule, factor", cmp_("==", l1, (wb * du - wa * dk * u) * sk(l, xb)))
    post(it, "rule, right-hand side", cmp_("==", r1, (wb * du - wa * di * u) * si(l, xb)))


contract("C10", "lemma: field invariant across an interface", ["stratified_sphere_scattering.StratifiedMieScattering.mie_coated"], trust=TRUST)(lemma_step)


def lemma_grow(it, ctx):
    l, xa, xb, c = var("l", "I", 1), var("xa", pos=1), var("xb", pos=1), var("c")
    pr = it.ctx.prover
    ia, ib, ka, kb = si(l, xa), si(l, xb), sk(l, xa), sk(l, xb)
    da, db = logder(l, xa), logder(l, xb)
    # x i_l and -x k_l solve u'' = (1 + l(l+1)/x^2) u: i_l and (x i_l)' increase, k_l and -(x k_l)' decrease
    for f in (cmp_(">", xb, xa), cmp_(">", ib, ia), cmp_("<", kb, ka), cmp_(">", db[0] * ib, da[0] * ia), cmp_("<", -db[1] * kb, -da[1] * ka)):
        pr.assume(f)
    U, dU = field(l, xa, c)
    V, dV = field(l, xb, c)
    for f in (cmp_(">=", U, 0), cmp_(">=", dU, 0)):
        pr.assume(f)
    post(it, "U > 0 at the larger radius", cmp_(">", V, 0))
    post(it, "U' > 0 at the larger radius", cmp_(">", dV, 0))


contract("C10", "lemma: field invariant grows with the radius", ["stratified_sphere_scattering.StratifiedMieScattering.mie_coated"],
         trust=["i_l, (x i_l)' increase and k_l, -(x k_l)' decrease with x"] + TRUST)(lemma_grow)


def lemma_trivial(it, ctx):
    """a coating of the surrounding medium, or of the core material, changes nothing (c is the same in the same medium)"""
    l, x, w, c, cn = var("l", "I", 1), var("x", pos=1), var("w", pos=1), var("c"), var("cn")
    pr = it.ctx.prover
    U, dU = field(l, x, c)
    pr.assume(cmp_(">", U, 0))
    pr.assume(cmp_(">", dU, 0))
    lhs, rhs = rule(l, x, w, x, w, c)
    Di, Dk = logder(l, x)
    pr.assume(cmp_("==", cn * lhs, rhs))
    post(it, "lhs does not vanish", cmp_(">", lhs, 0))
    post(it, "same medium on both sides: the coefficient is carried through", cmp_("==", lhs * c - rhs, ZERO))
    post(it, "no contrast at the core: no scattering there", cmp_("==", rule(l, x, w, x, w, ZERO)[1], ZERO))


contract("C10", "lemma: coating of the medium or of the core material", ["stratified_sphere_scattering.StratifiedMieScattering.mie_coated"], trust=TRUST)(lemma_trivial)


# ---- any number of layers
def layer_mat(it, i, pec=None):
    """the material number i of a list of symbolic length"""
    i = toE(i)
    cls = it.module("materials").ns["Material"]
    mk = lambda nm: Native(lambda it2, args, kw: mkarr(args[0].shape, (lambda g: (lambda ix: uf(nm, [i, g(ix)], pos=1)))(args[0].snap())), nm)
    return Obj(cls, dict(epsilon=mk("epsL"), mu=mk("muL"), is_perfect_conductor=False if pec is None else pec, is_sigma_finite=True, is_dielectric=True,
                         is_magnetic=True, sid=SV(uf("matid", [i], "I"), "int"), ix=i), name="layer")


RL = lambda t: uf("R", [t], pos=1)
epsL = lambda i, k: uf("epsL", [i, k], pos=1)
muL = lambda i, k: uf("muL", [i, k], pos=1)


def xl(i, q, r):
    return wave(epsL(i, KQ(q)), muL(i, KQ(q)), KQ(q), r)


def cstep(p, i, q, l, r, c):
    """coefficient outside radius r, between material i (inside) and i+1, from the coefficient inside"""
    w = (muL, epsL)[p]
    lhs, rhs = rule(l, xl(i, q, r), w(i, KQ(q)), xl(i + 1, q, r), w(i + 1, KQ(q)), c)
    return rhs / lhs


def strat(p, T, q, l):
    """coefficient outside radius number T of the sphere made of the materials 0..T, in material T+1; unfolds one step per call"""
    c = T.const()
    if c is not None and c <= 0:
        return uf("core%d" % p, [q, l])
    k0 = T.num.get((), 0)
    if k0 >= 1:
        return cstep(p, T, q, l, RL(T), strat(p, T - 1, q, l))
    return uf("strat%d" % p, [T, q, l])


numev.AXIOM |= {"strat0", "strat1", "core0", "core1"}


def coef(T, ix, l, mat=None, c=None, r=None):
    """element (p, q, l) of the scaled coefficient with coefficient c (p=0,1) outside radius T"""
    p, q = ix[0], ix[1]
    x = xl(T + 1 if mat is None else mat, q, RL(T) if r is None else r)
    sc = elog(si(l, x)) - elog(sk(l, x))
    val = lambda j: sg(l) * PI / 2 * (strat(j, T, q, l) if c is None else c(j, q, l)) * sk(l, x) / si(l, x)
    if p.const() is not None:
        return sc if p.const() == 2 else val(int(p.const()))
    return ite(cmp_("==", p, 0), val(0), ite(cmp_("==", p, 1), val(1), sc))


def stratified(pec):
    def setup(it):
        N, lmin, lmax = dims()
        n = var("nl", "I", 1)
        return N, lmin, lmax, n

    def s_core(it, args, kw, f):
        a = dict(zip(("self", "k", "lmin", "lmax", "r"), args))
        a.update(kw)
        N, lmin, lmax, n = setup(it)
        m1, m2 = it.getattr(a["self"], "mat1"), it.getattr(a["self"], "mat2")
        if "ix" not in m1.attrs or "ix" not in m2.attrs:
            raise Stuck("core coefficient of an unknown material")
        post(it, "core: material", cmp_("==", m1.attrs["ix"], 0))
        post(it, "core: innermost coating", cmp_("==", m2.attrs["ix"], 1))
        post(it, "core: radius", cmp_("==", num(a["r"]), RL(ZERO)))
        post(it, "core: orders", And(cmp_("==", num(a["lmin"]), lmin), cmp_("==", num(a["lmax"]), lmax)))
        return mkarr((C(3), N, lmax - lmin + 1), lambda ix: coef(ZERO, ix, lmin + ix[2]))

    def s_coat(it, args, kw, f):
        a = dict(zip(("self", "k", "lmin", "lmax", "ri", "ra", "mat2", "mat3", "MieInner"), args))
        a.update(kw)
        N, lmin, lmax, n = setup(it)
        m2, m3, ra = a["mat2"], a["mat3"], num(a["ra"])
        if "ix" not in m2.attrs or "ix" not in m3.attrs:
            raise Stuck("unknown layer material")
        i = m2.attrs["ix"]
        post(it, "layer: the outer material follows the inner one", cmp_("==", m3.attrs["ix"], i + 1))
        post(it, "layer: radius", cmp_("==", ra, RL(i)))
        post(it, "layer: orders", And(cmp_("==", num(a["lmin"]), lmin), cmp_("==", num(a["lmax"]), lmax)))
        g = a["MieInner"].snap() if isinstance(a["MieInner"], Arr) else None
        if g is None:
            raise Stuck("inner coefficient")
        cc = lambda j, q, l: cstep(j, i, q, l, ra, sg(l) * 2 / PI * g((C(j), q, l - lmin)) * eexp(g((C(2), q, l - lmin))))
        return mkarr((C(3), N, lmax - lmin + 1), lambda ix: coef(i, ix, lmin + ix[2], i + 1, cc, ra))

    act = {}

    def s_rec(it, args, kw, f):
        """first activation: the body; recursive activation: the contract, for a shorter list"""
        if not act.get("in"):
            act["in"] = True
            return NotImplemented
        N, lmin, lmax, n = setup(it)
        o = args[0]
        ms, rs = o.attrs["mat_list"], o.attrs["r_list"]
        if not isinstance(ms, SymList) or not isinstance(rs, SymList):
            raise Stuck("layer lists")
        post(it, "recursion: fewer layers", cmp_("<", rs.n, n))
        post(it, "recursion: lists stay matched", cmp_("==", ms.n, rs.n + 1))
        post(it, "recursion: at least one layer", cmp_(">=", rs.n, 1))
        j = it.ctx.fresh("lay", "I", 0)
        pr = it.ctx.prover.copy()
        pr.assume(cmp_("<", j, rs.n))
        post(it, "recursion: the remaining radii are the inner ones", cmp_("==", num(rs.fn(j)), RL(j)), prover=pr)
        mj = ms.fn(j)
        post(it, "recursion: the remaining materials are the inner ones", cmp_("==", mj.attrs["ix"], j), prover=pr)
        act["m"] = rs.n
        return mkarr((C(3), N, lmax - lmin + 1), lambda ix: coef(rs.n - 1, ix, lmin + ix[2], rs.n))

    def run(it, ctx):
        N, lmin, lmax, n = setup(it)
        act.clear()
        k = mkarr((N,), lambda ix: KQ(ix[0]))
        ml = SymList(n + 1, lambda i: layer_mat(it, i), name="materials")
        rl = SymList(n, lambda i: SV(RL(toE(i)), "float"), name="radii")
        s = expect_value(it, "construct", invoke(it, it.module("stratified_sphere_scattering").ns["StratifiedMieScattering"], [ml, rl]))
        st = (ml.n, ml.fn, rl.n, rl.fn)
        r = expect_value(it, "returns", invoke(it, it.getattr(s, "mie_stratified"), [k, SV(lmin, "int"), SV(lmax, "int")]))
        shape3(it, r, (C(3), N, lmax - lmin + 1))
        if (ml.n, ml.fn, rl.n, rl.fn) != st:
            fail(it, "the lists passed in are unchanged", "list was written", soft=True)
        else:
            ok(it, "the lists passed in are unchanged")
        ix, p = idx(it, (N, lmax - lmin + 1))
        l = lmin + ix[1]
        sc = el(it, r, (C(2),) + ix)
        m = act.get("m")
        last = ZERO if it.ctx.prover.entails(cmp_("==", n, 1)) else n - 1
        for j, nm in enumerate(("TE", "TM")):
            c = el(it, r, (C(j),) + ix) * eexp(sc) * sg(l) * 2 / PI
            if m is None:
                post(it, nm + ": layer-by-layer coefficient", cmp_("==", c, strat(j, last, ix[0], l)), prover=p)
            else:
                # outermost shell made of the medium: same coefficient as without it (lemma: coating of the medium)
                post(it, nm + ": coefficient without the outermost shell", cmp_("==", c, strat(j, m - 1, ix[0], l)), prover=p)
                post(it, nm + ": only a shell of the surrounding medium is dropped", cmp_("==", m, n - 1))
                post(it, nm + ": only a shell of the surrounding medium is dropped", cmp_("==", uf("matid", [n], "I"), uf("matid", [n - 1], "I")))
    return run, {"scattering.scattering.mie": s_core, "scattering.scattering.miePEC": s_core,
                 "stratified_sphere_scattering.StratifiedMieScattering.mie_coated": s_coat,
                 "stratified_sphere_scattering.StratifiedMieScattering.mie_stratified": s_rec}


_run, _summ = stratified(False)


def _hint(it):
    lmin = var("lmin", "I", 1)
    return [lambda T, ix: coef(T, ix, lmin + ix[2])]


contract("C10", "stratified sphere, any number of layers", ["stratified_sphere_scattering.StratifiedMieScattering.__init__",
         "stratified_sphere_scattering.StratifiedMieScattering.mie_stratified"], summaries=_summ, hints={"seq": [_hint]},
         trust=["mie_coated: the continuity rule (contracts 'one more layer'), mie: the core coefficient (C08)",
                "equal materials respond equally: matid equal => same epsilon, mu"] + TRUST)(_run)
