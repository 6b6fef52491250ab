from common import *
from geo import *

def spec(A, B, V, k, m, lo, a, b, n2):
    """entries (l1, l2) = (lo+a, lo+b) of EE, EM, ME, MM at k; A, B, V: names of the reflections and the translation"""
    def u(what, c, *x):
        return uf("%s:%d" % (what, c), list(x))
    l1, l2 = lo + a, lo + b

    def term(p1, p2):
        def body(s):
            l = lo + s
            t = ZERO
            for pi in (0, 1):
                there = u(V, 0 if pi == p1 else 2, k, m, l1, l)
                back = u(V, 1 if pi == p2 else 3, k, m, l2, l)
                t = t + u(A, p1, k, l1) * there * u(B, pi, k, l) * back
            return t * eexp(u(A, 2, k, l1) + u(B, 2, k, l) + u(V, 4, k, m, l1, l) + u(V, 4, k, m, l2, l))
        return body
    return [esum(n2, term(p1, p2)) for p1, p2 in ((0, 0), (0, 1), (1, 0), (1, 1))]


def scale3(it, args, kw, f):
    """single_k_scale adds T (l1 - l2), T the same for the whole matrix (its contract below)"""
    M = args[0] if args else list(kw.values())[0]
    if not isinstance(M, Arr) or len(M.shape) != 3:
        raise Stuck("three axes expected")
    it.ctx.oblige("square in l1, l2", cmp_("==", M.shape[0], M.shape[1]), kind="pre")
    it.n11 = getattr(it, "n11", 0) + 1
    T = var("T%d" % it.n11)
    g = M.snap()
    return mkarr(M.shape, lambda ix: g(ix) + T * (ix[0] - ix[1]))


def scale4(it, args, kw, f):
    """dynamic_scaling: exp(M + T_i (l1 - l2)) (its contract below)"""
    M = args[0] if args else list(kw.values())[0]
    if not isinstance(M, Arr) or len(M.shape) != 4:
        raise Stuck("four axes expected")
    it.ctx.oblige("square in l1, l2", cmp_("==", M.shape[1], M.shape[2]), kind="pre")
    it.n11 = getattr(it, "n11", 0) + 1
    if it.n11 > 1:
        raise Stuck("more than one scaling")
    g = M.snap()
    return mkarr(M.shape, lambda ix: eexp(g(ix) + uf("T", [ix[0]]) * (ix[1] - ix[2])))


def setup(it, ext, strat=""):
    kw = {}
    if "1" in strat:
        kw.update(mat1=[abs_material(it, "c"), abs_material(it, "1"), abs_material(it, "3")], r1=[SV(var("rc", pos=1), "float"), SV(var("r1", pos=1), "float")])
    if "2" in strat:
        kw.update(mat2=[abs_material(it, "d"), abs_material(it, "2"), abs_material(it, "3")], r2=[SV(var("rd", pos=1), "float"), SV(var("r2", pos=1), "float")])
    g = geom(it, K=None, ext_flag=SV(ONE, "float") if ext else 0, roundTrip_dct={}, **kw)
    A = "strat/[matc,mat1,mat3]/[rc,r1]" if "1" in strat else "mie/mat1/mat3/r1"
    B = "strat/[matd,mat2,mat3]/[rd,r2]" if "2" in strat else "mie/mat2/mat3/r2" if ext else "int/mat3/mat2/r2"
    return g, A, B, "V/mat3/L/%d" % ext


def dims(it, mc, free="a"):
    """m, first l, number of l1 and of l''"""
    m = ZERO if mc == "m = 0" else var("m", "I", 1)
    lo = ONE if mc == "m = 0" else m
    a, b = var("a", "I", 0), var("b", "I", 0)
    return m, lo, a + 1, b + 1


def blocks(ext, strat, mc, zero, fn="blockmatrices"):
    def run(it, ctx):
        it.n11 = 0
        g, A, B, V = setup(it, ext, strat)
        m, lo, n1, n2 = dims(it, mc)
        g.attrs["lmax"], g.attrs["lssmax"] = SV(lo + n1 - 1, "int"), SV(lo + n2 - 1, "int")
        N = var("N", "I", 1)
        if zero:
            k = mkarr((N + 1,), lambda ix: ite(cmp_("==", ix[0], 0), ZERO, kval((ix[0] - 1,))))
            g.attrs["blockmatrices_k0"] = it.getattr(g, "blockmatrices_k0_" + ("ext" if ext else "int"))
        else:
            k = mkarr((N,), kval)
        fnk = k.store.fn
        snap = snapshot(g)
        r = expect_value(it, "returns", invoke(it, it.getattr(g, fn), [SV(m, "int"), k]))
        ch = fn == "blockmatrices_channels"
        names = ("EE", "EM", "ME", "MM") if not ch else ("EE through E", "EE through M", "MM through E", "MM through M", "EM through E", "EM through M", "ME through E", "ME through M")
        if not isinstance(r, (list, tuple)) or len(r) != len(names):
            return fail(it, "the blocks", "%r" % (r,))
        if it.n11 != 1:
            raise Stuck("scaling is not done by dynamic_scaling")
        ix, p = idx(it, (N, n1, n1))
        off = 1 if zero else 0
        w = npstub.with_prover(p, lambda: (spec if not ch else spec_ch)(A, B, V, kval(ix), m, lo, ix[1], ix[2], n2))
        sim = eexp(uf("T", [ix[0]]) * (ix[1] - ix[2]))
        for nm, x, y in zip(names, r, w):
            if not isinstance(x, Arr) or len(x.shape) != 3:
                return fail(it, "block " + nm, "%r" % (x,))
            post(it, "block %s: one square matrix per wavenumber" % nm, And(cmp_("==", x.shape[0], N + off), cmp_("==", x.shape[1], n1), cmp_("==", x.shape[2], n1)))
            e = npstub.with_prover(p, lambda: el(it, x, (ix[0] + off, ix[1], ix[2])))
            post(it, "block %s is reflection, translation, reflection, translation" % nm, cmp_("==", e, sim * y), prover=p)
            if zero:
                z = npstub.with_prover(p, lambda: el(it, x, (ZERO, ix[1], ix[2])))
                want = uf("z" + nm[:2], [m, ix[1], ix[2]]) if nm in ("EE", "MM", "EE through E", "MM through E") else ZERO
                post(it, "block %s: static part first" % nm, cmp_("==", z, want), prover=p)
        frame_arr(it, "wavenumbers unchanged", k, fnk)
        frame_obj(it, "geometry unchanged but for its cache", g, snap, allow=("K", "MieA", "MieB"))
    return run


def spec_ch(A, B, V, k, m, lo, a, b, n2):
    """EE via E, EE via M, MM via E, MM via M, EM via E (TE reflection at sphere 2), EM via M, ME via E, ME via M"""
    def u(what, c, *x):
        return uf("%s:%d" % (what, c), list(x))
    l1, l2 = lo + a, lo + b

    def term(p1, p2, pi):
        def body(s):
            l = lo + s
            there = u(V, 0 if pi == p1 else 2, k, m, l1, l)
            back = u(V, 1 if pi == p2 else 3, k, m, l2, l)
            return u(A, p1, k, l1) * there * u(B, pi, k, l) * back * eexp(u(A, 2, k, l1) + u(B, 2, k, l) + u(V, 4, k, m, l1, l) + u(V, 4, k, m, l2, l))
        return body
    return [esum(n2, term(*x)) for x in ((0, 0, 0), (0, 0, 1), (1, 1, 0), (1, 1, 1), (0, 1, 0), (0, 1, 1), (1, 0, 0), (1, 0, 1))]


def static(it, args, kw, f):
    a = dict(zip(("self", "m"), args))
    a.update(kw)
    m = num(a["m"])
    g = a["self"]
    n = num(g.attrs["lmax"]) - ite(cmp_(">", m, 1), m, ONE) + 1
    return [mkarr((n, n), lambda ix, b=b: uf("z" + b, [m] + list(ix))) for b in ("EE", "MM")]


SCALE = {"geometry.dynamic_scaling": scale4}
STATIC = {GEO + "blockmatrices_k0": static, GEO + "blockmatrices_k0_ext": static, GEO + "blockmatrices_k0_int": static}
TB = ["mie, mie_internal, mie_stratified, mie_coated (C08-C10) and trans_ab (C06, C07): functions of their arguments",
      "the factor c^(l1-l2) leaves traces and determinants unchanged"]
for ext in (True, False):
    for mc in ("m = 0", "m > 0"):
        for strat in ("", "1", "2", "12") if ext else ("",):
            nm = "%s, %s%s" % ("external" if ext else "internal", mc, ", layers on " + "+".join(strat) if strat else "")
            q = [GEO + "blockmatrices", GEO + "roundTrip_elements"]
            contract("C11", "blockmatrices[%s]" % nm, q, summaries=dict(SUM, **SCALE), trust=TB)(blocks(ext, strat, mc, False))
        nm = "%s, %s" % ("external" if ext else "internal", mc)
        for fn in ("blockmatrices", "blockmatrices_channels"):
            q = [GEO + fn, GEO + "roundTrip_elements"]
            contract("C11", "%s[%s, leading zero]" % (fn, nm), q, summaries=dict(SUM, **SCALE, **STATIC), trust=TB)(blocks(ext, "", mc, True, fn))
        contract("C11", "blockmatrices_channels[%s]" % nm, q, summaries=dict(SUM, **SCALE), trust=TB)(blocks(ext, "", mc, False, "blockmatrices_channels"))


# ---------------------------------------------------------------- zero frequency
def refl0(tag):
    def s(it, args, kw, f):
        a = mie_args(("self", "lmin", "lmax", "R"))(args, kw)
        lo, hi = num(a["lmin"]), num(a["lmax"])
        what = "/".join([tag] + [label(x) for x in a["self"].attrs["@what"]] + [label(a["R"])])
        return mkarr((C(3), hi - lo + 1), lambda ix: pick(ix[0], [uf(what + ":%d" % c, [lo + ix[1]]) for c in range(3)]))
    return s


def spec0(ext, A, B, V, m, l1, l2, lo, n2):
    r1, r2, L = var("r1", pos=1), var("r2", pos=1), var("L", pos=1)

    def term(p):
        def body(s):
            l = lo + s
            t = (sg(l - l2) * uf(A + ":%d" % p, [l1]) * uf(B + ":%d" % p, [l]) * uf(V + ":0", [m, l1, l]) * uf(V + ":0", [m, l2, l])
                 * eexp(uf(A + ":2", [l1]) + uf(B + ":2", [l]) + uf(V + ":1", [m, l1, l]) + uf(V + ":1", [m, l2, l])))
            if ext:
                return t * eexp((l1 + l2 + 1) * elog(r1 / L) + (2 * l + 1) * elog(r2 / L))
            return ite(And(cmp_(">=", l, l1), cmp_(">=", l, l2)), t * eexp((l1 + l2 + 1) * elog(r1) + (2 * l - l1 - l2) * elog(L) - (2 * l + 1) * elog(r2)), ZERO)
        return body
    return [esum(n2, term(p)) for p in (0, 1)]


SUM0 = dict(SUM, **{SC + "mie_k0": refl0("mie0"), SC + "mie_internal_k0": refl0("int0"), "geometry.single_k_scale": scale3})


def blocks0(ext, mc, warm=False):
    def run(it, ctx):
        it.n11 = 0
        g, _, _, V = setup(it, ext)
        m, lo, n1, n2 = dims(it, mc)
        g.attrs["lmax"], g.attrs["lssmax"] = SV(lo + n1 - 1, "int"), SV(lo + n2 - 1, "int")
        f = it.getattr(g, "blockmatrices_k0_" + ("ext" if ext else "int"))
        if warm:
            m0 = var("m0", "I", 0)
            it.ctx.prover.assume(cmp_("<=", m0, lo + n1 - 1))
            expect_value(it, "returns (earlier call)", invoke(it, f, [SV(m0, "int")]))
            it.n11 = 0
        r = expect_value(it, "returns", invoke(it, f, [SV(m, "int")]))
        if not isinstance(r, (list, tuple)) or len(r) != 2:
            return fail(it, "two blocks", "%r" % (r,))
        ix, p = idx(it, (n1, n1))
        l1, l2 = lo + ix[0], lo + ix[1]
        w = npstub.with_prover(p, lambda: spec0(ext, "mie0/mat1/mat3/r1", "mie0/mat2/mat3/r2" if ext else "int0/mat3/mat2/r2", V + "/0", m, l1, l2, lo, n2))
        for nm, x, y in zip(("EE", "MM"), r, w):
            if not isinstance(x, Arr) or len(x.shape) != 2:
                return fail(it, "block " + nm, "%r" % (x,))
            post(it, "block %s is square" % nm, And(cmp_("==", x.shape[0], n1), cmp_("==", x.shape[1], n1)))
            e = npstub.with_prover(p, lambda: el(it, x, ix))
            Ts = [ATOMS[a].name for a in sorted(all_atoms(e)) if ATOMS[a].kind == "var" and ATOMS[a].name[:1] == "T" and ATOMS[a].name[1:].isdigit()]
            sim = eexp(var(Ts[0]) * (ix[0] - ix[1])) if Ts else ONE
            goal = cmp_("==", e, sim * y)
            if prove(p.copy(), goal, 4000).status != "proved":
                # the other sign of the similarity factor
                other = cmp_("==", e, sg(l1 - l2) * sim * y)
                if prove(p.copy(), other, 4000).status == "proved":
                    goal = other
            post(it, "block %s is the static product" % nm, goal, prover=p)
    return run


T0 = ["mie_k0, mie_internal_k0 (C09) and trans_ab at zero frequency (C07): functions of their arguments"]
for ext in (True, False):
    for mc in ("m = 0", "m > 0"):
        nm = "%s, %s" % ("external" if ext else "internal", mc)
        q = [GEO + "blockmatrices_k0_" + ("ext" if ext else "int"), GEO + "roundTrip_elements_k0"]
        contract("C11", "blockmatrices_k0[%s]" % nm, q, summaries=SUM0, trust=T0)(blocks0(ext, mc))


# ---------------------------------------------------------------- similarity
def lg(e):
    """logarithm, branch by branch"""
    m = e.mono()
    if m is not None and m[0] == 1 and len(m[1]) == 1 and m[1][0][1] == 1 and ATOMS[m[1][0][0]].kind == "ite":
        c, a, b = ATOMS[m[1][0][0]].args
        return ite(c, lg(a), lg(b))
    return elog(e)


def scaling(four, many):
    def run(it, ctx):
        n = var("n", "I", 1) + 1 if many else ONE
        S, N = var("S", "I", 1), var("N", "I", 1)
        M = mkarr(((N,) if four else ()) + (n, n, S), lambda ix: uf("M", list(ix)))
        fnm = M.store.fn
        r = expect_value(it, "returns", invoke(it, it.func("geometry.dynamic_scaling" if four else "geometry.single_k_scale"), [M]))
        if not isinstance(r, Arr) or len(r.shape) != len(M.shape):
            return fail(it, "same shape", "%r" % (r,))
        post(it, "same shape", And(*[cmp_("==", x, y) for x, y in zip(r.shape, M.shape)]))
        ix, p = idx(it, M.shape)
        ab = ix[-3] - ix[-2]
        lead = ix[:1] if four else ()
        e = npstub.with_prover(p, lambda: el(it, r, ix))
        if many:
            o = lead + (ONE, ZERO, ZERO)
            T = npstub.with_prover(p, lambda: (lg(el(it, r, o)) if four else el(it, r, o)) - M.get(o))
        else:
            T = ZERO
        if four:
            post(it, "positive", cmp_(">", e, 0), prover=p)
            post(it, "exp(M + T (l1-l2)), one T per matrix", npstub.with_prover(p, lambda: cmp_("==", lg(e), uf("M", list(ix)) + T * ab)), prover=p)
        else:
            post(it, "M + T (l1-l2), one T", cmp_("==", e, uf("M", list(ix)) + T * ab), prover=p)
        frame_arr(it, "argument unchanged", M, fnm)
    return run


for many in (False, True):
    nm = "n > 1" if many else "n = 1"
    contract("C11", "single_k_scale[%s]" % nm, ["geometry.single_k_scale"])(scaling(False, many))
    contract("C11", "dynamic_scaling[%s]" % nm, ["geometry.dynamic_scaling", "geometry.single_k_scale"])(scaling(True, many))


# ---------------------------------------------------------------- assembly
def assemble(fn):
    def run(it, ctx):
        N, n, m = var("N", "I", 1), var("n", "I", 1), var("m", "I", 0)
        bl = [mkarr((N, n, n), lambda ix, b=b: uf("b" + b, list(ix))) for b in ("EE", "EM", "ME", "MM")]
        fns = [b.store.fn for b in bl]
        k = mkarr((N,), kval)
        if fn == "matrix_append":
            r = invoke(it, it.func("geometry.matrix_append"), [list(bl)])
        else:
            g = geom(it)
            it.bl11 = bl
            r = invoke(it, it.getattr(g, "supermatrix"), [SV(m, "int"), k])
        r = expect_value(it, "returns", r)
        if not isinstance(r, Arr) or len(r.shape) != 3:
            return fail(it, "one matrix per wavenumber", "%r" % (r,))
        post(it, "one 2n x 2n matrix per wavenumber", And(cmp_("==", r.shape[0], N), cmp_("==", r.shape[1], 2 * n), cmp_("==", r.shape[2], 2 * n)))
        for u, v, b in ((0, 0, "EE"), (0, 1, "EM"), (1, 0, "ME"), (1, 1, "MM")):
            ix, p = idx(it, (N, n, n))
            e = npstub.with_prover(p, lambda: el(it, r, (ix[0], ix[1] + u * n, ix[2] + v * n)))
            post(it, "%s in its quadrant" % b, cmp_("==", e, uf("b" + b, list(ix))), prover=p)
        for x, f in zip(bl, fns):
            frame_arr(it, "blocks unchanged", x, f)
    return run


def given(it, args, kw, f):
    a = dict(zip(("self", "m", "matsubaras"), args))
    a.update(kw)
    it.ctx.oblige("blocks of the m asked for", cmp_("==", num(a["m"]), var("m", "I", 0)), kind="pre")
    ix, p = idx(it, a["matsubaras"].shape)
    it.ctx.oblige("blocks at the wavenumbers asked for", cmp_("==", a["matsubaras"].get(ix), kval(ix)), kind="pre", prover=p, assume=False)
    return list(it.bl11)


contract("C11", "matrix_append", ["geometry.matrix_append"])(assemble("matrix_append"))
contract("C11", "supermatrix", [GEO + "supermatrix"], summaries={GEO + "blockmatrices": given})(assemble("supermatrix"))


# ---------------------------------------------------------------- coated spheres
CS = "geometry.CoatedSphereSphere."


def coated(mc, warm=False):
    def run(it, ctx):
        it.n11 = 0
        m, lo, n1, n2 = dims(it, mc)
        s = lambda n: SV(var(n, pos=1), "float")
        mats = {n: abs_material(it, n) for n in ("c1", "o1", "c2", "o2", "md")}
        cls = it.module("geometry").ns["CoatedSphereSphere"]
        L = var("L", pos=1)
        it.ctx.prover.assume(cmp_(">", L, var("a1", pos=1) + var("a2", pos=1)))
        g = expect_value(it, "construct", invoke(it, cls, [s("i1"), s("a1"), mats["c1"], mats["o1"], s("i2"), s("a2"), mats["c2"], mats["o2"], SV(L, "float"), mats["md"],
                                                         SV(lo + n1 - 1, "int"), SV(lo + n2 - 1, "int")]))
        N = var("N", "I", 1)
        k = mkarr((N,), kval)
        if warm:
            N1, m1 = var("N1", "I", 1), var("m1", "I", 0)
            it.ctx.prover.assume(cmp_("<=", m1, lo + n1 - 1))
            k1 = mkarr((N1,), lambda ix: uf("k1", list(ix), pos=1))
            expect_value(it, "returns (earlier call)", invoke(it, it.getattr(g, "blockmatrices"), [SV(m1, "int"), k1]))
            overwrite(k1, "kother")
            it.n11 = 0
        r = expect_value(it, "returns", invoke(it, it.getattr(g, "blockmatrices"), [SV(m, "int"), k]))
        if not isinstance(r, (list, tuple)) or len(r) != 4:
            return fail(it, "the blocks", "%r" % (r,))
        if it.n11 != 1:
            raise Stuck("scaling is not done by dynamic_scaling")
        ix, p = idx(it, (N, n1, n1))
        w = npstub.with_prover(p, lambda: spec("coat/matc1/mato1/matmd/i1/a1", "coat/matc2/mato2/matmd/i2/a2", "V/matmd/L/1", kval(ix), m, lo, ix[1], ix[2], n2))
        sim = eexp(uf("T", [ix[0]]) * (ix[1] - ix[2]))
        for nm, x, y in zip(("EE", "EM", "ME", "MM"), r, w):
            if not isinstance(x, Arr) or len(x.shape) != 3:
                return fail(it, "block " + nm, "%r" % (x,))
            post(it, "block %s: one square matrix per wavenumber" % nm, And(cmp_("==", x.shape[0], N), cmp_("==", x.shape[1], n1), cmp_("==", x.shape[2], n1)))
            e = npstub.with_prover(p, lambda: el(it, x, ix))
            post(it, "block %s is reflection, translation, reflection, translation" % nm, cmp_("==", e, sim * y), prover=p)
    return run


for mc in ("m = 0", "m > 0"):
    contract("C11", "coated spheres[%s]" % mc, [CS + "__init__", GEO + "__init__", CS + "roundTrip_elements", GEO + "blockmatrices"], summaries=dict(SUM, **SCALE), trust=TB)(coated(mc))
