from gens import *


def geometry(c, ext=None, kinds=("lor", "drude", "plasma"), mag=0.2, pec=0.2, simple=False):
    G = need("geometry", "SphereSphere")
    ext = c.pick(True, False) if ext is None else ext
    mk = lambda kk, pp: (material(c, kk, mag, pp) if not simple else lorentz(c, kk, pp))
    m1, m2 = mk(kinds, pec), mk(kinds, pec)
    m3 = mk(("lor",), 0)
    r1 = c.lu(0.3, 4)
    if ext:
        r2 = c.lu(0.3, 4)
        L = (r1 + r2) * c.u(1.1, 3)
    else:
        r2 = r1 * c.u(1.5, 4)
        L = (r2 - r1) * c.u(0.2, 0.8)
    lmax = c.int(1, 4)
    lss = lmax + c.int(0, 3)
    return G, ext, m1, m2, m3, r1, r2, L, lmax, lss


def lorentz(c, kinds, pec):
    M = need("materials")
    if c.p(pec):
        return (M.PerfectConductor, None, None)
    o = []
    while not o:
        o = osclist(c, 3, kinds)
    L = M.LorentzMaterial(o, bprops(c, 0.2))
    L.__class__.__repr__ = lambda s: "LorentzMaterial(%r, %r)" % (s.e_properties, s.b_properties)
    return (L, None, None)


def make(G, c, m1, m2, m3, r1, r2, L, lmax, lss, **kw):
    c.note(r1=r1, r2=r2, L=L, mat1=m1, mat2=m2, mat3=m3, lmax=lmax, lssmax=lss, **kw)
    return call("SphereSphere", G, r1, r2, L, m1, m2, m3, lmax=lmax, lssmax=lss, **kw)


def similar(got, want, mags, l0, what):
    """got[p] == want[p] * c^(l1-l2) with one c>0 for all blocks; mags: size of the summands"""
    n = want[0].rows
    logc = None
    best = 0
    for g, w, s in zip(got, want, mags):
        for a in range(n):
            for b in range(n):
                if a != b and abs(w[a, b]) > 1e-6 * s[a, b] and s[a, b] > 0 and g[a, b] != 0:
                    q = float(abs(w[a, b]) / s[a, b]) * abs(a - b)
                    if q > best:
                        best = q
                        logc = float(mp.log(abs(mpf(float(g[a, b])) / w[a, b]))) / (a - b)
    cc = mp.exp(mpf(logc)) if logc is not None else mpf(1)
    for p, (g, w, s) in enumerate(zip(got, want, mags)):
        for a in range(n):
            for b in range(n):
                if logc is None and a != b:
                    continue
                ww = w[a, b] * cc ** (a - b)
                if not abs(mpf(float(g[a, b])) - ww) <= 1e-8 * s[a, b] * cc ** (a - b) + mpf(10) ** -280:
                    bad("%s: block %d entry (%d,%d) is %r instead of %s (similarity factor %s)" % (what, p, l0 + a, l0 + b, float(g[a, b]), mp.nstr(ww, 12), mp.nstr(cc, 8)))


def product(MA, MB, V, m, q, lmax, lss):
    """the four blocks for wavenumber q from reflections MA, MB and translations V (scaled triples)"""
    lo = max(1, m)
    n1, n2 = lmax - lo + 1, lss - lo + 1
    A = [[mpf(float(MA[p][q, lo - 1 + a])) * mp.exp(mpf(float(MA[2][q, lo - 1 + a]))) for a in range(n1)] for p in (0, 1)]
    Bm = [[mpf(float(MB[p][q, lo - 1 + s])) * mp.exp(mpf(float(MB[2][q, lo - 1 + s]))) for s in range(n2)] for p in (0, 1)]
    W = [[[mpf(float(V[j][q, a, s])) * mp.exp(mpf(float(V[4][q, a, s]))) for s in range(n2)] for a in range(n1)] for j in range(4)]
    out, mag = [], []
    # pol 0 = TE, 1 = TM ; conserving: W[0] (there), W[1] (back); mixing: W[2], W[3]
    for p1 in (0, 1):
        for p2 in (0, 1):
            w = mp.matrix(n1, n1)
            g = mp.matrix(n1, n1)
            for a in range(n1):
                for b in range(n1):
                    for s in range(n2):
                        for pi in (0, 1):
                            t = A[p1][a] * (W[0] if p1 == pi else W[2])[a][s] * Bm[pi][s] * (W[1] if pi == p2 else W[3])[b][s]
                            w[a, b] += t
                            g[a, b] += abs(t)
            out.append(w)
            mag.append(g)
    return out, mag


def blocks_of(c, what, res, q):
    return [np.asarray(x)[q] for x in res]


def pieces(m1, m2, m3, ext, r1, r2, L, lmax, lss, m, k):
    S = need("scattering", "scattering")
    T = need("translation", "translation")
    ST = need("stratified_sphere_scattering", "StratifiedMieScattering")
    MA = ST(list(m1), list(r1)).mie_stratified(k, 1, lmax) if isinstance(m1, list) else S(m1, m3).mie(k, 1, lmax, r1)
    if isinstance(m2, list):
        MB = ST(list(m2), list(r2)).mie_stratified(k, 1, lss)
    else:
        MB = S(m2, m3).mie(k, 1, lss, r2) if ext else S(m3, m2).mie_internal(k, 1, lss, r2)
    V = T(lmax, lss, m, m3, L, k, 1 if ext else 0, 0).trans_ab()
    return MA, MB, V


@rt("C11", "blockmatrices: product of reflections and translations", 50, quals=["geometry.SphereSphere.blockmatrices", "geometry.SphereSphere.roundTrip_elements", "geometry.dynamic_scaling", "geometry.single_k_scale"])
def blocks(c):
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c)
    m = c.int(0, lmax)
    k = np.array([c.lu(0.02, 3) / L for _ in range(c.int(1, 3))])
    a1, a2 = m1[0], m2[0]
    R1, R2 = r1, r2
    if ext and c.p(0.3):
        a1, R1 = [m1[0], material(c)[0], m3[0]], [r1 * 0.7, r1]
    if ext and c.p(0.2):
        a2, R2 = [m2[0], material(c)[0], m3[0]], [r2 * 0.6, r2]
    g = make(G, c, a1, a2, m3[0], R1, R2, L, lmax, lss)
    c.note(m=m, k=k)
    if c.p(0.5):
        call("warm-up", g.blockmatrices, c.int(0, lmax), k)
    res = call("blockmatrices", g.blockmatrices, m, k)
    n = lmax - max(1, m) + 1
    check(len(res) == 4, "four blocks expected")
    for x in res:
        check(np.shape(x) == (len(k), n, n), "block shape %s" % (np.shape(x),))
    MA, MB, V = pieces(a1, a2, m3[0], ext, R1, R2, L, lmax, lss, m, k)
    for q in range(len(k)):
        w, mag = product(MA, MB, V, m, q, lmax, lss)
        similar([np.asarray(x)[q] for x in res], w, mag, max(1, m), "k=%r" % float(k[q]))
    if hasattr(g, "blockmatrices_channels"):
        ch = call("blockmatrices_channels", g.blockmatrices_channels, m, k)
        if len(ch) == 8:
            s = [ch[0] + ch[1], ch[4] + ch[5], ch[6] + ch[7], ch[2] + ch[3]]
            for j in range(4):
                close(s[j], res[j], 1e-9, 1e-12 * np.abs(res[j]).max(), "channel decomposition of block %d" % j)


@rt("C11", "coated spheres: blockmatrices use both coated coefficients", 25, quals=["geometry.CoatedSphereSphere.roundTrip_elements"])
def coatedblocks(c):
    K = need("geometry", "CoatedSphereSphere")
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, ext=True)
    c1, c2 = material(c), material(c)
    m = c.int(0, lmax)
    k = np.array([c.lu(0.02, 3) / L for _ in range(c.int(1, 2))])
    f1, f2 = c.u(0.4, 0.9), c.u(0.4, 0.9)
    c.note(core1=m1[0], coat1=c1[0], core2=m2[0], coat2=c2[0], medium=m3[0], r1=r1, r2=r2, L=L, lmax=lmax, lssmax=lss, m=m, k=k, f1=f1, f2=f2)
    g = call("CoatedSphereSphere", K, f1 * r1, r1, m1[0], c1[0], f2 * r2, r2, m2[0], c2[0], L, m3[0], lmax, lss)
    res = call("blockmatrices", g.blockmatrices, m, k)
    CM = need("scattering", "coated_miescattering")
    MA = CM(m1[0], c1[0], m3[0]).mie_coated(k, 1, lmax, f1 * r1, r1)
    MB = CM(m2[0], c2[0], m3[0]).mie_coated(k, 1, lss, f2 * r2, r2)
    V = need("translation", "translation")(lmax, lss, m, m3[0], L, k, 1, 0).trans_ab()
    for q in range(len(k)):
        w, mag = product(MA, MB, V, m, q, lmax, lss)
        similar([np.asarray(x)[q] for x in res], w, mag, max(1, m), "k=%r" % float(k[q]))


@rt("C11", "zero-frequency blocks are the static products and the k->0 limit", 50, quals=["geometry.SphereSphere.blockmatrices_k0_ext", "geometry.SphereSphere.blockmatrices_k0_int", "geometry.SphereSphere.roundTrip_elements_k0"])
def k0blocks(c):
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, simple=True)
    m = c.int(0, lmax)
    g = make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss)
    c.note(m=m)
    if c.p(0.5):
        call("warm-up", g.blockmatrices_k0, c.int(0, lmax))
    res = call("blockmatrices_k0", g.blockmatrices_k0, m)
    lo = max(1, m)
    n = lmax - lo + 1
    check(len(res) == 2, "two blocks expected")
    S, T = need("scattering", "scattering"), need("translation", "translation")
    MA = S(m1[0], m3[0]).mie_k0(1, lmax, r1)
    MB = S(m2[0], m3[0]).mie_k0(1, lss, r2) if ext else S(m3[0], m2[0]).mie_internal_k0(1, lss, r2)
    sg, ln = T(lmax, lss, m, m3[0], L, np.array([0]), 1 if ext else 0, 0).trans_ab()
    want, mag = [], []
    R1, R2, LL = mpf(r1), mpf(r2), mpf(L)
    for p in (0, 1):
        w, s_ = mp.matrix(n, n), mp.matrix(n, n)
        for a in range(n):
            for b in range(n):
                for s in range(lss - lo + 1):
                    l1, l2, ls = lo + a, lo + b, lo + s
                    t = (mpf(float(MA[p][l1 - 1])) * mp.exp(mpf(float(MA[2][l1 - 1]))) * mpf(float(MB[p][ls - 1])) * mp.exp(mpf(float(MB[2][ls - 1])))
                         * mp.exp(mpf(float(ln[a, s])) + mpf(float(ln[b, s]))) * float(sg[a, s]) * float(sg[b, s]))
                    if ext:
                        t *= (-1) ** (ls - l2) * (R1 / LL) ** (l1 + l2 + 1) * (R2 / LL) ** (2 * ls + 1)
                    else:
                        if ls < l1 or ls < l2:
                            continue
                        t *= (-1) ** (ls - l1) * (R1 / R2) * (R1 / LL) ** (l1 + l2) * (LL / R2) ** (2 * ls)
                    w[a, b] += t
                    s_[a, b] += abs(t)
        want.append(w)
        mag.append(s_)
    for x in res:
        check(np.shape(x) == (n, n), "block shape %s" % (np.shape(x),))
    similar_sgn(res, want, mag, lo)


@rt("C11", "a leading zero wavenumber: static blocks first, no mixing", 25, quals=["geometry.SphereSphere.blockmatrices", "geometry.SphereSphere.blockmatrices_channels"])
def leading(c):
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, simple=True)
    m = c.int(0, lmax)
    k = np.array([c.lu(0.02, 3) / L for _ in range(c.int(1, 3))])
    g = make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss)
    c.note(m=m, k=k)
    st = call("blockmatrices_k0", g.blockmatrices_k0, m)
    fin = call("blockmatrices", g.blockmatrices, m, k)
    z = np.zeros(np.shape(st[0]))
    want = [np.append([a], b, axis=0) for a, b in zip((st[0], z, z, st[1]), fin)]
    k0 = np.append(0.0, k)
    res = call("blockmatrices", g.blockmatrices, m, k0)
    check(len(res) == 4, "four blocks expected")
    alt = res
    if hasattr(g, "blockmatrices_channels"):
        ch = call("blockmatrices_channels", g.blockmatrices_channels, m, k0)
        if len(ch) == 8:
            for x in ch:
                check(np.shape(x) == np.shape(want[0]), "channel shape %s" % (np.shape(x),))
            alt = [ch[0] + ch[1], ch[4] + ch[5], ch[6] + ch[7], ch[2] + ch[3]]
    for got, what in ((res, "blockmatrices"), (alt, "channels")):
        for j in range(4):
            check(np.shape(got[j]) == np.shape(want[j]), "%s: shape %s of block %d" % (what, np.shape(got[j]), j))
            close(got[j], want[j], 1e-9, 1e-12 * np.abs(want[j]).max(), "%s: block %d for wavenumbers 0 and k" % (what, j))
    check((k0 == np.append(0.0, k)).all(), "array of wavenumbers changed")


def similar_sgn(got, want, mags, lo):
    """as similar(), but the similarity may also carry the sign (-1)^(l1-l2)"""
    try:
        similar(got, want, mags, lo, "k=0")
        return
    except Violation as e:
        first = e
    n = want[0].rows
    alt = []
    for w in want:
        v = mp.matrix(n, n)
        for a in range(n):
            for b in range(n):
                v[a, b] = w[a, b] * (-1) ** (a - b)
        alt.append(v)
    try:
        similar(got, alt, mags, lo, "k=0")
    except Violation:
        raise first


@rt("C11", "zero-frequency blocks: limit of finite frequency (similarity invariants)", 25, quals=["geometry.SphereSphere.blockmatrices_k0"])
def k0limit(c):
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, kinds=("lor",), simple=True)
    m = c.int(0, lmax)
    g = make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss)
    if not ext:
        raise Skip("external only")
    k = np.array([2e-3 / (L * math.sqrt(float(np.max(m3[0].epsilon(np.array([1e-3]))))))])
    # stay far below every resonance of the materials
    lows = [o[1] / 2.998e14 for q in (m1, m2, m3) if q[1] is None and hasattr(q[0], "e_properties") for o in q[0].e_properties if o[0]]
    mags = [q[0].b_properties[1] / 2.998e14 for q in (m1, m2, m3) if hasattr(q[0], "b_properties") and q[0].b_properties]
    k = np.minimum(k, 1e-3 * min(lows + [1e9]))
    k = np.minimum(k, 1e-6 * min(mags + [1e9]))
    if k[0] * L < 2e-5 or (mags):
        return
    for e in (m1, m2, m3):
        if hasattr(e[0], "epsilon") and e[0].__class__.__name__ != "PerfectConductor":
            ep = np.asarray(e[0].epsilon(k))[0]
            if k[0] * math.sqrt(ep) * max(r1, r2, L) > 2e-2 or k[0] * math.sqrt(ep) * min(r1, r2) > 9e-4 * 1 and k[0] * math.sqrt(ep) * min(r1, r2) < 5e-3:
                return
    # the contrast at k must already be the static one
    ev = lambda q, x: float(np.asarray(q[0].epsilon(np.array([x])))[0])
    try:
        e3 = ev(m3, 0.0)
        for q in (m1, m2):
            if not getattr(q[0], "is_perfect_conductor", False):
                if abs(ev(q, 0.0) - ev(q, float(k[0]))) + abs(e3 - ev(m3, float(k[0]))) > 2e-3 * abs(ev(q, 0.0) - e3):
                    return
    except (TypeError, AttributeError, ZeroDivisionError, NotImplementedError):
        pass
    c.note(m=m, k=k)
    a = call("blockmatrices_k0", g.blockmatrices_k0, m)
    b = [np.asarray(x)[0] for x in call("blockmatrices", g.blockmatrices, m, k)]
    n = a[0].shape[0]
    for p, f in ((0, b[0]), (1, b[3])):
        z = np.asarray(a[p])
        sc = np.abs(np.diag(z)) + 1e-12 * np.abs(z).max()
        d = np.abs(np.diag(z) - np.diag(f))
        check((d <= 2e-2 * sc + 1e-5 * np.abs(np.diag(b[3])).max() + 1e-5 * sc).all(), "diagonal of block %d: %s at k=0, %s at k=%r" % (p, np.diag(z), np.diag(f), float(k[0])))


@rt("C11", "leading zero wavenumber and quadrant assembly", 40, quals=["geometry.SphereSphere.blockmatrices", "geometry.matrix_append", "geometry.SphereSphere.supermatrix"])
def assemble(c):
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, simple=True)
    m = c.int(0, lmax)
    g = make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss)
    k = np.array([c.lu(0.05, 3) / L for _ in range(c.int(1, 3))])
    c.note(m=m, k=k)
    kz = np.append(0.0, k)
    k1 = kz.copy()
    a = call("blockmatrices with leading zero", g.blockmatrices, m, kz)
    unchanged(k1, kz, "wavenumbers")
    z = call("blockmatrices_k0", g.blockmatrices_k0, m)
    f = call("blockmatrices", make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss).blockmatrices, m, k)
    for j in range(4):
        w0 = np.asarray(z[0]) if j == 0 else np.asarray(z[1]) if j == 3 else np.zeros(np.shape(z[0]))
        close(np.asarray(a[j])[0], w0, 1e-12, 0, "zero-frequency part of block %d" % j)
        close(np.asarray(a[j])[1:], f[j], 1e-11, 1e-13 * np.abs(f[j]).max(), "finite-frequency part of block %d" % j)
    A = call("matrix_append", need("geometry", "matrix_append"), f)
    w = np.concatenate([np.concatenate([f[0], f[1]], 2), np.concatenate([f[2], f[3]], 2)], 1)
    close(A, w, 0, 0, "matrix_append")
    if hasattr(g, "supermatrix"):
        close(call("supermatrix", g.supermatrix, m, k, 0), w, 1e-11, 1e-13 * np.abs(w).max(), "supermatrix")


@rt("C11", "dynamic_scaling is a diagonal similarity", 150, quals=["geometry.dynamic_scaling", "geometry.single_k_scale"])
def scaling(c):
    D, Sk = need("geometry", "dynamic_scaling"), need("geometry", "single_k_scale")
    n, s, q = c.int(1, 6), c.int(1, 5), c.int(1, 3)
    M = np.array([[[[c.u(-20, 20) for _ in range(s)] for _ in range(n)] for _ in range(n)] for _ in range(q)])
    c.note(M=M)
    M0 = M.copy()
    r = np.log(np.asarray(call("dynamic_scaling", D, M)))
    unchanged(M0, M, "argument")
    check(r.shape == M.shape, "shape")
    for j in range(q):
        d = r[j] - M[j]
        d1 = np.asarray(call("single_k_scale", Sk, M[j])) - M[j]
        close(d1, d, 1e-9, 1e-9, "single_k_scale and dynamic_scaling")
        x = d[1, 0, 0] if n > 1 else 0
        w = x * (np.arange(n)[:, None] - np.arange(n)[None, :])[:, :, None] * np.ones(s)
        close(d, w, 1e-9, 1e-8, "log scaling is x*(l1-l2)")
