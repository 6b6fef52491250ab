from gens import *


def setup(c, kmax=6):
    T = need("translation", "translation")
    ext = c.pick(0, 1)
    m = c.pick(0, 0, 1, 2, c.int(0, 5))
    lmax = max(1, m) + c.int(0, 4)
    lss = max(1, m) + c.int(0, 5)
    mat, eps, mu = material(c, ("lor",), mag=0.0)
    if isinstance(mat, Mat):
        mat.m = 1.0
    L = c.lu(0.2, 20)
    k = np.array([c.lu(1e-3, 8) / L * c.pick(1, 1, 4) for _ in range(c.int(1, 3))])
    for i in range(len(k)):         # the continued fraction of the regular functions is cut off: stay inside its accurate range
        while float(mp.sqrt(eps(float(k[i])))) * k[i] * L > 200:
            k[i] /= 3
    c.note(ext_flag=ext, m=m, lmax=lmax, lssmax=lss, medium=mat, L=L, k=k)
    return T, ext, m, lmax, lss, mat, eps, L, k


def compare(v, sc, l1, l2, m, x, ext, what):
    want, mag = O.vcoef(l1, l2, m, x, ext)
    if not math.isfinite(float(sc)):
        bad("%s: scaling %r" % (what, sc))
    s = mp.exp(mpf(float(sc)))
    for j, nm in enumerate(("EE_ab", "EE_ba", "EM_ab", "EM_ba")):
        got = mpf(float(v[j])) * s
        t = (1e-9 + 1e-12 * float(x) + (0 if ext or x < 1e-3 else 1e-14 / float(x) ** 3)) * mag[0 if j < 2 else 1]
        if not abs(got - want[j]) <= t:
            bad("%s %s: %s instead of %s" % (what, nm, mp.nstr(got, 15), mp.nstr(want[j], 15)))


@rt("C06", "trans_ab equals the multipole sum", 90, quals=["translation.translation.trans_ab", "translation.translation.get_vl1l2", "translation.translation.get_scaled_bessels"])
def transab(c):
    T, ext, m, lmax, lss, mat, eps, L, k = setup(c)
    k0 = k.copy()
    V = call("trans_ab", lambda: T(lmax, lss, m, mat, L, k, c.pick(ext, float(ext)), 0).trans_ab())
    unchanged(k0, k, "k")
    lo = max(1, m)
    sh = (len(k), lmax - lo + 1, lss - lo + 1)
    check(len(V) >= 5, "trans_ab returns %d arrays" % len(V))
    for a in V[:5]:
        check(np.shape(a) == sh, "shape %s instead of %s" % (np.shape(a), sh))
    for _ in range(6):
        q, a, b = c.int(0, sh[0] - 1), c.int(0, sh[1] - 1), c.int(0, sh[2] - 1)
        x = mp.sqrt(eps(float(k[q]))) * mpf(float(k[q])) * mpf(L)
        compare([V[j][q, a, b] for j in range(4)], V[4][q, a, b], lo + a, lo + b, m, x, ext,
                "k=%r l1=%d l2=%d" % (float(k[q]), lo + a, lo + b))
    if m == 0:
        check(not np.any(V[2]) and not np.any(V[3]), "polarisation mixing for m=0")


@rt("C06", "get_vl1l2 for single pairs", 90, quals=["translation.translation.get_vl1l2"])
def single(c):
    T, ext, m, lmax, lss, mat, eps, L, k = setup(c)
    t = call("construct", T, lmax, lss, m, mat, L, k, ext, 0)
    if not hasattr(t, "get_vl1l2"):
        raise Skip("get_vl1l2")
    lo = max(1, m)
    l1, l2 = c.int(lo, lmax), c.int(lo, lss)
    c.note(l1=l1, l2=l2)
    v = call("get_vl1l2", t.get_vl1l2, l1, l2)
    v2 = call("get_vl1l2", t.get_vl1l2, l1, l2)
    for q in range(len(k)):
        x = mp.sqrt(eps(float(k[q]))) * mpf(float(k[q])) * mpf(L)
        compare([v[j][q] for j in range(4)], v[4][q], l1, l2, m, x, ext, "k=%r" % float(k[q]))
        compare([v2[j][q] for j in range(4)], v2[4][q], l1, l2, m, x, ext, "second evaluation, k=%r" % float(k[q]))


@rt("C06", "large angular momenta", 10, quals=["translation.translation.get_vl1l2", "translation.translation.get_scaled_bessels"])
def large(c):
    T = need("translation", "translation")
    ext = c.pick(0, 1)
    l1, l2 = c.int(40, 90), c.int(40, 90)
    m = c.pick(0, 1, c.int(0, 8))
    mat, eps, mu = material(c, ("lor",), mag=0.0)
    if isinstance(mat, Mat):
        mat.m = 1.0
    L = c.lu(0.2, 20)
    k = np.array([c.lu(1e-3, 5) / L])
    while float(mp.sqrt(eps(float(k[0])))) * k[0] * L > 100:
        k[0] /= 3
    c.note(ext_flag=ext, m=m, l1=l1, l2=l2, medium=mat, L=L, k=k)
    t = call("construct", T, l1, l2, m, mat, L, k, ext, 0)
    if not hasattr(t, "get_vl1l2"):
        raise Skip("get_vl1l2")
    v = call("get_vl1l2", t.get_vl1l2, l1, l2)
    x = mp.sqrt(eps(float(k[0]))) * mpf(float(k[0])) * mpf(L)
    compare([v[j][0] for j in range(4)], v[4][0], l1, l2, m, x, ext, "l1=%d l2=%d" % (l1, l2))
