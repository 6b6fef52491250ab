from gens import *
from c11 import geometry, make, lorentz


def rblocks(c, n, size, q):
    """four (q,n,n) blocks with norm of the whole matrix about size (<1)"""
    s = size / (2.0 * n)
    return [np.array([[[c.u(-1, 1) * s for _ in range(n)] for _ in range(n)] for _ in range(q)]) for _ in range(4)]


def sizes(c, lmax):
    kind = c.pick("slow", "fast", "abrupt", "equal")
    if kind == "slow":
        return [0.5 * c.u(0.5, 0.9) ** m for m in range(lmax + 1)]
    if kind == "fast":
        return [0.8 * c.u(0.001, 0.3) ** m for m in range(lmax + 1)]
    if kind == "abrupt":
        j = c.int(1, lmax + 1)
        return [0.6 if m < j else 1e-9 * 0.1 ** m for m in range(lmax + 1)]
    return [0.4] * (lmax + 1)


def logdet1m(b):
    A = np.concatenate([np.concatenate([b[0], b[1]], 2), np.concatenate([b[2], b[3]], 2)], 1)
    return np.array([np.linalg.slogdet(np.eye(a.shape[0]) - a)[1] for a in A])


def msum(contrib, prec):
    """the specified sum; None if a decision is within a factor 3 of the threshold or ambiguous"""
    acc = contrib[0].copy()
    for m in range(1, len(contrib)):
        prev = acc.copy()
        j = int(np.abs(prev).argmax())
        if prev[j] == 0:
            return None
        top = np.sort(np.abs(prev))
        acc = acc + 2 * contrib[m]
        j2 = int(np.abs(acc).argmax())
        rels = []
        for q in {j, j2}:
            for d in (prev[q], acc[q]):
                if d == 0:
                    return None
                rels += [abs(acc[q] - prev[q]) / abs(d), abs(abs(acc[q] / prev[q]) - 1)]
        t = prec / 10
        if max(rels) < t / 3:
            return acc
        if min(rels) < t * 3:
            return None
    return acc


def stub_geo(c, lmax):
    G, ext, m1, m2, m3, r1, r2, L, _, _ = geometry(c, simple=True)
    prec = c.pick(1e-2, 1e-3, 1e-4, 1e-6)
    g = make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lmax, precision=prec)
    return g, prec


@rt("C14", "mSumme: weight one for m=0, two for m>0, stopping rule", 200, quals=["geometry.SphereSphere.mSumme"])
def fin(c):
    lmax = c.int(1, 5)
    g, prec = stub_geo(c, lmax)
    q = c.int(1, 4)
    k = np.array(sorted(c.lu(0.01, 10) for _ in range(q)))
    sz = sizes(c, lmax)
    B = {m: rblocks(c, lmax + 1 - max(1, m), min(sz[m], 0.95), q) for m in range(lmax + 1)}
    seen = []

    def stub(m, ks):
        seen.append(m)
        idx = [int(np.where(k == x)[0][0]) for x in ks]
        return [x[idx].copy() for x in B[m]]
    g.blockmatrices = stub
    c.note(k=k, blocks=B)
    want = msum([logdet1m(B[m]) for m in range(lmax + 1)], prec)
    if want is None:
        return
    k0 = k.copy()
    got = call("mSumme", g.mSumme, k)
    if not seen:
        raise Skip("blockmatrices is not what mSumme uses")
    unchanged(k0, k, "wavenumbers")
    close(got, want, 1e-9, 1e-12, "sum over m")


@rt("C14", "mSumme_k0: weight one for m=0, two for m>0, stopping rule", 200, quals=["geometry.SphereSphere.mSumme_k0"])
def zero(c):
    lmax = c.int(1, 5)
    g, prec = stub_geo(c, lmax)
    sz = sizes(c, lmax)
    B = {}
    for m in range(lmax + 1):
        b = rblocks(c, lmax + 1 - max(1, m), min(sz[m], 0.95), 1)
        B[m] = [b[0][0], b[3][0]]
    seen = []

    def stub(m):
        seen.append(m)
        return [x.copy() for x in B[m]]
    g.blockmatrices_k0 = stub
    c.note(blocks=B)
    ld = lambda a: np.linalg.slogdet(np.eye(a.shape[0]) - a)[1]
    want = msum([np.array([ld(B[m][0]) + ld(B[m][1])]) for m in range(lmax + 1)], prec)
    if want is None:
        return
    got = call("mSumme_k0", g.mSumme_k0)
    if not seen:
        raise Skip("blockmatrices_k0 is not what mSumme_k0 uses")
    close(np.ravel(got), want, 1e-9, 1e-12, "zero-frequency sum over m")


@rt("C14", "leading zero wavenumber: zero-frequency value first", 60, quals=["geometry.SphereSphere.mSumme", "geometry.SphereSphere.single_m"])
def lead(c):
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, simple=True)
    g = make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss)
    k = np.array([c.lu(0.05, 3) / L for _ in range(c.int(0, 3))])
    kz = np.append(0.0, k)
    c.note(k=kz)
    f = lambda: make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss)
    z = np.ravel(call("mSumme_k0", f().mSumme_k0))
    w = np.append(z, call("mSumme", f().mSumme, k)) if len(k) else z
    close(np.ravel(call("mSumme with leading zero", g.mSumme, kz)), w, 1e-9, 1e-14, "mSumme(0, k...)")
    m = c.int(0, lmax)
    if hasattr(g, "single_m"):
        c.note(m=m)
        z = np.ravel(call("single_m_k0", f().single_m_k0, m))
        w = np.append(z, call("single_m", f().single_m, m, k)) if len(k) else z
        close(np.ravel(call("single_m with leading zero", g.single_m, m, kz)), w, 1e-9, 1e-14, "single_m(0, k...)")


@rt("C14", "the sum is made of the single-m log-determinants", 40, quals=["geometry.SphereSphere.mSumme", "geometry.SphereSphere.single_m"])
def parts(c):
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, simple=True)
    prec = c.pick(1e-3, 1e-4, 1e-8)
    f = lambda: make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss, precision=prec)
    k = np.array([c.lu(0.02, 3) / L for _ in range(c.int(1, 3))])
    c.note(k=k)
    g = f()
    con = [logdet1m(call("blockmatrices", f().blockmatrices, m, k)) for m in range(lmax + 1)]
    w = msum(con, prec)
    if w is not None:
        close(call("mSumme", g.mSumme, k), w, 1e-8, 1e-13, "mSumme")
    z = []
    for m in range(lmax + 1):
        b = call("blockmatrices_k0", f().blockmatrices_k0, m)
        z.append(np.array([sum(np.linalg.slogdet(np.eye(a.shape[0]) - a)[1] for a in b)]))
    w = msum(z, prec)
    if w is not None:
        close(np.ravel(call("mSumme_k0", f().mSumme_k0)), w, 1e-8, 1e-13, "mSumme_k0")
    m = c.int(0, lmax)
    if hasattr(g, "single_m"):
        close(call("single_m", g.single_m, m, k), con[m], 1e-8, 1e-13, "single_m %d" % m)


@rt("C14", "result independent of earlier calls and cached coefficients", 60, quals=["geometry.SphereSphere.roundTrip_elements", "geometry.SphereSphere.roundTrip_elements_k0", "geometry.SphereSphere.mSumme"])
def hist(c):
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, simple=True)
    coated = ext and c.p(0.25)
    if coated:
        K = need("geometry", "CoatedSphereSphere")
        c1, c2 = lorentz(c, ("lor", "drude"), 0), lorentz(c, ("lor",), 0)
        f = lambda: call("CoatedSphereSphere", K, 0.7 * r1, r1, m1[0], c1[0], 0.8 * r2, r2, m2[0], c2[0], L, m3[0], lmax, lss)
        c.note(coated=(m1[0], c1[0], m2[0], c2[0], m3[0]), r1=r1, r2=r2, L=L, lmax=lmax, lss=lss)
    else:
        f = lambda: make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss)
    g = f()
    n = c.int(1, 3)
    pool = [np.array([c.lu(0.02, 3) / L for _ in range(n)]) for _ in range(2)]
    pool.append(np.append(pool[0], c.lu(0.02, 3) / L))
    pool.append(pool[0][:1].copy())
    pool.append(pool[0][::-1].copy())
    if n > 1:
        x = pool[0].copy()
        x[-1] = pool[1][-1]
        pool.append(x)
        x = pool[0].copy()
        x[0] = pool[1][0]
        pool.append(x)
    if n == 3:          # same ends, another wavenumber in between
        x = pool[0].copy()
        x[1] = pool[1][1]
        pool += [x, x.copy(), x.copy(), x.copy()]
    work = pool[0].copy()
    trace = []
    for step in range(c.int(2, 6)):
        op = c.pick("mSumme", "mSumme", "mutate", "ends", "single", "k0", "block", "trips", "one")
        kk = c.pick(*pool)
        m = c.int(0, lmax)
        trace.append((op, kk.tolist(), m))
        c.note(history=trace)
        if op == "ends":        # same length, same first and last wavenumber
            u = np.sort(np.array([c.lu(0.02, 3) / L for _ in range(4)]))
            call("mSumme", g.mSumme, u[[0, 1, 3]])
            close(call("mSumme", g.mSumme, u[[0, 2, 3]]), call("mSumme", f().mSumme, u[[0, 2, 3]]), 1e-9, 1e-13, "mSumme(%s) after mSumme(%s)" % (u[[0, 2, 3]], u[[0, 1, 3]]))
        elif op == "mutate":
            call("mSumme", g.mSumme, work)
            work[:] = pool[1]
            got = call("mSumme after in-place change of the array", g.mSumme, work)
            close(got, call("mSumme", f().mSumme, pool[1].copy()), 1e-9, 1e-13, "mSumme after %s" % trace)
            work[:] = pool[0]
        elif op == "mSumme":
            close(call("mSumme", g.mSumme, kk.copy()), call("mSumme", f().mSumme, kk.copy()), 1e-9, 1e-13, "mSumme after %s" % trace)
        elif op == "single" and hasattr(g, "single_m"):
            close(call("single_m", g.single_m, m, kk.copy()), call("single_m", f().single_m, m, kk.copy()), 1e-9, 1e-13, "single_m after %s" % trace)
        elif op == "k0" and not coated:
            close(np.ravel(call("mSumme_k0", g.mSumme_k0)), np.ravel(call("mSumme_k0", f().mSumme_k0)), 1e-9, 1e-13, "mSumme_k0 after %s" % trace)
        elif op == "block":
            a = call("blockmatrices", g.blockmatrices, m, kk.copy())
            b = call("blockmatrices", f().blockmatrices, m, kk.copy())
            for x, y in zip(a, b):
                close(x, y, 1e-9, 1e-13 * (np.abs(y).max() + 1e-300), "blockmatrices after %s" % trace)
        elif op == "trips":
            call("mSum_roundtrips", g.mSum_roundtrips, kk.copy(), 2)
        elif op == "one":
            call("mSum_oneRoundtrip", g.mSum_oneRoundtrip, kk.copy())
