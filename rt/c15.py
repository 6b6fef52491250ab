from gens import *
from c11 import geometry, make
from c14 import rblocks, sizes


def geo(c, lmax, **kw):
    G, ext, m1, m2, m3, r1, r2, L, _, _ = geometry(c, simple=True)
    prec = c.pick(1e-2, 1e-3, 1e-4, 1e-6)
    return make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lmax, precision=prec, **kw), prec


def mats(c, n, q, size=None):
    size = c.pick(0.05, 0.3, 0.7, 0.9) if size is None else size
    pos = c.p(0.5)
    out = []
    for _ in range(q):
        a = np.array([[c.u(0 if pos else -1, 1) for _ in range(n)] for _ in range(n)])
        out.append(a * size / max(1e-12, np.abs(a).sum(1).max()))
    return np.array(out)


def terms(M, N):
    P = M.copy()
    t = []
    for n in range(1, N + 1):
        t.append(np.trace(P, axis1=1, axis2=2) / n)
        P = np.array([M[i] @ P[i] for i in range(len(M))])
    return t


def earlier(c, g, m):
    """half of the cases: the channel was evaluated before, with a number of round trips of its own"""
    n = c.pick(0, 0, 23, 41)
    c.note(earlier=n)
    if n:
        call("arbitrary_roundtrips", g.arbitrary_roundtrips, np.full((1, 1, 1), 0.25), n, m)


@rt("C15", "fixed number of round trips: minus the sum of tr(M^n)/n", 150, quals=["geometry.SphereSphere.arbitrary_roundtrips"])
def fixed(c):
    g, prec = geo(c, 2)
    M = mats(c, c.int(1, 6), c.int(1, 3))
    N = c.pick(1, 1, 2, 3, c.int(1, 9))
    m = c.int(0, 5)
    c.note(M=M, N=N, m=m)
    earlier(c, g, m)
    M0 = M.copy()
    r = call("arbitrary_roundtrips", g.arbitrary_roundtrips, M, N, m)
    unchanged(M0, M, "matrices")
    t = terms(M, N)
    close(r, -sum(t), 1e-10, 1e-13 * max(np.abs(x).max() for x in t), "sum of %d round trips" % N)
    check(m in g.roundTrip_dct, "number of round trips not recorded")
    check(float(g.roundTrip_dct[m]) in (N, N + 1), "recorded number of round trips is %r after %d" % (g.roundTrip_dct[m], N))


@rt("C15", "automatic mode: consecutive terms until the relative size is reached", 150, quals=["geometry.SphereSphere.arbitrary_roundtrips"])
def auto(c):
    g, prec = geo(c, 2)
    M = mats(c, c.int(1, 6), c.int(1, 3))
    m = c.int(0, 5)
    c.note(M=M, m=m)
    earlier(c, g, m)
    M0 = M.copy()
    r = call("arbitrary_roundtrips", g.arbitrary_roundtrips, M, "automatic", m)
    unchanged(M0, M, "matrices")
    t = terms(M, 400)
    S = np.cumsum(t, axis=0)
    ok = [N for N in range(1, 401) if np.all(np.abs(-S[N - 1] - r) <= 1e-9 * np.abs(S[N - 1]) + 1e-13 * np.abs(t[0]).max())]
    check(ok, "%r is not a partial sum of minus tr(M^n)/n" % (r,))
    # smallest admissible stop: last term relative to the sum at most the precision
    with np.errstate(all="ignore"):
        rel = [np.nanmax(np.abs(t[N - 1] / S[N - 1])) for N in range(1, 401)]
    good = [N for N in ok if N >= 2 and rel[N - 1] <= prec * (1 + 1e-6)]
    if not good and 1 in ok and rel[0] <= prec:
        good = [1]
    check(good, "stopped after %s terms although the last one is %s of the sum (precision %s)" % (ok[:3], [rel[N - 1] for N in ok[:3]], prec))
    check(m in g.roundTrip_dct, "number of round trips not recorded")
    rec = float(g.roundTrip_dct[m])
    check(any(rec in (N, N + 1) for N in good), "recorded number of round trips is %r, partial sum %s" % (rec, good[:5]))


@rt("C15", "m-channels: weight one for m=0 and two for m>0", 120, quals=["geometry.SphereSphere.mSum_roundtrips", "geometry.SphereSphere.supermatrix"])
def channels(c):
    lmax = c.int(1, 4)
    ev = c.pick("lndet", "trace")
    g, prec = geo(c, lmax, evaluation=ev)
    q = c.int(1, 3)
    k = np.array(sorted(c.lu(0.01, 10) for _ in range(q)))
    N = c.pick(1, 2, 3, "automatic")
    pos = c.p(0.7)
    B = {}
    for m in range(lmax + 1):
        n = lmax + 1 - max(1, m)
        M = mats(c, 2 * n, q, c.pick(0.05, 0.3))
        M = np.abs(M) if pos else M
        B[m] = [M[:, :n, :n], M[:, :n, n:], M[:, n:, :n], M[:, n:, n:]]
    seen = []

    def stub(m, ks):
        seen.append(m)
        return [x.copy() for x in B[m]]
    g.blockmatrices = stub
    c.note(k=k, blocks=B, order=N)
    f = g.mSumme if ev == "trace" and N == "automatic" else (lambda kk: g.mSum_roundtrips(kk, N))
    r = call("mSum_roundtrips", f, k)
    if not seen:
        raise Skip("blockmatrices not used")
    big = [np.concatenate([np.concatenate([b[0], b[1]], 2), np.concatenate([b[2], b[3]], 2)], 1) for b in (B[m] for m in range(lmax + 1))]
    h, _ = geo(lib_case(c), lmax)
    h.precision = prec
    con = [np.asarray(call("arbitrary_roundtrips", h.arbitrary_roundtrips, b, N, m)) for m, b in enumerate(big)]
    acc = [con[0]]
    for m in range(1, lmax + 1):
        acc.append(acc[-1] + 2 * con[m])
    tol = 1e-9 * (np.abs(acc[0]) + 2 * sum(np.abs(x) for x in con[1:]))
    last = [m for m in range(lmax + 1) if np.all(np.abs(acc[m] - r) <= tol)]
    check(last, "%r is not m=0 plus twice m=1..M: %r" % (r, acc))
    if lmax not in last:
        M = last[-1]
        check(M >= 1, "stopped at m=0")
        j = int(np.abs(acc[M]).argmax())
        rel = min(abs(acc[M][j] / acc[M - 1][j]), abs(acc[M][j] / acc[M - 1][j] - 1))
        check(rel < prec, "stopped at m=%d of %d although the relative change is %r (precision %r)" % (M, lmax, rel, prec))


def lib_case(c):
    d = copy.copy(c)
    d.notes = {}
    d.r = random.Random(1)
    return d


@rt("C15", "single round trip is minus the trace", 100, quals=["geometry.SphereSphere.mSum_oneRoundtrip"])
def single(c):
    lmax = c.int(1, 5)
    g, prec = geo(c, lmax)
    q = c.int(1, 3)
    k = np.array(sorted(c.lu(0.01, 10) for _ in range(q)))
    B = {m: rblocks(c, lmax + 1 - max(1, m), 0.5, q) for m in range(lmax + 1)}
    seen = []

    def stub(m, ks):
        seen.append(m)
        return [x.copy() for x in B[m]]
    g.blockmatrices = stub
    mm = c.pick("automatic", c.int(1, lmax))
    c.note(k=k, blocks=B, mmax=mm)
    r = call("mSum_oneRoundtrip", g.mSum_oneRoundtrip, k, mm)
    if not seen:
        raise Skip("blockmatrices not used")
    con = [np.array([np.trace(B[m][0][i] + B[m][3][i]) for i in range(q)]) for m in range(lmax + 1)]
    acc = [con[0]]
    for m in range(1, lmax + 1):
        acc.append(acc[-1] + 2 * con[m])
    top = lmax if mm == "automatic" else mm
    auto = max(1, min(lmax, round(math.log(prec) / math.log(0.5))))
    allowed = {top if mm != "automatic" else auto, lmax if mm == "automatic" else top}
    tol = 1e-9 * (np.abs(con[0]) + 2 * sum(np.abs(x) for x in con[1:]))
    check(any(np.all(np.abs(-acc[m] - r) <= tol) for m in allowed), "%r instead of minus the trace %r" % (r, [-acc[m] for m in allowed]))
    close(np.ravel(call("oneRoundtrip of the fixed order", g.arbitrary_roundtrips, np.concatenate([np.concatenate([B[0][0], B[0][1]], 2), np.concatenate([B[0][2], B[0][3]], 2)], 1), 1, 0)), -con[0], 1e-10, 1e-13, "one round trip, m=0")


@rt("C15", "real geometry: trace evaluation equals the expansion of its own round-trip matrix", 30, quals=["geometry.SphereSphere.mSum_roundtrips"])
def real(c):
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, simple=True)
    lmax = min(lmax, 3)
    f = lambda **kw: make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss, precision=1e-4, **kw)
    k = np.array([c.lu(0.05, 3) / L for _ in range(c.int(1, 2))])
    N = c.pick(1, 2, 4)
    c.note(k=k, N=N)
    r = call("mSum_roundtrips", f(evaluation="trace").mSum_roundtrips, k, N)
    acc = 0
    part = []
    for m in range(lmax + 1):
        b = call("blockmatrices", f().blockmatrices, m, k)
        M = np.concatenate([np.concatenate([b[0], b[1]], 2), np.concatenate([b[2], b[3]], 2)], 1)
        acc = acc - (1 if m == 0 else 2) * sum(terms(M, N))
        part.append(acc)
    check(any(np.all(np.abs(p - r) <= 1e-8 * np.abs(p) + 1e-14) for p in part[-1:] + part[1:]), "%r instead of %r" % (r, part[-1]))
