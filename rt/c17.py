from gens import *


def args(c):
    r1, r2 = c.lu(0.05, 50), c.lu(0.05, 50)
    if c.p(0.1):
        r2 = r1
    if c.p(0.6) or abs(r1 - r2) < 1e-3 * max(r1, r2):
        L = r1 + r2 + min(r1, r2) * c.lu(1e-3, 100)
    else:
        L = abs(r1 - r2) * c.u(0.01, 0.999)
    return r1, r2, L, c.pick(1e-2, 1e-3, 1e-5, c.lu(1e-12, 0.9)), c.pick(c.int(0, 12), c.int(0, 12), c.int(-8, 2))


def gap(r1, r2, L):
    return L - r1 - r2 if L > r1 + r2 else abs(r1 - r2) - L


@rt("C17", "get_lmax: positive integer, symmetric, monotone", 400, quals=["geometry.get_lmax"])
def lm(c):
    f = need("geometry", "get_lmax")
    r1, r2, L, p, o = args(c)
    c.note(r1=r1, r2=r2, L=L, precision=p, l_offset=o)
    a = call("get_lmax", f, r1, r2, L, p, o)
    check(isinstance(a, (int, np.integer)) and a >= 1, "get_lmax is %r" % (a,))
    check(call("get_lmax", f, r2, r1, L, p, o) == a, "not symmetric: %r and %r" % (a, f(r2, r1, L, p, o)))
    t = c.u(0.01, 0.999) if c.p(0.7) else c.lu(1e-3, 1)
    g = gap(r1, r2, L)
    L2 = L - g * (1 - t) if L > r1 + r2 else L + g * (1 - t)
    if (L > r1 + r2) == (L2 > r1 + r2) and 0 < gap(r1, r2, L2) < g:
        b = call("get_lmax", f, r1, r2, L2, p, o)
        check(b >= a, "decreases from %r to %r when the distance goes from %r to %r" % (a, b, L, L2))
    p2 = p * c.u(0.001, 0.999)
    b = call("get_lmax", f, r1, r2, L, p2, o)
    check(b >= a, "decreases from %r to %r when the precision goes from %r to %r" % (a, b, p, p2))
    o2 = o + c.int(1, 9)
    b = call("get_lmax", f, r1, r2, L, p, o2)
    check(b >= a, "decreases from %r to %r when the offset goes from %r to %r" % (a, b, o, o2))


@rt("C17", "constructor: automatic and explicit cut-offs", 250, quals=["geometry.SphereSphere.__init__"])
def ctor(c):
    G, f = need("geometry", "SphereSphere"), need("geometry", "get_lmax")
    M = need("materials")
    r1, r2, L, p, o = args(c)
    a = c.pick("automatic", "automatic", c.int(1, 40), np.int64(c.int(1, 40)))
    b = c.pick("automatic", "automatic", c.int(1, 60), np.int64(c.int(1, 60)))
    R1 = [r1 * 0.3, r1] if c.p(0.3) else r1
    R2 = [r2 * 0.2, r2 * 0.5, r2] if c.p(0.3) else r2
    M1 = [M.Gold, M.Silicon, M.Vacuum] if isinstance(R1, list) else M.Gold
    M2 = [M.Gold, M.Silicon, M.Silver, M.Vacuum] if isinstance(R2, list) else M.Silver
    ev = c.pick("lndet", "trace")
    c.note(r1=R1, r2=R2, L=L, precision=p, l_offset=o, lmax=a, lssmax=b, evaluation=ev)
    g = call("SphereSphere", G, R1, R2, L, M1, M2, M.Vacuum, a, o, b, p, 0, ev)
    if a == "automatic":
        check(g.lmax == call("get_lmax", f, r1, r2, L, p, o), "lmax is %r" % (g.lmax,))
    else:
        check(g.lmax == a, "lmax %r instead of the given %r" % (g.lmax, a))
    if b == "automatic":
        check(g.lssmax >= g.lmax and int(g.lssmax) == g.lssmax, "lssmax %r, lmax %r" % (g.lssmax, g.lmax))
        h = call("SphereSphere", G, R2, R1, L, M2, M1, M.Vacuum, a, o, b, p, 0, ev)
        check((h.lmax, h.lssmax) == (g.lmax, g.lssmax), "cut-offs not symmetric: %r %r" % ((g.lmax, g.lssmax), (h.lmax, h.lssmax)))
    else:
        check(g.lssmax == b, "lssmax %r instead of the given %r" % (g.lssmax, b))
    check(g.precision == p and g.l_offset == o and g.evaluation == ev, "precision, l_offset or evaluation not kept")


@rt("C17", "unknown evaluation modes are rejected", 30, quals=["geometry.SphereSphere.__init__"])
def ev(c):
    G = need("geometry", "SphereSphere")
    M = need("materials")
    r1, r2, L, p, o = args(c)
    e = c.pick("", "Lndet", "lndet ", "traces", "det", "tr", "both", "lndettrace", "LNDET", "race", None, 1)
    c.note(evaluation=e, r1=r1, r2=r2, L=L)
    raises(lambda: G(r1, r2, L, M.Gold, M.Gold, M.Vacuum, lmax=2, lssmax=2, evaluation=e), ValueError, "evaluation=%r" % (e,))


@rt("C17", "number of Matsubara terms", 250, quals=["thermodynamics.finiteT.__init__"])
def nm(c):
    G, F = need("geometry", "SphereSphere"), need("thermodynamics", "finiteT")
    M = need("materials")
    r1, r2, L, p, o = args(c)
    lmax = c.pick("automatic", c.int(1, 40))
    dT = c.lu(1e-4, 100)
    g = call("SphereSphere", G, r1, r2, L, M.Gold, M.Gold, M.Vacuum, lmax, o, "automatic", p)
    n = c.pick("automatic", "automatic", c.int(1, 500))
    c.note(r1=r1, r2=r2, L=L, lmax=lmax, deltaT=dT, nmax=n, precision=p, l_offset=o)
    f = call("finiteT", F, dT, n, dT, g)
    if n == "automatic":
        check(isinstance(f.nmax, (int, np.integer)) and f.nmax >= 1, "nmax is %r" % (f.nmax,))
        h = call("SphereSphere", G, r2, r1, L, M.Gold, M.Gold, M.Vacuum, lmax, o, "automatic", p)
        check(call("finiteT", F, dT, n, dT, h).nmax == f.nmax, "nmax not symmetric in the spheres")
    else:
        check(f.nmax == n, "nmax %r instead of the given %r" % (f.nmax, n))
