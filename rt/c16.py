from gens import *


def recorder(c, lmax=2, ext=True):
    """a SphereSphere whose channel values are a chosen function of the wavenumber"""
    G = need("geometry", "SphereSphere")
    M = need("materials")

    class Rec(G):
        asked = None

        def value(self, k):
            return -self.a * np.exp(-k * self.b) * (1 + self.w * np.cos(self.f * k))

        def one(self, k):
            return -self.a * 0.7 * np.exp(-k * self.b * 1.1)

        def mSumme(self, k):
            k = np.asarray(k, float)
            self.asked.append(k.copy())
            out = self.value(k)
            return np.where(k == 0, self.zero, out)

        def mSumme_k0(self):
            self.asked.append("k0")
            return np.float64(self.zero)

        def mSum_oneRoundtrip(self, k, mmax="automatic"):
            k = np.asarray(k, float)
            self.asked.append(k.copy())
            return self.one(k)

    g = Rec(1.0, 1.0, 2.0 + c.lu(0.5, 5), M.Vacuum, M.Vacuum, M.Vacuum, lmax=lmax, lssmax=lmax)
    g.a, g.b, g.w, g.f = c.lu(0.01, 100), c.lu(0.01, 2), c.u(0, 0.9), c.lu(0.1, 5)
    g.zero = -c.lu(0.01, 100)
    g.asked = []
    return g


def spec(n0, val, dT, nmax, steps):
    v = [0.5 * n0] + [float(val(np.float64(dT * n))) for n in range(1, nmax + 1)]
    return np.array([i * dT * math.fsum(v[::i]) for i in range(1, steps + 1)])


def setup(c):
    g = recorder(c)
    dT = c.lu(0.02, 2)
    steps = c.int(1, 6)
    Tmax = dT * (steps + c.pick(0.0, 0.0, 0.02, 0.4, -0.4))
    nmax = c.pick(0, 1, 2, c.int(0, 20), c.int(20, 130), 49, 50, 51, 99, 100, 149, 150)
    an = c.pick(True, False)
    c.note(a=g.a, b=g.b, w=g.w, f=g.f, zero=g.zero, L=g.L, deltaT=dT, nmax=nmax, Tmax=Tmax, analytic_n0=an)
    return g, dT, steps, Tmax, nmax, an


@rt("C16", "free energy is the primed Matsubara sum", 250, quals=["thermodynamics.finiteT.free_energy", "thermodynamics.finiteT.F_alle", "thermodynamics.finiteT.get_f_matsubaras", "thermodynamics.slicewise_eval"])
def free(c):
    F = need("thermodynamics", "finiteT")
    g, dT, steps, Tmax, nmax, an = setup(c)
    f = call("finiteT", F, dT, nmax, Tmax, g, an)
    n0 = g.zero if an else float(g.value(np.float64(1e-10)))
    want = spec(n0, g.value, dT, nmax, steps)
    order = c.pick(["F"], ["F", "F"], ["S", "F"], ["F", "S", "F"]) if steps > 1 else ["F"]
    c.note(order=order)
    for q in order:
        if q == "F":
            r = call("free_energy", f.free_energy)
            close(r, want, 1e-9, 0, "free energy (history %s)" % order)
        else:
            s = call("entropy", f.entropy)
            if steps >= 3:
                close(s, -np.gradient(want, dT), 1e-7, 1e-9 * np.abs(want).max() / dT, "entropy (history %s)" % order)
    ks = np.concatenate([np.ravel(x) for x in g.asked if not isinstance(x, str)] + [np.zeros(0)])
    used = np.unique(ks[ks > 1e-9])
    close(used, dT * np.arange(1, nmax + 1), 1e-12, 0, "wavenumbers evaluated")


@rt("C16", "entropy alone and entropy after free energy agree", 80, quals=["thermodynamics.finiteT.entropy"])
def ent(c):
    F = need("thermodynamics", "finiteT")
    g, dT, steps, Tmax, nmax, an = setup(c)
    steps = max(3, steps)
    Tmax = steps * dT
    c.note(Tmax=Tmax)
    n0 = g.zero if an else float(g.value(np.float64(1e-10)))
    want = spec(n0, g.value, dT, nmax, steps)
    s = call("entropy", call("finiteT", F, dT, nmax, Tmax, g, an).entropy)
    d = -np.gradient(want, dT)
    close(s, d, 1e-7, 1e-9 * np.abs(want).max() / dT, "entropy")


@rt("C16", "evaluation in slices of any size", 200, quals=["thermodynamics.finiteT.get_f_matsubaras", "thermodynamics.slicewise_eval"])
def slices(c):
    F = need("thermodynamics", "finiteT")
    g, dT, steps, Tmax, nmax, an = setup(c)
    f = call("finiteT", F, dT, nmax, Tmax, g, an)
    st = c.pick(1, 2, 3, c.int(1, 60), nmax + 1, max(1, nmax), nmax + 5)
    c.note(slice=st)
    n0 = g.zero if an else float(g.value(np.float64(1e-10)))
    want = np.array([0.5 * n0] + [float(g.value(np.float64(dT * n))) for n in range(1, nmax + 1)])
    r = call("get_f_matsubaras", f.get_f_matsubaras, 0, st)
    close(r, want, 1e-10, 0, "Matsubara contributions in slices of %d" % st)


@rt("C16", "slicewise_eval covers every integer once, in place", 300, quals=["thermodynamics.slicewise_eval"])
def sl(c):
    S = need("thermodynamics", "slicewise_eval")
    a = c.int(-5, 30)
    b = a + c.int(0, 60)
    st = c.pick(1, 2, c.int(1, 70), b - a + 1, float(c.int(1, 9)), str(c.int(1, 9)))
    c.note(nmin=a, nmax=b, stepsize=st)
    seen = []

    def fn(x):
        seen.extend(np.asarray(x).tolist())
        check(len(x) <= int(st), "slice longer than %s" % st)
        return np.asarray(x) * 1.5 + 0.25
    r = call("slicewise_eval", S, fn, a, b, st)
    close(r, np.arange(a, b + 1) * 1.5 + 0.25, 1e-14, 1e-14, "result")
    check(sorted(seen) == list(range(a, b + 1)), "evaluated at %s" % seen)


@rt("C16", "invalid slice sizes are rejected", 60, quals=["thermodynamics.slicewise_eval"])
def inv(c):
    S = need("thermodynamics", "slicewise_eval")
    st = c.pick(0, -1, -c.int(1, 100), "abc", "", "1.5x", 0.5, -0.5, "0", "-3")
    a = c.int(0, 5)
    c.note(stepsize=st, nmin=a)
    raises(lambda: S(lambda x: x * 1.0, a, a + c.int(0, 9), st), ValueError, "stepsize %r" % st)


@rt("C16", "single-round-trip free energy is the primed sum of its channel values", 100, quals=["thermodynamics.oneRoundtrip.F_alle"])
def oner(c):
    F = need("thermodynamics", "oneRoundtrip")
    g, dT, steps, Tmax, nmax, an = setup(c)
    f = call("oneRoundtrip", F, dT, nmax, Tmax, g)
    want = spec(float(g.one(np.float64(1e-10))), g.one, dT, nmax, steps)
    close(call("free_energy", f.free_energy), want, 1e-9, 0, "free energy in single-round-trip approximation")


@rt("C16", "a geometry of another kind is rejected; real geometry end to end", 12, quals=["thermodynamics.finiteT.__init__", "thermodynamics.finiteT.free_energy"])
def realg(c):
    F = need("thermodynamics", "finiteT")

    class Fake:
        mat1 = mat2 = None
        r1 = r2 = 1.0
        L = 3.0
        lmax = 1
    raises(lambda: F(0.5, 3, 1.0, Fake()), TypeError, "foreign geometry")
    from c11 import geometry, make
    G, ext, m1, m2, m3, r1, r2, L, lmax, lss = geometry(c, simple=True)
    mk = lambda: make(G, c, m1[0], m2[0], m3[0], r1, r2, L, lmax, lss)
    dT = c.lu(0.1, 1) / L
    nmax = c.int(1, 6)
    steps = c.int(1, 3)
    an = c.pick(True, False)
    c.note(dT=dT, nmax=nmax, steps=steps, analytic=an)
    r = call("free_energy", call("finiteT", F, dT, nmax, steps * dT, mk(), an).free_energy)
    z = float(np.ravel(call("mSumme_k0", mk().mSumme_k0))[0]) if an else float(np.ravel(call("mSumme", mk().mSumme, np.array([1e-10])))[0])
    # the stopping rule of the sum over m looks at the batch: evaluate the same batch
    v = np.append(0.5 * z, call("mSumme", mk().mSumme, dT * np.arange(1, nmax + 1)))
    want = np.array([i * dT * v[::i].sum() for i in range(1, steps + 1)])
    if np.all(np.isfinite(want)):
        close(r, want, 1e-9, 0, "free energy")


@rt("C16", "zero-temperature energy is the wavenumber integral of the channel sum", 40, quals=["thermodynamics.finiteT.e0"])
def e0(c):
    g, dT, steps, Tmax, nmax, an = setup(c)
    F = need("thermodynamics", "finiteT")
    g.w = 0.0
    nmax = max(nmax, 1)
    lo = c.pick(0.0, c.u(0, 2))
    hi = c.pick(np.inf, lo + c.lu(0.1, 5), None)
    if hi is None:
        lo = 0.0
    c.note(a=lo, b=hi, nmax=nmax)
    f = call("finiteT", F, dT, nmax, Tmax, g, an)
    r = np.asarray(call("e0", f.e0, lo, hi) if hi is not np.inf or lo != 0 else call("e0", f.e0))
    top = nmax * dT if hi is None else hi
    w = -g.a / g.b * (math.exp(-g.b * lo) - math.exp(-g.b * top))
    check(r.size == 2, "energy and error estimate expected, got %r" % (r,))
    v = float(np.ravel(r)[0])
    check(abs(v - w) <= 1e-6 * abs(w) + 1e-8 + 10 * abs(float(np.ravel(r)[1])), "energy %r, integral %r" % (v, w))
