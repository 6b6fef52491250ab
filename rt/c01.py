from gens import *


def karg(c):
    kd = c.pick("float", "int", "np", "a1", "a1", "a2", "a0i", "ai")
    g = lambda: c.pick(c.lu(1e-6, 1e4), c.lu(1e-2, 1e2))
    if kd == "float":
        return g()
    if kd == "int":
        return c.int(1, 50)
    if kd == "np":
        return np.float64(g())
    if kd == "a1":
        return np.array([g() for _ in range(c.int(1, 7))])
    if kd == "a2":
        return np.array([[g() for _ in range(3)] for _ in range(c.int(1, 3))])
    if kd == "ai":
        return np.array([c.int(1, 40) for _ in range(c.int(1, 4))])
    return np.array([g()])


def cmp_field(c, f, spec, k, what, tol=1e-11):
    k0 = copy.deepcopy(k)
    r = call(what, f, k)
    unchanged(k0, k, "argument of " + what)
    if isinstance(k, np.ndarray):
        check(np.shape(r) == k.shape, "%s: shape %s for k of shape %s" % (what, np.shape(r), k.shape))
        want = np.array([float(spec(x)) for x in k.flatten().tolist()]).reshape(k.shape)
    else:
        check(np.shape(r) == (), "%s: scalar argument gives shape %s" % (what, np.shape(r)))
        want = float(spec(float(k)))
    close(r, want, tol, 0, what)
    r2 = call(what, f, k)
    close(r2, want, tol, 0, what + " (second evaluation)")
    return r


@rt("C01", "LorentzMaterial.epsilon is 1 + sum of oscillators", 250, quals=["materials.LorentzMaterial.epsilon"])
def eps(c):
    L = need("materials", "LorentzMaterial")
    o, b = osclist(c, 12), bprops(c)
    k = karg(c)
    c.note(e_properties=o, b_properties=b, k=k)
    if c.p(0.3):
        o = tuple(o)
    keep = copy.deepcopy(o)
    m = call("construct", L, o, b)
    d = dict(m.__dict__)
    r = cmp_field(c, m.epsilon, lambda x: O.eps_lorentz(o, x), k, "epsilon(k)")
    check(np.all(np.asarray(r) >= 1 - 1e-12), "epsilon below 1")
    unchanged(keep, o, "oscillator list")
    unchanged(sorted(d.items(), key=str), sorted(m.__dict__.items(), key=str), "material")


@rt("C01", "LorentzMaterial.mu is the magnetic model", 150, quals=["materials.LorentzMaterial.mu"])
def mu(c):
    L = need("materials", "LorentzMaterial")
    o, b = osclist(c, 3), bprops(c, 0.8)
    k = karg(c)
    c.note(e_properties=o, b_properties=b, k=k)
    m = call("construct", L, o, b)
    d = dict(m.__dict__)
    cmp_field(c, m.mu, lambda x: O.mu_model(b, x), k, "mu(k)")
    unchanged(sorted(d.items(), key=str), sorted(m.__dict__.items(), key=str), "material")


@rt("C01", "static response of dielectrics", 60, quals=["materials.LorentzMaterial.epsilon"])
def static(c):
    L = need("materials", "LorentzMaterial")
    o, b = osclist(c, 6, ("lor",)), bprops(c)
    c.note(e_properties=o, b_properties=b)
    m = call("construct", L, o, b)
    for k in (np.array([0]), np.array([0.0, 1.0]), 0):
        cmp_field(c, m.epsilon, lambda x: O.eps_lorentz(o, x), k, "epsilon(k) at k=0")
        cmp_field(c, m.mu, lambda x: O.mu_model(b, x), k, "mu(k) at k=0")


@rt("C01", "Drude-Smith response", 150, quals=["materials.LorentzSmithMaterial.epsilon", "materials.LorentzSmithMaterial.mu"])
def smith(c):
    L = need("materials", "LorentzSmithMaterial")
    o = [(c.lu(1e13, 5e16), 0, c.pick(0, c.lu(1e12, 1e16), c.lu(1e12, 1e16)))]
    b = bprops(c)
    k = karg(c)
    while isinstance(k, int):
        k = karg(c)
    c.note(e_properties=o, b_properties=b, k=k)
    m = call("construct", L, o, b)
    wp, _, g = o[0]

    def spec(x):
        x = mpf(x)
        W, G = mpf(wp) / O.C299, mpf(g) / O.C299
        return 1 + W ** 2 / (x ** 2 + G * x) * (1 - mpf("0.49") * G / (x + G))
    cmp_field(c, m.epsilon, spec, k, "Drude-Smith epsilon(k)")
    if isinstance(k, (float, np.ndarray)) and not isinstance(k, np.float64):
        cmp_field(c, m.mu, lambda x: O.mu_model(b, x), k, "Drude-Smith mu(k)")


@rt("C01", "predefined materials follow their own oscillator list", 40, quals=["materials.LorentzMaterial.epsilon"])
def predefined(c):
    M = need("materials")
    names = sorted(n for n in dir(M) if type(getattr(M, n)).__name__ == "LorentzMaterial")
    if not names:
        raise Skip("no predefined materials")
    n = c.pick(*names)
    m = getattr(M, n)
    k = karg(c)
    c.note(material=n, k=k, e_properties=m.e_properties)
    cmp_field(c, m.epsilon, lambda x: O.eps_lorentz(m.e_properties, x), k, n + ".epsilon(k)")
    cmp_field(c, m.mu, lambda x: O.mu_model(m.b_properties, x), k, n + ".mu(k)")


@rt("C01", "monotone in k", 60, quals=["materials.LorentzMaterial.epsilon"])
def mono(c):
    L = need("materials", "LorentzMaterial")
    o = osclist(c, 5)
    m = call("construct", L, o, ())
    k = np.sort(np.array([c.lu(1e-5, 1e4) for _ in range(12)]))
    c.note(e_properties=o, k=k)
    e = np.asarray(call("epsilon", m.epsilon, k))
    check((np.diff(e) <= 1e-12 * e[:-1]).all(), "permittivity increases with k")
