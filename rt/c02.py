from gens import *


def spec(o):
    o = [(float(a), float(b), float(g)) for a, b, g in o]
    infinite = any(a != 0 and b == 0 and g == 0 for a, b, g in o)
    free = any(a != 0 and b == 0 for a, b, g in o)
    return (not infinite), (not free)


@rt("C02", "classification of an oscillator list", 400, quals=["materials.is_sigma_finite", "materials.is_dielectric", "materials.is_magnetic"])
def classify(c):
    M = need("materials")
    o = [(c.pick(0, c.lu(1e12, 1e17)), c.pick(0, 0, c.lu(1e11, 1e17)), c.pick(0, c.lu(1e-3, 1e15))) for _ in range(c.int(0, 6))]
    b = c.pick((), (c.u(0.1, 5), c.lu(1e8, 1e15)), (0, 1e9), (1, 1e9), (0.0, c.lu(1e8, 1e12)))
    cls = c.pick("LorentzMaterial", "LorentzSmithMaterial")
    c.note(e_properties=o, b_properties=b, cls=cls)
    m = call("construct", getattr(need("materials"), cls), o, b)
    sf, di = spec(o)
    check(bool(m.is_sigma_finite) == sf, "is_sigma_finite is %r" % m.is_sigma_finite)
    check(bool(m.is_dielectric) == di, "is_dielectric is %r" % m.is_dielectric)
    check(bool(m.is_magnetic) == (len(b) > 0 and b[0] != 0), "is_magnetic is %r" % m.is_magnetic)
    check(not m.is_perfect_conductor, "flagged as perfect conductor")
    c.r.shuffle(o)
    m2 = call("construct", getattr(M, cls), list(o), b)
    check((bool(m2.is_sigma_finite), bool(m2.is_dielectric), bool(m2.is_magnetic)) == (bool(m.is_sigma_finite), bool(m.is_dielectric), bool(m.is_magnetic)),
          "classification depends on the order")
    for f, w in (("is_sigma_finite", sf), ("is_dielectric", di)):
        if hasattr(M, f):
            check(bool(call(f, getattr(M, f), o)) == w, "%s(list)" % f)


@rt("C02", "predefined materials and the perfect conductor", 3, quals=["materials.PerfectConductor"])
def predef(c):
    M = need("materials")
    P = M.PerfectConductor
    check(P.is_perfect_conductor is True or P.is_perfect_conductor == True, "perfect conductor not flagged")
    check(not P.is_sigma_finite and not P.is_magnetic, "perfect conductor flags")
    k = np.array([0.3, 2.0])
    close(call("mu", P.mu, k), np.ones(2), 0, 0, "mu of the perfect conductor")
    for n in dir(M):
        v = getattr(M, n)
        if hasattr(v, "e_properties") and not isinstance(v, type):
            c.note(material=n)
            sf, di = spec(v.e_properties)
            check(not v.is_perfect_conductor, n + " flagged as perfect conductor")
            check(bool(v.is_sigma_finite) == sf, n + ".is_sigma_finite")
            check(bool(v.is_dielectric) == di, n + ".is_dielectric")
