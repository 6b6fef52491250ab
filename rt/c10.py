from gens import *
from c08 import tolfor


def cmp_layers(r, lmin, lmax, ks, layers, med, what, slack=1):
    r = np.asarray(r)
    check(r.shape == (3, len(ks), lmax - lmin + 1), "%s: shape %s" % (what, r.shape))
    for q, k in enumerate(ks.tolist()):
        lay = [(R, None if e is None else e(k), u(k)) for R, e, u in layers]
        mats = [(e, u) for _, e, u in lay if e is not None] + [(med[0](k), med[1](k))]
        for l in range(lmin, lmax + 1):
            with mp.workdps(60):
                te, tm = O.sphere(l, k, lay, (med[0](k), med[1](k)))
                x = mp.sqrt(med[0](k) * med[1](k)) * mpf(k) * mpf(layers[-1][0])
                mag = O.i_(l, x) / O.k_(l, x)
            t = 0
            for R, _, _ in lay:
                t += tolfor(l, k, R, mats)
            s = mp.exp(mpf(float(r[2, q, l - lmin])))
            for j, w in ((0, te), (1, tm)):
                got = mpf(float(r[j, q, l - lmin])) * s
                if not abs(got - w) <= slack * t * (abs(w) + mag):
                    bad("%s: %s coefficient l=%d k=%r is %s instead of %s" % (what, ("TE", "TM")[j], l, k, mp.nstr(got, 14), mp.nstr(w, 14)))


def geo(c):
    lmin = c.pick(1, 1, 1, 2, 3)
    lmax = lmin + c.int(0, 3)
    R = c.lu(0.2, 5)
    k = np.array([c.lu(1e-2, 6) / R for _ in range(c.int(1, 2))])
    return lmin, lmax, R, k


@rt("C10", "coated sphere: boundary conditions at both surfaces", 90, quals=["scattering.coated_miescattering.mie_coated"])
def coated(c):
    K = need("scattering", "coated_miescattering")
    core = material(c, pec=0.15)
    coat = material(c)
    med = material(c, ("lor",), 0.2)
    lmin, lmax, R, k = geo(c)
    ra = R * c.u(1.02, 2.5)
    c.note(core=core[0], coat=coat[0], medium=med[0], lmin=lmin, lmax=lmax, ri=R, ra=ra, k=k)
    k0 = k.copy()
    r = call("mie_coated", lambda: K(core[0], coat[0], med[0]).mie_coated(k, lmin, lmax, R, ra))
    unchanged(k0, k, "k")
    cmp_layers(r, lmin, lmax, k, [(R, core[1], core[2]), (ra, coat[1], coat[2])], med[1:], "mie_coated", 10)


@rt("C10", "stratified sphere: any number of layers", 90, quals=["stratified_sphere_scattering.StratifiedMieScattering.mie_stratified"])
def strat(c):
    K = need("stratified_sphere_scattering", "StratifiedMieScattering")
    n = c.pick(1, 2, 2, 3, 4)
    mats = [material(c, pec=0.15)] + [material(c) for _ in range(n - 1)]
    med = material(c, ("lor",), 0.2)
    same = c.pick("no", "no", "outer", "outer2", "core", "inner")
    if same == "core" and n >= 2:       # core of the surrounding medium: nothing may be dropped
        mats[0] = med
    if same == "inner" and n >= 3:      # a buried layer of the surrounding medium
        mats[1] = med
    if same == "outer" and n >= 2:
        mats[-1] = med
    if same == "outer2" and n >= 3:
        mats[-1] = mats[-2] = med
    lmin, lmax, R, k = geo(c)
    rs = [R]
    for _ in range(n - 1):
        rs.append(rs[-1] * c.u(1.05, 1.8))
    ml = [m[0] for m in mats] + [med[0]]
    c.note(materials=ml, radii=rs, lmin=lmin, lmax=lmax, k=k)
    a, b = list(ml), list(rs)
    s = call("construct", K, a, b)
    r1 = np.asarray(call("mie_stratified", s.mie_stratified, k, lmin, lmax))
    unchanged(ml, a, "list of materials")
    unchanged(rs, b, "list of radii")
    if not (mats[-1][0] is med[0] and n >= 2):
        cmp_layers(r1, lmin, lmax, k, [(rr, m[1], m[2]) for rr, m in zip(rs, mats)], med[1:], "mie_stratified", 10)
    else:
        j = n
        while j > 1 and mats[j - 1][0] is med[0]:
            j -= 1
        cmp_layers(r1, lmin, lmax, k, [(rr, m[1], m[2]) for rr, m in list(zip(rs, mats))[:j]], med[1:], "mie_stratified (outer layer of medium)", 10)
    r2 = np.asarray(call("mie_stratified", s.mie_stratified, k, lmin, lmax))
    close(r2, r1, 1e-12, 1e-13, "second evaluation")
    r3 = np.asarray(call("mie_stratified", call("construct", K, a, b).mie_stratified, k, lmin, lmax))
    close(r3, r1, 1e-12, 1e-13, "fresh evaluation with the same lists")


@rt("C10", "coating of medium or core material changes only the radius", 60, quals=["scattering.coated_miescattering.mie_coated"])
def neutral(c):
    K, S = need("scattering", "coated_miescattering"), need("scattering", "scattering")
    core = material(c)
    med = material(c, ("lor",), 0.2)
    lmin, lmax, R, k = geo(c)
    ra = R * c.u(1.02, 2.0)
    c.note(core=core[0], medium=med[0], lmin=lmin, lmax=lmax, ri=R, ra=ra, k=k)
    r = call("mie_coated", lambda: K(core[0], med[0], med[0]).mie_coated(k, lmin, lmax, R, ra))
    cmp_layers(r, lmin, lmax, k, [(R, core[1], core[2]), (ra, med[1], med[2])], med[1:], "coating = medium", 30)
    r = call("mie_coated", lambda: K(core[0], core[0], med[0]).mie_coated(k, lmin, lmax, R, ra))
    cmp_layers(r, lmin, lmax, k, [(ra, core[1], core[2])], med[1:], "coating = core", 30)
