from common import *

C299 = C(Fraction(2998)) * C(Fraction(10) ** 11)       # 2.998e14


def material(it, clsname, n, b):
    """a material whose oscillator list has n symbolic oscillators (n symbolic)"""
    P = lambda nm: (lambda i: SV(uf(nm, [i], pos=0), "float"))
    wp, wr, ga = P("wP"), P("wR"), P("gam")
    lst = SymList(n, lambda i: (wp(i), wr(i), ga(i)), name="osc")
    cls = it.module("materials").ns[clsname]
    o = Obj(cls, {}, name="mat")
    return o, lst, wp, wr, ga


def osc_sum(n, kk, wp, wr, ga):
    t = lambda i: (wp(i).e / C299) ** 2 / ((wr(i).e / C299) ** 2 + kk ** 2 + ga(i).e / C299 * kk)
    return ONE + esum(n, t)


def build(it, clsname, n, bprops):
    o, lst, wp, wr, ga = material(it, clsname, n, bprops)
    r = invoke(it, it.func("materials.%s.__init__" % clsname), [o, lst, bprops])
    expect_value(it, "construct", r)
    return o, lst, wp, wr, ga


def eps_case(kind):
    def run(it, ctx):
        n = var("nosc", "I", 0)
        o, lst, wp, wr, ga = build(it, "LorentzMaterial", n, ())
        if kind == "array":
            N = var("N", "I", 1)
            k = mkarr((N,), lambda ix: uf("k", [ix[0]], pos=1))
        elif kind == "array2":
            N, M = var("N", "I", 1), var("M", "I", 1)
            k = mkarr((N, M), lambda ix: uf("k", list(ix), pos=1))
        else:
            k = SV(var("k", pos=1), "float" if kind == "float" else "int")
        sn = snapshot(o)
        r = expect_value(it, "epsilon returns", invoke(it, it.func("materials.LorentzMaterial.epsilon"), [o, k]))
        if kind.startswith("array"):
            if not isinstance(r, Arr) or len(r.shape) != len(k.shape):
                return fail(it, "epsilon: shape of k", "result %r" % (r,))
            for a, b in zip(r.shape, k.shape):
                post(it, "epsilon: shape of k", cmp_("==", a, b))
            ix, p = idx(it, k.shape)
            kk = uf("k", list(ix), pos=1)
            post(it, "epsilon: oscillator sum, element", cmp_("==", el(it, r, ix), osc_sum(n, kk, wp, wr, ga)), prover=p)
            post(it, "epsilon: argument unchanged", cmp_("==", el(it, k, ix), kk), prover=p)
        else:
            kk = k.e
            post(it, "epsilon: oscillator sum", cmp_("==", el(it, r), osc_sum(n, kk, wp, wr, ga)))
        frame_obj(it, "epsilon: material unchanged", o, sn)
        again(it, "epsilon", lambda x: invoke(it, it.func("materials.LorentzMaterial.epsilon"), [o, x]), k, lambda kk: osc_sum(n, kk, wp, wr, ga))
    return run


for kd in ("array", "array2", "float", "int"):
    contract("C01", "LorentzMaterial.epsilon[%s]" % kd, ["materials.LorentzMaterial.epsilon", "materials.LorentzMaterial.__init__"])(eps_case(kd))


def karg(kind, it):
    if kind == "array":
        N = var("N", "I", 1)
        return mkarr((N,), lambda ix: uf("k", [ix[0]], pos=1))
    if kind == "array2":
        N, M = var("N", "I", 1), var("M", "I", 1)
        return mkarr((N, M), lambda ix: uf("k", list(ix), pos=1))
    return SV(var("k", pos=1), kind)


def again(it, name, call, k, spec):
    """history: the caller overwrites its array and asks again; the answer belongs to the new values"""
    if isinstance(k, Arr):
        overwrite(k, "kb")
        r = expect_value(it, name + " returns after overwriting k", call(k))
        if not isinstance(r, Arr) or len(r.shape) != len(k.shape):
            return fail(it, name + ": shape of k", "result %r" % (r,))
        ix, p = idx(it, k.shape)
        post(it, name + ": value after the argument was overwritten", cmp_("==", el(it, r, ix), spec(uf("kb", list(ix), pos=1))), prover=p)


def check_elem(it, name, r, k, spec):
    """r has the shape of k and every element is spec(element of k); k itself is unchanged"""
    if isinstance(k, Arr):
        if not isinstance(r, Arr) or len(r.shape) != len(k.shape):
            return fail(it, name + ": shape of k", "result %r" % (r,))
        for a, b in zip(r.shape, k.shape):
            post(it, name + ": shape of k", cmp_("==", a, b))
        ix, p = idx(it, k.shape)
        kk = uf("k", list(ix), pos=1)
        post(it, name + ": value at every element", cmp_("==", el(it, r, ix), spec(kk)), prover=p)
        post(it, name + ": argument unchanged", cmp_("==", el(it, k, ix), kk), prover=p)
    else:
        if isinstance(r, Arr):
            return fail(it, name + ": scalar for scalar k", "result %r" % (r,))
        post(it, name + ": value", cmp_("==", el(it, r), spec(k.e)))


def mu_case(cls, kind, magnetic):
    def run(it, ctx):
        n = var("nosc", "I", 0)
        mu0, wM = SV(var("mu0", pos=0), "float"), SV(var("wM", pos=1), "float")
        o, lst, wp, wr, ga = build(it, cls, n, (mu0, wM) if magnetic else ())
        k = karg(kind, it)
        sn = snapshot(o)
        r = expect_value(it, "mu returns", invoke(it, it.func("materials.%s.mu" % cls), [o, k]))
        spec = (lambda kk: ONE + (mu0.e - ONE) / (ONE + kk / (wM.e / C299))) if magnetic else (lambda kk: ONE)
        check_elem(it, "mu", r, k, spec)
        frame_obj(it, "mu: material unchanged", o, sn)
        # evaluating again gives the same value: nothing was changed by the first evaluation
        r2 = expect_value(it, "mu returns again", invoke(it, it.func("materials.%s.mu" % cls), [o, k]))
        check_elem(it, "mu, second evaluation", r2, k, spec)
        again(it, "mu", lambda x: invoke(it, it.func("materials.%s.mu" % cls), [o, x]), k, spec)
    return run


for cls in ("LorentzMaterial", "LorentzSmithMaterial"):
    for kd in ("array", "array2", "float") + (("int",) if cls == "LorentzMaterial" else ()):
        for mag in (0, 1):
            contract("C01", "%s.mu[%s,%s]" % (cls, kd, "magnetic" if mag else "non-magnetic"),
                     ["materials.%s.mu" % cls, "materials.%s.__init__" % cls])(mu_case(cls, kd, mag))


def smith_case(kind):
    def run(it, ctx):
        P = lambda nm, pos: SV(var(nm, pos=pos), "float")
        wp, wr, ga = P("wP", 0), P("wR", 0), P("gam", 0)
        o = Obj(it.module("materials").ns["LorentzSmithMaterial"], {}, name="mat")
        expect_value(it, "construct", invoke(it, it.func("materials.LorentzSmithMaterial.__init__"), [o, [(wp, wr, ga)], ()]))
        k = karg(kind, it)
        sn = snapshot(o)
        r = expect_value(it, "epsilon returns", invoke(it, it.func("materials.LorentzSmithMaterial.epsilon"), [o, k]))
        W, G = wp.e / C299, ga.e / C299
        spec = lambda kk: ONE + W ** 2 / (kk ** 2 + G * kk) * (ONE - C(Fraction(49, 100)) * G / (kk + G))
        check_elem(it, "epsilon (Smith)", r, k, spec)
        frame_obj(it, "epsilon: material unchanged", o, sn)
        again(it, "epsilon", lambda x: invoke(it, it.func("materials.LorentzSmithMaterial.epsilon"), [o, x]), k, spec)
    return run


for kd in ("array", "array2", "float", "int"):
    contract("C01", "LorentzSmithMaterial.epsilon[%s]" % kd, ["materials.LorentzSmithMaterial.epsilon", "materials.LorentzSmithMaterial.__init__"])(smith_case(kd))


def pec_case():
    def run(it, ctx):
        o = it.module("materials").ns["PerfectConductor"]
        k = karg("array", it)
        r = expect_value(it, "mu returns", invoke(it, o_attr(it, o, "mu"), [k]))
        check_elem(it, "mu (perfect conductor)", r, k, lambda kk: ONE)
    return run


def o_attr(it, o, name):
    return it.getattr(o, name)


contract("C01", "PerfectConductor.mu[array]", ["materials.PerfectConductor.mu"])(pec_case())


# consequences of the element formula, as lemmas over the contract (induction over the oscillators is the
# summand-wise order of finite sums: every summand is non-negative and non-increasing in k)
def lemma(it, ctx):
    wp, wr, ga = var("wP", pos=0), var("wR", pos=0), var("gam", pos=0)
    k1, k2 = var("k1", pos=1), var("k2", pos=1)
    t = lambda kk: (wp / C299) ** 2 / ((wr / C299) ** 2 + kk ** 2 + ga / C299 * kk)
    p = it.ctx.prover.copy()
    p.assume(cmp_("<=", k1, k2))
    post(it, "every summand is non-negative", cmp_(">=", t(k1), ZERO))
    post(it, "every summand is non-increasing in k", cmp_("<=", t(k2), t(k1)), prover=p)
    G = ga / C299
    s = lambda kk: (wp / C299) ** 2 / (kk ** 2 + G * kk) * (ONE - C(Fraction(49, 100)) * G / (kk + G))
    post(it, "the Smith term is non-negative", cmp_(">=", s(k1), ZERO))


contract("C01", "lemma: bounds and monotonicity of the oscillator terms", [])(lemma)
