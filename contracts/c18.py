from common import *

KINDS = ("float", "array")


def fargs(kind):
    if kind == "array":
        N = var("N", "I", 1)
        return mkarr((N,), lambda ix: uf("kp", [ix[0]], pos=0)), mkarr((N,), lambda ix: uf("k", [ix[0]], pos=1)), (N,)
    if kind == "outer":
        N, M = var("N", "I", 1), var("M", "I", 1)
        return mkarr((N, ONE), lambda ix: uf("kp", [ix[0]], pos=0)), mkarr((M,), lambda ix: uf("k", [ix[0]], pos=1)), (N, M)
    return SV(var("kp", pos=0), "float"), SV(var("k", pos=1), "float"), ()


def spec(kp, k, a, b):
    q = lambda t: eroot(kp ** 2 + eps(t, k) * mu(t, k) * k ** 2, 2)
    qm, qp = q(b), q(a)
    te = (mu(a, k) * qm - mu(b, k) * qp) / (mu(a, k) * qm + mu(b, k) * qp)
    tm = (eps(a, k) * qm - eps(b, k) * qp) / (eps(a, k) * qm + eps(b, k) * qp)
    return te, tm


def make(it, a, b, **kw):
    cls = it.module("scattering").ns["scattering"]
    return it.call(cls, [abs_material(it, a, **kw), abs_material(it, b)], {})


def formula(kind):
    def run(it, ctx):
        kp, k, shape = fargs(kind)
        s = make(it, "1", "2")
        r = expect_value(it, "returns", invoke(it, it.getattr(s, "fresnel"), [kp, k]))
        if not isinstance(r, (tuple, list)) or len(r) != 2:
            return fail(it, "returns (TE, TM)", "%r" % (r,))
        if shape:
            ix, p = idx(it, shape)
            for x, nm in zip(r, ("TE", "TM")):
                if not isinstance(x, Arr) or len(x.shape) != len(shape):
                    return fail(it, nm + " has the broadcast shape", "%r" % (x,))
                for u, v in zip(x.shape, shape):
                    post(it, nm + " has the broadcast shape", cmp_("==", u, v))
            kpe = uf("kp", [ix[0]], pos=0)
            ke = uf("k", [ix[-1]], pos=1)
        else:
            ix, p, kpe, ke = (), None, kp.e, k.e
        te, tm = spec(kpe, ke, "1", "2")
        post(it, "TE coefficient", cmp_("==", el(it, r[0], ix), te), prover=p)
        post(it, "TM coefficient", cmp_("==", el(it, r[1], ix), tm), prover=p)
        if not shape:
            for x, nm in zip(r, ("TE", "TM")):
                post(it, nm + " < 1", cmp_("<", el(it, x), ONE))
                post(it, nm + " > -1", cmp_(">", el(it, x), -ONE))
    return run


for kd in ("float", "array", "outer"):
    contract("C18", "scattering.fresnel[%s]" % kd, ["scattering.scattering.fresnel", "scattering.scattering.__init__"],
             trust=["epsilon, mu: arbitrary positive elementwise functions (contract C01)"])(formula(kd))


def antisym(it, ctx):
    kp, k, _ = fargs("float")
    s = make(it, "1", "2")
    t = make(it, "2", "1")
    u = make(it, "1", "1")
    r = expect_value(it, "returns", invoke(it, it.getattr(s, "fresnel"), [kp, k]))
    q = expect_value(it, "returns", invoke(it, it.getattr(t, "fresnel"), [kp, k]))
    z = expect_value(it, "returns", invoke(it, it.getattr(u, "fresnel"), [kp, k]))
    for i, nm in enumerate(("TE", "TM")):
        post(it, nm + " changes sign when the media are exchanged", cmp_("==", el(it, r[i]), -el(it, q[i])))
        post(it, nm + " vanishes without contrast", cmp_("==", el(it, z[i]), ZERO))


contract("C18", "exchange of the media, no contrast", ["scattering.scattering.fresnel"])(antisym)


def pec(kind):
    def run(it, ctx):
        kp, k, _ = fargs(kind)
        s = make(it, "1", "2", pec=True)
        r = expect_value(it, "returns", invoke(it, it.getattr(s, "fresnel"), [kp, k]))
        for x, v, nm in zip(r, (-ONE, ONE), ("TE", "TM")):
            ix, p = idx(it, x.shape) if isinstance(x, Arr) else ((), None)
            post(it, "perfect conductor: " + nm, cmp_("==", el(it, x, ix), v), prover=p)
    return run


for kd in KINDS:
    contract("C18", "perfect conductor[%s]" % kd, ["scattering.scattering.__init__", "scattering.scattering.fresnelPEC"])(pec(kd))
