from gens import *

B = lambda n: need("bessel_sk", n)


def xs(c, n=None, lo=1e-4, hi=800.0):
    n = n or c.int(1, 6)
    return np.array([c.pick(c.lu(lo, hi), c.lu(1e-2, 60)) for _ in range(n)])


def table(x, lmax):
    return np.array([[float(O.lnk(l, v)) for l in range(lmax + 1)] for v in x.tolist()])


def tol(want):
    return 1e-12 * np.abs(want) + 2e-12 * (1 + np.arange(want.shape[1]))[None, :]


def cmp_tab(got, want, what):
    got = np.asarray(got)
    check(got.shape == want.shape, "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    d = np.abs(got - want)
    t = tol(want)
    if not (d <= t).all():
        i, l = np.unravel_index(np.argmin(d <= t), d.shape)
        bad("%s: ln k_%d is %r instead of %r (argument no. %d)" % (what, l, float(got[i, l]), float(want[i, l]), i))


@rt("C03", "lnknu: values and recurrence", 80, quals=["bessel_sk.lnknu"])
def values(c):
    f = B("lnknu")
    lmax = c.pick(0, 1, 2, 3, c.int(2, 40), c.int(2, 12))
    x = xs(c)
    L = np.int64(lmax) if c.p(0.3) else lmax
    c.note(x=x, lmax=lmax)
    x0 = x.copy()
    got = call("lnknu", f, x, L)
    unchanged(x0, x, "argument x")
    cmp_tab(got, table(x, lmax), "lnknu")


@rt("C03", "lnknu: long tables", 4, quals=["bessel_sk.lnknu"])
def long_(c):
    f = B("lnknu")
    lmax = c.int(100, 220)
    x = xs(c, 2)
    c.note(x=x, lmax=lmax)
    cmp_tab(call("lnknu", f, x, lmax), table(x, lmax), "lnknu")


@rt("C03", "lnknu: independent of batch and of lmax", 150, quals=["bessel_sk.lnknu"])
def batch(c):
    f = B("lnknu")
    lmax = c.int(1, 30)
    x = xs(c, c.int(2, 12), 1e-6, 3000)
    c.note(x=x, lmax=lmax)
    full = np.asarray(call("lnknu", f, x, lmax))
    i = c.int(0, len(x) - 1)
    one = np.asarray(call("lnknu", f, x[i:i + 1].copy(), lmax))
    close(full[i], one[0], 1e-13, 1e-12, "value inside and outside of a batch")
    l2 = c.int(0, lmax)
    low = np.asarray(call("lnknu", f, x, l2))
    close(low, full[:, :l2 + 1], 1e-13, 1e-12, "value for a smaller maximal order")
    p = np.random.RandomState(c.int(0, 10 ** 6)).permutation(len(x))
    close(call("lnknu", f, x[p], lmax), full[p], 1e-13, 1e-12, "permuted batch")


@rt("C03", "trans_bessels(ext) and mie_bessels return the same ln k_l", 60, quals=["bessel_sk.trans_bessels", "bessel_sk.mie_bessels"])
def users(c):
    lmax = c.int(1, 15)
    x = xs(c)
    c.note(x=x, lmax=lmax)
    want = table(x, lmax)
    cmp_tab(call("trans_bessels", B("trans_bessels"), x, lmax, c.pick(1, 1.0, True)), want, "trans_bessels(ext)")
    lmin = c.int(0, lmax)
    k = np.asarray(call("mie_bessels", B("mie_bessels"), x, lmin, lmax)[1])
    check(k.shape == (len(x), lmax - lmin + 1), "mie_bessels: shape %s of ln k" % (k.shape,))
    close(k, want[:, lmin:], 1e-12, 1e-10, "mie_bessels ln k window")
    k2 = np.asarray(call("lniknu", B("lniknu"), x, lmax)[1])
    cmp_tab(k2, want, "lniknu ln k")
