from gens import *

B = lambda n: need("bessel_sk", n)


def xgen(c):
    k = c.r.random()
    if k < 0.25:
        return c.lu(1e-7, 9.99e-4)
    if k < 0.35:
        return c.pick(1e-3, 0.00099999, 0.0010001, 100.0, 100.0001, 99.9)
    if k < 0.9:
        return c.lu(1.1e-3, 100)
    return c.lu(100, 700)


def tol(l, x):
    """admissible error of ln i_l at x (truncated continued fraction of 80 terms for l>=2)"""
    if l == 0:
        return 2e-12 + 1e-12 * x + 3e-16 / x
    if l == 1:
        return 2e-11 + 1e-12 * x + (2e-15 / x ** 3 if x >= 1e-3 else 0)
    ex = O.i_(l, mpf(x)) / O.i_(l + 1, mpf(x))
    t = abs(float(mp.log((O.k_(l, mpf(x)) / O.k_(l + 1, mpf(x)) / O.cf(l, x, 80) + 1) / (O.k_(l, mpf(x)) / O.k_(l + 1, mpf(x)) / ex + 1))))
    return 5e-12 * (1 + l) + 1e-12 * x + 1.01 * t + 1e-12 * abs(float(O.lni(l, x)))


def cmp_row(got, x, ls, what):
    for j, l in enumerate(ls):
        w = float(O.lni(l, x))
        if not abs(got[j] - w) <= tol(l, x):
            bad("%s: ln i_%d(%r) is %r instead of %r" % (what, l, x, float(got[j]), w))


@rt("C04", "lniknu: ln i_l and ln k_l", 120, quals=["bessel_sk.lniknu", "bessel_sk.fnu", "bessel_sk.fraction"])
def values(c):
    f = B("lniknu")
    n, lmax = c.int(1, 5), c.pick(0, 1, 2, 3, c.int(2, 25))
    if c.p(0.08):
        n, lmax = 1, c.int(40, 90)
    x = np.array([xgen(c) for _ in range(n)])
    c.note(x=x, lmax=lmax)
    x0 = x.copy()
    li, lk = call("lniknu", f, x, np.int64(lmax) if c.p(0.3) else lmax)
    unchanged(x0, x, "argument x")
    li, lk = np.asarray(li), np.asarray(lk)
    check(li.shape == (n, lmax + 1) and lk.shape == (n, lmax + 1), "shapes %s %s" % (li.shape, lk.shape))
    for i in range(n):
        cmp_row(li[i], float(x[i]), range(lmax + 1), "lniknu")
        for l in range(lmax + 1):
            w = float(O.lnk(l, float(x[i])))
            check(abs(lk[i, l] - w) <= 1e-12 * abs(w) + 1e-11 * (1 + l), "ln k_%d(%r) is %r instead of %r" % (l, float(x[i]), float(lk[i, l]), w))


@rt("C04", "batch order and composition do not matter", 120, quals=["bessel_sk.lniknu"])
def batch(c):
    f = B("lniknu")
    n, lmax = c.int(2, 10), c.int(0, 12)
    x = np.array([xgen(c) for _ in range(n)])
    c.note(x=x, lmax=lmax)
    full = np.asarray(call("lniknu", f, x, lmax)[0])
    p = np.random.RandomState(c.int(0, 10 ** 6)).permutation(n)
    perm = np.asarray(call("lniknu", f, x[p], lmax)[0])
    close(perm, full[p], 1e-13, 1e-12, "permuted batch")
    i = c.int(0, n - 1)
    one = np.asarray(call("lniknu", f, x[i:i + 1].copy(), lmax)[0])[0]
    for l in range(lmax + 1):
        t = 2 * tol(l, float(x[i]))
        check(abs(one[l] - full[i, l]) <= t, "ln i_%d(%r) alone %r, in the batch %r" % (l, float(x[i]), one[l], full[i, l]))


@rt("C04", "order windows", 80, quals=["bessel_sk.mie_bessels", "bessel_sk.trans_bessels"])
def windows(c):
    lmax = c.int(0, 14)
    lmin = c.int(0, lmax)
    x = np.array([xgen(c) for _ in range(c.int(1, 4))])
    c.note(x=x, lmin=lmin, lmax=lmax)
    li, lk = [np.asarray(v) for v in call("mie_bessels", B("mie_bessels"), x, lmin, lmax)]
    check(lk.shape == li.shape, "mie_bessels: shapes %s and %s" % (li.shape, lk.shape))
    for i in range(len(x)):
        for l in range(lmin, lmax + 1):
            w = float(O.lnk(l, float(x[i])))
            check(abs(lk[i, l - lmin] - w) <= 1e-12 * abs(w) + 1e-11 * (1 + l), "mie_bessels: ln k_%d(%r) is %r instead of %r" % (l, float(x[i]), float(lk[i, l - lmin]), w))
    tk = np.asarray(call("trans_bessels", B("trans_bessels"), x, lmax, c.pick(1, 1.0, True)))
    check(tk.shape == (len(x), lmax + 1), "trans_bessels: shape %s" % (tk.shape,))
    for i in range(len(x)):
        for l in range(lmax + 1):
            w = float(O.lnk(l, float(x[i])))
            check(abs(tk[i, l] - w) <= 1e-12 * abs(w) + 1e-11 * (1 + l), "trans_bessels: ln k_%d(%r) is %r instead of %r" % (l, float(x[i]), float(tk[i, l]), w))
    check(li.shape == (len(x), lmax - lmin + 1), "mie_bessels: shape %s" % (li.shape,))
    ti = np.asarray(call("trans_bessels", B("trans_bessels"), x, lmax, c.pick(0, 0.0, False)))
    check(ti.shape == (len(x), lmax + 1), "trans_bessels: shape %s" % (ti.shape,))
    for i in range(len(x)):
        cmp_row(li[i], float(x[i]), range(lmin, lmax + 1), "mie_bessels")
        cmp_row(ti[i], float(x[i]), range(lmax + 1), "trans_bessels(int)")
    raises(lambda: B("mie_bessels")(x, lmax + c.int(1, 3), lmax), ValueError, "inverted window lmin > lmax")


@rt("C04", "continued fraction ratio I_nu/I_nu+1", 60, quals=["bessel_sk.fnu", "bessel_sk.i_fraction"])
def ratio(c):
    x = np.array([c.lu(1e-3, 150) for _ in range(c.int(1, 4))])
    ls = np.arange(1, c.int(2, 8))
    if c.p(0.35):
        ls = np.sort(np.array([c.int(20, 120) for _ in range(3)]))
        x = np.array([c.u(30, 100) for _ in range(2)])
    c.note(x=x, l=ls)
    r = np.asarray(call("i_fraction", B("i_fraction"), x, ls - 0.5))
    check(r.shape == (len(ls), len(x)), "i_fraction: shape %s" % (r.shape,))
    for a, l in enumerate(ls.tolist()):
        for b, v in enumerate(x.tolist()):
            ex = O.i_(l - 1, mpf(v)) / O.i_(l, mpf(v))
            t = 1e-11 + 1.01 * abs(float(O.cf(l - 1, v, 80) / ex - 1))
            check(abs(float(r[a, b] / ex) - 1) <= t, "I_%s/I_%s at %r is %r instead of %r" % (l - 0.5, l + 0.5, v, r[a, b], float(ex)))
