from gens import *
from scipy.special import gammaln


def poly(co, x):
    return sum(a * x ** i for i, a in enumerate(co))


@rt("C22", "num_derivative: exact on polynomials, shape, arguments untouched", 400, quals=["helper_functions.num_derivative"])
def nd(c):
    f = need("helper_functions", "num_derivative")
    n = c.pick(5, 5, 6, 7, c.int(5, 30), c.int(4, 60))
    h = c.pick(1.0, 0.5, c.lu(1e-2, 10))
    x = c.pick(0.0, -3.0, c.u(-5, 5)) + h * np.arange(n)
    sc = max(abs(x[0]), abs(x[-1]), h)
    for deg in (4, 2, 1):
        co = [c.u(-1, 1) / sc ** i for i in range(deg + 1)]
        y = poly(co, x)
        d = np.array([sum(i * a * t ** (i - 1) for i, a in enumerate(co) if i) for t in x])
        c.note(x=x, coefficients=co)
        x0, y0 = x.copy(), y.copy()
        r = call("num_derivative", f, y, x)
        unchanged(x0, x, "x")
        unchanged(y0, y, "f")
        check(np.shape(r) == (n,), "shape %s" % (np.shape(r),))
        tol = 1e-10 * (np.abs(d).max() + np.abs(y).max() / h)
        lo = {4: 2, 2: 1, 1: 0}[deg]
        if n - 2 * lo <= 0:
            continue
        bad_ = np.abs(r - d)[lo:n - lo] > tol
        check(not bad_.any(), "degree %d polynomial: %r instead of %r" % (deg, r, d))


@rt("C22", "num_derivative is linear in the samples", 100, quals=["helper_functions.num_derivative"])
def lin(c):
    f = need("helper_functions", "num_derivative")
    n = c.int(5, 25)
    h = c.lu(0.1, 3)
    x = h * np.arange(n)
    i = c.int(0, n - 1)
    e = np.zeros(n)
    e[i] = 1.0
    c.note(n=n, h=h, i=i)
    r = call("num_derivative", f, e, x)
    w = np.zeros(n)
    for j in range(n):
        if j in (0, n - 1):
            s = {0: {1: 1, 0: -1}, n - 1: {n - 1: 1, n - 2: -1}}[j]
            w[j] = s.get(i, 0) / h
        elif j in (1, n - 2):
            w[j] = {j + 1: 1, j - 1: -1}.get(i, 0) / (2 * h)
        else:
            w[j] = {j + 2: -1, j + 1: 8, j - 1: -8, j - 2: 1}.get(i, 0) / (12 * h)
    close(r, w, 1e-11, 1e-13 / h, "response to a unit sample")


@rt("C22", "num_derivative rejects grids that are not increasing", 60, quals=["helper_functions.num_derivative"])
def rej(c):
    f = need("helper_functions", "num_derivative")
    n = c.int(5, 12)
    h = c.pick(0.0, -c.lu(1e-3, 10))
    x = 3.0 + h * np.arange(n)
    if c.p(0.3):        # decreasing at its start only
        x[2:] = 3.0 + 0.5 * np.arange(1, n - 1)
    c.note(x=x)
    raises(lambda: f(np.ones(n), x), ValueError, "grid with step %r" % h)


@rt("C22", "lfac and ln_2dbl", 300, quals=["helper_functions.lfac", "helper_functions.ln_2dbl"])
def fac(c):
    lf, l2 = need("helper_functions", "lfac"), need("helper_functions", "ln_2dbl")
    n = c.pick(0, 1, 2, 3, 4, c.int(0, 30), c.int(0, 2000), c.int(0, 200000))
    c.note(n=n)
    a = float(mp.loggamma(mpf(n) + 1))
    b = float(mp.loggamma(2 * mpf(n) + 1) - mpf(n) * mp.log(2) - mp.loggamma(mpf(n) + 1))
    check(abs(call("lfac", lf, n) - a) <= 1e-11 * (abs(a) + 1), "lfac(%d)=%r instead of %r" % (n, lf(n), a))
    tol = 1e-11 * (float(mp.loggamma(2 * mpf(n) + 1)) + 1)
    check(abs(call("ln_2dbl", l2, n) - b) <= tol, "ln_2dbl(%d)=%r instead of %r" % (n, l2(n), b))
    v = np.array([n, n + 1, 0, 5])
    v0 = v.copy()
    close(call("lfac", lf, v), [float(mp.loggamma(mpf(int(t)) + 1)) for t in v], 1e-11, 1e-11, "lfac of an array")
    r = np.asarray(call("ln_2dbl", l2, v))
    close(r, [l2(int(t)) for t in v], 1e-12, 1e-12, "ln_2dbl of an array")
    unchanged(v0, v, "array")
