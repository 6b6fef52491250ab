from gens import *


def df(n):
    r = mpf(1)
    while n > 1:
        r *= n
        n -= 2
    return r


def leading(l1, l2, m, ext):
    """coefficient of the leading power of x of the polarisation conserving coefficient"""
    low = abs(l1 - l2)
    g = O.gaunt(l1, l2, m)
    ll = mpf(l1 * (l1 + 1) * l2 * (l2 + 1))
    if ext:
        p = l1 + l2
        return -(-1) ** m * 2 / mp.pi * mp.sqrt(mp.pi * (2 * p + 1) / ll) * g[-1] * (mp.pi / 2 * df(2 * p - 1)) * (l1 * (l1 + 1) + l2 * (l2 + 1) - p * (p + 1))
    p = low
    return (-1) ** (m + p) * mp.sqrt(mp.pi * (2 * p + 1) / ll) * g[0] / df(2 * p + 1) * (l1 * (l1 + 1) + l2 * (l2 + 1) - p * (p + 1))


@rt("C07", "zero-frequency coefficients are the leading coefficients", 120, quals=["translation.translation.trans_k0_ext", "translation.translation.trans_k0_int", "translation.translation.trans_ab"])
def k0(c):
    T = need("translation", "translation")
    ext = c.pick(0, 1)
    m = c.pick(0, 1, 2, c.int(0, 6))
    lo = max(1, m)
    lmax, lss = lo + c.int(0, 5), lo + c.int(0, 6)
    mat, _, _ = material(c, ("lor",))
    L = c.lu(0.1, 50)
    c.note(ext_flag=ext, m=m, lmax=lmax, lssmax=lss, L=L, medium=mat)
    z = np.array([0]) if c.p(0.5) else np.array([0.0])
    r = call("trans_ab at k=0", lambda: T(lmax, lss, m, mat, L, z, ext, 0).trans_ab())
    check(len(r) == 2, "two arrays expected")
    sg, ln = np.asarray(r[0]), np.asarray(r[1])
    sh = (lmax - lo + 1, lss - lo + 1)
    check(sg.shape == sh and ln.shape == sh, "shapes %s, %s instead of %s" % (sg.shape, ln.shape, sh))
    for a in range(sh[0]):
        for b in range(sh[1]):
            w = leading(lo + a, lo + b, m, ext)
            if not ext:
                w = w * (-1) ** (a - b)       # documented sign factor removed
            want = float(mp.log(abs(w)))
            check(float(sg[a, b]) == float(mp.sign(w)), "sign of (%d,%d) is %r" % (lo + a, lo + b, float(sg[a, b])))
            check(abs(ln[a, b] - want) <= 1e-9 * (1 + abs(want)), "ln of (%d,%d) is %r instead of %r" % (lo + a, lo + b, float(ln[a, b]), want))
    n = min(sh)
    close(ln[:n, :n], ln[:n, :n].T, 1e-12, 1e-11, "symmetry in l1, l2")
