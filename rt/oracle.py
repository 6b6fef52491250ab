"""Specification functions, evaluated with mpmath (independent of the code under test)."""
import functools
from mpmath import mp, mpf
import mpmath

mp.dps = 40
C299 = mpf("2.998e14")


@functools.lru_cache(200000)
def k_(l, x):
    """(pi/2) e^-x/x polynomial: modified spherical Bessel k_l by upward recurrence (stable)"""
    x = mpf(x)
    if l == -1:
        return k_(0, x)
    a = mp.pi / 2 * mp.exp(-x) / x
    if l == 0:
        return a
    b = a * (1 + 1 / x)
    for j in range(1, l):
        a, b = b, a + (2 * j + 1) / x * b
    return b


@functools.lru_cache(200000)
def i_(l, x):
    x = mpf(x)
    # series / mpmath
    return mpmath.besseli(l + mpf(1) / 2, x) * mp.sqrt(mp.pi / (2 * x))


def lnk(l, x):
    return mp.log(k_(l, mpf(x)))


def lni(l, x):
    return mp.log(i_(l, mpf(x)))


@functools.lru_cache(200000)
def cf(l, x, N):
    """I_nu/I_nu+1, nu=l+1/2, N terms of the continued fraction"""
    nu = mpf(l) + mpf(1) / 2
    x = mpf(x)
    v = 2 * (nu + N) / x
    for n in range(N - 1, 0, -1):
        v = 2 * (nu + n) / x + 1 / v
    return v


@functools.lru_cache(100000)
def gaunt(l, lp, m):
    top, low = l + lp, abs(l - lp)
    n = (top - low) // 2 + 1
    g = [mpf(0)] * n
    if abs(m) > min(l, lp):
        return g
    F = mp.factorial
    al = lambda p: mpf((p * p - (l + lp + 1) ** 2) * (p * p - (l - lp) ** 2)) / (4 * p * p - 1)
    amax = (F(2 * l) * F(2 * lp) * F(top) ** 2 / (F(l) * F(lp) * F(2 * top) * F(l - m) * F(lp + m))
            * mp.sqrt(F(l - m) * F(lp + m) / (F(l + m) * F(lp - m))) * mp.sqrt((2 * l + 1) * (2 * lp + 1) / (4 * mp.pi)))
    g[-1] = amax
    if n > 1:
        g[-2] = amax * mpf(2 * top - 3) * (l * lp - m * m * (2 * top - 1)) / ((2 * l - 1) * (2 * lp - 1) * top)
    for q in range(n - 3, -1, -1):
        p = low + 2 * q            # coefficient for total angular momentum p
        g[q] = ((4 * m * m + al(p + 2) + al(p + 3)) * g[q + 1] - al(p + 4) * g[q + 2]) / al(p + 1)
    return [g[q] / mp.sqrt(2 * (low + 2 * q) + 1) for q in range(n)]


def vcoef(l1, l2, m, x, ext):
    """(EE_ab, EE_ba, EM_ab, EM_ba) for x = n k L; gives also the sums of the absolute terms"""
    x = mpf(x)
    low = abs(l1 - l2)
    g = gaunt(l1, l2, m)
    ll = mpf(l1 * (l1 + 1) * l2 * (l2 + 1))
    ee = eeb = em = emb = mpf(0)
    aee = aem = mpf(0)
    for q, gg in enumerate(g):
        p = low + 2 * q
        w = mp.sqrt(mp.pi * (2 * p + 1) / ll) * gg
        if ext:
            t = -(-1) ** m * 2 / mp.pi * w * k_(p, x)
        else:
            t = (-1) ** (m + p) * w * i_(p, x)
        ee += (l1 * (l1 + 1) + l2 * (l2 + 1) - p * (p + 1)) * t
        aee += (l1 * (l1 + 1) + l2 * (l2 + 1) + p * (p + 1)) * abs(t)
        em += 2 * m * x * t
        aem += abs(2 * m * x * t)
    s = (-1) ** (l1 + l2)
    return (ee, s * ee, em, -s * em), (aee, aem)


def id_(l, x):
    """(x i_l)'/i_l"""
    return -l + x * i_(l - 1, x) / i_(l, x)


def kd_(l, x):
    """(x k_l)'/k_l"""
    return -l - x * k_(l - 1, x) / k_(l, x)


def reflect_out(l, surf, x_e, z_e, z_i):
    """coefficient c of the outgoing wave: outside f = i_l(x)+c k_l(x), the logarithmic boundary value
    (x f)'/f / z continuous with the inside value surf (None: field vanishes, 'inf': derivative side)"""
    I, K = i_(l, x_e), k_(l, x_e)
    if surf == "zero":              # f = 0
        return -I / K
    if surf == "flat":              # (x f)' = 0
        return -(I * id_(l, x_e)) / (K * kd_(l, x_e))
    # ((I id + c K kd))/(I + c K) / z_e = surf / z_i
    a = surf / z_i
    return -(I * id_(l, x_e) / z_e - a * I) / (K * kd_(l, x_e) / z_e - a * K)


def sphere(l, k, layers, med):
    """exact TE and TM outgoing coefficients of a layered sphere (in the repository's normalisation)
    layers: [(radius, eps, mu)] from the core outwards, eps None = perfect conductor; med (eps, mu)"""
    k = mpf(k)
    out = []
    for pol in (0, 1):
        c = None
        for j, (R, eps, mu) in enumerate(layers):
            nxt = layers[j + 1][1:] if j + 1 < len(layers) else med
            xe = mp.sqrt(nxt[0] * nxt[1]) * k * mpf(R)
            ze = nxt[1] if pol == 0 else nxt[0]
            if eps is None:
                c = reflect_out(l, "zero" if pol == 0 else "flat", xe, ze, None)
                continue
            xi = mp.sqrt(eps * mu) * k * mpf(R)
            zi = mu if pol == 0 else eps
            if c is None:
                s = id_(l, xi)
            else:
                I, K = i_(l, xi), k_(l, xi)
                s = (I * id_(l, xi) + c * K * kd_(l, xi)) / (I + c * K)
            c = reflect_out(l, s, xe, ze, zi)
        # normalisation: -(-1)^l pi/2 * c
        out.append(-(-1) ** l * mp.pi / 2 * c)
    return out


def wall(l, k, R, inner, outer):
    """reflection of outgoing waves at the inside of a spherical wall of radius R:
    inside f = k_l + c i_l, outside t k_l; outer None = perfect conductor"""
    k = mpf(k)
    x = mp.sqrt(inner[0] * inner[1]) * k * mpf(R)
    I, K = i_(l, x), k_(l, x)
    out = []
    for pol in (0, 1):
        zi = inner[1] if pol == 0 else inner[0]
        if outer is None:
            c = -K / I if pol == 0 else -(K * kd_(l, x)) / (I * id_(l, x))
        else:
            zo = outer[1] if pol == 0 else outer[0]
            xo = mp.sqrt(outer[0] * outer[1]) * k * mpf(R)
            a = kd_(l, xo) / zo
            c = -(K * kd_(l, x) / zi - a * K) / (I * id_(l, x) / zi - a * I)
        out.append(-(-1) ** l * 2 / mp.pi * c)
    return out


def eps_lorentz(osc, k):
    k = mpf(k)
    s = mpf(1)
    for wp, wr, g in osc:
        wp, wr, g = mpf(wp) / C299, mpf(wr) / C299, mpf(g) / C299
        if wp == 0:
            continue
        s += wp ** 2 / (wr ** 2 + k ** 2 + g * k)
    return s


def mu_model(b, k):
    if b == ():
        return mpf(1)
    return 1 + (mpf(b[0]) - 1) / (1 + mpf(k) / (mpf(b[1]) / C299))
