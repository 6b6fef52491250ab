from gens import *
import subprocess


def scale(g):
    return max([abs(float(v)) for v in g] + [1e-300])


@rt("C05", "gaunt: count, closed form, recurrence", 500, quals=["cython_gaunt.gaunt"])
def values(c):
    f = need("cython_gaunt", "gaunt")
    hi = c.pick(3, 8, 20)
    l, lp = c.int(1, hi), c.int(1, hi)
    m = c.pick(0, c.int(-min(l, lp), min(l, lp)), c.int(-hi - 2, hi + 2), min(l, lp), -min(l, lp))
    c.note(l=l, lp=lp, m=m)
    g = np.asarray(call("gaunt", f, l, lp, m))
    n = (l + lp - abs(l - lp)) // 2 + 1
    check(g.shape == (n,), "shape %s instead of (%d,)" % (g.shape, n))
    if abs(m) > min(l, lp):
        check((g == 0).all(), "coefficients for |m|>min(l,l') are not zero")
        return
    w = O.gaunt(l, lp, m)
    check(np.isfinite(g).all(), "not finite: %s" % g)
    # local form of the contract: every recurrence step against the code's own neighbours
    top, low = l + lp, abs(l - lp)
    close(g[-1], float(w[-1]), 1e-10, 0, "coefficient of the largest total angular momentum")
    raw = [float(g[q]) * math.sqrt(2 * (low + 2 * q) + 1) for q in range(n)]
    if n > 1:
        close(raw[-2], raw[-1] * (2 * top - 3) * (l * lp - m * m * (2 * top - 1)) / ((2 * l - 1) * (2 * lp - 1) * top), 1e-10, 1e-13 * abs(raw[-1]), "second coefficient")
    al = lambda p: (p * p - (l + lp + 1.0) ** 2) * (p * p - (l - lp) ** 2) / (4.0 * p * p - 1)
    for q in range(n - 3, -1, -1):
        p = low + 2 * q
        a, b = (4 * m * m + al(p + 2) + al(p + 3)) * raw[q + 1], al(p + 4) * raw[q + 2]
        t = 1e-11 * (abs(a) + abs(b) + (4 * m * m + abs(al(p + 2)) + abs(al(p + 3))) * abs(raw[q + 1])) / abs(al(p + 1))
        close(raw[q], (a - b) / al(p + 1), 1e-11, t, "recurrence at total angular momentum %d" % p)


@rt("C05", "gaunt: all small angular momenta", 1, quals=["cython_gaunt.gaunt"])
def small(c):
    f = need("cython_gaunt", "gaunt")
    for l in range(1, 9):
        for lp in range(1, 9):
            for m in range(-9, 10):
                c.note(l=l, lp=lp, m=m)
                g = np.asarray(call("gaunt", f, l, lp, m))
                w = np.array([float(v) for v in O.gaunt(l, lp, m)])
                close(g, w, 1e-7, 1e-10 * scale(w), "gaunt(%d,%d,%d)" % (l, lp, m))


@rt("C05", "gaunt: bounds-checked build has no out-of-range access or zero division", 1, big=1, quals=["cython_gaunt.gaunt"])
def bounds(c):
    d = os.path.join(os.environ["VERIF_SCRATCH"], "cyb")
    try:
        build_cython(d, checked=True)
    except Exception as e:
        raise Skip(str(e)[:300])
    code = ("import sys; sys.path.insert(0,%r)\nimport cython_gaunt, numpy as np\n"
            "R=range(1,19)\n"
            "for l in R:\n for lp in R:\n  for m in sorted(set([0,1,-1,2,min(l,lp),-min(l,lp),min(l,lp)+1,-min(l,lp)-1])):\n"
            "   try:\n    g=cython_gaunt.gaunt(l,lp,m)\n   except Exception as e:\n    print('BAD',l,lp,m,type(e).__name__,e); sys.exit()\n"
            "for l,lp,m in ((60,1,0),(1,60,1),(40,55,39),(80,80,3)):\n"
            "   try:\n    g=cython_gaunt.gaunt(l,lp,m)\n   except Exception as e:\n    print('BAD',l,lp,m,type(e).__name__,e); sys.exit()\n"
            "print('OK')\n" % d)
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=200)
    if "BAD" in r.stdout:
        c.note(case=r.stdout.strip())
        bad("bounds-checked build: " + r.stdout.strip())
    if "OK" not in r.stdout:
        bad("bounds-checked build does not finish: %s" % r.stderr[-300:])
