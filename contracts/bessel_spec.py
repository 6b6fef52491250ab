"""Modified spherical Bessel functions as specification functions.

si(l, x), sk(l, x): i_l = sqrt(pi/2x) I_{l+1/2}(x), k_l = sqrt(pi/2x) K_{l+1/2}(x); positive for x > 0.
The summaries below are the contracts of bessel_sk.lnknu / lniknu (properties C03, C04), used by every caller.
"""
from common import *
from mpmath import mp
import numev


def si(l, x):
    return uf("si", [l, x], pos=1)


def sk(l, x):
    return uf("sk", [l, x], pos=1)


numev.SPEC_EVAL["si"] = lambda l, x: mp.sqrt(mp.pi / (2 * x)) * mp.besseli(l + mp.mpf(1) / 2, x)
numev.SPEC_EVAL["sk"] = lambda l, x: mp.sqrt(mp.pi / (2 * x)) * mp.besselk(l + mp.mpf(1) / 2, x)


def exists(name, args):
    key = ("uf", name) + tuple(core._ck(canon(toE(x))) for x in args)
    return key in core._INTERN


def bessel_facts(at, prover):
    """x i_{l-1} > (2l+1) i_l and x k_{l+1} > (2l+1) k_l (from the three-term recurrences and positivity), l >= 0, x > 0"""
    if at.kind != "uf" or at.name not in ("si", "sk"):
        return ()
    l, x = at.args
    A = A2E(at)
    out = []
    g = And(cmp_(">=", l, 0), cmp_(">", x, 0))
    if at.name == "si" and exists("si", [l - 1, x]):
        out.append(Implies(g, cmp_(">", x * si(l - 1, x), (2 * l + 1) * A)))
    if at.name == "sk" and exists("sk", [l + 1, x]):
        out.append(Implies(g, cmp_(">", x * sk(l + 1, x), (2 * l + 1) * A)))
    return out


FACT_PROVIDERS.append(bessel_facts)


def _args(args, kw):
    a = dict(zip(("x", "lmax"), args))
    a.update(kw)
    return a["x"], a["lmax"]


def _pre(it, x, lmax, fn):
    if not isinstance(x, Arr) or len(x.shape) != 1:
        raise Stuck("%s needs a one-dimensional array, got %r" % (fn, x))
    L = num(lmax)
    if not is_int(L):
        raise Stuck("%s needs an integer order" % fn)
    it.ctx.oblige("%s: maximal order is not negative" % fn, cmp_(">=", L, 0), kind="pre")
    ix, p = idx(it, x.shape)
    it.ctx.oblige("%s: argument is positive" % fn, cmp_(">", x.get(ix), 0), kind="pre", prover=p, assume=False)
    return L, x.snap()


def s_lnknu(it, args, kw, f):
    x, lmax = _args(args, kw)
    L, g = _pre(it, x, lmax, "lnknu")
    return mkarr((x.shape[0], L + 1), lambda ix: elog(sk(ix[1], g(ix[:1]))))


def s_lniknu(it, args, kw, f):
    x, lmax = _args(args, kw)
    L, g = _pre(it, x, lmax, "lniknu")
    return (mkarr((x.shape[0], L + 1), lambda ix: elog(si(ix[1], g(ix[:1])))),
            mkarr((x.shape[0], L + 1), lambda ix: elog(sk(ix[1], g(ix[:1])))))


BESSEL = {"bessel_sk.lnknu": s_lnknu, "bessel_sk.lniknu": s_lniknu}
TRUST = ["bessel_sk.lnknu, lniknu return ln k_l, ln i_l for x > 0 (contracts C03, C04)",
         "i_l, k_l positive with x i_{l-1} > (2l+1) i_l, x k_{l+1} > (2l+1) k_l (recurrences)"]


def base(name, l, x):
    """closed forms of the two lowest orders"""
    if name == "sk":
        return core.PI / 2 * eexp(-x) / x * (ONE if l == 0 else ONE + 1 / x)
    sh, ch = (eexp(x) - eexp(-x)) / 2, (eexp(x) + eexp(-x)) / 2
    return sh / x if l == 0 else (x * ch - sh) / x ** 2


def families(e, names=("si", "sk")):
    """{(name, key of x, key of the fractional part of l): [(integer offset, atom)]}"""
    fam = {}
    for a in all_atoms(e):
        at = ATOMS[a] if isinstance(a, int) else a
        if at.kind == "uf" and at.name in names:
            l, x = at.args
            c = l.num.get((), Fraction(0)) if not l.den else Fraction(0)
            rest = l - C(c) if not l.den else l
            fam.setdefault((at.name, x.key(), rest.key()), []).append((Fraction(c), at))
    return fam


def down(e, prover):
    """three-term recurrences, orders lowered to the two lowest consecutive ones of each family (0 and 1 in closed form when reached)"""
    changed = False
    for _ in range(60):
        mp = {}
        for (name, _x, rk), xs in families(e).items():
            xs.sort(key=lambda p: p[0])
            lo = xs[0][0]
            top, at = xs[-1]
            l, x = at.args
            s = 1 if name == "sk" else -1
            f = sk if name == "sk" else si
            c = l.const()
            if c is not None and c in (0, 1):
                mp[at.id] = base(name, int(c), x)
            elif c is not None and c >= 2 and c == int(c):
                mp[at.id] = f(l - 2, x) + s * (2 * l - 1) / x * f(l - 1, x)
            elif top - lo >= 2 and (top - lo).denominator == 1:
                # at order l >= 1 of the lower neighbour the recurrence holds (sk, si are defined for all l >= 0 here)
                if prover is None or prover.entails(cmp_(">=", l, 2)):
                    mp[at.id] = f(l - 2, x) + s * (2 * l - 1) / x * f(l - 1, x)
        if not mp:
            break
        e = subst(e, mp)
        changed = True
    return e if changed else None
