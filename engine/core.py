"""Term language of the verification-condition generator.

Scalars are rational functions (class E) with rational coefficients over
hash-consed atoms; atoms are variables, uninterpreted (specification)
functions, exp/log/roots, (-1)^n, finite sums, if-then-else, floor ...
Construction normalises, so that most equality obligations are decided by
cross multiplication; everything else goes to z3 (smt.py).
"""
from fractions import Fraction
import itertools, random, math

P = (1 << 89) - 1            # Mersenne prime, for fingerprints of terms
_D = 5040                    # every atom value is a _D-th power => roots exist

ATOMS = []                   # id -> Atom
_INTERN = {}
F0, F1 = Fraction(0), Fraction(1)


class Stuck(Exception):
    """the engine cannot translate / decide something (never a violation)"""


class Atom:
    __slots__ = ("id", "kind", "args", "sort", "pos", "r", "fp", "name", "special", "free")

    def __repr__(self):
        return show_atom(self)


def _mkatom(kind, args, key, sort, pos, name=None, special=None):
    a = _INTERN.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.args, a.sort, a.pos, a.name, a.special = kind, args, sort, pos, name, special
    rng = random.Random(repr(("atom", a.id)))
    a.r = rng.randrange(2, P - 1)
    a.fp = pow(a.r, _D, P)
    ATOMS.append(a)
    _INTERN[key] = a
    a.free = None
    return a


# --------------------------------------------------------------- rational functions
class E:
    __slots__ = ("num", "den", "_h", "_fp")

    def __init__(self, num, den=()):
        self.num, self.den = num, den
        self._h = None
        self._fp = None

    # -- identity
    def key(self):
        if self._h is None:
            self._h = (frozenset(self.num.items()), self.den)
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):          # structural; semantic equality is eq()
        return isinstance(o, E) and self.key() == o.key()

    def fp(self):
        if self._fp is None:
            n = _pfp(self.num)
            for pk, k in self.den:
                n = n * pow(_pfp(dict(pk)), -k, P) % P
            self._fp = n
        return self._fp

    # -- queries
    def is_zero(self):
        return not self.num

    def const(self):
        if self.den:
            return None
        if not self.num:
            return F0
        if len(self.num) == 1 and () in self.num:
            return self.num[()]
        return None

    def mono(self):
        """(coef, monomial) if a single Laurent monomial"""
        if self.den or len(self.num) != 1:
            return None
        (m, c), = self.num.items()
        return c, m

    def atoms(self):
        s = set()
        for m in self.num:
            for a, _ in m:
                s.add(a)
        for pk, _ in self.den:
            for m, _ in pk:
                for a, _ in m:
                    s.add(a)
        return s

    # -- arithmetic
    def __add__(self, o):
        return eadd(self, toE(o))
    __radd__ = __add__

    def __neg__(self):
        return E({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return eadd(self, -toE(o))

    def __rsub__(self, o):
        return eadd(toE(o), -self)

    def __mul__(self, o):
        return emul(self, toE(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return emul(self, einv(toE(o)))

    def __rtruediv__(self, o):
        return emul(toE(o), einv(self))

    def __pow__(self, n):
        return epow(self, n)

    def __repr__(self):
        return show(self)


def _pfp(p):
    s = 0
    for m, c in p.items():
        v = c.numerator * pow(c.denominator, -1, P) % P
        for a, e in m:
            at = ATOMS[a]
            if isinstance(e, int):
                v = v * pow(at.fp, e, P) % P
            else:
                ee = e * _D
                if ee.denominator == 1:
                    v = v * pow(at.r, int(ee), P) % P
                else:
                    v = v * pow(at.r, hash((a, e)) % (P - 1), P) % P
        s += v
    return s % P


ZERO = E({})
ONE = E({(): F1})
MATFUNS = set()         # functionals of a matrix: uf(name, [size, entry at (@F d, @F d+1), d, ...])


def C(x):
    x = Fraction(x)
    return E({(): x}) if x else ZERO


def toE(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return C(int(x))
    if isinstance(x, (int, Fraction)):
        return C(x)
    if isinstance(x, float):
        return C(Fraction(repr(x)))
    raise Stuck("not a scalar term: %r" % (x,))


def A2E(a, e=1):
    return E({((a.id, e),): F1})


def _mmul(m1, m2):
    """merge monomials; returns (monomial, overflow list)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    out = []
    i = j = 0
    over = None
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a < b:
            out.append(m1[i]); i += 1
        elif b < a:
            out.append(m2[j]); j += 1
        else:
            s = e + f
            i += 1; j += 1
            if s == 0:
                continue
            if not isinstance(s, int) and s.denominator == 1:
                s = int(s)
            sp = ATOMS[a].special
            if sp is not None and not sp_ok(sp, s):
                over = (over or []) + [(a, s)]
                continue
            out.append((a, s))
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), over


def sp_ok(sp, s):
    k = sp[0]
    if k == "sg":
        return s == 1
    if k == "root":
        return 0 < s < sp[1] and isinstance(s, int)
    if k == "num":
        return 0 < s < 1
    return True


def _sp_reduce(aid, s):
    """special atom to the power s as an E with admissible powers"""
    a = ATOMS[aid]
    sp = a.special
    if sp[0] == "sg":
        return A2E(a) if s % 2 else ONE
    if sp[0] == "root":
        q = sp[1]
        if not isinstance(s, int):
            # fractional power of a root: new root of the base
            return epow(a.args[0], Fraction(s) / q)
        k, r = divmod(s, q)
        out = epow(a.args[0], k)
        return out * A2E(a, r) if r else out
    if sp[0] == "num":
        k = math.floor(s)
        r = s - k
        out = C(Fraction(sp[1]) ** k)
        return out * E({((aid, r),): F1}) if r else out
    raise AssertionError


def pmul(p, q):
    """product of two numerators -> E (special atoms may overflow)"""
    out = {}
    extra = None
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, over = _mmul(m1, m2)
            c = c1 * c2
            if over is None:
                v = out.get(m)
                if v is None:
                    out[m] = c
                else:
                    v += c
                    if v:
                        out[m] = v
                    else:
                        del out[m]
            else:
                t = E({m: c})
                for a, s in over:
                    t = emul(t, _sp_reduce(a, s))
                extra = t if extra is None else eadd(extra, t)
    r = E(out)
    return r if extra is None else eadd(r, extra)


def _sortkey(m):
    return m


def content(p):
    """(coef, monomial) content of a non-zero polynomial (gcd, so that p/content is primitive)"""
    it = iter(p)
    m0 = next(it)
    exps = dict(m0)
    for m in it:
        d = dict(m)
        for a in list(exps):
            e = d.get(a, 0)
            if e < exps[a]:
                exps[a] = e
        for a, e in d.items():
            if e < 0 and a not in exps:
                exps[a] = e
    # atoms missing in the first monomial but negative elsewhere handled above
    mono = tuple(sorted((a, e) for a, e in exps.items() if e != 0))
    lead = max(p)
    return p[lead], mono


def primitive(p):
    """p = c*mono*q, q primitive (leading coefficient 1, no monomial content)"""
    c, mono = content(p)
    inv = tuple((a, -e) for a, e in mono)
    q = {}
    for m, k in p.items():
        mm = _mono_mul_raw(m, inv)
        q[mm] = k / c
    # the leading monomial may change after removing content -> renormalise
    lead = max(q)
    if q[lead] != 1:
        f = q[lead]
        q = {m: k / f for m, k in q.items()}
        c = c * f
    return c, mono, q


def _mono_mul_raw(m1, m2):
    d = dict(m1)
    for a, e in m2:
        s = d.get(a, 0) + e
        if s:
            if not isinstance(s, int) and s.denominator == 1:
                s = int(s)
            d[a] = s
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def pkey(p):
    return tuple(sorted(p.items()))


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    out = dict(p)
    for m, c in q.items():
        v = out.get(m)
        if v is None:
            out[m] = c
        else:
            v += c
            if v:
                out[m] = v
            else:
                del out[m]
    return out


def eadd(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if a.den == b.den:
        n = padd(a.num, b.num)
        if not n:
            return ZERO
        return _reduce(n, a.den) if a.den else E(n)
    da, db = dict(a.den), dict(b.den)
    common = dict(da)
    for k, e in db.items():
        if e > common.get(k, 0):
            common[k] = e
    fa, fb = E(a.num), E(b.num)
    for k, e in common.items():
        ea = e - da.get(k, 0)
        eb = e - db.get(k, 0)
        pk = E(dict(k))
        for _ in range(ea):
            fa = emul(fa, pk)
        for _ in range(eb):
            fb = emul(fb, pk)
    s = eadd(fa, fb)
    den = tuple(sorted(common.items()))
    return _mkfrac(s, den)


def _mkfrac(e, den):
    """e / prod(den) where e may itself carry a denominator"""
    if not e.num:
        return ZERO
    if not den:
        return e
    if e.den:
        d = dict(e.den)
        for k, x in den:
            d[k] = d.get(k, 0) + x
        den = tuple(sorted(d.items()))
    return _reduce(e.num, den)


def _reduce(num, den):
    """cancel denominator factors that divide the numerator"""
    if not num:
        return ZERO
    out = []
    for pk, k in den:
        p = dict(pk)
        while k > 0:
            q = pdiv_exact(num, p)
            if q is None:
                break
            num = q
            k -= 1
        if k:
            out.append((pk, k))
    return E(num, tuple(out))


def pdiv_exact(num, p):
    """num / p if exact (num Laurent, p primitive), else None"""
    if len(num) < len(p) or len(num) > 400:
        return None
    # quick necessary test through the fingerprints at a second point is skipped; do the division
    atoms = sorted({a for m in num for a, _ in m} | {a for m in p for a, _ in m})
    pa = {a for m in p for a, _ in m}
    na = {a for m in num for a, _ in m}
    if not pa <= na:
        return None
    idx = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)
    N = {vec(m): c for m, c in num.items()}
    D = [(vec(m), c) for m, c in p.items()]
    D.sort(reverse=True)
    lv, lc = D[0]
    # Laurent: shift numerator so that the minimum exponents are zero
    mins = [min(v[i] for v in N) for i in range(len(atoms))]
    N = {tuple(x - y for x, y in zip(v, mins)): c for v, c in N.items()}
    Q = {}
    steps = 0
    while N:
        steps += 1
        if steps > 400:
            return None
        v = max(N)
        c = N[v]
        d = tuple(x - y for x, y in zip(v, lv))
        if any(x < 0 for x in d):
            return None
        qc = c / lc
        Q[d] = qc
        for w, wc in D:
            t = tuple(x + y for x, y in zip(d, w))
            nv = N.get(t, F0) - qc * wc
            if nv:
                N[t] = nv
            else:
                N.pop(t, None)
    out = {}
    for v, c in Q.items():
        m = []
        for i, x in enumerate(v):
            e = x + mins[i]
            if e:
                if not isinstance(e, int) and e.denominator == 1:
                    e = int(e)
                m.append((atoms[i], e))
        out[tuple(m)] = c
    for m in out:
        for a, e in m:
            sp = ATOMS[a].special
            if sp is not None and not sp_ok(sp, e):
                return None
    return out


def _proportional(p, q):
    if p.keys() != q.keys():
        return False
    r = None
    for m in p:
        x = p[m] / q[m]
        if r is None:
            r = x
        elif r != x:
            return False
    return True


def _ratio(p, q):
    m = next(iter(p))
    return p[m] / q[m]


def emul(a, b):
    if not a.num or not b.num:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        if ca == 1:
            return b
        return E({m: c * ca for m, c in b.num.items()}, b.den)
    if cb is not None:
        if cb == 1:
            return a
        return E({m: c * cb for m, c in a.num.items()}, a.den)
    # cancel whole factors first
    an, ad, bn, bd = a.num, a.den, b.num, b.den
    if bd and len(an) > 1:
        an, bd = _cancel(an, bd)
    if ad and len(bn) > 1:
        bn, ad = _cancel(bn, ad)
    n = pmul(an, bn)
    if not ad and not bd:
        return n
    d = dict(ad)
    for k, x in bd:
        d[k] = d.get(k, 0) + x
    return _mkfrac(n, tuple(sorted(d.items())))


def _cancel(n, den):
    c, mono, q = primitive(n)
    k = pkey(q)
    d = dict(den)
    if k in d:
        if d[k] == 1:
            del d[k]
        else:
            d[k] -= 1
        return {mono: c}, tuple(sorted(d.items()))
    return n, den


def einv(a):
    if not a.num:
        raise ZeroDivisionError("division by the zero term")
    out = ONE
    for pk, k in a.den:
        p = E(dict(pk))
        for _ in range(k):
            out = emul(out, p)
    if len(a.num) == 1:
        (m, c), = a.num.items()
        r = _moninv(c, m)
        return emul(out, r)
    c, mono, q = primitive(a.num)
    r = _moninv(c, mono)
    return emul(emul(out, r), E({(): F1}, ((pkey(q), 1),)))


def _moninv(c, m):
    good, bad = [], []
    for a, e in m:
        (bad if ATOMS[a].special is not None else good).append((a, -e))
    r = E({tuple(good): 1 / Fraction(c)})
    for a, e in bad:
        r = emul(r, _sp_reduce(a, e))
    return r


def epow(a, n):
    if isinstance(n, E):
        c = n.const()
        if c is None:
            return powsym(a, n)
        n = c
    n = Fraction(n)
    if n.denominator == 1:
        n = int(n)
        if n == 0:
            return ONE
        if n < 0:
            return epow(einv(a), -n)
        r = None
        b = a
        while n:
            if n & 1:
                r = b if r is None else emul(r, b)
            n >>= 1
            if n:
                b = emul(b, b)
        return r
    return eroot(a, n.denominator) ** n.numerator


# ------------------------------------------------------------------- atoms
def var(name, sort="R", pos=None):
    """pos: 1 -> positive, 0 -> non-negative, None -> unknown"""
    a = _mkatom("var", (), ("var", name), sort, pos, name=name)
    return A2E(a)


def uf(name, args, sort="R", pos=None):
    args = tuple(canon(toE(x)) for x in args)
    a = _mkatom("uf", args, ("uf", name) + tuple(_ck(x) for x in args), sort, pos, name=name)
    return A2E(a)


_CANON = {}


def canon(e):
    """one representative per fingerprint-equal (and verified equal) argument"""
    f = e.fp()
    r = _CANON.get(f)
    if r is None:
        _CANON[f] = e
        return e
    if r is e or r.key() == e.key():
        return r
    if eadd(r, -e).is_zero():
        return r
    return e


def _ck(e):
    return e.key()


PI = A2E(_mkatom("pi", (), ("pi",), "R", 1, name="pi"))


def num_root(p, e):
    a = _mkatom("num", (), ("num", p), "R", 1, name=str(p), special=("num", p))
    return _sp_reduce(a.id, Fraction(e))


def factorint(n):
    f = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def eroot(a, q):
    if not a.num:
        return ZERO
    out = ONE
    num = a.num
    if len(num) == 1:
        (m, c), = num.items()
        prim = None
    else:
        c, m, prim = primitive(num)
    if c < 0 and prim is not None:
        c, prim = -c, {k: -v for k, v in prim.items()}
        neg = False
    else:
        neg = c < 0
    leftover = ONE
    if neg:
        leftover = C(-1)
        c = -c
    for p_, e_ in factorint(c.numerator).items():
        out = emul(out, num_root(p_, Fraction(e_, q)))
    for p_, e_ in factorint(c.denominator).items():
        out = emul(out, num_root(p_, Fraction(-e_, q)))
    for aid, e in m:
        at = ATOMS[aid]
        ae = A2E(at, 1) if at.special is None else A2E(at)
        if at.pos in (0, 1) or known_nonneg(ae):
            ee = Fraction(e) / q
            ee = int(ee) if ee.denominator == 1 else ee
            if at.special is None:
                out = emul(out, E({((aid, ee),): F1}))
            else:
                out = emul(out, _sp_reduce(aid, ee))
        elif isinstance(e, int) and e % q == 0 and q % 2 == 1:
            out = emul(out, epow(ae, e // q))
        elif isinstance(e, int) and q == 2 and e % 2 == 0:
            out = emul(out, epow(eabs(ae), e // q))
        else:
            leftover = emul(leftover, epow(ae, e))
    rest = [(E(prim), 1)] if prim is not None else []
    for pk, k in a.den:
        rest.append((E(dict(pk)), -k))
    for p_, k in rest:
        if known_nonneg(p_):
            f = Fraction(k, q)
            if f.denominator == 1:
                out = emul(out, epow(p_, f))
            else:
                out = emul(out, epow(A2E(rootatom(p_, f.denominator)), f.numerator))
        elif k % 2 == 0 and q == 2:
            out = emul(out, epow(eabs(p_), k // 2))
        else:
            leftover = emul(leftover, epow(p_, k))
    lc = leftover.const()
    if lc == 1:
        return out
    if lc == -1:
        leftover = C(-1)
    return emul(out, A2E(rootatom(leftover, q)))


def rootatom(base, q):
    base = canon(base)
    return _mkatom("root", (base,), ("root", q, base.key()), "R", 0, special=("root", q))


def sg(e):
    """(-1)**e for integer e"""
    out = ONE
    if e.den:
        raise Stuck("(-1)**non-integer")
    sign = 1
    for m, c in e.num.items():
        if c.denominator != 1:
            raise Stuck("(-1)**(fractional)")
        if c.numerator % 2 == 0:
            continue
        if m == ():
            sign = -sign
        else:
            # idempotent mod 2: exponents do not matter for parity
            mm = tuple((a, 1) for a, ex in m if isinstance(ex, int) and ex > 0)
            if len(mm) != len(m):
                raise Stuck("(-1)**(non integer term)")
            for a, _ in mm:
                if ATOMS[a].sort != "I":
                    raise Stuck("(-1)**(non integer term) %s" % ATOMS[a])
            at = _mkatom("sg", (E({mm: F1}),), ("sg", mm), "I", None, special=("sg",))
            out = emul(out, A2E(at))
    return out if sign == 1 else -out


def eexp(e):
    """exp(e): one atom per monomial, logs folded back"""
    out = ONE
    den = e.den
    for m, c in e.num.items():
        if not den:
            if m == ():
                at = _mkatom("exp", (ONE,), ("exp", ONE.key()), "R", 1)
                out = emul(out, E({((at.id, _nrm(c)),): F1}))
                continue
            # c * log(X)
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log":
                X = ATOMS[m[0][0]].args[0]
                out = emul(out, epow(X, c))
                continue
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "lg" and c.denominator == 1:
                pass
        # n*log(X): X**n
        lgs = [a for a, ex in m if ATOMS[a].kind == "log" and ex == 1]
        if len(lgs) == 1 and not den:
            rest = tuple(x for x in m if x[0] != lgs[0])
            X = ATOMS[lgs[0]].args[0]
            out = emul(out, powsym(X, E({rest: c})))
            continue
        arg = canon(E({m: F1}, den))
        at = _mkatom("exp", (arg,), ("exp", arg.key()), "R", 1)
        out = emul(out, E({((at.id, _nrm(c)),): F1}))
    return out


def _nrm(c):
    c = Fraction(c)
    return int(c) if c.denominator == 1 else c


def powsym(base, ex):
    """base**ex, symbolic exponent, base>0 (or -1)"""
    c = ex.const()
    if c is not None:
        return epow(base, c)
    bc = base.const()
    if bc == 1:
        return ONE
    if bc == -1:
        return sg(ex)
    if bc is not None and bc < 0:
        return emul(sg(ex), powsym(-base, ex))
    # split the constant part of the exponent
    out = ONE
    if ex.den:
        terms = [E({m: c_}, ex.den) for m, c_ in ex.num.items()]
    else:
        terms = [E({m: c_}) for m, c_ in ex.num.items()]
    # factor base into positive pieces
    pieces = factors(base)
    for t in terms:
        k = t.const()
        if k is not None:
            out = emul(out, epow(base, k))
            continue
        (m, c_), = t.num.items()
        arg = E({m: F1}, t.den)
        for b, e in pieces:
            b = canon(b)
            arg = canon(arg)
            at = _mkatom("pw", (b, arg), ("pw", b.key(), arg.key()), "R", 1)
            pw = c_ * e
            out = emul(out, E({((at.id, _nrm(pw)),): F1}))
    return out


def factors(e):
    """positive factor list [(E, exponent)] whose product is e (splits only where sign is known)"""
    out = []
    num = e.num
    if len(num) == 1:
        (m, c), = num.items()
        prim = None
    else:
        c, m, prim = primitive(num)
        if c < 0:
            c = -c
            prim = {k: -v for k, v in prim.items()}
    hard = ONE
    if c < 0:
        hard = C(-1); c = -c
    for p_, k in factorint(c.numerator).items():
        out.append((C(p_), Fraction(k)))
    for p_, k in factorint(c.denominator).items():
        out.append((C(p_), Fraction(-k)))
    for aid, ex in m:
        ae = A2E(ATOMS[aid])
        if known_pos(ae):
            out.append((ae, Fraction(ex)))
        else:
            hard = emul(hard, epow(ae, ex))
    rest = [(E(prim), 1)] if prim is not None else []
    rest += [(E(dict(pk)), -k) for pk, k in e.den]
    for p_, k in rest:
        if known_pos(p_):
            out.append((p_, Fraction(k)))
        else:
            hard = emul(hard, epow(p_, k))
    if hard.const() != 1:
        out.append((hard, F1))
    return out


def elog(e):
    """log(e) with products split where the factors are known positive"""
    if e.is_zero():
        raise Stuck("log(0)")
    out = ZERO
    for b, k in factors(e):
        mo = b.mono()
        if mo is not None and mo[0] == 1 and len(mo[1]) == 1 and mo[1][0][1] == 1:
            at = ATOMS[mo[1][0][0]]
            if at.kind == "exp":
                out = out + at.args[0] * C(k)
                continue
            if at.kind == "ite" and at.pos == 1 and all(x.mono() is not None for x in at.args[1:]):
                out = out + ite(at.args[0], elog(at.args[1]), elog(at.args[2])) * C(k)
                continue
            if at.kind == "pw":
                out = out + elog(at.args[0]) * at.args[1] * C(k)
                continue
            if at.kind == "root":
                out = out + elog(at.args[0]) * C(k / at.special[1])
                continue
            if at.kind == "num":
                b = C(at.special[1])
        if b.const() == 1:
            continue
        b = canon(b)
        at = _mkatom("log", (b,), ("log", b.key()), "R", None)
        out = out + A2E(at) * C(k)
    return out


def elgamma(e):
    """ln Gamma(e), integer shifts normalised to base constant 1"""
    if e.den:
        raise Stuck("lgamma of a fraction")
    c = e.num.get((), F0)
    for m in e.num:
        for a, _ in m:
            if ATOMS[a].kind == "ite" and math.floor(c - 1) > 0:
                # the shift below would go through a pole in a case with a smaller constant
                cnd, x, y = ATOMS[a].args
                ex, ey = subst(e, {a: x}), subst(e, {a: y})
                if min(ex.num.get((), F0), ey.num.get((), F0)) < c:
                    return ite(cnd, elgamma(ex), elgamma(ey))
    c = e.num.get((), F0)
    rest = e - C(c)
    if rest.is_zero():
        if c.denominator == 1 and c > 0:
            return elog(C(math.factorial(int(c) - 1)))
        raise Stuck("lgamma(%s)" % c)
    k = c - 1
    sh = math.floor(k)
    base = rest + C(1 + k - sh)
    base = canon(base)
    at = _mkatom("lg", (base,), ("lg", base.key()), "R", None)
    out = A2E(at)
    if sh > 0:
        for j in range(sh):
            out = out + elog(base + C(j))
    elif sh < 0:
        for j in range(1, -sh + 1):
            out = out - elog(base - C(j))
    return out


def eabs(e):
    c = e.const()
    if c is not None:
        return C(abs(c))
    if known_nonneg(e):
        return e
    if known_nonneg(-e):
        return -e
    mo = e.mono()
    if mo is not None:
        c, m = mo
        out = C(abs(c))
        for a, ex in m:
            at = ATOMS[a]
            ae = A2E(at)
            if at.pos in (0, 1) or (isinstance(ex, int) and ex % 2 == 0 and at.special is None):
                out = emul(out, E({((a, ex),): F1}))
            elif at.kind == "sg":
                pass
            else:
                out = emul(out, epow(A2E(_absatom(ae)), ex))
        return out
    if e.den:
        out = ONE
        for pk, k in e.den:
            out = emul(out, epow(eabs(E(dict(pk))), -k))
        return emul(out, eabs(E(e.num)))
    c, m, prim = primitive(e.num)
    if m:
        return emul(eabs(E({m: c})), eabs(E(prim)))
    return C(abs(c)) * A2E(_absatom(E(prim)))


def _absatom(e):
    e = canon(e)
    so = "I" if is_int(e) else "R"
    return _mkatom("abs", (e,), ("abs", e.key()), so, 0)


def efloor(e):
    c = e.const()
    if c is not None:
        return C(math.floor(c))
    if is_int(e):
        return e
    # split integer part of the polynomial
    ip = ZERO
    rest = e
    if not e.den:
        i_ = {}
        r_ = {}
        for m, c in e.num.items():
            if c.denominator == 1 and all(ATOMS[a].sort == "I" and isinstance(x, int) and x > 0 for a, x in m):
                i_[m] = c
            elif m == ():
                i_[m] = Fraction(math.floor(c))
                r_[m] = c - math.floor(c)
            else:
                r_[m] = c
        i_ = {m: c for m, c in i_.items() if c}
        ip, rest = E(i_), E(r_)
        if all(m == () for m in r_):
            return ip
    rest = canon(rest)
    at = _mkatom("floor", (rest,), ("floor", rest.key()), "I", 0 if known_nonneg(rest) else None)
    return ip + A2E(at)


def is_int(e):
    if e.den:
        return False
    for m, c in e.num.items():
        if c.denominator != 1:
            return False
        for a, x in m:
            if ATOMS[a].sort != "I" or not isinstance(x, int) or x < 0:
                return False
    return True


# ---------------------------------------------------------------- conditions
class B:
    __slots__ = ("op", "args", "_k")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.op,) + tuple(a.key() if isinstance(a, (E, B)) else a for a in self.args)
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, B) and self.key() == o.key()

    def __repr__(self):
        if self.op in (">", ">=", "=="):
            return "(%s %s 0)" % (show(self.args[0]), self.op)
        if self.op in ("T", "F"):
            return self.op
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


TRUE, FALSE = B("T"), B("F")


def Bo(x):
    return TRUE if x else FALSE


def cmp_(op, a, b):
    """op in < <= > >= == !="""
    a, b = toE(a), toE(b)
    d = a - b
    if op == "<":
        return cmp0(">", -d)
    if op == "<=":
        return cmp0(">=", -d)
    if op == "!=":
        return Not(cmp0("==", d))
    return cmp0(op, d)


def cmp0(op, d):
    c = d.const()
    if c is not None:
        return Bo({">": c > 0, ">=": c >= 0, "==": c == 0}[op])
    if op == "==":
        if d.is_zero():
            return TRUE
        if not d.den and len(d.num) > 1:
            # canonical sign
            if d.num[max(d.num)] < 0:
                d = -d
    if syn_sign(d) == 1 and op in (">", ">="):
        return TRUE
    if syn_sign(d) == 1 and op == "==":
        return FALSE
    if syn_sign(d) == -1:
        return FALSE
    if syn_nonneg(d) and op == ">=":
        return TRUE
    return B(op, d)


def And(*xs):
    out = []
    for x in xs:
        if x.op == "F":
            return FALSE
        if x.op == "T":
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    for o in seen:
        if Not(o) in seen:
            return FALSE
    return seen[0] if len(seen) == 1 else B("and", *seen)


def Or(*xs):
    return Not(And(*[Not(x) for x in xs]))


def Not(x):
    if x.op == "T":
        return FALSE
    if x.op == "F":
        return TRUE
    if x.op == "not":
        return x.args[0]
    if x.op == ">":
        return B(">=", -x.args[0])
    if x.op == ">=":
        return B(">", -x.args[0])
    return B("not", x)


def Implies(a, b):
    return Or(Not(a), b)


def bsym(name):
    return B("sym", name)


def ite(c, a, b):
    a, b = toE(a), toE(b)
    if c.op == "T":
        return a
    if c.op == "F":
        return b
    if a is b or a.key() == b.key():
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    # an ite over equal sub-conditions
    a = canon(a); b = canon(b)
    so = "I" if is_int(a) and is_int(b) else "R"
    p = None
    if syn_sign(a) == 1 and syn_sign(b) == 1:
        p = 1
    elif syn_nonneg(a) and syn_nonneg(b):
        p = 0
    at = _mkatom("ite", (c, a, b), ("ite", c.key(), a.key(), b.key()), so, p)
    return A2E(at)


# ------------------------------------------------------------- finite sums
_BV = {}


def bvar(depth):
    return _mkatom("var", (), ("bv", depth), "I", 0, name="@%d" % depth)


_fresh = itertools.count()


def fresh(name, sort="R", pos=None):
    return var("%s'%d" % (name, next(_fresh)), sort, pos)


def sumdepth(e):
    """1 + maximal depth of bound variables in e"""
    d = 0
    for a in all_atoms(e):
        at = ATOMS[a]
        if at.kind == "var" and at.name.startswith("@") and at.name[1:].isdigit():
            d = max(d, int(at.name[1:]) + 1)
        if at.kind == "sum":
            d = max(d, at.args[2] + 1)
    return d


def esum(n, bodyfn):
    """sum_{j=0}^{n-1} bodyfn(j)"""
    n = toE(n)
    c = n.const()
    if c is not None and c.denominator == 1 and c <= 12:
        out = ZERO
        for j in range(max(0, int(c))):
            out = out + bodyfn(C(j))
        return out
    j = fresh("j", "I", 0)
    body = bodyfn(j)
    (jm, _), = j.num.items()
    jid = jm[0][0]
    out = ZERO
    # den factors without j can be pulled out
    dout = tuple((pk, k) for pk, k in body.den if not _dep_pk(pk, jid))
    din = tuple((pk, k) for pk, k in body.den if _dep_pk(pk, jid))
    for m, cf in body.num.items():
        mo = tuple(x for x in m if not depends(x[0], jid))
        mi = tuple(x for x in m if depends(x[0], jid))
        if not mi and not din:
            t = n
        else:
            inner = E({mi: F1}, din)
            # free index polynomial parts like j itself summed in closed form
            t = _sumatom(n, inner, jid)
        out = out + emul(E({mo: cf}, dout), t)
    return out


def _sumatom(n, inner, jid):
    d = sumdepth(inner)
    if inner.mono() is not None:
        c, m = inner.mono()
        if m == ((jid, 1),):
            return n * (n - 1) / 2
    bv = bvar(d)
    b = subst(inner, {jid: A2E(bv)})
    b = canon(b)
    n = canon(n)
    if len(b.num) == 1:
        (m, c), = b.num.items()
        if c != 1:
            b = E({m: F1}, b.den)
    else:
        c = F1
    at = _mkatom("sum", (n, b, d), ("sum", n.key(), b.key(), d), "R", 0 if syn_nonneg(b) else None)
    return A2E(at) if c == 1 else emul(E({(): c}), A2E(at))


def _dep_pk(pk, jid):
    return any(depends(a, jid) for m, _ in pk for a, _ in m)


_DEP = {}


def free_atoms_of(aid):
    """set of atom ids (transitively) occurring inside atom aid, including itself"""
    at = ATOMS[aid]
    if at.free is not None:
        return at.free
    s = {aid}
    for x in at.args:
        if isinstance(x, E):
            for a in x.atoms():
                s |= free_atoms_of(a)
        elif isinstance(x, B):
            for a in batoms(x):
                s |= free_atoms_of(a)
    at.free = frozenset(s)
    return at.free


def batoms(b):
    s = set()
    for x in b.args:
        if isinstance(x, E):
            s |= x.atoms()
        elif isinstance(x, B):
            s |= batoms(x)
    return s


def depends(aid, jid):
    return jid in free_atoms_of(aid)


def edepends(e, jid):
    return any(depends(a, jid) for a in e.atoms())


def bdepends(b, jid):
    return any(depends(a, jid) for a in batoms(b))


def all_atoms(e):
    s = set()
    for a in (e.atoms() if isinstance(e, E) else batoms(e)):
        s |= free_atoms_of(a)
    return s


# ------------------------------------------------------------- substitution
def subst(e, mp, memo=None):
    """replace atoms (ids) by E terms, rebuilding (renormalising) everything above"""
    if memo is None:
        memo = {}
    if not e.num:
        return e
    ids = e.atoms()
    if not any(_touch(a, mp) for a in ids):
        return e
    out = _subst_poly(e.num, mp, memo)
    for pk, k in e.den:
        p = _subst_poly(dict(pk), mp, memo)
        out = emul(out, epow(einv(p), k))
    return out


def _touch(a, mp):
    fr = free_atoms_of(a)
    return any(x in fr for x in mp)


def _subst_poly(p, mp, memo):
    out = ZERO
    keep = {}
    for m, c in p.items():
        if not any(_touch(a, mp) for a, _ in m):
            keep[m] = c
            continue
        t = C(c)
        plain = []
        for a, e in m:
            if _touch(a, mp):
                v = subst_atom(a, mp, memo)
                t = emul(t, epow(v, e))
            else:
                plain.append((a, e))
        if plain:
            t = emul(t, E({tuple(plain): F1}))
        out = out + t
    return out + E(keep) if keep else out


def _sdef(s, x):
    """the branch not taken may divide by zero: its value is then an unspecified number"""
    try:
        return s(x)
    except ZeroDivisionError:
        return fresh("undef#z")


def subst_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    r = memo.get(a)
    if r is not None:
        return r
    at = ATOMS[a]
    if not _touch(a, mp):
        r = A2E(at)
    else:
        s = lambda x: subst(x, mp, memo)
        k = at.kind
        if k == "uf":
            r = uf(at.name, [s(x) for x in at.args], at.sort, at.pos)
            r = uf_simplify(r)
        elif k == "exp":
            r = eexp(s(at.args[0]))
        elif k == "log":
            r = elog(s(at.args[0]))
        elif k == "lg":
            r = elgamma(s(at.args[0]))
        elif k == "root":
            r = eroot(s(at.args[0]), at.special[1])
        elif k == "sg":
            r = sg(s(at.args[0]))
        elif k == "pw":
            r = powsym(s(at.args[0]), s(at.args[1]))
        elif k == "abs":
            r = eabs(s(at.args[0]))
        elif k == "floor":
            r = efloor(s(at.args[0]))
        elif k == "mod":
            r = emod(s(at.args[0]), s(at.args[1]))
        elif k == "ite":
            c = bsubst(at.args[0], mp, memo)
            if c.op == "T":
                r = s(at.args[1])
            elif c.op == "F":
                r = s(at.args[2])
            else:
                r = ite(c, _sdef(s, at.args[1]), _sdef(s, at.args[2]))
        elif k == "sum":
            n, b, d = at.args
            bv = bvar(d)
            r = esum(s(n), lambda j: subst(subst(b, {bv.id: j}), mp))
        else:
            raise Stuck("subst in %s" % k)
    memo[a] = r
    return r


UF_SIMPL = {}


def uf_simplify(r):
    return r


def bsubst(b, mp, memo=None):
    if memo is None:
        memo = {}
    if b.op in ("T", "F", "sym"):
        return b
    if b.op in (">", ">=", "=="):
        return cmp0(b.op, subst(b.args[0], mp, memo))
    if b.op == "and":
        return And(*[bsubst(x, mp, memo) for x in b.args])
    if b.op == "not":
        return Not(bsubst(b.args[0], mp, memo))
    raise Stuck("bsubst " + b.op)


def emod(a, b):
    """a mod b (python, b>0)"""
    ca, cb = a.const(), b.const()
    if cb is None or cb <= 0:
        raise Stuck("mod by symbolic")
    if ca is not None:
        return C(ca % cb)
    if is_int(a) and cb.denominator == 1:
        # reduce coefficients
        num = {m: Fraction(int(c) % int(cb)) for m, c in a.num.items()}
        num = {m: c for m, c in num.items() if c}
        a = E(num)
        if a.const() is not None:
            return C(a.const() % cb)
        a = canon(a)
        at = _mkatom("mod", (a, b), ("mod", a.key(), b.key()), "I", 0)
        return A2E(at)
    raise Stuck("mod of reals")


# ------------------------------------------------------------- signs
def syn_sign(e):
    """1 / -1 if the sign is evident from the form, else 0"""
    if not e.num:
        return 0
    ds = 1
    for pk, k in e.den:
        s = _psign(dict(pk), True)
        if s == 0:
            return 0
        if k % 2:
            ds *= s
    s = _psign(e.num, True)
    return s * ds


def syn_nonneg(e):
    if not e.num:
        return True
    if syn_sign(e) == 1:
        return True
    for pk, k in e.den:
        if k % 2 and _psign(dict(pk), True) != 1:
            return False
    return _psign(e.num, False) == 1


def _monosign(m, strict):
    """sign of a monomial: 1 (positive / non-negative), 0 unknown"""
    for a, e in m:
        at = ATOMS[a]
        if at.pos == 1:
            continue
        if at.pos == 0:
            if strict:
                return 0
            continue
        if isinstance(e, int) and e % 2 == 0:
            if strict and e > 0:
                return 0
            continue
        return 0
    return 1


def _psign(p, strict):
    """1 if p>0 (>=0 if not strict) evident, -1 if p<0 (<=0) evident, else 0"""
    sgn = 0
    anystrict = False
    for m, c in p.items():
        if not _monosign(m, False):
            return 0
        s = 1 if c > 0 else -1
        if sgn == 0:
            sgn = s
        elif sgn != s:
            return 0
        if _monosign(m, True):
            anystrict = True
    if strict and not anystrict:
        return 0
    return sgn


PROVER = [None]            # current context: object with .prove(B) -> bool


def known_pos(e):
    if syn_sign(e) == 1:
        return True
    if syn_sign(e) == -1:
        return False
    ctx = PROVER[0]
    return bool(ctx is not None and ctx.quick(cmp0(">", e)))


def known_nonneg(e):
    if syn_nonneg(e):
        return True
    ctx = PROVER[0]
    return bool(ctx is not None and ctx.quick(cmp0(">=", e)))


# ------------------------------------------------------------- printing
def show(e, depth=0):
    if not e.num:
        return "0"
    s = _showp(e.num, depth)
    if e.den:
        d = "*".join("(%s)%s" % (_showp(dict(pk), depth), "" if k == 1 else "^%d" % k) for pk, k in e.den)
        s = "(%s)/%s" % (s, d)
    return s


def _showp(p, depth):
    ts = []
    for m, c in sorted(p.items()):
        f = [("%s" % show_atom(ATOMS[a], depth) + ("" if e == 1 else "^%s" % e)) for a, e in m]
        if c != 1 or not f:
            f.insert(0, str(c))
        ts.append("*".join(f))
        if len(ts) > 40:
            ts.append("...")
            break
    return " + ".join(ts)


def show_atom(a, depth=0):
    if a.kind in ("var", "pi", "num"):
        return a.name
    if depth > 6:
        return "%s(..)" % a.kind
    if a.kind == "uf":
        return "%s(%s)" % (a.name, ",".join(show(x, depth + 1) for x in a.args))
    if a.kind == "sum":
        return "sum[@%d<%s](%s)" % (a.args[2], show(a.args[0], depth + 1), show(a.args[1], depth + 1))
    if a.kind == "ite":
        return "ite(%r,%s,%s)" % (a.args[0], show(a.args[1], depth + 1), show(a.args[2], depth + 1))
    if a.kind == "sg":
        return "(-1)^(%s)" % show(a.args[0], depth + 1)
    return "%s(%s)" % (a.kind, ",".join(show(x, depth + 1) if isinstance(x, E) else str(x) for x in a.args))


def eq_exact(a, b):
    """exact equality of normal forms, with log-exponentiation when logs occur linearly"""
    d = a - b
    if d.is_zero():
        return True
    return log_zero(d)


def log_zero(d):
    """sum c_i*g_i*log(X_i) + rest == 0 ?  (group by cofactor g, exponentiate each group)"""
    groups = {}
    rest = {}
    for m, c in d.num.items():
        ls = [(a, e) for a, e in m if ATOMS[a].kind == "log"]
        if not ls:
            rest[m] = c
            continue
        if len(ls) > 1 or ls[0][1] != 1:
            return False
        g = tuple(x for x in m if x[0] != ls[0][0])
        groups.setdefault(g, []).append((ls[0][0], c))
    if not groups:
        return False
    for g, items in groups.items():
        L = 1
        for _, c in items:
            L = L * c.denominator // math.gcd(L, c.denominator)
        if L > 60:
            return False
        lhs, rhs = ONE, ONE
        for a, c in items:
            k = c * L
            X = ATOMS[a].args[0]
            if abs(k) > 40:
                return False
            if k > 0:
                lhs = emul(lhs, epow(X, k))
            else:
                rhs = emul(rhs, epow(X, -k))
        q = lhs - rhs
        if not q.is_zero():
            # allow the rest (exp) to balance when the cofactor is trivial
            if g == () and rest:
                r = E({m: c * L for m, c in rest.items()}, ())
                if d.den:
                    return False
                if (lhs * eexp(r) - rhs).is_zero():
                    rest = {}
                    continue
            return False
    return not rest
