"""Discharging obligations: normal form first, then z3 (then cvc5)."""
import itertools, z3, time, math, subprocess, tempfile, os
from fractions import Fraction
from core import *
import core

STATS = {"z3_calls": 0, "z3_time": 0.0, "nf": 0, "z3": 0, "cvc5": 0, "cvc5_time": 0.0}
FACT_PROVIDERS = []      # fn(atom, prover) -> list of B, for specification functions


SLOW = float(os.environ.get("VERIF_SLOW", "1"))
_STAMP = itertools.count(1)


class Prover:
    """a set of facts (path condition) + decision procedures"""

    def __init__(self, facts=(), parent=None):
        self.facts = list(facts)
        self.cache = {}
        self.qcache = {}
        self.timeout = 2000
        self.busy = False
        self.stamp = next(_STAMP)   # identifies the set of facts (memoised terms depend on it)
        self.recdefs = []        # list of (name, fn(atom) -> [(condition, value)]): recursively defined array contents
        self.forall = []         # list of (tag, fn(E)->B): quantified facts, instantiated at tagged terms

    def copy(self):
        p = Prover(self.facts)
        p.forall = list(self.forall)
        p.recdefs = list(self.recdefs)
        p.timeout = self.timeout
        p.stamp = self.stamp
        return p

    def assume(self, b):
        if b.op == "T":
            return
        if b.op == "and":
            for x in b.args:
                self.assume(x)
            return
        if b not in self.facts:
            self.facts.append(b)
            self.cache = {}
            self.qcache = {}
            self.stamp = next(_STAMP)

    def assume_forall(self, tag, fn):
        self.forall.append((tag, fn))
        self.cache = {}
        self.qcache = {}
        self.stamp = next(_STAMP)

    # ---- translation
    def _z(self, tr, goal=None):
        s = z3.Solver()
        return s

    def quick(self, b):
        """cheap entailment used while building terms"""
        if b.op == "T":
            return True
        if b.op == "F":
            return False
        k = b.key()
        r = self.qcache.get(k)
        if r is None:
            if b in self.facts:
                r = True
            elif self.busy:
                return False
            else:
                self.busy = True
                try:
                    r = self.entails(b, 400)
                finally:
                    self.busy = False
            self.qcache[k] = r
        return r

    def entails(self, b, timeout=None):
        if b.op == "T":
            return True
        if b.op == "and":
            return all(self.entails(x, timeout) for x in b.args)
        if b in self.facts:
            return True
        k = b.key()
        r = self.cache.get(k)
        if r is None:
            r = self.check_unsat([Not(b)], timeout or self.timeout)
            if r is not None:      # only cache definite answers
                self.cache[k] = r
        return bool(r)

    def sat(self, extra=(), timeout=None):
        """False if facts+extra contradictory, True/None otherwise"""
        r = self.check_unsat(list(extra), timeout or self.timeout)
        return False if r else True

    def check_unsat(self, extra, timeout):
        """True: unsat, False: sat, None: unknown"""
        for x in extra:
            if x.op == "F":
                return True
        tr = Translator()
        s = z3.Solver()
        s.set("timeout", int(timeout * SLOW))
        fs = relevant(self.facts, extra)
        try:
            for f in fs:
                s.add(tr.b(f))
            for f in extra:
                s.add(tr.b(f))
            self._side(tr, s)
        except Untranslatable:
            return None
        t = time.time()
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t
        self.last_solver, self.last_tr = s, tr
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    def _side(self, tr, s, rounds=3):
        done = set()
        for _ in range(rounds):
            new = [a for a in list(tr.atoms) if a not in done]
            if not new:
                break
            for a in new:
                done.add(a)
                for f in atom_facts(ATOMS[a], self):
                    try:
                        s.add(tr.b(f))
                    except Untranslatable:
                        pass
            for tag, fn in self.forall:
                for a in new:
                    at = ATOMS[a]
                    for inst in fn(at) or ():
                        try:
                            s.add(tr.b(inst))
                        except Untranslatable:
                            pass
            for c in tr.side:
                s.add(c)
            tr.side = []
        exps = [ATOMS[a] for a in tr.atoms if ATOMS[a].kind == "exp"]
        for f in exp_facts(exps):
            s.add(tr.b(f))
        for c in tr.side:
            s.add(c)
        tr.side = []

    def model(self, extra=(), timeout=5000, want=()):
        """values {name: Fraction} for variables satisfying the facts (best effort)"""
        tr = Translator()
        s = z3.Solver()
        s.set("timeout", timeout)
        try:
            for f in list(self.facts) + list(extra):
                s.add(tr.b(f))
            self._side(tr, s)
        except Untranslatable:
            return None
        # prefer small values
        r = s.check()
        if r != z3.sat:
            return None
        m = s.model()
        out = {}
        for a in tr.atoms:
            at = ATOMS[a]
            v = m.eval(tr.atom(a), model_completion=True)
            try:
                if z3.is_int_value(v):
                    x = Fraction(v.as_long())
                elif z3.is_rational_value(v):
                    x = Fraction(v.numerator_as_long(), v.denominator_as_long())
                else:
                    x = Fraction(str(v.approx(12).as_fraction()))
            except Exception:
                continue
            out[a] = x
        return out


def relevant(facts, goals):
    """facts sharing atoms (transitively) with the goals; keeps queries small"""
    if len(facts) <= 6:
        return facts
    want = set()
    for g in goals:
        want |= all_atoms(g)
    if not want:
        return facts
    fa = [(f, all_atoms(f)) for f in facts]
    out = set()
    ch = True
    while ch:
        ch = False
        for i, (f, s) in enumerate(fa):
            if i not in out and s & want:
                out.add(i)
                want |= s
                ch = True
    return [facts[i] for i in sorted(out)] if out else []


class Untranslatable(Exception):
    pass


class Translator:
    def __init__(self):
        self.atoms = {}
        self.side = []
        self.aux = {}
        self.bs = {}

    def atom(self, a):
        v = self.atoms.get(a)
        if v is None:
            at = ATOMS[a]
            if at.sort == "I":
                v = z3.Int("a%d" % a)
            else:
                v = z3.Real("a%d" % a)
            self.atoms[a] = v
            if at.pos == 1:
                self.side.append(v > 0)
            elif at.pos == 0:
                self.side.append(v >= 0)
        return v

    def power(self, a, e):
        v = self.atom(a)
        if e == 1:
            return v
        if isinstance(e, int):
            if e > 0:
                if e > 12:
                    raise Untranslatable()
                r = v
                for _ in range(e - 1):
                    r = r * v
                return r
            iv = self.inverse(a)
            r = iv
            for _ in range(-e - 1):
                r = r * iv
            return r
        q = e.denominator
        k = ("root", a, q)
        x = self.aux.get(k)
        if x is None:
            x = z3.Real("r%d_%d" % (a, q))
            self.aux[k] = x
            p = x
            for _ in range(q - 1):
                p = p * x
            vv = z3.ToReal(v) if z3.is_int(v) else v
            self.side.append(x >= 0)
            self.side.append(p == vv)
        n = e.numerator
        if n > 0:
            r = x
            for _ in range(n - 1):
                r = r * x
            return r
        k2 = ("rinv", a, q)
        y = self.aux.get(k2)
        if y is None:
            y = z3.Real("ri%d_%d" % (a, q))
            self.aux[k2] = y
            self.side.append(z3.Or(x == 0, x * y == 1))
        r = y
        for _ in range(-n - 1):
            r = r * y
        return r

    def inverse(self, a):
        k = ("inv", a)
        x = self.aux.get(k)
        if x is None:
            v = self.atom(a)
            vv = z3.ToReal(v) if z3.is_int(v) else v
            x = z3.Real("i%d" % a)
            self.aux[k] = x
            self.side.append(z3.Or(vv == 0, x * vv == 1))
            if ATOMS[a].pos == 1:
                self.side.append(x > 0)
        return x

    def poly(self, p):
        ts = []
        for m, c in p.items():
            t = None
            for a, e in m:
                f = self.power(a, e)
                if t is None:
                    t = f
                else:
                    if z3.is_int(t) != z3.is_int(f):
                        t = z3.ToReal(t) if z3.is_int(t) else t
                        f = z3.ToReal(f) if z3.is_int(f) else f
                    t = t * f
            if t is None:
                t = z3.IntVal(int(c)) if c.denominator == 1 else z3.RealVal(str(c))
            elif c != 1:
                if z3.is_int(t) and c.denominator == 1:
                    t = int(c) * t
                else:
                    t = z3.RealVal(str(c)) * (z3.ToReal(t) if z3.is_int(t) else t)
            ts.append(t)
        if not ts:
            return z3.IntVal(0)
        if all(z3.is_int(t) for t in ts):
            return z3.Sum(ts) if len(ts) > 1 else ts[0]
        ts = [z3.ToReal(t) if z3.is_int(t) else t for t in ts]
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def e(self, e):
        n = self.poly(e.num)
        for pk, k in e.den:
            d = self.dinv(pk)
            for _ in range(k):
                n = (z3.ToReal(n) if z3.is_int(n) else n) * d
        return n

    def dinv(self, pk):
        x = self.aux.get(("den", pk))
        if x is None:
            x = z3.Real("d%d" % len(self.aux))
            self.aux[("den", pk)] = x
            v = self.poly(dict(pk))
            v = z3.ToReal(v) if z3.is_int(v) else v
            self.side.append(z3.Or(v == 0, x * v == 1))
        return x

    def b(self, b):
        if b.op == "T":
            return z3.BoolVal(True)
        if b.op == "F":
            return z3.BoolVal(False)
        if b.op == "and":
            return z3.And([self.b(x) for x in b.args])
        if b.op == "not":
            return z3.Not(self.b(b.args[0]))
        if b.op == "sym":
            return z3.Bool("b_%s" % b.args[0])
        e = b.args[0]
        # clear evidently positive denominators
        num = E(e.num)
        rest = []
        for pk, k in e.den:
            s = core._psign(dict(pk), True)
            if s == 1 or k % 2 == 0 and b.op != "==":
                if s == 0:
                    rest.append((pk, k))
                continue
            if s == -1:
                if k % 2:
                    num = -num
                continue
            if b.op == "==":
                continue
            rest.append((pk, k))
        # clear positive atoms with negative exponent
        if num.num:
            mins = {}
            for m in num.num:
                for a, x in m:
                    if x < 0 and ATOMS[a].pos == 1:
                        mins[a] = min(mins.get(a, 0), x)
            if mins:
                num = num * E({tuple(sorted((a, -x) for a, x in mins.items())): F1})
                if num.den:
                    raise Untranslatable()
        t = self.e(E(num.num, tuple(rest)))
        return t > 0 if b.op == ">" else t >= 0 if b.op == ">=" else t == 0


def atom_facts(at, prover):
    k = at.kind
    A = A2E(at)
    out = []
    if k == "root":
        base = at.args[0]
        q = at.special[1]
        out.append(B("==", _raw_pow(at, q, base)))
    elif k == "abs":
        x = at.args[0]
        out.append(Or(And(B(">=", x), B("==", A - x)), And(B(">", -x), B("==", A + x))))
    elif k == "floor":
        x = at.args[0]
        out.append(cmp_("<=", A, x))
        out.append(cmp_(">", A + 1, x))
    elif k == "mod":
        out.append(cmp_(">=", A, 0))
        out.append(cmp_("<", A, at.args[1]))
        q = uf("quot", [at.args[0], at.args[1]], "I")
        out.append(B("==", at.args[0] - A - q * at.args[1]))
    elif k == "ite":
        c, x, y = at.args
        out.append(Or(And(c, cmp_("==", A, x)), And(Not(c), cmp_("==", A, y))))
    elif k == "sg":
        out.append(Or(cmp_("==", A, 1), cmp_("==", A, -1)))
    elif k == "pi":
        out.append(cmp_(">", A, Fraction(314159265, 10**8)))
        out.append(cmp_("<", A, Fraction(314159266, 10**8)))
    elif k == "exp":
        x = at.args[0]
        if at.pos != 1:
            out.append(cmp_(">", A, 0))
        out.append(B(">=", A - 1 - x))
        out.append(Implies(cmp0(">", x), cmp_(">", A, 1)))
        out.append(Implies(cmp0(">", -x), cmp_("<", A, 1)))
    elif k == "log":
        x = at.args[0]
        out.append(Implies(cmp0(">", x), B(">=", x - 1 - A)))
        out.append(Implies(cmp_(">", x, 1), cmp_(">", A, 0)))
        out.append(Implies(And(cmp_("<", x, 1), cmp_(">", x, 0)), cmp_("<", A, 0)))
    elif k == "sum":
        n, b, d = at.args
        out.append(Implies(cmp_("<=", n, 0), cmp_("==", A, 0)))
    for f in FACT_PROVIDERS:
        out.extend(f(at, prover) or ())
    return out


def _raw_pow(at, q, base):
    # root^q - base without triggering normalisation: use a shadow variable
    sh = var("rootsh%d" % at.id, "R", 0)
    # tie the shadow to the atom linearly, power on the shadow
    p = epow(sh, q) - base
    SHADOW[at.id] = sh
    return p


SHADOW = {}


def exp_facts(exps):
    out = []
    for i in range(len(exps)):
        for j in range(i + 1, len(exps)):
            a, b = exps[i], exps[j]
            d = a.args[0] - b.args[0]
            A, Bb = A2E(a), A2E(b)
            out.append(Implies(cmp0(">", d), cmp_(">", A, Bb)))
            out.append(Implies(cmp0(">", -d), cmp_("<", A, Bb)))
    return out


# shadow variables of roots must equal the root atom: patch translator
_old_atom = Translator.atom


def _atom(self, a):
    v = self.atoms.get(a)
    if v is None:
        at = ATOMS[a]
        v = _old_atom(self, a)
        if at.kind == "root":
            sh = var("rootsh%d" % at.id, "R", 0)
            (m, _), = sh.num.items()
            self.side.append(v == _old_atom(self, m[0][0]))
    return v


Translator.atom = _atom


# ------------------------------------------------------------------ obligations
def split_ites(e):
    """an innermost undecided ite condition occurring in e, or None"""
    best = None
    for a in sorted(all_atoms(e)):
        at = ATOMS[a]
        if at.kind == "ite":
            c = at.args[0]
            if not any(ATOMS[x].kind == "ite" for x in all_atoms(c)):
                if not any(ATOMS[x].kind == "var" and ATOMS[x].name.startswith("@") for x in all_atoms(c)):
                    return c
    return best


def assign_cond(e, c, val):
    """replace every ite on condition c (or its negation / equivalents) in e"""
    mp = {}
    ids = all_atoms(e)
    for a in ids:
        at = ATOMS[a]
        if at.kind == "ite" and at.args[0].key() == c.key():
            mp[a] = at.args[1] if val else at.args[2]
    if not mp:
        return e
    r = subst(e, mp) if isinstance(e, E) else bsubst(e, mp)
    return r


def path_equalities(facts):
    """solved equalities atom = term from the facts, for rewriting (linear, coefficient +-1)"""
    out = {}
    ge = {}
    eqs = [f for f in facts if f.op == "=="]
    for f in facts:
        if f.op == ">=":                    # d >= 0 and -d >= 0
            d = f.args[0]
            if (-d).key() in ge:
                eqs.append(B("==", d))
            ge[d.key()] = 1
    for f in eqs:
        d = f.args[0]
        if d.den:
            d = E(d.num)
        cand = []
        for m, c in d.num.items():
            if len(m) == 1 and m[0][1] == 1:
                at = ATOMS[m[0][0]]
                if at.kind in ("var", "uf", "floor", "mod", "ite", "abs"):
                    # the atom must not occur elsewhere in d
                    rest = d - E({m: c})
                    if not edepends(rest, at.id):
                        if at.sort == "I" and abs(c) != 1:
                            continue
                        cand.append((at.kind != "uf", at.id, (-rest) / C(c)))
        if cand:
            cand.sort(key=lambda t: (t[0], -t[1]))
            _, aid, rhs = cand[0]
            out[aid] = rhs
    return out


def all_equalities(prover, d):
    """equalities between elements that hold for all indices, at the indices occurring in d"""
    fs = [fn for tag, fn in prover.forall if tag == "all"]
    out = []
    if not fs:
        return out
    atoms = all_atoms(d)
    for a in sorted(atoms):
        for fn in fs:
            for g in fn(ATOMS[a]) or ():
                if g.op == "or":
                    ds = list(g.args)
                elif g.op == "not" and g.args[0].op == "and":
                    ds = [Not(x) for x in g.args[0].args]
                else:
                    ds = [g]
                eq = [x for x in ds if x.op == "=="]
                if len(eq) != 1 or eq[0] in out or not any(x in atoms for x in eq[0].args[0].atoms()):
                    continue
                if any(ATOMS[x].kind == "var" and str(ATOMS[x].name).startswith("@") for x in all_atoms(eq[0].args[0])):
                    continue
                if all(prover.entails(Not(x)) for x in ds if x is not eq[0]):
                    out.append(eq[0])
    return out


class Result:
    def __init__(self, status, by="", detail="", model=None):
        self.status, self.by, self.detail, self.model = status, by, detail, model


def prove(prover, goal, timeout=8000, depth=0, rewrites=(), budget=None):
    """-> Result('proved'|'refuted'|'unknown')"""
    old = core.PROVER[0]        # terms are simplified under the facts of the current prover: never leave another one behind
    core.PROVER[0] = prover
    try:
        return _prove(prover, goal, timeout, depth, rewrites, budget)
    except ZeroDivisionError:
        if prover.check_unsat([], timeout) is True:
            return Result("proved", "vacuous")
        return Result("unknown", detail="division by zero while simplifying")
    finally:
        core.PROVER[0] = old


def _prove(prover, goal, timeout=8000, depth=0, rewrites=(), budget=None):
    if budget is None:
        budget = [200, time.time() + 60]
    budget[0] -= 1
    if budget[0] < 0 or time.time() > budget[1]:
        return Result("unknown", detail="budget exhausted")
    if goal.op == "T":
        STATS["nf"] += 1
        return Result("proved", "nf")
    if goal.op == "and":
        by = []
        for g in goal.args:
            r = prove(prover, g, timeout, depth, rewrites, budget)
            if r.status != "proved":
                return r
            by.append(r.by)
        return Result("proved", "+".join(sorted(set(by))))
    if goal.op == "==":
        core.PROVER[0] = prover
        d = goal.args[0]
        d = renorm(d)
        if d.is_zero() or log_zero(d):
            STATS["nf"] += 1
            return Result("proved", "normal-form")
        for rw in rewrites:
            d2 = rw(d, prover)
            if d2 is not None and (d2.is_zero() or log_zero(d2)):
                STATS["nf"] += 1
                return Result("proved", "normal-form+axioms")
            if d2 is not None:
                d = d2
        pe = path_equalities(prover.facts + all_equalities(prover, d))
        if pe:
            d2 = d
            for _ in range(4):
                d3 = subst(d2, pe)
                if d3.key() == d2.key():
                    break
                d2 = d3
            if d2.is_zero() or log_zero(d2):
                return Result("proved", "normal-form+path")
            if d2.key() != d.key():
                for rw in rewrites:
                    d3 = rw(d2, prover)
                    if d3 is not None:
                        d2 = d3
                        if d2.is_zero() or log_zero(d2):
                            return Result("proved", "normal-form+path+axioms")
            d = d2
        d2 = parity(prover, d)
        if d2 is not None:
            d = d2
            if d.is_zero() or log_zero(d):
                return Result("proved", "normal-form+parity")
        c = split_ites(d)
        if c is not None and depth < 14:
            res = []
            for val in (True, False):
                cond = c if val else Not(c)
                p2 = prover.copy()
                if p2.check_unsat([cond], timeout) is True:
                    continue
                p2.assume(cond)
                core.PROVER[0] = p2
                d2 = assign_cond(d, c, val)
                r = prove(p2, cmp0("==", d2), timeout, depth + 1, rewrites, budget)
                core.PROVER[0] = prover
                if r.status != "proved":
                    return r
                res.append(r.by)
            return Result("proved", "+".join(sorted(set(res))) or "vacuous")
        if prover.recdefs:
            d2 = unfold_rec(prover, d)
            if d2 is not None:
                if d2.is_zero() or log_zero(d2):
                    return Result("proved", "normal-form+recursion")
                if split_ites(d2) is not None and depth < 14:
                    return prove(prover, cmp0("==", d2), timeout, depth + 1, rewrites, budget)
                d = d2
        if depth < 14 and any(ATOMS[a].kind == "sum" for m in d.num for a, _ in m):
            r = sum_rule(prover, d, timeout, depth, rewrites, budget)
            if r is not None:
                return r
        if depth < 14 and core.MATFUNS:
            d2 = matfun_rule(prover, d, timeout, depth, rewrites, budget)
            if d2 is not None:
                return prove(prover, cmp0("==", d2), timeout, depth + 1, rewrites, budget)
        if len(d.num) <= 40:
            r = prover.check_unsat([Not(cmp0("==", d))], timeout)
            if r is True:
                STATS["z3"] += 1
                return Result("proved", "z3")
        # integers pinned by their bounds
        mp = {}
        for a in all_atoms(d):
            at = ATOMS[a] if isinstance(a, int) else a
            if at.kind == "var" and at.sort == "I" and not at.name.startswith("@") and len(mp) < 4:
                for c0 in (0, 1, 2):
                    if prover.entails(cmp_("==", A2E(at), c0)):
                        mp[at.id] = C(c0)
                        break
        if mp:
            d2 = subst(d, mp)
            for rw in rewrites:
                d2 = rw(d2, prover) or d2
            if d2.is_zero() or log_zero(d2):
                return Result("proved", "normal-form+bounds")
        fl = floor_lemmas(prover, goal)
        if fl:
            p2 = prover.copy()
            for f in fl:
                p2.assume(f)
            if p2.check_unsat([Not(goal)], timeout) is True:
                STATS["z3"] += 1
                return Result("proved", "z3+floor-rule")
        # numeric refutation is attempted by the caller
        return Result("unknown", detail="difference = %s" % show(d)[:600], model=(prover, d))
    if goal.op == "not" and goal.args[0].op == "==":
        fs = poly_factors(goal.args[0].args[0])
        if fs and all(core.syn_sign(f) or prover.entails(Not(cmp0("==", f)), timeout) for f in fs):
            return Result("proved", "factors+z3")
    # inequalities / propositional goals
    if goal.op in (">=", ">") and nonneg(prover, goal.args[0], goal.op == ">"):
        return Result("proved", "sign-rule")
    if goal.op in (">=", ">") and depth < 6:
        for g2 in floor_elim(goal):
            if sign_factors(prover, g2) or nonneg(prover, g2.args[0], g2.op == ">"):
                return Result("proved", "floor-rule")
    fl = floor_lemmas(prover, goal) if depth == 0 else ()
    if fl:
        prover = prover.copy()
        for f in fl:
            prover.assume(f)
    pe = path_equalities(prover.facts) if depth == 0 else None
    if pe and goal.op in (">=", ">"):
        d = subst(goal.args[0], pe)
        if d.key() != goal.args[0].key():
            g2 = cmp0(goal.op, d)
            if g2.op == "T":
                return Result("proved", "normal-form+path")
            if g2.op != "F":
                goal = g2
    r = prover.check_unsat([Not(goal)], timeout)
    if r is True:
        STATS["z3"] += 1
        return Result("proved", "z3")
    # case split on ites / disjunctions
    c = split_ites(goal)
    if c is not None and depth < 10:
        for val in (True, False):
            cond = c if val else Not(c)
            p2 = prover.copy()
            if p2.check_unsat([cond], timeout) is True:
                continue
            p2.assume(cond)
            core.PROVER[0] = p2
            rr = prove(p2, assign_cond(goal, c, val), timeout, depth + 1, rewrites, budget)
            core.PROVER[0] = prover
            if rr.status != "proved":
                return rr
        return Result("proved", "z3")
    if r is False:
        return Result("refuted", "z3", detail="z3 model for negation of %r" % (goal,), model=(prover, goal))
    r5 = cvc5_unsat(prover, [Not(goal)], 8)
    if r5 is True:
        STATS["cvc5"] += 1
        return Result("proved", "cvc5")
    return Result("unknown", detail="z3/cvc5 unknown: %r" % (goal,), model=(prover, goal))


def parity(prover, d):
    """relate e mod 2 and (-1)**e: the first is (1 - (-1)**e)/2, and a path that fixes the first fixes the second"""
    sgs = {a for a in all_atoms(d) if ATOMS[a].kind == "sg"}
    if not sgs:
        return None
    mod2 = lambda a: ATOMS[a].kind == "mod" and ATOMS[a].args[1].const() == 2
    mp = {a: (ONE - core.sg(ATOMS[a].args[0])) / C(2) for a in d.atoms() if mod2(a)}
    if mp:
        d = subst(d, mp)
    mp = {}
    for f in prover.facts:
        if f.op not in ("==", "not", ">=", ">"):
            continue
        for a in core.batoms(f):
            if not mod2(a):
                continue
            m = A2E(ATOMS[a])
            v = 1 if prover.entails(cmp_("==", m, 0)) else -1 if prover.entails(cmp_("==", m, 1)) else 0
            if not v:
                continue
            # the product of the sign atoms is v
            e = core.sg(ATOMS[a].args[0])
            (mono, c), = e.num.items()
            at = [x for x, _ in mono if x in sgs and x not in mp]
            if at and all(ATOMS[x].kind == "sg" for x, _ in mono):
                mp[at[0]] = C(v) * C(c) * E({tuple(y for y in mono if y[0] != at[0]): Fraction(1)})
    return subst(d, mp) if mp else d


def matfun_rule(prover, d, timeout, depth, rewrites, budget):
    """functionals of matrices with equal entries are equal"""
    ms = [ATOMS[a] for a in sorted(d.atoms()) if ATOMS[a].kind == "uf" and ATOMS[a].name in core.MATFUNS]
    for k, x in enumerate(ms):
        for y in ms[:k]:
            if x.name != y.name or len(x.args) != len(y.args):
                continue
            if any(p.key() != q.key() for p, q in zip(x.args[3:], y.args[3:])):
                continue
            if x.args[0].key() != y.args[0].key() and not prover.entails(cmp_("==", x.args[0], y.args[0])):
                continue
            i, j = core.var("mi%d@g" % depth, "I", 0), core.var("mj%d@g" % depth, "I", 0)

            def body(z):
                f = int(z.args[2].const())
                mp = {}
                for q, v in ((f, i), (f + 1, j)):
                    mp[core._mkatom("var", (), ("bvF", q), "I", 0, name="@F%d" % q).id] = v
                return subst(z.args[1], mp)
            p2 = prover.copy()
            p2.assume(cmp_("<", i, x.args[0]))
            p2.assume(cmp_("<", j, x.args[0]))
            if prove(p2, cmp_("==", body(x), body(y)), min(timeout, 3000), depth + 1, rewrites, budget).status == "proved":
                return subst(d, {x.id: A2E(y)})
    return None


def sum_rule(prover, d, timeout, depth, rewrites, budget):
    """finite sums whose bounds differ by constants: take the surplus terms off (at the front or at the end), add the rest
    termwise, and prove that every term of the combined sum and the remainder vanish"""
    groups, rest = {}, ZERO
    for m, cf in d.num.items():
        ss = [(a, e) for a, e in m if ATOMS[a].kind == "sum"]
        if not ss:
            rest = rest + E({m: cf})
            continue
        if len(ss) != 1 or ss[0][1] != 1:
            return None
        at = ATOMS[ss[0][0]]
        n = at.args[0]
        if n.den:
            return None
        c = n.num.get((), core.F0)
        c = c if c.denominator == 1 else core.F0
        base = n - C(c)
        co = E({tuple(x for x in m if x[0] != at.id): cf})
        groups.setdefault(base.key(), (base, []))[1].append((c, co, at))
    if any(len({c for c, _, _ in ts}) > 1 for _, ts in groups.values()):
        for key, (_, ts) in list(groups.items()):       # sums over one range only: dealt with after the others
            if len({c for c, _, _ in ts}) == 1:
                for _, co, at in ts:
                    rest = rest + co * A2E(at)
                del groups[key]
    kmax = 1
    for _, ts in groups.values():
        kmax = max(kmax, int(min(4, max(c for c, _, _ in ts) - min(c for c, _, _ in ts))))
    cases = []
    for front in [kmax, 0] + list(range(1, kmax)):      # surplus terms taken off at the front
        goals, R, good = [], rest, True
        for base, ts in groups.values():
            c0 = min(c for c, _, _ in ts)
            n0 = base + C(c0)
            if max(c for c, _, _ in ts) - c0 > 4 or not prover.entails(cmp_(">=", n0, 0)):
                good = False
                break
            p2 = prover.copy()
            j = core.fresh("q", "I", 0)
            p2.assume(cmp_("<", j, n0))
            core.PROVER[0] = p2
            body = ZERO
            try:
                for c, co, at in ts:
                    n, b, dd = at.args
                    bid = core.bvar(dd).id
                    k = int(c - c0)
                    core.PROVER[0] = p2
                    body = body + co * subst(b, {bid: j + C(min(front, k))})
                    core.PROVER[0] = prover
                    for t in range(k):
                        R = R + co * subst(b, {bid: C(t) if t < front else n0 + C(t)})
            except (Stuck, ZeroDivisionError):
                good = False
                break
            finally:
                core.PROVER[0] = prover
            goals.append((p2, body))
        if not good:
            continue
        cases.append([(prover, R)] + goals)
    for case in cases:
        if all(renorm(g).is_zero() for _, g in case):
            return Result("proved", "nf+sums")
    for case in cases:
        by = []
        for p2, g in case:
            core.PROVER[0] = p2
            r = prove(p2, cmp0("==", g), timeout, depth + 1, rewrites, budget)
            core.PROVER[0] = prover
            if r.status != "proved":
                break
            by.append(r.by)
        else:
            return Result("proved", "+".join(sorted(set(by))) + "+sums")
    return None


def nonneg(prover, d, strict=False):
    """d >= 0 (> 0) by factoring out evidently positive atoms and deciding the rest"""
    if not d.num:
        return not strict
    if not strict and syn_nonneg(d):
        return True
    sign = 1
    for pk, k in d.den:
        e = E(dict(pk))
        sg_ = core.syn_sign(e)
        if sg_ == 0:
            if k % 2 == 0:
                continue                       # definedness is a separate obligation
            if prover.entails(cmp0(">", e), 800):
                sg_ = 1
            elif prover.entails(cmp0(">", -e), 800):
                sg_ = -1
            else:
                return False
        if k % 2:
            sign *= sg_
    num = {m: c * sign for m, c in d.num.items()}
    common = None
    for m in num:
        mm = dict(m)
        if common is None:
            common = dict(mm)
        else:
            for a in list(common):
                if a not in mm or (mm[a] > 0) != (common[a] > 0):
                    if a in mm or common[a] > 0:
                        common.pop(a)
                        continue
                if a not in mm:
                    common.pop(a)
                    continue
                common[a] = min(common[a], mm[a], key=abs)
    ok = {}
    for a, e in (common or {}).items():
        at = ATOMS[a]
        if at.pos == 1 or (at.pos == 0 and not strict) or (isinstance(e, int) and e % 2 == 0 and not strict):
            ok[a] = e
    rest = {}
    for m, c in num.items():
        mm = dict(m)
        for a, e in ok.items():
            mm[a] = mm.get(a, 0) - e
            if mm[a] == 0:
                mm.pop(a)
        rest[tuple(sorted(mm.items()))] = c
    if not strict and core._psign(rest, False) == 1 or strict and core._psign(rest, True) == 1:
        return True
    if len(rest) == 2:
        (m1, c1), (m2, c2) = rest.items()
        if c1 < 0:
            (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
        if c1 > 0 and c2 == -c1:
            q = dict(m1)
            for a, e in m2:
                q[a] = q.get(a, 0) - e
            q = {a: e for a, e in q.items() if e != 0}
            if all(ATOMS[a].pos == 1 for a in q):
                for a, e in q.items():
                    A = A2E(ATOMS[a])
                    if not prover.entails(cmp0(">=" if not strict else ">", (A - 1) if e > 0 else (1 - A)), 1500):
                        break
                else:
                    return bool(q)
    if ok or d.den:
        r = E(dict(rest))
        if prover.entails(cmp0(">" if strict else ">=", r), 1500):
            return True
    return False


def prune(prover, e, limit=20):
    """drop the branches of conditionals that the facts exclude"""
    undecided = set()
    for _ in range(limit):
        c = None
        for a in sorted(all_atoms(e)):
            at = ATOMS[a]
            if at.kind == "ite" and at.args[0].key() not in undecided:
                c = at.args[0]
                break
        if c is None:
            return e
        if prover.entails(c, 1500):
            e = assign_cond(e, c, True)
        elif prover.entails(Not(c), 1500):
            e = assign_cond(e, c, False)
        else:
            undecided.add(c.key())
    return e


def unfold_rec(prover, d, rounds=4):
    """replace recursively defined cells by their defining value where that introduces no new cells"""
    names = {n: fn for n, fn in prover.recdefs}
    changed = False
    for _ in range(rounds):
        here = {a for a in all_atoms(d) if ATOMS[a].kind == "uf" and ATOMS[a].name in names}
        best = None
        for a in sorted(here):
            at = ATOMS[a]
            for cond, val in names[at.name](at):
                new = {b for b in all_atoms(val) if ATOMS[b].kind == "uf" and ATOMS[b].name in names}
                if a in new or not new <= here:
                    continue
                if (best is None or len(new) > best[2]) and (cond.op == "T" or prover.entails(cond, 1500)):
                    best = (a, prune(prover, val), len(new))
        if best is None:
            break
        d = subst(d, {best[0]: best[1]})
        changed = True
        if d.is_zero():
            break
    return d if changed else None


_FACT = {}


def poly_factors(e):
    """factors of the numerator (and the denominators) of e, found by sympy and checked by multiplication; None if irreducible"""
    k = e.key()
    if k in _FACT:
        return _FACT[k]
    _FACT[k] = None
    ids = sorted({a for m in e.num for a, _ in m})
    if not e.num or len(ids) > 12 or len(e.num) > 80 or any(not isinstance(x, int) or x < 0 for m in e.num for _, x in m):
        return None
    import sympy
    sy = {a: sympy.Symbol("z%d" % a) for a in ids}
    pol = sum(sympy.Rational(c.numerator, c.denominator) * sympy.prod([sy[a] ** x for a, x in m]) for m, c in e.num.items())
    try:
        c0, fl = sympy.factor_list(pol)
    except Exception:
        return None
    inv = {v: A2E(ATOMS[a]) for a, v in sy.items()}
    out, tot = [], C(Fraction(int(c0.p), int(c0.q))) if c0.is_Rational else None
    if tot is None:
        return None
    for f, mult in fl:
        t = ZERO
        for mon, c in sympy.Poly(f, *[sy[a] for a in ids]).terms():
            y = C(Fraction(int(c.p), int(c.q)))
            for a, x in zip(ids, mon):
                if x:
                    y = y * A2E(ATOMS[a]) ** int(x)
            t = t + y
        out.append(t)
        for _ in range(mult):
            tot = tot * t
    if not (tot - E(dict(e.num))).is_zero():
        return None
    if len(out) < 2:
        return None
    _FACT[k] = out
    return out


def floor_elim(goal):
    """equivalent goals without one of the floors:  floor(x) >= n  iff  x >= n  and  n >= floor(x)  iff  n + 1 > x  (n an integer)"""
    d = goal.args[0]
    if not core.is_int(d):
        return
    if goal.op == ">":
        d = d - 1
    for m, c in sorted(d.num.items(), key=lambda t: -max([a for a, _ in t[0]], default=0)):
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1 or ATOMS[m[0][0]].kind != "floor":
            continue
        at = ATOMS[m[0][0]]
        rest = d - A2E(at) * C(c)
        g = cmp0(">=", at.args[0] + rest) if c == 1 else cmp0(">", rest + 1 - at.args[0])
        if g.op in (">=", ">"):
            yield g


def sign_factors(prover, goal):
    """sign of a product from the signs of its factors"""
    d, strict = goal.args[0], goal.op == ">"
    n = E(dict(d.num))
    for pk, k in d.den:
        if k % 2:
            n = n * E(dict(pk))                # sign(1/e) = sign(e); e != 0 is a separate obligation
    low = {}
    for m in n.num:
        for a, x in m:
            if x < 0:
                low[a] = min(low.get(a, 0), x)
    for a, x in low.items():
        n = n * A2E(ATOMS[a]) ** (2 * int(math.ceil(-x / 2)))
    fs = poly_factors(n)
    if not fs or len(fs) > 6:
        return False
    sign = 1
    q = n
    for f in fs:
        k = 0
        while True:
            r = pdiv_exact_e(q, f)
            if r is None:
                break
            q, k = r, k + 1
        if k % 2 == 0:
            if strict and not prover.entails(Not(cmp0("==", f)), 1500):
                return False
            continue
        sg_ = core.syn_sign(f)
        if sg_ == 0:
            if prover.entails(cmp0(goal.op, f), 1500):
                sg_ = 1
            elif prover.entails(cmp0(goal.op, -f), 1500):
                sg_ = -1
            else:
                return False
        sign *= sg_
    c = q.const()
    return c is not None and c * sign > 0


def pdiv_exact_e(q, f):
    """q/f for polynomials if it is a polynomial"""
    if f.const() is not None:
        return None
    r = q / f
    if r.den or any(x < 0 for m in r.num for _, x in m):
        return None
    return r


def floor_lemmas(prover, goal):
    """floor(a) <= floor(b) for the pairs of floors in the goal with a <= b"""
    ids = {a for a in all_atoms(goal) if ATOMS[a].kind == "floor"}
    if ids:
        more = {a for f in prover.facts for a in batoms(f) if ATOMS[a].kind == "floor"} | ids
        if len(more) <= 4:
            ids = more
    fs = [ATOMS[a] for a in sorted(ids)]
    out = []
    if len(fs) > 6:
        return out
    pe = path_equalities(prover.facts)
    for x in fs:
        for y in fs:
            if x.id == y.id:
                continue
            d = y.args[0] - x.args[0]
            if pe:
                d = subst(d, pe)
            if d.is_zero():
                out.append(cmp_("==", A2E(x), A2E(y)))
            elif nonneg(prover, d):
                out.append(cmp_("<=", A2E(x), A2E(y)))
    return out


def cvc5_unsat(prover, extra, tmo):
    tr = Translator()
    s = z3.Solver()
    try:
        for f in relevant(prover.facts, extra):
            s.add(tr.b(f))
        for f in extra:
            s.add(tr.b(f))
        prover._side(tr, s)
    except Untranslatable:
        return None
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t = time.time()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (tmo * 1000), "--nl-ext-tplanes"], input=txt, text=True,
                           capture_output=True, timeout=tmo + 5)
        r = p.stdout.strip().splitlines()
        r = r[0] if r else ""
    except Exception:
        r = ""
    STATS["cvc5_time"] += time.time() - t
    return True if r == "unsat" else (False if r == "sat" else None)


def renorm(d):
    """rebuild with the current facts (logs split, abs resolved, ites decided) """
    ctx = core.PROVER[0]
    mp = {}
    for a in sorted(all_atoms(d)):
        at = ATOMS[a]
        if at.kind in ("log", "abs", "root"):
            n = {"log": elog, "abs": eabs, "root": lambda x: eroot(x, at.special[1])}[at.kind](at.args[0])
            if n.key() != A2E(at).key():
                mp[a] = n
        elif at.kind == "ite" and ctx is not None:
            if any(ATOMS[x].kind == "var" and ATOMS[x].name.startswith("@") for x in all_atoms(at.args[0])):
                continue
            if ctx.entails(at.args[0], 1000):
                mp[a] = at.args[1]
            elif ctx.entails(Not(at.args[0]), 1000):
                mp[a] = at.args[2]
    if mp:
        d2 = subst(d, mp)
        if d2.key() != d.key():
            return renorm(d2)
        return d2
    return d
