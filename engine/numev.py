"""Numerical evaluation of obligation terms: decides refutation of a goal at a concrete point.

A goal counts as refuted only if every symbol in it and in the path condition is an input of the
contract (universally quantified) or a defined specification function, the path condition holds at
the point, and the goal is violated by far more than the evaluation error.
"""
import random, hashlib
from fractions import Fraction
from mpmath import mp, mpf
from core import *
import core

SPEC_EVAL = {}          # uf name -> fn(*numeric args)
AXIOM = set()           # uf names constrained by axioms (not free)
BADPREF = ("hv#", "hb#", "ph#", "undef#", "rec#", "ext#", "sel#", "tau#", "wit#", "quad", "t#", "cj#")


class NoEval(Exception):
    pass


class Point:
    def __init__(self, seed, style):
        self.rng = random.Random(seed)
        self.seed, self.style = seed, style
        self.vars = {}
        self.memo = {}
        self.recdefs = {}
        self.recmemo = {}

    # -- values
    def rnd(self, key, sort, pos):
        h = random.Random(int.from_bytes(hashlib.sha256(repr((self.seed, key)).encode()).digest()[:8], "big"))
        if sort == "I":
            hi = {0: 3, 1: 6, 2: 12}[self.style % 3]
            if pos == 1:
                return mpf(h.randint(1, hi))
            if pos == 0:
                return mpf(h.randint(0, hi))
            return mpf(h.randint(-hi, hi))
        s = {0: 1.0, 1: 3.0, 2: 0.3}[self.style % 3]
        v = mpf(h.uniform(0.05, 1.5)) * s
        if pos is None and h.random() < 0.5:
            v = -v
        return v

    def atom(self, a, bv):
        k = a.kind
        if k == "var":
            if a.name.startswith("@"):
                if a.id in bv:
                    return bv[a.id]
                raise NoEval("free bound variable")
            if a.id in self.vars:
                return self.vars[a.id]
            if a.name.startswith(BADPREF):
                raise NoEval("internal symbol " + a.name)
            v = self.rnd(("v", a.name), a.sort, a.pos)
            self.vars[a.id] = v
            return v
        if k == "pi":
            return mp.pi
        if k == "num":
            return mpf(a.special[1])
        if k == "uf":
            if a.name == "integral" or a.name.startswith("matfun"):
                raise NoEval(a.name)
            if a.name in self.recdefs:
                return self.rec(a, bv)
            if a.name.startswith(BADPREF):
                raise NoEval("internal symbol " + a.name)
            args = [self.e(x, bv) for x in a.args]
            if a.name in SPEC_EVAL:
                return SPEC_EVAL[a.name](*args)
            if a.name in AXIOM:
                raise NoEval("axiomatised " + a.name)
            return self.rnd(("u", a.name, tuple(mp.nstr(x, 15) for x in args)), a.sort, a.pos)
        if k == "sum":
            n, body, d = a.args
            n = self.e(n, bv)
            if n != int(n) or n > 60:
                raise NoEval("sum range")
            b = bvar(d)
            tot = mpf(0)
            for j in range(max(0, int(n))):
                bb = dict(bv)
                bb[b.id] = mpf(j)
                tot += self.e(body, bb)
            return tot
        if k == "ite":
            return self.e(a.args[1] if self.b(a.args[0], bv) else a.args[2], bv)
        v = [self.e(x, bv) for x in a.args if isinstance(x, E)]
        if k == "root":
            if v[0] < 0:
                raise NoEval("root of a negative number")
            return mp.root(v[0], a.special[1])
        if k == "sg":
            return mpf(1) if int(mp.nint(v[0])) % 2 == 0 else mpf(-1)
        if k == "exp":
            return mp.exp(v[0])
        if k == "pw":
            if v[0] <= 0:
                raise NoEval("power of a non-positive number")
            return v[0] ** v[1]
        if k == "log":
            if v[0] <= 0:
                raise NoEval("log of a non-positive number")
            return mp.log(v[0])
        if k == "lg":
            if v[0] <= 0:
                raise NoEval("lgamma")
            return mp.loggamma(v[0])
        if k == "abs":
            return abs(v[0])
        if k == "floor":
            return mp.floor(v[0])
        if k == "mod":
            return v[0] - v[1] * mp.floor(v[0] / v[1])
        raise NoEval("atom " + k)

    def rec(self, a, bv):
        """content of a recursively filled array, by its defining clauses"""
        key = (a.name, tuple(mp.nstr(self.e(x, bv), 15) for x in a.args))
        if key in self.recmemo:
            if self.recmemo[key] is None:
                raise NoEval("cyclic definition")
            return self.recmemo[key]
        self.recmemo[key] = None
        if len(self.recmemo) > 300:
            raise NoEval("recursion depth")
        # clauses are instantiated at numbers, so that the terms stay small
        args = [C(Fraction(int(mp.nint(v)))) if v == mp.nint(v) else None for v in (self.e(x, bv) for x in a.args)]
        if any(x is None for x in args):
            raise NoEval("array index")
        at = [ATOMS[t] for t in all_atoms(uf(a.name, args)) if ATOMS[t].kind == "uf" and ATOMS[t].name == a.name][0]
        for cond, val in self.recdefs[a.name](at):
            if self.b(cond, {}):
                v = self.e(val, {})
                self.recmemo[key] = v
                return v
        raise NoEval("cell outside the definition")

    def e(self, x, bv={}):
        n = self.poly(x.num, bv)
        for pk, k in x.den:
            d = self.poly(dict(pk), bv)
            if d == 0:
                raise NoEval("division by zero")
            n = n / d ** k
        return n

    def poly(self, p, bv):
        t = mpf(0)
        for m, c in p.items():
            v = mpf(c.numerator) / c.denominator
            for aid, ex in m:
                x = self.at(aid, bv)
                if isinstance(ex, int):
                    if ex < 0 and x == 0:
                        raise NoEval("division by zero")
                    v *= x ** ex
                else:
                    if x < 0 or (x == 0 and ex < 0):
                        raise NoEval("root of a negative number")
                    v *= mp.power(x, mpf(ex.numerator) / ex.denominator)
            t += v
        return t

    def at(self, aid, bv):
        if not bv:
            r = self.memo.get(aid)
            if r is None:
                r = self.memo[aid] = self.atom(ATOMS[aid], bv)
            return r
        return self.atom(ATOMS[aid], bv)

    def b(self, b, bv={}):
        if b.op == "T":
            return True
        if b.op == "F":
            return False
        if b.op == "and":
            return all(self.b(x, bv) for x in b.args)
        if b.op == "or":
            return any(self.b(x, bv) for x in b.args)
        if b.op == "not":
            return not self.b(b.args[0], bv)
        if b.op in (">", ">=", "=="):
            v = self.e(b.args[0], bv)
            tol = mpf(10) ** (-25)
            if b.op == "==":
                return abs(v) < tol
            if b.op == ">":
                return v > tol
            return v > -tol
        raise NoEval("condition " + b.op)


def refute(prover, goal, tries=240):
    """-> dict of the point, or None"""
    if prover is None or any(t != "rec" for t, _ in prover.forall):
        return None
    if isinstance(goal, E):
        goal = B("==", goal)
    from smt import path_equalities
    try:
        pe = path_equalities(prover.facts)
    except Exception:
        pe = {}
    with mp.workdps(50):
        hits = 0
        for i in range(tries):
            p = Point("r%d" % i, i)
            p.recdefs = dict(prover.recdefs)
            try:
                todo = dict(pe)
                for _ in range(4):
                    for aid, term in list(todo.items()):
                        if ATOMS[aid].kind == "var":
                            try:
                                v = p.e(term)
                                if ATOMS[aid].sort == "I" and v != mp.nint(v):
                                    raise NoEval("sort")
                                p.vars[aid] = v
                                todo.pop(aid)
                            except NoEval:
                                pass
                p.memo = {}
                if not all(p.b(f) for f in prover.facts):
                    continue
                hits += 1
                if violated(p, goal):
                    return point(p, goal)
            except (NoEval, ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
                if isinstance(e, NoEval) and ("internal" in str(e) or "axiom" in str(e) or "condition" in str(e) or "integral" in str(e) or "matfun" in str(e)):
                    return None
                continue
    return None


def violated(p, g):
    if g.op == "and":
        return any(violated(p, x) for x in g.args)
    if g.op == "==":
        v = p.e(g.args[0])
        scale = size(p, g.args[0])
        return abs(v) > mpf(10) ** -18 * (1 + scale)
    if g.op in (">", ">="):
        v = p.e(g.args[0])
        return v < -mpf(10) ** -18 * (1 + size(p, g.args[0]))
    if g.op == "F":
        return True
    if g.op == "not":
        x = g.args[0]
        if x.op == "==":
            return abs(p.e(x.args[0])) < mpf(10) ** -30
        return p.b(x)
    return not p.b(g)


def size(p, e):
    t = mpf(0)
    for m, c in e.num.items():
        t += abs(p.poly({m: c}, {}))
    for pk, k in e.den:
        t = t / abs(p.poly(dict(pk), {})) ** k
    return t


def point(p, goal):
    out = {}
    for aid, v in p.vars.items():
        out[ATOMS[aid].name] = mp.nstr(v, 12)
    for aid, v in p.memo.items():
        if ATOMS[aid].kind == "uf" and len(out) < 40:
            out[show_atom(ATOMS[aid])] = mp.nstr(v, 12)
    return out
