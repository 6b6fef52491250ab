"""numpy / builtins / math / scipy semantics on symbolic values (real arithmetic)."""
import ast, math
from fractions import Fraction
from core import *
import core
from vals import *
import text

UNDEF = [0]


# ---------------------------------------------------------------- helpers
def dim_eq(it, a, b, what="shapes match"):
    if a.key() == b.key():
        return True
    d = a - b
    if d.is_zero():
        return True
    return it.ctx.prover.entails(cmp_("==", a, b))


def broadcast(it, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if d.const() == 1:
                continue
            if cur.const() == 1:
                cur = d
            elif not dim_eq(it, cur, d):
                if it.ctx.prover.entails(cmp_("!=", cur, d)) and not (it.ctx.prover.entails(cmp_("==", cur, 1)) or it.ctx.prover.entails(cmp_("==", d, 1))):
                    raise PyRaise("ValueError", "operands could not be broadcast together")
                it.ctx.oblige("array shapes agree line %s" % getattr(it, "line", "?"), cmp_("==", cur, d), kind="shape")
        out.append(cur)
    return tuple(out)


def bidx(shape, idx):
    """index into an operand of (smaller) shape from a full broadcast index"""
    off = len(idx) - len(shape)
    return tuple(ZERO if s.const() == 1 else idx[off + k] for k, s in enumerate(shape))


def generic(it, shape, tag="i"):
    """generic indices with a prover that knows 0 <= i < n"""
    idx = []
    p = it.ctx.prover.copy()
    for k, s in enumerate(shape):
        if s.const() == 1:
            idx.append(ZERO)
            continue
        v = var("%s%d@g" % (tag, k), "I", 0)
        p.assume(cmp_("<", v, s))
        p.assume(cmp_(">=", s, 1))
        idx.append(v)
    return tuple(idx), p


def with_prover(p, fn):
    old = core.PROVER[0]
    core.PROVER[0] = p
    try:
        return fn()
    finally:
        core.PROVER[0] = old


def is_arr(v):
    return isinstance(v, (Arr, MaskSel))


def as_operand(v):
    """(shape, element function, type)"""
    if isinstance(v, Arr):
        return v.shape, v.snap(), tyof(v), v.dtype
    e = num(v)
    return (), (lambda idx: e), tyof(v), None


def elementwise(it, fn, args, dtype="float", check=None, name=""):
    """apply fn(E,...)->E elementwise; check(E,...)->[(label,B)] are definedness obligations"""
    if any(isinstance(a, MaskSel) for a in args):
        return mask_elementwise(it, fn, args, dtype, check, name)
    if not any(isinstance(a, Arr) for a in args):
        es = [num(a) for a in args]
        if check and it.ctx.opts.get("definedness", True):
            for lab, b in check(*es):
                it.ctx.oblige("%s line %s" % (lab, getattr(it, "line", "?")), b)
        return fn(*es)
    ops = [as_operand(a) for a in args]
    shape = broadcast(it, [o[0] for o in ops])

    def el(idx):
        return fn(*[o[1](bidx(o[0], idx)) for o in ops])
    if check and it.ctx.opts.get("definedness", True):
        idx, p = generic(it, shape)

        def run():
            es = [asnum(o[1](bidx(o[0], idx))) for o in ops]
            for lab, b in check(*es):
                it.ctx.oblige("%s line %s" % (lab, getattr(it, "line", "?")), b, prover=p)
        if p.check_unsat([], 500) is not True:
            with_prover(p, run)
    return mkarr(shape, el, dtype)


def asnum(x):
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    return x


def mask_elementwise(it, fn, args, dtype, check, name):
    ms = [a for a in args if isinstance(a, MaskSel)]
    m0 = ms[0]
    for m in ms[1:]:
        if m.mkey != m0.mkey:
            raise Stuck("operation on differently masked selections")
    fns = []
    for a in args:
        if isinstance(a, MaskSel):
            fns.append(a.fn)
        elif isinstance(a, Arr):
            raise Stuck("masked selection with array")
        else:
            e = num(a)
            fns.append(lambda idx, e=e: e)
    if check and it.ctx.opts.get("definedness", True):
        idx, p = generic(it, m0.shape_full)
        p.assume(m0.maskfn(idx))

        def run():
            for lab, b in check(*[f(idx) for f in fns]):
                it.ctx.oblige("%s line %s" % (lab, getattr(it, "line", "?")), b, prover=p)
        if p.check_unsat([], 500) is not True:
            with_prover(p, run)
    mk = m0.maskfn

    def el(idx):
        # definedness holds where the mask holds; build the term under that assumption
        old = core.PROVER[0]
        if old is not None:
            p = old.copy()
            p.assume(mk(idx))
            core.PROVER[0] = p
        try:
            return fn(*[f(idx) for f in fns])
        finally:
            core.PROVER[0] = old
    return MaskSel(m0.shape_full, m0.maskfn, el, dtype, m0.mkey)


# ---------------------------------------------------------------- operators
def binop(it, op, a, b):
    if hasattr(a, "nc_binop") or hasattr(b, "nc_binop"):
        x = a if hasattr(a, "nc_binop") else b
        return x.nc_binop(it, op, a, b)
    if isinstance(a, str) and op == "Mult" and isinstance(b, SV) and it.ctx.opts.get("text"):
        return text.Txt([text.Piece("%r*%s" % (a, b.e), nl="\n" in a)])
    if isinstance(a, str) or isinstance(b, str):
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Mod" and isinstance(a, str):
            return fmt(it, a, b)
        if op == "Mult" and isinstance(b, int):
            return a * b
        if op == "Add":
            raise PyRaise("TypeError", "str concatenation")
        raise PyRaise("TypeError", "str operand")
    if isinstance(a, list) and isinstance(b, list) and op == "Add":
        return a + b
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    if isinstance(a, (list, tuple)) and isinstance(b, int) and op == "Mult":
        return a * b
    if isinstance(b, (list, tuple)) and isinstance(a, int) and op == "Mult":
        return b * a
    if isinstance(a, (list, tuple)) and is_arr(b):
        a = np_array(it, a)
    if isinstance(b, (list, tuple)) and is_arr(a):
        b = np_array(it, b)
    if isinstance(a, SymList) and is_arr(b):
        a = np_array(it, a)
    if isinstance(b, SymList) and is_arr(a):
        b = np_array(it, b)
    if op in ("BitAnd", "BitOr"):
        f = And if op == "BitAnd" else Or
        if is_arr(a) or is_arr(b):
            return elementwise(it, lambda x, y: f(asb(x), asb(y)), [a, b], "bool")
        if isinstance(a, (bool, SB)) or isinstance(b, (bool, SB)):
            return mkb(f(tob(it, a), tob(it, b)))
        if isinstance(a, int) and isinstance(b, int):
            return a & b if op == "BitAnd" else a | b
    if isinstance(a, Inf) or isinstance(b, Inf):
        raise Stuck("arithmetic with inf")
    if a is None or b is None:
        raise PyRaise("TypeError", "unsupported operand None")
    if op == "MatMult":
        return np_matmul(it, [a, b], {})
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        a, b = int(a), int(b)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "FloorDiv":
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return a // b
        if op == "Mod":
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return a % b
        if op == "Pow" and b >= 0:
            return a ** b
        if op == "Div":
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return SV(C(Fraction(a, b)), "float")
        if op in ("LShift",):
            return a << b
    ta, tb = tyof2(a), tyof2(b)
    arr = is_arr(a) or is_arr(b)

    def wrap(r, ty):
        if is_arr(r):
            return r
        return sv(r, ty)
    isint = is_intty(ta) and is_intty(tb)
    dt = "int" if isint else "float"
    N = lambda x: asnum(x)
    if op == "Add":
        return wrap(elementwise(it, lambda x, y: N(x) + N(y), [a, b], dt), join_ty(ta, tb))
    if op == "Sub":
        return wrap(elementwise(it, lambda x, y: N(x) - N(y), [a, b], dt), join_ty(ta, tb))
    if op == "Mult":
        return wrap(elementwise(it, lambda x, y: N(x) * N(y), [a, b], dt), join_ty(ta, tb))
    if op == "Div":
        if not arr and num(b).is_zero():
            raise PyRaise("ZeroDivisionError")
        ck = lambda x, y: [] if syn_sign(y) else [("denominator is non-zero", Not(cmp_("==", y, 0)))]

        def dv(x, y):
            x, y = N(x), N(y)
            if y.is_zero():
                raise Stuck("division by zero term")
            return x / y
        return wrap(elementwise(it, dv, [a, b], "float", ck), join_ty(ta, tb, True))
    if op == "FloorDiv":
        ck = lambda x, y: [("divisor is non-zero", Not(cmp_("==", y, 0)))]

        def fd(x, y):
            return efloor(N(x) / N(y))
        return wrap(elementwise(it, fd, [a, b], dt, ck), join_ty(ta, tb))
    if op == "Mod":
        return wrap(elementwise(it, lambda x, y: emod(N(x), N(y)), [a, b], dt), join_ty(ta, tb))
    if op == "Pow":
        ck = lambda x, y: pow_check(x, y)
        neg = not is_arr(b) and num(b).const() is not None and num(b).const() < 0
        ty = join_ty(ta, tb, neg)
        return wrap(elementwise(it, pow_el, [a, b], dt if not neg else "float", ck), ty)
    raise Stuck("operator " + op)


def tyof2(v):
    if isinstance(v, MaskSel):
        return "npint" if v.dtype == "int" else "npfloat"
    if isinstance(v, (SV, int, float, Fraction, Arr, SB, bool)):
        return tyof(v)
    raise Stuck("operand of type %s" % type(v).__name__)


def pow_check(x, y):
    c = y.const()
    if c is not None:
        if c.denominator != 1 and not syn_nonneg(x):
            return [("base of a fractional power is non-negative", cmp_(">=", x, 0))]
        if c < 0 and not syn_sign(x):
            return [("base of a negative power is non-zero", Not(cmp_("==", x, 0)))]
        return []
    if x.const() is not None and x.const() in (1, -1):
        return []
    return [("base of a symbolic power is positive", cmp_(">", x, 0))]


def pow_el(x, y):
    x, y = asnum(x), asnum(y)
    c = y.const()
    if c is not None:
        return epow(x, c)
    return powsym(x, y)


def iassign(it, arr, val):
    """arr[...] = val in place (augmented assignment)"""
    setitem(it, arr, Ellipsis, val)


def logical_not(it, v):
    if is_arr(v):
        return elementwise(it, lambda x: Not(asb(x)), [v], "bool")
    return mkb(Not(tob(it, v)))


def asb(x):
    if isinstance(x, B):
        return x
    return Not(cmp_("==", x, 0))


def tob(it, v):
    if isinstance(v, SB):
        return v.b
    if isinstance(v, bool):
        return Bo(v)
    if isinstance(v, (int, SV)):
        return Not(cmp_("==", num(v), 0))
    raise Stuck("bool of %s" % type(v).__name__)


def mkb(b):
    if b.op == "T":
        return True
    if b.op == "F":
        return False
    return SB(b)


OPS = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}


def compare(it, op, a, b):
    if op == "Is":
        if isinstance(a, Obj) and isinstance(b, Obj) and "sid" in a.attrs and "sid" in b.attrs:
            return equal(it, a, b)
        return a is b or (isinstance(a, TypeV) and isinstance(b, TypeV) and a.name == b.name)
    if op == "IsNot":
        r = compare(it, "Is", a, b)
        return SB(Not(r.b)) if isinstance(r, SB) else not r
    if op in ("In", "NotIn"):
        r = contains(it, a, b)
        if op == "In":
            return r
        return (not r) if isinstance(r, bool) else SB(Not(r.b))
    if op in ("Eq", "NotEq"):
        r = equal(it, a, b)
        if op == "Eq":
            return r
        if isinstance(r, bool):
            return not r
        if isinstance(r, SB):
            return SB(Not(r.b))
        return logical_not(it, r)
    if isinstance(a, Inf) or isinstance(b, Inf):
        sa = a.sign if isinstance(a, Inf) else 0
        sb = b.sign if isinstance(b, Inf) else 0
        return {"Lt": sa < sb, "LtE": sa <= sb, "Gt": sa > sb, "GtE": sa >= sb}[op]
    o = OPS[op]
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
    if isinstance(a, (str, list, tuple)) or isinstance(b, (str, list, tuple)) or a is None or b is None:
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            raise Stuck("sequence comparison")
        if not is_arr(a) and not is_arr(b):
            raise PyRaise("TypeError", "unorderable")
    if is_arr(a) or is_arr(b):
        return elementwise(it, lambda x, y: cmp_(o, asnum(x), asnum(y)), [a, b], "bool")
    if isinstance(a, int) and isinstance(b, int):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
    return mkb(cmp_(o, num(a), num(b)))


def equal(it, a, b):
    if isinstance(a, text.Txt) or isinstance(b, text.Txt):
        return a.txt_equal(it, b) if isinstance(a, text.Txt) else b.txt_equal(it, a)
    if isinstance(a, Inf) or isinstance(b, Inf):
        return isinstance(a, Inf) and isinstance(b, Inf) and a.sign == b.sign
    if isinstance(a, TypeV) or isinstance(b, TypeV) or isinstance(a, Cls) or isinstance(b, Cls):
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        return a is b
    if is_arr(a) or is_arr(b):
        if isinstance(a, (str,)) or isinstance(b, (str,)) or a is None or b is None:
            return False
        if isinstance(a, (list, tuple)):
            a = np_array(it, a)
        if isinstance(b, (list, tuple)):
            b = np_array(it, b)
        return elementwise(it, lambda x, y: (cmp_("==", asnum(x), asnum(y))), [a, b], "bool")
    numeric = (int, SV, SB, Fraction, float)
    if isinstance(a, numeric) and isinstance(b, numeric):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return mkb(cmp_("==", num(a), num(b)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) != type(b) or len(a) != len(b):
            return False
        r = TRUE
        for x, y in zip(a, b):
            q = equal(it, x, y)
            r = And(r, Bo(q) if isinstance(q, bool) else q.b)
        return mkb(r)
    if isinstance(a, SymList) and isinstance(b, (list, tuple)):
        a, b = b, a
    if isinstance(b, SymList) and isinstance(a, (list, tuple)):
        if len(a) == 0:
            if type(a) is tuple and b.name is not None and not b.name.startswith("tuple"):
                return False
            return mkb(cmp_("==", b.n, 0))
        raise Stuck("comparison with symbolic list")
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b:
            return True
        if "sid" in a.attrs and "sid" in b.attrs:
            return mkb(cmp_("==", num(a.attrs["sid"]), num(b.attrs["sid"])))
        if a.name and b.name and ("symid" in a.attrs or "symid" in b.attrs):
            k = tuple(sorted((a.name, b.name)))
            return SB(bsym("same_%s_%s" % k))
        return False
    try:
        return bool(a == b)
    except Exception:
        raise Stuck("equality")


def contains(it, a, b):
    if isinstance(b, dict):
        return a in b
    if isinstance(b, str):
        return a in b
    r = FALSE
    for x in it.aslist(b):
        q = equal(it, a, x)
        q = Bo(q) if isinstance(q, bool) else q.b
        r = Or(r, q)
    return mkb(r)


def fmt(it, s, v):
    if it.ctx.opts.get("text"):
        return text.fmt(it, s, v)
    vs = v if isinstance(v, tuple) else (v,)
    n = 0
    i = 0
    while i < len(s):
        if s[i] == "%":
            if i + 1 < len(s) and s[i + 1] == "%":
                i += 2
                continue
            n += 1
        i += 1
    if isinstance(v, tuple) and n != len(v) or (not isinstance(v, tuple) and n != 1):
        if not isinstance(v, dict):
            raise PyRaise("TypeError", "format arguments")
    if all(isinstance(x, (int, str)) for x in vs):
        try:
            return s % v
        except Exception as e:
            raise PyRaise("TypeError", str(e))
    if it.ctx.opts.get("text"):
        return text.fmt(it, s, v)
    return "<formatted %s>" % s


# ---------------------------------------------------------------- indexing
def norm_index(it, i, n, check=True):
    """integer index -> non-negative E, with bounds obligation"""
    e = num(i)
    c = e.const()
    p = it.ctx.prover
    if c is not None:
        if c < 0:
            e = n + e
            if check:
                it.ctx.oblige("index within bounds line %s" % getattr(it, "line", "?"), cmp_(">=", e, 0), kind="bounds")
            return e
        if check:
            g = cmp_("<", e, n)
            if g.op != "T":
                if p.entails(Not(g)):
                    raise PyRaise("IndexError", "index out of range")
                it.ctx.oblige("index within bounds line %s" % getattr(it, "line", "?"), g, kind="bounds")
        return e
    if it.ctx.opts.get("nonneg_index"):
        it.ctx.oblige("index non-negative line %s" % getattr(it, "line", "?"), cmp_(">=", e, 0), kind="bounds")
        it.ctx.oblige("index within bounds line %s" % getattr(it, "line", "?"), cmp_("<", e, n), kind="bounds")
        return e
    if p.entails(cmp_(">=", e, 0)):
        pass
    elif p.entails(cmp_("<", e, 0)):
        e = n + e
        it.ctx.oblige("index within bounds line %s" % getattr(it, "line", "?"), cmp_(">=", e, 0), kind="bounds")
        return e
    else:
        if not it.ctx.branch(cmp_(">=", e, 0), "index sign"):
            e = n + e
            it.ctx.oblige("index within bounds line %s" % getattr(it, "line", "?"), cmp_(">=", e, 0), kind="bounds")
            return e
    it.ctx.oblige("index within bounds line %s" % getattr(it, "line", "?"), cmp_("<", e, n), kind="bounds")
    return e


def clampE(it, x, n):
    """slice bound -> E in [0,n]"""
    e = num(x)
    c = e.const()
    p = it.ctx.prover
    if c is not None and c < 0:
        e2 = n + e
        if p.entails(cmp_(">=", e2, 0)):
            return e2
        return ite(cmp_(">=", e2, 0), e2, ZERO)
    if c is None and not p.entails(cmp_(">=", e, 0)):
        if p.entails(cmp_("<", e, 0)):
            e = n + e
        else:
            if it.ctx.branch(cmp_(">=", e, 0), "slice bound sign"):
                pass
            else:
                e = n + e
                if p.entails(cmp_(">=", e, 0)):
                    return e
                return ite(cmp_(">=", e, 0), e, ZERO)
    if c == 0:
        return e
    if p.entails(cmp_("<=", e, n)):
        return e
    if p.entails(cmp_(">=", e, n)):
        return n
    return ite(cmp_("<=", e, n), e, n)


def slice_info(it, s, n):
    """(start, step, length)"""
    st = 1 if s.st is None else s.st
    if isinstance(st, SV):
        return slice_symstep(it, s, n)
    if st > 0:
        lo = ZERO if s.lo is None else clampE(it, s.lo, n)
        hi = n if s.hi is None else clampE(it, s.hi, n)
        ln = hi - lo
        p = it.ctx.prover
        if not p.entails(cmp_(">=", ln, 0)):
            ln = ite(cmp_(">=", ln, 0), ln, ZERO)
        if st != 1:
            ln = efloor((ln + (st - 1)) / st)
        return lo, st, ln
    if st == -1:
        if s.lo is None and s.hi is None:
            return n - 1, -1, n
        lo = n - 1 if s.lo is None else clampE(it, s.lo, n - 0)
        hi = C(-1) if s.hi is None else num(s.hi)
        if s.hi is not None and hi.const() is not None and hi.const() < 0:
            hi = n + hi
        ln = lo - hi
        if not it.ctx.prover.entails(cmp_(">=", ln, 0)):
            raise Stuck("reverse slice")
        return lo, -1, ln
    raise Stuck("slice step %s" % st)


def slice_symstep(it, s, n):
    st = num(s.st)
    it.ctx.oblige("slice step positive", cmp_(">", st, 0))
    lo = ZERO if s.lo is None else clampE(it, s.lo, n)
    hi = n if s.hi is None else clampE(it, s.hi, n)
    ln = hi - lo
    if s.hi is not None and not it.ctx.prover.entails(cmp_(">=", ln, 0)):
        ln = ite(cmp_(">=", ln, 0), ln, ZERO)
    ln = efloor((ln + st - 1) / st)
    return lo, st, ln


def getitem(it, o, i):
    if hasattr(o, "nc_getitem"):
        return o.nc_getitem(it, i)
    if isinstance(o, Arr):
        return arr_getitem(it, o, i)
    if isinstance(o, (list, tuple)):
        if isinstance(i, Slice):
            for x in (i.lo, i.hi, i.st):
                if isinstance(x, SV):
                    raise Stuck("symbolic slice of a list")
            return o[slice(i.lo, i.hi, i.st)]
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyRaise("IndexError", "list index out of range")
        if isinstance(i, SV):
            c = i.e.const()
            if c is not None:
                return getitem(it, o, int(c))
            # symbolic index into a concrete list: case split
            for k in range(len(o)):
                if it.ctx.branch(cmp_("==", i.e, k), "list index"):
                    return o[k]
            raise PyRaise("IndexError", "list index")
        raise PyRaise("TypeError", "list index")
    if isinstance(o, dict):
        if isinstance(i, SV):
            c = i.e.const()
            if c is not None and c.denominator == 1:
                i = int(c)
            else:
                raise Stuck("symbolic dict key")
        if i in o:
            return o[i]
        raise PyRaise("KeyError", str(i))
    if isinstance(o, SymList):
        if isinstance(i, Slice):
            lo, st, ln = slice_info(it, i, o.n)
            return SymList(ln, lambda j: o.fn(lo + j * st), None)
        e = norm_index(it, i, o.n)
        return o.fn(e)
    if isinstance(o, str):
        return o[i if not isinstance(i, Slice) else slice(i.lo, i.hi, i.st)]
    if isinstance(o, SymRange):
        return sv(o.lo + num(i) * o.step, "int")
    if isinstance(o, MaskSel):
        raise Stuck("indexing a masked selection")
    if isinstance(o, (int, SV)) or o is None:
        raise PyRaise("TypeError", "not subscriptable")
    if hasattr(o, "items") and isinstance(getattr(o, "items"), list):
        return getitem(it, o.items, i)
    raise Stuck("subscript of %s" % type(o).__name__)


def expand_index(arr, i):
    idx = list(i) if isinstance(i, tuple) else [i]
    nreal = sum(1 for x in idx if x is not None and x is not Ellipsis and not (isinstance(x, Arr) and x.dtype == "bool"))
    nreal += sum(x.ndim for x in idx if isinstance(x, Arr) and x.dtype == "bool")
    if any(x is Ellipsis for x in idx):
        k = [j for j, x in enumerate(idx) if x is Ellipsis][0]
        idx[k:k + 1] = [Slice(None, None, None)] * (arr.ndim - nreal)
    else:
        idx += [Slice(None, None, None)] * (arr.ndim - nreal)
    return idx


def arr_getitem(it, arr, i):
    if isinstance(i, list):
        i = np_array(it, i)
    if isinstance(i, SymList):
        i = np_array(it, i)
    idx = expand_index(arr, i)
    idx = [np_array(it, x) if isinstance(x, (list, SymList)) else x for x in idx]
    if any(isinstance(x, Arr) and x.ndim == 0 for x in idx):
        idx = [SV(x.get(()), "npint") if isinstance(x, Arr) and x.ndim == 0 else x for x in idx]
    if any(isinstance(x, Arr) for x in idx):
        return fancy_get(it, arr, idx)
    axes = list(arr.axes)
    newshape = []
    mapping = {}      # old view axis -> ('fix', e) or ('aff', start, step, newaxis)
    ax = 0
    scalar = True
    for x in idx:
        if x is None:
            newshape.append(ONE)
            continue
        if ax >= arr.ndim:
            raise PyRaise("IndexError", "too many indices")
        n = arr.shape[ax]
        if isinstance(x, Slice):
            lo, st, ln = slice_info(it, x, n)
            mapping[ax] = ("aff", lo, st, len(newshape))
            newshape.append(ln)
        elif isinstance(x, (int, SV)) and not isinstance(x, bool):
            if isinstance(x, SV) and not is_intty(x.ty):
                raise PyRaise("IndexError", "float index")
            mapping[ax] = ("fix", norm_index(it, x, n))
        elif isinstance(x, (MaskSel,)):
            raise Stuck("masked index")
        else:
            raise PyRaise("IndexError", "bad index")
        ax += 1
    out = []
    for a in axes:
        if a[0] == "fix":
            out.append(a)
            continue
        _, st, sp, v = a
        m = mapping[v]
        if m[0] == "fix":
            out.append(("fix", st + m[1] * sp))
        else:
            nsp = sp * m[2]
            out.append(("aff", st + m[1] * sp, nsp, m[3]))
    r = Arr(arr.store, out, newshape)
    if not newshape:
        e = r.get(())
        if isinstance(e, B):
            return mkb(e)
        return SV(e, "npint" if arr.dtype == "int" else "npfloat")
    return r


def fancy_get(it, arr, idx):
    pos = [k for k, x in enumerate(idx) if isinstance(x, Arr)]
    if len(pos) == 1:
        k = pos[0]
        x = idx[k]
        if x.dtype == "bool":
            if x.ndim == arr.ndim and len(idx) == 1:
                return mask_select(it, arr, x)
            raise Stuck("partial boolean mask")
        if any(y is None for y in idx):
            raise Stuck("newaxis with fancy index")
        # real axis number of k
        base = arr_getitem(it, arr, tuple(Slice(None, None, None) if j == k else y for j, y in enumerate(idx)))
        # axis of base that corresponds to k: count slices before
        axk = sum(1 for j, y in enumerate(idx) if j < k and isinstance(y, (Slice,)))
        n = base.shape[axk]
        g = base.snap()
        xi = x.snap()
        if it.ctx.opts.get("definedness", True):
            gi, p = generic(it, x.shape, "f")
            if p.check_unsat([], 500) is not True:
                e = xi(gi)
                it.ctx.oblige("index array within bounds line %s" % getattr(it, "line", "?"), And(cmp_(">=", e, 0), cmp_("<", e, n)), kind="bounds", prover=p)
        shape = base.shape[:axk] + x.shape + base.shape[axk + 1:]
        nx = x.ndim

        def el(ix):
            return g(ix[:axk] + (xi(ix[axk:axk + nx]),) + ix[axk + nx:])
        return mkarr(shape, el, arr.dtype)
    if all(isinstance(x, Arr) and x.dtype != "bool" for x in idx) and len(idx) == arr.ndim:
        shape = broadcast(it, [x.shape for x in idx])
        g = arr.snap()
        xs = [(x.shape, x.snap()) for x in idx]

        def el(ix):
            return g(tuple(f(bidx(s, ix)) for s, f in xs))
        return mkarr(shape, el, arr.dtype)
    raise Stuck("fancy indexing")


def mask_select(it, arr, mask):
    for a, b in zip(arr.shape, mask.shape):
        if not dim_eq(it, a, b):
            it.ctx.oblige("mask shape", cmp_("==", a, b), kind="shape")
    mf = mask.snap()
    gi, p = generic(it, arr.shape)
    probe = mf(gi)
    return MaskSel(arr.shape, mf, arr.snap(), arr.dtype, (probe.key(), tuple(s.key() for s in arr.shape)))


def mask_full(it, m):
    """if the mask is provably everywhere true, the plain array it equals"""
    gi, p = generic(it, m.shape_full)
    if p.check_unsat([], 500) is True or p.entails(m.maskfn(gi)):
        return mkarr(m.shape_full, m.fn, m.dtype)
    return None


def mask_count(it, m):
    """number of selected elements (1-d)"""
    gi, p = generic(it, m.shape_full)
    if p.entails(Not(m.maskfn(gi))):
        return ZERO
    n = ONE
    for s in m.shape_full:
        n = n * s
    if p.entails(m.maskfn(gi)):
        return n
    key = "cnt%d" % (hash(m.mkey) & 0xffffffff)
    c = uf("cnt", [C(abs(hash(m.mkey)) & 0xffffffffffff)], "I", 0)
    (mm, _), = c.num.items()
    cid = mm[0][0]
    it.ctx.prover.assume(cmp_("<=", c, n))
    if ("cnt", cid) not in it.ctx.quant:
        it.ctx.quant[("cnt", cid)] = m
        if len(m.shape_full) == 1:
            it.ctx.counts = getattr(it.ctx, "counts", [])
            it.ctx.counts.append((c, m))
            it.ctx.prover.forall.append(("cnt", lambda at, c=c, m=m: count_inst(at, c, m)))
            it.ctx.prover.cache = {}
            it.ctx.prover.qcache = {}
    return c


def count_inst(at, c, m):
    """instances of: c==0 -> not mask(i);  c==n -> mask(i);  for index terms i in uf atoms"""
    out = []
    n = m.shape_full[0]
    terms = []
    if at.kind == "uf" and len(at.args) >= 1:
        for a in at.args:
            if is_int(a):
                terms.append(a)
    elif at.kind == "var" and at.sort == "I" and "@g" in (at.name or ""):
        terms.append(A2E(at))
    for i in terms:
        inr = And(cmp_(">=", i, 0), cmp_("<", i, n))
        mk = m.maskfn((i,))
        out.append(Or(Not(inr), Not(cmp_("==", c, 0)), Not(mk)))
        out.append(Or(Not(inr), Not(cmp_("==", c, n)), mk))
    return out


def setitem(it, o, i, v):
    if hasattr(o, "nc_setitem"):
        it.mark(o)
        return o.nc_setitem(it, i, v)
    if isinstance(o, list):
        it.mark(o)
        if isinstance(i, SV):
            c = i.e.const()
            if c is None:
                raise Stuck("symbolic list index assignment")
            i = int(c)
        if isinstance(i, Slice):
            o[slice(i.lo, i.hi, i.st)] = it.aslist(v)
            return
        try:
            o[i] = v
        except IndexError:
            raise PyRaise("IndexError")
        return
    if isinstance(o, dict):
        it.mark(o)
        if isinstance(i, SV):
            c = i.e.const()
            if c is not None and c.denominator == 1:
                i = int(c)
            else:
                o["<symbolic>"] = (i, v)
                return
        o[i] = v
        return
    if isinstance(o, Arr):
        return arr_setitem(it, o, i, v)
    if isinstance(o, tuple):
        raise PyRaise("TypeError", "tuple assignment")
    raise Stuck("item assignment on %s" % type(o).__name__)


def arr_setitem(it, arr, i, v):
    st = arr.store
    it.mark(st)
    if isinstance(v, (list, tuple, SymList)):
        v = np_array(it, v)
    if hasattr(v, "nc_binop"):
        raise Stuck("matrix value stored into array")
    idx = expand_index(arr, i) if not isinstance(i, list) else expand_index(arr, np_array(it, i))
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dtype == "bool" and idx[0].ndim == arr.ndim:
        return mask_set(it, arr, idx[0], v)
    if any(isinstance(x, Arr) and x.ndim > 0 for x in idx):
        raise Stuck("fancy assignment")
    if isinstance(v, MaskSel):
        f = mask_full(it, v)
        if f is None:
            raise Stuck("masked selection stored into a slice")
        v = f
    view = arr_getitem_view(it, arr, idx)
    if isinstance(v, Arr):
        vshape, vf = v.shape, v.snap()
        # leading ones of v may be dropped
        while len(vshape) > len(view.shape):
            if vshape[0].const() != 1 and not it.ctx.prover.entails(cmp_("==", vshape[0], 1)):
                raise PyRaise("ValueError", "could not broadcast input array")
            vshape = vshape[1:]
            vf = (lambda f: (lambda ix: f((ZERO,) + ix)))(vf)
        off = len(view.shape) - len(vshape)
        for k, s in enumerate(vshape):
            if s.const() != 1 and not dim_eq(it, s, view.shape[off + k]):
                if it.ctx.prover.entails(cmp_("!=", s, view.shape[off + k])) and not it.ctx.prover.entails(cmp_("==", s, 1)):
                    raise PyRaise("ValueError", "could not broadcast input array")
                it.ctx.oblige("assigned shape agrees line %s" % getattr(it, "line", "?"), cmp_("==", s, view.shape[off + k]), kind="shape")
        val = lambda vi: vf(bidx(vshape, vi)) if vshape else vf(())
    else:
        e = v.b if isinstance(v, SB) else (Bo(v) if isinstance(v, bool) and st.dtype == "bool" else num(v))
        val = lambda vi: e
    if st.dtype == "int" and not is_intty(tyof2(v)):
        # storing a float into an int array truncates
        raise Stuck("float stored into integer array")
    old = st.fn
    oldmemo = st.memo
    full = True
    for k, a in enumerate(view.axes):
        if not (a[0] == "aff" and a[1].is_zero() and a[2] == 1 and dim_eq(it, view.shape[a[3]], st.shape[k])):
            full = False
    vaxes = list(view.axes)
    vsh = view.shape
    isb = st.dtype == "bool"

    def fn(b):
        cond = TRUE
        vi = [ZERO] * len(vsh)
        for k, a in enumerate(vaxes):
            if a[0] == "fix":
                cond = And(cond, cmp_("==", b[k], a[1]))
            else:
                _, s0, sp, v_ = a
                o_ = b[k] - s0
                if sp == 1:
                    t = o_
                elif sp == -1:
                    t = -o_
                elif isinstance(sp, int):
                    cond = And(cond, cmp_("==", emod(o_, C(sp)), 0))
                    t = o_ / C(sp)
                    if not is_int(t):
                        t = efloor(t)
                else:
                    raise Stuck("write through symbolic stride")
                vi[v_] = t
                if not full:
                    cond = And(cond, cmp_(">=", t, 0), cmp_("<", t, vsh[v_]))
        if cond.op == "F":
            return oldget(b)
        if not full:
            pr = core.PROVER[0]
            if cond.op != "T" and pr is not None:
                if pr.entails(cond, 600):
                    cond = TRUE
                elif pr.entails(Not(cond), 600):
                    return oldget(b)
        nv = val(tuple(vi))
        if cond.op == "T" or full:
            return nv
        ov = oldget(b)
        if isb:
            return Or(And(cond, nv), And(Not(cond), ov))
        return ite(cond, asnum(nv), asnum(ov))

    def oldget(b):
        pr = core.PROVER[0]
        k = (pr.stamp if pr is not None else 0,) + tuple(x.key() for x in b)
        r = oldmemo.get(k)
        if r is None:
            r = old(b)
            oldmemo[k] = r
        return r
    st.set_fn(fn)
    for w in it.ctx.wlog:
        w.events.append((st, view, val))


def arr_getitem_view(it, arr, idx):
    r = arr_getitem_noscalar(it, arr, idx)
    return r


def arr_getitem_noscalar(it, arr, idx):
    axes = list(arr.axes)
    newshape = []
    mapping = {}
    ax = 0
    for x in idx:
        if x is None:
            newshape.append(ONE)
            continue
        n = arr.shape[ax]
        if isinstance(x, Slice):
            lo, st, ln = slice_info(it, x, n)
            mapping[ax] = ("aff", lo, st, len(newshape))
            newshape.append(ln)
        else:
            mapping[ax] = ("fix", norm_index(it, x if not isinstance(x, Arr) else SV(x.get(()), "npint"), n))
        ax += 1
    out = []
    for a in axes:
        if a[0] == "fix":
            out.append(a)
            continue
        _, st, sp, v = a
        m = mapping[v]
        if m[0] == "fix":
            out.append(("fix", st + m[1] * sp))
        else:
            out.append(("aff", st + m[1] * sp, sp * m[2], m[3]))
    return Arr(arr.store, out, newshape)


def mask_set(it, arr, mask, v):
    if not arr.is_owner():
        raise Stuck("masked assignment through a view")
    st = arr.store
    it.mark(st)
    mf = mask.snap()
    old = st.fn
    # mask broadcast shape check
    for k, (a, b) in enumerate(zip(arr.shape, mask.shape)):
        if not dim_eq(it, a, b):
            it.ctx.oblige("mask shape agrees", cmp_("==", a, b), kind="shape")
    if isinstance(v, MaskSel):
        gi, p = generic(it, arr.shape)
        m1, m2 = mf(gi), v.maskfn(gi)
        ok = m1.key() == m2.key() or (p.entails(Implies(m1, m2)) and p.entails(Implies(m2, m1)))
        if not ok:
            raise Stuck("assignment between different masks")
        val = v.fn
    elif isinstance(v, Arr):
        if v.ndim == 0:
            e = v.get(())
            val = lambda ix: e
        else:
            # x[mask] = array needs the array to be a selection; only whole-true masks
            gi, p = generic(it, arr.shape)
            if p.entails(mf(gi)):
                val = v.snap()
            else:
                raise Stuck("array assigned to a mask")
    else:
        e = num(v)
        val = lambda ix: e

    def fn(ix):
        c = mf(ix)
        if c.op == "T":
            return val(ix)
        if c.op == "F":
            return old(ix)
        pr = core.PROVER[0]
        if pr is not None:
            if pr.entails(c, 500):
                return val(ix)
            if pr.entails(Not(c), 500):
                return old(ix)
        return ite(c, asnum(val(ix)), asnum(old(ix)))
    st.set_fn(fn)
    for w in it.ctx.wlog:
        w.events.append((st, None, None))


# ---------------------------------------------------------------- constructors
def toshape(it, s):
    if isinstance(s, (tuple, list)):
        return tuple(num(x) for x in s)
    return (num(s),)


def np_full(val):
    def f(it, args, kw):
        sh = toshape(it, args[0] if args else kw["shape"])
        dt = dtname(args[1] if len(args) > 1 else kw.get("dtype"))
        e = toE(val)
        return mkarr(sh, lambda ix: e if dt != "bool" else Bo(val), dt or "float")
    return f


def dtname(d):
    if d is None:
        return None
    if isinstance(d, TypeV):
        if d.name in ("int", "np.int64", "np.int32", "np.intp"):
            return "int"
        if d.name in ("bool", "np.bool_"):
            return "bool"
        return "float"
    if isinstance(d, str):
        return "int" if d.startswith("int") else "float"
    return "float"


def np_empty(it, args, kw):
    sh = toshape(it, args[0] if args else kw["shape"])
    nm = it.ctx.freshname("undef")
    dt = dtname(args[1] if len(args) > 1 else kw.get("dtype")) or "float"
    return mkarr(sh, lambda ix: uf(nm, ix), dt)


def np_array(it, v, dtype=None):
    if isinstance(v, Arr):
        g = v.snap()
        return mkarr(v.shape, g, v.dtype)
    if isinstance(v, MaskSel):
        return v
    if isinstance(v, (int, SV, SB, Fraction, bool)):
        e = v.b if isinstance(v, SB) else num(v)
        return mkarr((), lambda ix: e, "int" if is_intty(tyof(v)) else "float")
    if hasattr(v, "items") and not isinstance(v, dict):
        v = list(v.items)
    if hasattr(v, "nc_binop"):
        return v.nc_attr(it, "copy").fn(it, [], {})
    if isinstance(v, SymRange):
        lo, st = v.lo, v.step
        return mkarr((v.length(),), lambda ix: lo + ix[0] * st, "int")
    if isinstance(v, range):
        v = list(v)
    if isinstance(v, SymList):
        probe = v.fn(ZERO) if v.n.const() is not None and v.n.const() > 0 else None
        gi = var("sl@g", "I", 0)
        p = it.ctx.prover.copy()
        p.assume(cmp_("<", gi, v.n)); p.assume(cmp_(">=", v.n, 1))
        x = with_prover(p, lambda: v.fn(gi))
        return stack_sym(it, v, x)
    if isinstance(v, (list, tuple)):
        if any(hasattr(x, "nc_binop") for x in v):
            from ncmat import nc_stack
            return nc_stack(it, v)
        if len(v) == 0:
            return mkarr((0,), lambda ix: ZERO, "float")
        items = [np_array(it, x) for x in v]
        if any(isinstance(x, MaskSel) for x in items):
            raise Stuck("array of masked selections")
        sh = items[0].shape
        for x in items[1:]:
            if len(x.shape) != len(sh):
                raise PyRaise("ValueError", "inhomogeneous shape")
            for a, b in zip(sh, x.shape):
                if not dim_eq(it, a, b):
                    it.ctx.oblige("stacked shapes agree", cmp_("==", a, b), kind="shape")
        fs = [x.snap() for x in items]
        dt = "int" if all(x.dtype == "int" for x in items) else ("bool" if all(x.dtype == "bool" for x in items) else "float")
        isb = dt == "bool"

        def el(ix):
            c = ix[0].const()
            if c is not None:
                if not 0 <= c < len(fs):
                    raise Stuck("index of array literal")
                return fs[int(c)](ix[1:])
            r = fs[-1](ix[1:])
            for k in range(len(fs) - 2, -1, -1):
                r = ite(cmp_("==", ix[0], k), asnum(fs[k](ix[1:])), asnum(r))
            return r
        return mkarr((len(fs),) + tuple(sh), el, dt)
    raise Stuck("np.array of %s" % type(v).__name__)


def stack_sym(it, v, x):
    if isinstance(x, (int, SV, SB, bool)):
        isb = isinstance(x, SB)

        def el(ix):
            y = v.fn(ix[0])
            return y.b if isinstance(y, SB) else num(y)
        return mkarr((v.n,), el, "bool" if isb else ("int" if is_intty(tyof(x)) else "float"))
    if isinstance(x, Arr):
        def el(ix):
            return v.fn(ix[0]).get(ix[1:])
        return mkarr((v.n,) + x.shape, el, x.dtype)
    if isinstance(x, (list, tuple)):
        k = len(x)
        xs = [num(y) for y in x]

        def el(ix):
            row = v.fn(ix[0])
            c = ix[1].const()
            if c is not None:
                return num(row[int(c)])
            r = num(row[-1])
            for j in range(len(row) - 2, -1, -1):
                r = ite(cmp_("==", ix[1], j), num(row[j]), r)
            return r
        return mkarr((v.n, C(k)), el, "float")
    if hasattr(x, "nc_binop"):
        from ncmat import nc_stack_sym
        return nc_stack_sym(it, v, x)
    raise Stuck("array of symbolic list of %s" % type(x).__name__)


def np_arange(it, args, kw):
    a = [num(x) for x in args]
    dt = "int" if all(is_intty(tyof(x)) for x in args) else "float"
    if "dtype" in kw:
        dt = dtname(kw["dtype"]) or dt
    if len(a) == 1:
        lo, hi, st = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], ONE
    else:
        lo, hi, st = a
    n = (hi - lo) / st
    c = st.const()
    if c is None:
        it.ctx.oblige("arange step non-zero", Not(cmp_("==", st, 0)))
    if st.const() != 1 or not is_int(n):
        n = -efloor(-n)
    p = it.ctx.prover
    if not p.entails(cmp_(">=", n, 0)):
        if p.entails(cmp_("<=", n, 0)):
            n = ZERO
        else:
            n = ite(cmp_(">=", n, 0), n, ZERO)
    return mkarr((n,), lambda ix: lo + ix[0] * st, dt)


def np_linspace(it, args, kw):
    lo, hi = num(args[0]), num(args[1])
    n = num(args[2]) if len(args) > 2 else num(kw.get("num", 50))
    return mkarr((n,), lambda ix: lo + ix[0] * (hi - lo) / (n - 1), "float")


def np_append(it, args, kw):
    a, b = args[0], args[1]
    ax = args[2] if len(args) > 2 else kw.get("axis")
    return concat(it, [a, b], ax)


def concat(it, parts, ax):
    if any(hasattr(x, "nc_getitem") for x in parts):
        from ncmat import nc_append
        r = parts[0]
        for x in parts[1:]:
            r = nc_append(it, r, x, int(num(ax).const()) if ax is not None else None)
        return r
    parts = [x if isinstance(x, Arr) else np_array(it, x) for x in parts]
    if ax is None:
        parts = [flatten(it, x) for x in parts]
        ax = 0
    if any(isinstance(p, MaskSel) for p in parts):
        raise Stuck("append of masked selection")
    nd = parts[0].ndim
    if isinstance(ax, SV):
        ax = int(ax.e.const())
    if ax < 0:
        ax += nd
    for x in parts:
        if x.ndim != nd:
            raise PyRaise("ValueError", "all the input arrays must have same number of dimensions")
    sh = list(parts[0].shape)
    for x in parts[1:]:
        for k in range(nd):
            if k != ax and not dim_eq(it, sh[k], x.shape[k]):
                if it.ctx.prover.entails(cmp_("!=", sh[k], x.shape[k])):
                    raise PyRaise("ValueError", "array dimensions must match")
                it.ctx.oblige("appended shapes agree line %s" % getattr(it, "line", "?"), cmp_("==", sh[k], x.shape[k]), kind="shape")
        sh[ax] = sh[ax] + x.shape[ax]
    fs = [(x.shape[ax], x.snap()) for x in parts]
    isb = all(x.dtype == "bool" for x in parts)
    dt = "bool" if isb else ("int" if all(x.dtype == "int" for x in parts) else "float")

    def el(ix):
        off = ZERO
        conds = []
        for k, (n, f) in enumerate(fs):
            if k == len(fs) - 1:
                conds.append((TRUE, f, off))
                break
            c = cmp_("<", ix[ax], off + n)
            pr = core.PROVER[0]
            if c.op not in "TF" and pr is not None:
                if pr.entails(c, 500):
                    c = TRUE
                elif pr.entails(Not(c), 500):
                    c = FALSE
            conds.append((c, f, off))
            off = off + n
            if c.op == "T":
                break
        r = None
        for c, f, o in reversed(conds):
            if c.op == "F":
                continue
            v = f(ix[:ax] + (ix[ax] - o,) + ix[ax + 1:])
            if r is None:
                r = v
            elif isb:
                r = Or(And(c, v), And(Not(c), r))
            else:
                r = ite(c, asnum(v), asnum(r))
        return r
    return mkarr(sh, el, dt)


def flatten(it, x):
    if not isinstance(x, Arr):
        x = np_array(it, x)
    if x.ndim == 1:
        g = x.snap()
        return mkarr(x.shape, g, x.dtype)
    if x.ndim == 0:
        e = x.get(())
        return mkarr((1,), lambda ix: e, x.dtype)
    big = [k for k, s in enumerate(x.shape) if s.const() != 1]
    if len(big) <= 1:
        g = x.snap()
        k = big[0] if big else 0
        nd = x.ndim

        def el(ix):
            return g(tuple(ix[0] if j == k else ZERO for j in range(nd)))
        return mkarr((x.shape[k],), el, x.dtype)
    # all dims but the first concrete
    if all(s.const() is not None for s in x.shape[1:]):
        inner = 1
        for s in x.shape[1:]:
            inner *= int(s.const())
        g = x.snap()

        def el(ix):
            e = ix[0]
            c = e.const()
            idx = []
            if c is not None:
                r = int(c)
                for s in reversed(x.shape[1:]):
                    idx.append(C(r % int(s.const())))
                    r //= int(s.const())
                return g((C(r),) + tuple(reversed(idx)))
            r = e
            for s in reversed(x.shape[1:]):
                idx.append(emod(r, s))
                r = efloor(r / s)
            return g((r,) + tuple(reversed(idx)))
        return mkarr((x.shape[0] * inner,), el, x.dtype)
    raise Stuck("flatten of a symbolic multi-dimensional array")


def reshape(it, x, sh):
    sh = [num(s) for s in sh]
    if any(s.const() == -1 for s in sh):
        tot = ONE
        for s in x.shape:
            tot = tot * s
        oth = ONE
        for s in sh:
            if s.const() != -1:
                oth = oth * s
        sh = [tot / oth if s.const() == -1 else s for s in sh]
    src = [k for k, s in enumerate(x.shape) if s.const() != 1]
    dst = [k for k, s in enumerate(sh) if s.const() != 1]
    if len(src) == len(dst):
        for a, b in zip(src, dst):
            if not dim_eq(it, x.shape[a], sh[b]):
                it.ctx.oblige("reshape size", cmp_("==", x.shape[a], sh[b]), kind="shape")
        g = x.snap()
        nd = x.ndim

        def el(ix):
            full = [ZERO] * nd
            for a, b in zip(src, dst):
                full[a] = ix[b]
            return g(tuple(full))
        return mkarr(sh, el, x.dtype)
    if len(dst) == 1:
        f = flatten(it, x)
        return reshape(it, f, sh)
    raise Stuck("reshape")


def transpose(it, x, perm):
    if hasattr(x, "nc_transpose"):
        return x.nc_transpose(it, perm)
    if perm is None or perm == () or perm == (None,):
        perm = tuple(reversed(range(x.ndim)))
    if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
        perm = tuple(perm[0])
    perm = [p if p >= 0 else p + x.ndim for p in perm]
    if sorted(perm) != list(range(x.ndim)):
        raise PyRaise("ValueError", "axes don't match array")
    inv = {p: k for k, p in enumerate(perm)}
    axes = [a if a[0] == "fix" else ("aff", a[1], a[2], inv[a[3]]) for a in x.axes]
    return Arr(x.store, axes, [x.shape[p] for p in perm])


def reduce_sum(it, x, axis=None, keepdims=False):
    if isinstance(x, (list, tuple, SymList)):
        x = np_array(it, x)
    if isinstance(x, (int, SV)):
        return x
    if not isinstance(x, Arr):
        if isinstance(x, MaskSel):
            raise Stuck("sum of masked selection")
        if hasattr(x, "nc_sum"):
            return x.nc_sum(it, axis)
        raise Stuck("sum of %s" % type(x).__name__)
    g = x.snap()
    nd = x.ndim
    if axis is None:
        axes = list(range(nd))
    else:
        axes = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
        axes = [int(num(a).const()) for a in axes]
        axes = [a + nd if a < 0 else a for a in axes]
        for a in axes:
            if a >= nd:
                raise PyRaise("AxisError", "axis")
    keep = [k for k in range(nd) if k not in axes]

    def el(ix):
        def rec(ax, full):
            if not ax:
                return asnum(g(tuple(full)))
            a = ax[0]

            def body(j):
                f2 = list(full)
                f2[a] = j
                return rec(ax[1:], f2)
            n = x.shape[a]
            # make bounds known while building the body
            return esum_ctx(n, body)
        full = [None] * nd
        for k, v in zip(keep, ix):
            full[k] = v
        return rec(axes, full)
    ty = "int" if x.dtype in ("int", "bool") else "float"
    if not keep and not keepdims:
        return SV(el(()), "npint" if ty == "int" else "npfloat")
    if keepdims:
        sh = [ONE if k in axes else x.shape[k] for k in range(nd)]
        return mkarr(sh, lambda ix: el(tuple(ix[k] for k in keep)), ty)
    return mkarr([x.shape[k] for k in keep], el, ty)


def esum_ctx(n, body):
    """esum with 0<=j<n known to the prover while the body is built"""
    pr = core.PROVER[0]

    def b(j):
        if pr is None or j.const() is not None:
            return body(j)
        p = pr.copy()
        p.assume(cmp_("<", j, n))
        p.assume(cmp_(">=", n, 1))
        return with_prover(p, lambda: body(j))
    return esum(n, b)


def quantified(it, x, kind):
    """x.all() / x.any()"""
    if isinstance(x, (bool, SB)):
        return x
    if isinstance(x, (list, tuple)):
        x = np_array(it, x)
    if not isinstance(x, Arr):
        raise Stuck("all/any of %s" % type(x).__name__)
    g = x.snap()
    f = (lambda ix: asb(g(ix))) if kind == "all" else (lambda ix: Not(asb(g(ix))))
    consts = [s.const() for s in x.shape]
    if all(c is not None and c <= 6 for c in consts):
        import itertools
        r = TRUE
        for ix in itertools.product(*[range(int(c)) for c in consts]):
            r = And(r, f(tuple(C(i) for i in ix)))
        return mkb(r if kind == "all" else Not(r))
    gi, p = generic(it, x.shape)
    if with_prover(p, lambda: p.entails(f(gi))):
        return True if kind == "all" else False
    body = f(gi)
    key = "q%x" % (hash((body.key(), tuple(s.key() for s in x.shape))) & 0xffffffffff)
    ctx = it.ctx
    shape = x.shape

    def on(val):
        if val:
            if len(shape) == 1:
                ctx.prover.assume_forall("all", lambda at: all_inst(at, f, shape[0]))
            # keep the exact equalities for rewriting too
            ctx.foralls = getattr(ctx, "foralls", [])
            ctx.foralls.append((shape, f, gi))
        else:
            w = tuple(ctx.fresh("wit", "I", 0) for _ in shape)
            for a, s in zip(w, shape):
                ctx.prover.assume(cmp_("<", a, s))
            ctx.prover.assume(Not(f(w)))
    ctx.quant[key] = (on,)
    b = bsym(key)
    return SB(b if kind == "all" else Not(b))


def all_inst(at, f, n):
    out = []
    terms = []
    if at.kind == "uf":
        for a in at.args:
            if is_int(a):
                terms.append(a)
    elif at.kind == "var" and at.sort == "I" and "@g" in (at.name or ""):
        terms.append(A2E(at))
    for i in terms:
        out.append(Or(Not(And(cmp_(">=", i, 0), cmp_("<", i, n))), f((i,))))
    return out


def extremum(it, x, sign, arg=False, axis=None):
    """max (sign=1) / min (sign=-1), or arg-version, of a 1-d (or whole) array"""
    if isinstance(x, (list, tuple)):
        x = np_array(it, x)
    if isinstance(x, MaskSel):
        raise Stuck("max of masked selection")
    if isinstance(x, (int, SV)):
        return 0 if arg else x
    if axis is not None and x.ndim != 1:
        raise Stuck("max along an axis")
    g = x.snap()
    consts = [s.const() for s in x.shape]
    if x.ndim == 1 and consts[0] is not None and consts[0] <= 4 and not arg:
        es = [g((C(i),)) for i in range(int(consts[0]))]
        r = es[0]
        for e in es[1:]:
            r = ite(cmp_(">=" if sign > 0 else "<=", r, e), r, e)
        return SV(r, "npfloat" if x.dtype == "float" else "npint")
    if x.ndim != 1:
        if arg:
            raise Stuck("argmax of a multi-dimensional array")
    # one witness per extensionally equal array
    d = fdepth(x)
    bvs = tuple(A2E(_mkF(d + k)) for k in range(x.ndim))
    body = g(bvs)
    w = tuple(uf("argext%s%d" % ("p" if sign > 0 else "m", k), [body] + list(x.shape), "I", 0) for k in range(x.ndim))
    for a, s in zip(w, x.shape):
        it.ctx.prover.assume(cmp_("<", a, s))
    if x.ndim == 1:
        n = x.shape[0]
        top = g(w)
        it.ctx.prover.assume_forall("ext", lambda at: all_inst(at, lambda ix: (cmp_("<=", g(ix), top) if sign > 0 else cmp_(">=", g(ix), top)), n))
    if arg:
        return SV(w[0], "npint")
    return SV(g(w), "npfloat" if x.dtype == "float" else "npint")


def _mkF(d):
    return core._mkatom("var", (), ("bvF", d), "I", 0, name="@F%d" % d)


def fdepth(*xs):
    """first free functional-binder depth for the contents of arrays / terms"""
    d = 0
    for x in xs:
        if isinstance(x, Arr):
            e = asnum(x.get(tuple(var("probe%d@g" % k, "I", 0) for k in range(x.ndim))))
        else:
            e = x
        for a in all_atoms(e):
            at = ATOMS[a]
            if at.kind == "var" and at.name.startswith("@F"):
                d = max(d, int(at.name[2:]) + 1)
    return d


def _prune(p, e):
    import smt
    return smt.prune(p, e)


def undiag(e, i, j):
    """lemma det(D^-1 A D) = det A: drop a diagonal similarity by scale factors of balance()"""
    ds = [a for a in core.all_atoms(e) if core.ATOMS[a].kind == "uf" and core.ATOMS[a].name == "balD"]
    for a in ds:
        args = core.ATOMS[a].args
        if args[-1].key() != j.key():
            continue
        mates = [b for b in ds if core.ATOMS[b].args[-1].key() == i.key() and all(x.key() == y.key() for x, y in zip(core.ATOMS[b].args[:-1], args[:-1]))]
        if not mates:
            continue
        f = subst(e, {a: ONE, mates[0]: ONE})
        if (e * A2E(core.ATOMS[mates[0]]) - f * A2E(core.ATOMS[a])).is_zero():
            return undiag(f, i, j)
    return e


def matfun(it, name, x, extra=(), sort="R", pos=None):
    """functional of a square matrix x (2-d Arr), extensional in its entries"""
    g = x.snap()
    i, j = var("probe0@g", "I", 0), var("probe1@g", "I", 0)
    if core.PROVER[0] is not None:
        p = core.PROVER[0].copy()
        p.assume(cmp_("<", i, x.shape[0]))
        p.assume(cmp_("<", j, x.shape[1]))
        e = with_prover(p, lambda: _prune(p, asnum(g((i, j)))))
    else:
        e = asnum(g((i, j)))
    if name in ("lnabsdet", "detsign", "det"):
        e = undiag(e, i, j)
    d = fdepth(e)
    a, b = _mkF(d), _mkF(d + 1)
    body = subst(e, {aid(i): A2E(a), aid(j): A2E(b)})
    core.MATFUNS.add(name)
    return uf(name, [x.shape[0], body, C(d)] + list(extra), sort, pos)


def aid(e):
    (m, _), = e.num.items()
    return m[0][0]


# ---------------------------------------------------------------- elementary functions
def unary(name):
    def exp_(x):
        return eexp(asnum(x))

    def log_(x):
        return elog(asnum(x))

    def sqrt_(x):
        return eroot(asnum(x), 2)

    ck = None
    if name == "exp":
        f = exp_
    elif name == "log":
        f = log_
        ck = lambda x: [] if syn_sign(x) == 1 else [("argument of log is positive", cmp_(">", x, 0))]
    elif name == "log10":
        f = lambda x: elog(asnum(x)) / elog(C(10))
        ck = lambda x: [] if syn_sign(x) == 1 else [("argument of log is positive", cmp_(">", x, 0))]
    elif name == "log2":
        f = lambda x: elog(asnum(x)) / elog(C(2))
        ck = lambda x: [] if syn_sign(x) == 1 else [("argument of log is positive", cmp_(">", x, 0))]
    elif name == "log1p":
        f = lambda x: elog(1 + asnum(x))
        ck = lambda x: [("argument of log is positive", cmp_(">", 1 + x, 0))]
    elif name == "expm1":
        f = lambda x: eexp(asnum(x)) - 1
    elif name == "sqrt":
        f = sqrt_
        ck = lambda x: [] if syn_nonneg(x) else [("argument of sqrt is non-negative", cmp_(">=", x, 0))]
    elif name in ("abs", "fabs"):
        f = lambda x: eabs(asnum(x))
    elif name == "sinh":
        f = lambda x: (eexp(x) - eexp(-x)) / 2
    elif name == "cosh":
        f = lambda x: (eexp(x) + eexp(-x)) / 2
    elif name == "gammaln":
        f = lambda x: elgamma(asnum(x))
        ck = lambda x: [("argument of lgamma is positive", cmp_(">", x, 0))]
    elif name == "sign":
        f = lambda x: ite(cmp_(">", x, 0), ONE, ite(cmp_("<", x, 0), C(-1), ZERO))
    elif name == "square":
        f = lambda x: x * x
    elif name == "negative":
        f = lambda x: -x
    elif name == "reciprocal":
        f = lambda x: ONE / x
        ck = lambda x: [("denominator is non-zero", Not(cmp_("==", x, 0)))]
    elif name == "floor":
        f = lambda x: efloor(x)
    elif name == "ceil":
        f = lambda x: -efloor(-x)
    else:
        raise KeyError(name)

    def call(it, args, kw, npmode=True):
        x = args[0]
        if hasattr(x, "nc_unary"):
            return x.nc_unary(it, name)
        if isinstance(x, (list, tuple, SymList)):
            x = np_array(it, x)
        if isinstance(x, Inf):
            raise Stuck("%s(inf)" % name)
        if isinstance(x, str) or x is None:
            raise PyRaise("TypeError", name)
        t = tyof2(x)
        keepint = name in ("abs", "sign", "square", "negative") and is_intty(t)
        r = elementwise(it, f, [x], "int" if keepint else "float", ck, name)
        if is_arr(r):
            return r
        return sv(r, t if keepint or name == "abs" else "npfloat")
    return call


def math_fn(name):
    base = unary(name)

    def call(it, args, kw):
        x = args[0]
        if isinstance(x, Arr):
            n = ONE
            for s in x.shape:
                n = n * s
            it.ctx.oblige("only size-1 arrays convert to scalars", cmp_("==", n, 1), kind="shape")
            x = SV(x.get((ZERO,) * x.ndim), "npfloat")
        r = base(it, [x], kw)
        return SV(num(r), "float")
    return call


def binary_np(op):
    return lambda it, args, kw: binop(it, op, args[0], args[1])


def cmp_np(op):
    return lambda it, args, kw: compare(it, op, args[0], args[1])


def np_where(it, args, kw):
    if len(args) == 1:
        raise Stuck("np.where with one argument")
    c, a, b = args
    if not is_arr(c):
        raise Stuck("np.where scalar")
    for x in (a, b):
        pass
    return elementwise(it, lambda q, x, y: ite(asb(q), asnum(x), asnum(y)), [c, a, b],
                       "int" if is_intty(tyof2(a)) and is_intty(tyof2(b)) else "float")


def np_maximum(sign):
    def f(it, args, kw):
        a, b = args[:2]
        r = elementwise(it, lambda x, y: (ite(cmp_(">=", x, y), x, y) if sign > 0 else ite(cmp_("<=", x, y), x, y)), [a, b],
                        "int" if is_intty(tyof2(a)) and is_intty(tyof2(b)) else "float")
        return r if is_arr(r) else sv(r, join_ty(tyof2(a), tyof2(b)))
    return f


def np_einsum(it, args, kw):
    spec = args[0].replace(" ", "")
    ops = args[1:]
    if any(hasattr(o, "nc_binop") for o in ops):
        from ncmat import nc_einsum
        return nc_einsum(it, spec, ops)
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    if out is None:
        cnt = {}
        for s in ins:
            for ch in s:
                cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(ch for ch in cnt if cnt[ch] == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyRaise("ValueError", "einsum subscripts")
        for ch, d in zip(s, o.shape):
            if ch in dims:
                if not dim_eq(it, dims[ch], d):
                    it.ctx.oblige("einsum dimensions agree line %s" % getattr(it, "line", "?"), cmp_("==", dims[ch], d), kind="shape")
            else:
                dims[ch] = d
    fs = [o.snap() for o in ops]
    summed = [ch for ch in sorted(dims) if ch not in out]

    def el(ix):
        env = dict(zip(out, ix))

        def rec(rem, env):
            if not rem:
                r = ONE
                for s, f in zip(ins, fs):
                    r = r * asnum(f(tuple(env[ch] for ch in s)))
                return r
            return esum_ctx(dims[rem[0]], lambda j: rec(rem[1:], dict(env, **{rem[0]: j})))
        return rec(summed, env)
    if not out:
        return SV(el(()), "npfloat")
    return mkarr([dims[ch] for ch in out], el, "float")


def np_matmul(it, args, kw):
    a, b = args
    if hasattr(a, "nc_binop") or hasattr(b, "nc_binop"):
        from ncmat import nc_matmul
        return nc_matmul(it, a, b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return binop(it, "Mult", a, b)
    if a.ndim == 3 and b.ndim == 3:
        return np_einsum(it, ["ijk,ikl->ijl", a, b], {})
    if a.ndim == 2 and b.ndim == 2:
        return np_einsum(it, ["ij,jk->ik", a, b], {})
    if a.ndim == 1 and b.ndim == 1:
        return np_einsum(it, ["i,i->", a, b], {})
    if a.ndim == 2 and b.ndim == 1:
        return np_einsum(it, ["ij,j->i", a, b], {})
    raise Stuck("matmul")


def np_trace(it, args, kw):
    x = args[0]
    a1 = kw.get("axis1", args[2] if len(args) > 2 else 0)
    a2 = kw.get("axis2", args[3] if len(args) > 3 else 1)
    if hasattr(x, "nc_trace"):
        return x.nc_trace(it, a1, a2)
    if not isinstance(x, Arr):
        x = np_array(it, x)
    nd = x.ndim
    a1, a2 = a1 % nd, a2 % nd
    g = x.snap()
    n = x.shape[a1]
    if not dim_eq(it, n, x.shape[a2]):
        it.ctx.oblige("trace of a square matrix", cmp_("==", n, x.shape[a2]), kind="shape")
    keep = [k for k in range(nd) if k not in (a1, a2)]

    def el(ix):
        def body(j):
            full = [None] * nd
            full[a1] = full[a2] = j
            for k, v in zip(keep, ix):
                full[k] = v
            return asnum(g(tuple(full)))
        return esum_ctx(n, body)
    if not keep:
        return SV(el(()), "npfloat")
    return mkarr([x.shape[k] for k in keep], el, "float")


def np_eye(it, args, kw):
    n = num(args[0])
    if it.ctx.opts.get("nc"):
        from ncmat import nc_eye
        return nc_eye(it, n)
    return mkarr((n, n), lambda ix: ite(cmp_("==", ix[0], ix[1]), ONE, ZERO), "float")


def np_gradient(it, args, kw):
    f = args[0]
    h = num(args[1]) if len(args) > 1 else ONE
    g = f.snap()
    n = f.shape[0]
    it.ctx.oblige("gradient needs at least two points", cmp_(">=", n, 2))

    def el(ix):
        i = ix[0]
        pr = core.PROVER[0]
        alts = [(cmp_("==", i, 0), lambda: (g((ONE,)) - g((ZERO,))) / h), (cmp_("==", i, n - 1), lambda: (g((n - 1,)) - g((n - 2,))) / h),
                (TRUE, lambda: (g((i + 1,)) - g((i - 1,))) / (2 * h))]
        out = []
        for c, v in alts:
            if c.op == "F" or (c.op != "T" and pr is not None and pr.entails(Not(c), 800)):
                continue
            sure = c.op == "T" or (pr is not None and pr.entails(c, 800))
            out.append((c, v()))
            if sure:
                break
        r = out[-1][1]
        for c, v in reversed(out[:-1]):
            r = ite(c, v, r)
        return r
    return mkarr((n,), el, "float")


def np_slogdet(it, args, kw):
    x = args[0]
    if hasattr(x, "nc_slogdet"):
        return x.nc_slogdet(it)
    if x.ndim == 2:
        return (SV(matfun(it, "detsign", x), "npfloat"), SV(matfun(it, "lnabsdet", x), "npfloat"))
    if x.ndim == 3:
        g = x.snap()
        sh = x.shape

        def part(name):
            def el(ix):
                sub = mkarr(sh[1:], lambda jx: g((ix[0],) + jx))
                return matfun(it, name, sub)
            return el
        return (mkarr(sh[:1], part("detsign")), mkarr(sh[:1], part("lnabsdet")))
    raise Stuck("slogdet ndim")


def np_det(it, args, kw):
    x = args[0]
    if x.ndim == 2:
        return SV(matfun(it, "det", x), "npfloat")
    raise Stuck("det ndim")


def np_inv(it, args, kw):
    x = args[0]
    if hasattr(x, "nc_inv"):
        return x.nc_inv(it)
    if x.ndim == 2:
        return mkarr(x.shape, lambda ix: matfun(it, "inv", x, ix), "float")
    if x.ndim == 3:
        g = x.snap()

        def el(ix):
            sub = mkarr(x.shape[1:], lambda jx: g((ix[0],) + jx))
            return matfun(it, "inv", sub, ix[1:])
        return mkarr(x.shape, el, "float")
    raise Stuck("inv ndim")


class OGrid:
    pass


def ne_evaluate(it, args, kw):
    env = kw.get("__env__")
    s = args[0]
    d = args[1] if len(args) > 1 else kw.get("local_dict")
    tree = ast.parse(s.strip().replace("\\\n", " ").replace("\n", " "), mode="eval")
    from interp import Env
    fns = {k: Native(unary(k), k) for k in ("exp", "log", "sqrt", "abs", "sinh", "cosh", "log10", "expm1", "log1p")}
    fns["where"] = Native(np_where, "where")

    class E2(Env):
        pass
    if d is None:
        e = Env({}, env, env.glob)
    else:
        e = Env(dict(d), None, {})
    for k, v in fns.items():
        if not e.has(k):
            e.vars[k] = v
    return it.ev(tree.body, e)


def quad(it, args, kw):
    """integral of a lambda over [a,b] as a canonical functional, linear in the integrand"""
    f, a, b = args[:3]
    if "weight" in kw:
        raise Stuck("weighted quadrature")
    x = it.ctx.fresh("quadvar", "R", None)
    xid = aid(x)
    lo = num(a) if not isinstance(a, Inf) else var("inf", "R", 1)
    hi = num(b) if not isinstance(b, Inf) else var("inf", "R", 1)
    p = it.ctx.prover
    p.assume(cmp_(">", x, lo))
    if not isinstance(b, Inf):
        p.assume(cmp_("<", x, hi))
    extra = kw.get("args", args[3] if len(args) > 3 else ())
    if isinstance(extra, tuple):
        fargs = [SV(x, "float")] + list(extra)
    else:
        fargs = [SV(x, "float"), extra]
    v = it.call(f, fargs)
    if isinstance(v, Arr):
        v = SV(v.get((ZERO,) * v.ndim), "npfloat")
    body = num(v)
    r = integral(lo, hi, body, xid)
    return (SV(r, "float"), SV(it.ctx.fresh("quaderr", "R", 0), "float"))


def integral(lo, hi, body, xid):
    out = ZERO
    dout = tuple((pk, k) for pk, k in body.den if not core._dep_pk(pk, xid))
    din = tuple((pk, k) for pk, k in body.den if core._dep_pk(pk, xid))
    for m, cf in body.num.items():
        mo = tuple(t for t in m if not depends(t[0], xid))
        mi = tuple(t for t in m if depends(t[0], xid))
        inner = E({mi: F1}, din)
        d = fdepth(inner)
        bv = core._mkatom("var", (), ("bvF", d), "R", 0, name="@F%d" % d) if False else core._mkatom("var", (), ("bvFR", d), "R", 1, name="@F%d" % d)
        inner = subst(inner, {xid: A2E(bv)})
        out = out + emul(E({mo: cf}, dout), uf("integral", [lo, hi, inner]))
    return out


# ---------------------------------------------------------------- attributes of values
def attr(it, o, k):
    if isinstance(o, Arr):
        if k == "shape":
            return tuple(sv(s, "int") for s in o.shape)
        if k == "ndim":
            return o.ndim
        if k == "size":
            n = ONE
            for s in o.shape:
                n = n * s
            return sv(n, "int")
        if k == "T":
            return transpose(it, o, None)
        if k == "dtype":
            return TypeV({"int": "np.int64", "float": "np.float64", "bool": "np.bool_"}[o.dtype])
        m = ARR_METHODS.get(k)
        if m is not None:
            return Native(lambda i, a, kw: m(i, [o] + a, kw), k)
        if k == "flat":
            return flatten(it, o)
        raise Stuck("ndarray.%s" % k)
    if isinstance(o, MaskSel):
        if k == "shape":
            return (sv(mask_count(it, o), "int"),)
        if k == "size":
            return sv(mask_count(it, o), "int")
        if k == "copy":
            return Native(lambda i, a, kw: o)
        if k == "any":
            return Native(lambda i, a, kw: _st("mask.any"))
        raise Stuck("masked.%s" % k)
    if hasattr(o, "nc_attr"):
        return o.nc_attr(it, k)
    if isinstance(o, list):
        m = LIST_METHODS.get(k)
        if m:
            return Native(lambda i, a, kw: m(i, o, a, kw), k)
    if isinstance(o, dict):
        m = DICT_METHODS.get(k)
        if m:
            return Native(lambda i, a, kw: m(i, o, a, kw), k)
    if isinstance(o, text.Txt):
        return o.txt_attr(it, k)
    if isinstance(o, str):
        return Native(lambda i, a, kw: str_method(i, o, k, a, kw), k)
    if isinstance(o, tuple):
        if k == "index":
            return Native(lambda i, a, kw: o.index(a[0]))
        if k == "count":
            return Native(lambda i, a, kw: o.count(a[0]))
    if isinstance(o, (SV, int)):
        if k == "shape":
            if isinstance(o, SV) and o.ty.startswith("np"):
                return ()
            raise PyRaise("AttributeError", "shape")
        if isinstance(o, SV) and o.ty.startswith("np"):
            if k == "copy":
                return Native(lambda i, a, kw: o)
            if k in ("sum", "max", "min", "item"):
                return Native(lambda i, a, kw: o)
            if k in ("all", "any"):
                return Native(lambda i, a, kw: mkb(Not(cmp_("==", o.e, 0))))
            if k == "dtype":
                return TypeV("np.float64")
        raise PyRaise("AttributeError", k)
    if isinstance(o, (SB, bool)):
        if k in ("all", "any"):
            return Native(lambda i, a, kw: o)
        raise PyRaise("AttributeError", k)
    if isinstance(o, SymList):
        if k == "copy":
            return Native(lambda i, a, kw: SymList(o.n, o.fn, o.name))
        if k == "pop":
            def pop(i, a, kw):
                pos = num(a[0]).const() if a else -1
                if pos not in (0, -1):
                    raise Stuck("pop from the middle of a symbolic list")
                if not i.ctx.branch(cmp_(">=", o.n, 1), "pop"):
                    raise PyRaise("IndexError", "pop from empty list")
                i.mark(o)
                n0, f0 = o.n, o.fn
                o.n = n0 - 1
                if pos == 0:
                    o.fn = lambda j: f0(j + 1)
                    return f0(ZERO)
                return f0(n0 - 1)
            return Native(pop)
        if k == "append":
            def app(i, a, kw):
                i.mark(o)
                n0, f0, x = o.n, o.fn, a[0]
                o.n = n0 + 1

                def fn(j):
                    d = j - n0
                    if d.is_zero():
                        return x
                    if i.ctx.prover.entails(cmp_("<", j, n0)):
                        return f0(j)
                    if isinstance(x, (SV, int)):
                        return SV(ite(cmp_("<", j, n0), num(f0(j)), num(x)), "float")
                    raise Stuck("symbolic list append")
                o.fn = fn
            return Native(app)
        raise Stuck("list.%s on symbolic list" % k)
    if isinstance(o, Func):
        if k == "__name__":
            return o.name
    if isinstance(o, TypeV):
        if k == "__name__":
            return o.name
    if o is None:
        raise PyRaise("AttributeError", "NoneType.%s" % k)
    if isinstance(o, TypeV) and o.name == "str" and hasattr(str, k):
        def strm(it_, a, kw, k=k):
            if all(isinstance(x, (str, int)) for x in a) and not kw:
                return getattr(str, k)(*a)
            raise Stuck("str.%s" % k)
        return Native(strm, "str." + k)
    raise Stuck("attribute %s of %s" % (k, type(o).__name__))


def _st(m):
    raise Stuck(m)


def copy_arr(it, args, kw):
    o = args[0]
    g = o.snap()
    return mkarr(o.shape, g, o.dtype)


def astype(it, args, kw):
    o = args[0]
    d = dtname(args[1] if len(args) > 1 else kw.get("dtype"))
    g = o.snap()
    if d == "int" and o.dtype == "float":
        return elementwise(it, trunc, [o], "int")
    if d in ("int", "float") and o.dtype == "bool":
        return mkarr(o.shape, lambda ix: asnum(g(ix)), d)
    return mkarr(o.shape, g, d)


def trunc(x):
    if known_nonneg(x):
        return efloor(x)
    if is_int(x):
        return x
    return ite(cmp_(">=", x, 0), efloor(x), -efloor(-x))


ARR_METHODS = {
    "copy": copy_arr,
    "sum": lambda it, a, kw: reduce_sum(it, a[0], kw.get("axis", a[1] if len(a) > 1 else None), kw.get("keepdims", False)),
    "all": lambda it, a, kw: quantified(it, a[0], "all"),
    "any": lambda it, a, kw: quantified(it, a[0], "any"),
    "max": lambda it, a, kw: extremum(it, a[0], 1, False, kw.get("axis", a[1] if len(a) > 1 else None)),
    "min": lambda it, a, kw: extremum(it, a[0], -1, False, kw.get("axis", a[1] if len(a) > 1 else None)),
    "argmax": lambda it, a, kw: extremum(it, a[0], 1, True, kw.get("axis", a[1] if len(a) > 1 else None)),
    "argmin": lambda it, a, kw: extremum(it, a[0], -1, True, kw.get("axis", a[1] if len(a) > 1 else None)),
    "flatten": lambda it, a, kw: flatten(it, a[0]),
    "ravel": lambda it, a, kw: flatten(it, a[0]),
    "reshape": lambda it, a, kw: reshape(it, a[0], a[1] if len(a) == 2 and isinstance(a[1], (tuple, list)) else a[1:]),
    "transpose": lambda it, a, kw: transpose(it, a[0], tuple(a[1:])),
    "astype": astype,
    "squeeze": lambda it, a, kw: squeeze(it, a[0], kw.get("axis", a[1] if len(a) > 1 else None)),
    "item": lambda it, a, kw: SV(a[0].get((ZERO,) * a[0].ndim), "float"),
    "fill": lambda it, a, kw: setitem(it, a[0], Ellipsis, a[1]),
    "dot": np_matmul,
    "tolist": lambda it, a, kw: it.aslist(a[0]),
    "trace": np_trace,
}


def squeeze(it, x, axis=None):
    keep = [k for k, s in enumerate(x.shape) if s.const() != 1 or (axis is not None and k != axis % x.ndim)]
    return reshape_axes(it, x, keep)


def reshape_axes(it, x, keep):
    idx = tuple(Slice(None, None, None) if k in keep else 0 for k in range(x.ndim))
    return arr_getitem(it, x, idx)


def list_sort(it, o, a, kw):
    it.mark(o)
    if "key" in kw or "reverse" in kw:
        raise Stuck("sort with key")
    # insertion sort with symbolic comparisons
    out = []
    for x in o:
        k = len(out)
        while k > 0:
            c = compare(it, "Lt", x, out[k - 1])
            if it.truth(c, "sort"):
                k -= 1
            else:
                break
        out.insert(k, x)
    o[:] = out


def _lpop(it, o, a, kw):
    it.mark(o)
    try:
        return o.pop(*a)
    except IndexError:
        raise PyRaise("IndexError", "pop")


LIST_METHODS = {
    "append": lambda it, o, a, kw: (it.mark(o), o.append(a[0]))[1],
    "extend": lambda it, o, a, kw: (it.mark(o), o.extend(it.aslist(a[0])))[1],
    "pop": _lpop,
    "insert": lambda it, o, a, kw: (it.mark(o), o.insert(a[0], a[1]))[1],
    "copy": lambda it, o, a, kw: list(o),
    "sort": list_sort,
    "reverse": lambda it, o, a, kw: (it.mark(o), o.reverse())[1],
    "index": lambda it, o, a, kw: o.index(a[0]),
    "count": lambda it, o, a, kw: o.count(a[0]),
    "clear": lambda it, o, a, kw: (it.mark(o), o.clear())[1],
    "remove": lambda it, o, a, kw: (it.mark(o), o.remove(a[0]))[1],
}


def _dget(it, o, a, kw):
    return o.get(a[0], a[1] if len(a) > 1 else None)


DICT_METHODS = {
    "get": _dget,
    "keys": lambda it, o, a, kw: list(o.keys()),
    "values": lambda it, o, a, kw: list(o.values()),
    "items": lambda it, o, a, kw: [tuple(x) for x in o.items()],
    "update": lambda it, o, a, kw: (it.mark(o), o.update(*a, **kw))[1],
    "copy": lambda it, o, a, kw: dict(o),
    "pop": lambda it, o, a, kw: (it.mark(o), o.pop(*a))[1],
    "setdefault": lambda it, o, a, kw: (it.mark(o), o.setdefault(*a))[1],
    "clear": lambda it, o, a, kw: (it.mark(o), o.clear())[1],
}


def str_method(it, o, k, a, kw):
    if k == "format":
        if it.ctx.opts.get("text"):
            raise Stuck("str.format")
        return "<formatted>"
    if k == "join" and isinstance(a[0], text.Words):
        return a[0].join(o)
    if k == "join" and it.ctx.opts.get("text"):
        out = []
        for n, x in enumerate(it.aslist(a[0])):
            out += [o if n else "", x]
        return text.lit(text.Txt(out))
    if k == "join":
        return o.join(x if isinstance(x, str) else "?" for x in it.aslist(a[0]))
    if k in ("strip", "split", "lower", "upper", "startswith", "endswith", "replace", "isdigit", "rstrip", "lstrip"):
        return getattr(o, k)(*a)
    raise Stuck("str.%s" % k)


# ---------------------------------------------------------------- builtins
def b_len(it, a, kw):
    x = a[0]
    if isinstance(x, (list, tuple, dict, str, set)):
        return len(x)
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise PyRaise("TypeError", "len of unsized")
        return sv(x.shape[0], "int")
    if isinstance(x, MaskSel):
        return sv(mask_count(it, x), "int")
    if isinstance(x, SymList):
        return sv(x.n, "int")
    if isinstance(x, SymRange):
        return sv(x.length(), "int")
    if isinstance(x, range):
        return len(x)
    if hasattr(x, "nc_len"):
        return x.nc_len(it)
    if hasattr(x, "count") and hasattr(x, "nonempty"):
        return x.count(it)
    if isinstance(x, (int, SV)) or x is None:
        raise PyRaise("TypeError", "object has no len()")
    raise Stuck("len of %s" % type(x).__name__)


def b_range(it, a, kw):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    for x in a:
        if isinstance(x, SV) and not is_intty(x.ty):
            raise PyRaise("TypeError", "float range")
    es = [num(x) for x in a]
    if len(es) == 1:
        return SymRange(ZERO, es[0], 1)
    if len(es) == 2:
        return SymRange(es[0], es[1], 1)
    lo, hi, st = es
    c = st.const()
    if c is not None and c in (1, -1):
        return SymRange(lo, hi, int(c))
    up = it.truth(SB(cmp_(">", st, 0)), "range step")
    if not up and it.truth(SB(cmp_("==", st, 0)), "range step"):
        raise PyRaise("ValueError", "range() arg 3 must not be zero")
    # the number of terms n: the smallest n >= 0 with lo + n*step past hi
    n = it.ctx.fresh("nrange", "I", 0)
    d, s = (hi - lo, st) if up else (lo - hi, -st)
    it.ctx.prover.assume(cmp_(">=", n * s, d))
    it.ctx.prover.assume(Or(cmp_("==", n, 0), cmp_("<", (n - 1) * s, d)))
    return SymRange(lo, hi, int(c) if c is not None else st, n)


def b_extreme(sign):
    def f(it, a, kw):
        if "key" in kw or "default" in kw:
            raise Stuck("max with key")
        if len(a) == 1:
            x = a[0]
            if isinstance(x, Arr):
                return extremum(it, x, sign)
            if isinstance(x, SymList):
                return symlist_extreme(it, x, sign)
            if hasattr(x, "extreme"):
                return x.extreme(it, sign)
            xs = it.aslist(x)
            if not xs:
                raise PyRaise("ValueError", "max() arg is an empty sequence")
        else:
            xs = a
        if any(isinstance(x, Inf) for x in xs):
            raise Stuck("max with inf")
        if all(isinstance(x, int) for x in xs):
            return max(xs) if sign > 0 else min(xs)
        if all(isinstance(x, str) for x in xs):
            return max(xs) if sign > 0 else min(xs)
        r = xs[0]
        for y in xs[1:]:
            c = cmp_(">=" if sign > 0 else "<=", num(r), num(y))
            p = it.ctx.prover
            if c.op == "T" or p.entails(c):
                continue
            if c.op == "F" or p.entails(Not(c)):
                r = y
                continue
            ty = join_ty(tyof(r), tyof(y))
            if it.ctx.opts.get("branch_extreme") and not is_intty(ty):
                r = sv(num(r if it.ctx.branch(c, "max" if sign > 0 else "min") else y), ty)
                continue
            r = sv(ite(c, num(r), num(y)), ty)
        return r
    return f


def symlist_extreme(it, x, sign):
    """min/max over a symbolic list of scalars, possibly empty"""
    if it.ctx.branch(cmp_("<=", x.n, 0), "empty sequence"):
        raise PyRaise("ValueError", "min() arg is an empty sequence")
    arr = np_array(it, x)
    return extremum(it, arr, sign)


def b_abs(it, a, kw):
    if isinstance(a[0], int):
        return abs(a[0])
    return unary("abs")(it, a, kw)


def b_int(it, a, kw):
    x = a[0] if a else 0
    if isinstance(x, text.Txt):
        return x.number(it, "int")
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise PyRaise("ValueError", "int")
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, (list, tuple, dict)) or x is None:
        raise PyRaise("TypeError", "int")
    if isinstance(x, Arr):
        n = ONE
        for s in x.shape:
            n = n * s
        it.ctx.oblige("only size-1 arrays convert to scalars", cmp_("==", n, 1))
        return sv(trunc(x.get((ZERO,) * x.ndim)), "int")
    if isinstance(x, Inf):
        raise PyRaise("OverflowError")
    e = num(x)
    if is_int(e):
        return sv(e, "int")
    if it.ctx.prover.entails(cmp_(">=", e, 0)):
        return sv(efloor(e), "int")
    if it.ctx.prover.entails(cmp_("<", e, 0)):
        return sv(-efloor(-e), "int")
    return sv(ite(cmp_(">=", e, 0), efloor(e), -efloor(-e)), "int")


def b_float(it, a, kw):
    x = a[0]
    if isinstance(x, text.Txt):
        return x.number(it, "float")
    if isinstance(x, str):
        try:
            v = float(x)
        except ValueError:
            raise PyRaise("ValueError", "float")
        if v != v or v in (float("inf"), float("-inf")):
            return Inf(1 if v > 0 else -1)
        return SV(C(Fraction(repr(v))), "float")
    if isinstance(x, (list, tuple)) or x is None:
        raise PyRaise("TypeError", "float")
    if isinstance(x, Inf):
        return x
    if isinstance(x, Arr):
        return SV(x.get((ZERO,) * x.ndim), "float")
    return SV(num(x), "float")


def b_round(it, a, kw):
    e = num(a[0])
    if len(a) > 1:
        raise Stuck("round with digits")
    c = e.const()
    if c is not None:
        return int(round(c))
    if is_int(e):
        return sv(e, "int")
    r = uf("round", [e], "I")
    it.ctx.prover.assume(cmp_("<=", r - e, Fraction(1, 2)))
    it.ctx.prover.assume(cmp_("<=", e - r, Fraction(1, 2)))
    return sv(r, "int")


def b_type(it, a, kw):
    return type_of(a[0])


def type_of(x):
    if isinstance(x, text.Txt):
        return TypeV("str")
    if isinstance(x, bool) or isinstance(x, SB):
        return TypeV("bool")
    if isinstance(x, int):
        return TypeV("int")
    if isinstance(x, SV):
        return TypeV({"int": "int", "float": "float", "npint": "np.int64", "npfloat": "np.float64"}[x.ty])
    if isinstance(x, (Arr, MaskSel)) or hasattr(x, "nc_binop"):
        return TypeV("np.ndarray")
    if isinstance(x, SymList):
        return TypeV("tuple" if x.name and x.name.startswith("tuple") else "list")
    if isinstance(x, list):
        return TypeV("list")
    if isinstance(x, tuple):
        return TypeV("tuple")
    if isinstance(x, str):
        return TypeV("str")
    if isinstance(x, dict):
        return TypeV("dict")
    if x is None:
        return TypeV("NoneType")
    if isinstance(x, Obj):
        return x.cls if x.cls is not None else TypeV("object")
    if isinstance(x, Inf):
        return TypeV("float")
    if isinstance(x, (Func, Native, Bound)):
        return TypeV("function")
    raise Stuck("type of %s" % type(x).__name__)


SUBT = {"np.float64": ("np.float64", "float", "np.floating", "np.number", "object"), "bool": ("bool", "int", "object", "Number"),
        "int": ("int", "object", "Number", "numbers.Integral"), "np.int64": ("np.int64", "np.integer", "np.number", "object"),
        "float": ("float", "object", "Number")}


def b_isinstance(it, a, kw):
    x, t = a
    if isinstance(t, tuple):
        r = False
        for q in t:
            r = r or b_isinstance(it, [x, q], {})
        return r
    tx = type_of(x)
    if isinstance(t, Cls):
        return isinstance(tx, Cls) and tx.isub(t)
    if isinstance(t, TypeV):
        if isinstance(tx, Cls):
            return t.name == "object"
        return t.name in SUBT.get(tx.name, (tx.name, "object"))
    raise Stuck("isinstance")


def b_sum(it, a, kw):
    x = a[0]
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    if hasattr(x, "total"):
        return binop(it, "Add", start, x.total(it))
    if isinstance(x, Arr):
        return binop(it, "Add", start, reduce_sum(it, x, 0))
    if isinstance(x, SymList):
        return binop(it, "Add", start, reduce_sum(it, np_array(it, x), 0))
    r = start
    for y in it.aslist(x):
        r = binop(it, "Add", r, y)
    return r


def b_zip(it, a, kw):
    try:
        ls = [it.aslist(x) for x in a]
        return [tuple(t) for t in zip(*ls)]
    except Stuck:
        pass
    seqs = [as_symseq(it, x) for x in a]
    n = seqs[0].n
    for s in seqs[1:]:
        if not dim_eq(it, n, s.n):
            raise Stuck("zip of different lengths")
    return SymList(n, lambda j: tuple(s.fn(j) for s in seqs))


def as_symseq(it, x):
    """SymList view of an iterable of symbolic length"""
    if isinstance(x, SymList):
        return x
    if isinstance(x, SymRange):
        return SymList(x.length(), lambda j: sv(x.lo + j * x.step, "int"))
    if isinstance(x, Arr):
        return SymList(x.shape[0], lambda j: arr_getitem(it, x, SV(j, "int")))
    if isinstance(x, (list, tuple)):
        return SymList(len(x), lambda j: getitem(it, list(x), sv(j, "int")))
    raise Stuck("not a sequence: %s" % type(x).__name__)


def b_enumerate(it, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    try:
        return [(binop(it, "Add", start, k), x) for k, x in enumerate(it.aslist(a[0]))]
    except Stuck:
        s = as_symseq(it, a[0])
        return SymList(s.n, lambda j: (sv(j + num(start), "int"), s.fn(j)))


def b_map(it, a, kw):
    f = a[0]
    if len(a) > 2:
        return [it.call(f, list(t)) for t in zip(*[it.aslist(x) for x in a[1:]])]
    try:
        return [it.call(f, [x]) for x in it.aslist(a[1])]
    except Stuck:
        s = as_symseq(it, a[1])
        return SymList(s.n, lambda j: it.call(f, [s.fn(j)]))


def b_filter(it, a, kw):
    out = []
    for x in it.aslist(a[1]):
        if it.truth(it.call(a[0], [x])):
            out.append(x)
    return out


def b_list(it, a, kw):
    if not a:
        return []
    if isinstance(a[0], SymList):
        return SymList(a[0].n, a[0].fn, None)
    try:
        return it.aslist(a[0])
    except Stuck:
        s = as_symseq(it, a[0])
        return SymList(s.n, s.fn)


def b_sorted(it, a, kw):
    rev = kw.pop("reverse", False)
    l = list(it.aslist(a[0]))
    list_sort(it, l, [], kw)
    if rev:
        l.reverse()
    return l


def b_str(it, a, kw):
    x = a[0] if a else ""
    if isinstance(x, (str, int)):
        return str(x)
    if it.ctx.opts.get("text"):
        return text.piece(it, x)
    return "<str>"


def b_allany(kind):
    def f(it, a, kw):
        x = a[0]
        if isinstance(x, Arr):
            return quantified(it, x, kind)
        if isinstance(x, SymList):
            return quantified(it, np_array(it, x), kind)
        for y in it.aslist(x):
            t = it.truth(y, kind)
            if kind == "all" and not t:
                return False
            if kind == "any" and t:
                return True
        return kind == "all"
    return f


def b_reversed(it, a, kw):
    x = a[0]
    if isinstance(x, SymRange):
        return SymRange(x.lo + (x.length() - 1) * x.step, x.lo - x.step, -x.step, x.n)
    try:
        return list(reversed(it.aslist(x)))
    except Stuck:
        s = as_symseq(it, x)
        return SymList(s.n, lambda j: s.fn(s.n - 1 - j))


def b_getattr(it, a, kw):
    try:
        return it.getattr(a[0], a[1])
    except PyRaise as p:
        if p.kind == "AttributeError" and len(a) > 2:
            return a[2]
        raise


def b_hasattr(it, a, kw):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise:
        return False


def b_pow(it, a, kw):
    return binop(it, "Pow", a[0], a[1])


def b_divmod(it, a, kw):
    return (binop(it, "FloorDiv", a[0], a[1]), binop(it, "Mod", a[0], a[1]))


def b_eval(it, a, kw):
    env = kw.get("__env__")
    s = a[0]
    if isinstance(s, text.Txt) and it.ctx.opts.get("eval"):
        return it.ctx.opts["eval"](it, s, env)
    if not isinstance(s, str) or s.startswith("<"):
        raise Stuck("eval of a symbolic string")
    return it.ev(ast.parse(s.strip(), mode="eval").body, env)


def b_print(it, a, kw):
    return None


def call_type(it, t, args, kw):
    n = t.name
    if n == "int" or n.startswith("np.int"):
        return b_int(it, args, kw)
    if n == "float" or n.startswith("np.float"):
        return b_float(it, args, kw)
    if n == "list":
        return b_list(it, args, kw)
    if n == "tuple":
        r = b_list(it, args, kw)
        return tuple(r) if isinstance(r, list) else r
    if n == "dict":
        d = dict(args[0]) if args else {}
        d.update(kw)
        return d
    if n == "str":
        return b_str(it, args, kw)
    if n == "bool":
        x = args[0]
        return x if isinstance(x, (bool, SB)) else it.truth(x)
    if n == "set":
        return set(it.aslist(args[0])) if args else set()
    if n == "np.ndarray":
        return np_empty(it, args, kw)
    raise Stuck("call of type %s" % n)


def make_builtins(it):
    N = lambda f, n="": Native(f, n)
    d = {
        "len": N(b_len), "range": N(b_range), "xrange": None, "max": N(b_extreme(1)), "min": N(b_extreme(-1)), "abs": N(b_abs),
        "int": TypeV("int"), "float": TypeV("float"), "list": TypeV("list"), "tuple": TypeV("tuple"), "dict": TypeV("dict"),
        "str": TypeV("str"), "bool": TypeV("bool"), "set": TypeV("set"), "object": TypeV("object"), "type": N(b_type),
        "isinstance": N(b_isinstance), "sum": N(b_sum), "zip": N(b_zip), "enumerate": N(b_enumerate), "map": N(b_map),
        "filter": N(b_filter), "sorted": N(b_sorted), "round": N(b_round), "print": N(b_print), "any": N(b_allany("any")),
        "all": N(b_allany("all")), "reversed": N(b_reversed), "getattr": N(b_getattr), "hasattr": N(b_hasattr), "pow": N(b_pow),
        "eval": N(b_eval, "eval"), "divmod": N(b_divmod), "callable": N(lambda i, a, k: isinstance(a[0], (Func, Bound, Native, Cls))),
        "NotImplemented": None, "True": True, "False": False, "None": None, "__debug__": True,
        "repr": N(b_str), "iter": N(lambda i, a, k: a[0]), "id": N(lambda i, a, k: id(a[0])),
    }
    for n in ("Exception", "ValueError", "TypeError", "IndexError", "KeyError", "AttributeError", "NotImplementedError", "AssertionError",
              "ZeroDivisionError", "RuntimeError", "ImportError", "NameError", "OverflowError"):
        d[n] = TypeV(n)
    del d["xrange"]
    return d


# ---------------------------------------------------------------- modules
def np_shape(it, a, kw):
    x = a[0]
    if isinstance(x, Arr) or hasattr(x, "nc_binop"):
        return attr(it, x, "shape") if isinstance(x, Arr) else x.nc_attr(it, "shape")
    if isinstance(x, (int, SV)) or x is None:
        return ()
    return attr(it, np_array(it, x), "shape")


def like(f):
    def g(it, a, kw):
        x = a[0]
        if hasattr(x, "nc_like"):
            return x.nc_like(it)
        sh = tuple(sv(s, "int") for s in x.shape)
        r = f(it, [sh], {})
        if x.dtype == "int" and "dtype" not in kw:
            r.store.dtype = "int"
        return r
    return g


def np_expand(it, a, kw):
    x, ax = a[0], a[1] if len(a) > 1 else kw["axis"]
    if ax < 0:
        ax += x.ndim + 1
    return arr_getitem(it, x, tuple([Slice(None, None, None)] * ax + [None]))


def numpy_ns(it):
    N = lambda f, n="": Native(f, n)
    ns = {}
    for k in ("exp", "log", "sqrt", "abs", "sinh", "cosh", "log10", "log2", "sign", "square", "negative", "reciprocal", "floor", "ceil",
              "log1p", "expm1", "fabs"):
        ns[k] = N(unary(k), k)
    ns["absolute"] = ns["abs"]
    ns.update({
        "pi": SV(PI, "float"), "inf": INF, "newaxis": None, "e": SV(eexp(ONE), "float"),
        "array": N(lambda i, a, k: np_array(i, a[0])), "asarray": N(lambda i, a, k: a[0] if isinstance(a[0], Arr) else np_array(i, a[0])),
        "atleast_1d": N(lambda i, a, k: a[0] if isinstance(a[0], Arr) and a[0].ndim else np_array(i, [a[0]])),
        "ones": N(np_full(1)), "zeros": N(np_full(0)), "empty": N(np_empty),
        "ones_like": N(like(np_full(1))), "zeros_like": N(like(np_full(0))), "empty_like": N(like(np_empty)),
        "full": N(lambda i, a, k: binop(i, "Mult", np_full(1)(i, [a[0]], {}), a[1])),
        "arange": N(np_arange), "linspace": N(np_linspace), "append": N(np_append),
        "concatenate": N(lambda i, a, k: concat(i, i.aslist(a[0]), k.get("axis", a[1] if len(a) > 1 else 0))),
        "vstack": N(lambda i, a, k: concat(i, i.aslist(a[0]), 0)), "hstack": N(lambda i, a, k: concat(i, i.aslist(a[0]), 0 if i.aslist(a[0])[0].ndim == 1 else 1)),
        "stack": N(np_stack), "block": N(np_block),
        "shape": N(np_shape), "size": N(lambda i, a, k: attr(i, a[0], "size")), "ndim": N(lambda i, a, k: attr(i, a[0], "ndim")),
        "sum": N(lambda i, a, k: reduce_sum(i, a[0], k.get("axis", a[1] if len(a) > 1 else None), k.get("keepdims", False))),
        "all": N(lambda i, a, k: quantified(i, a[0], "all")), "any": N(lambda i, a, k: quantified(i, a[0], "any")),
        "max": N(lambda i, a, k: extremum(i, a[0], 1, False, k.get("axis"))), "min": N(lambda i, a, k: extremum(i, a[0], -1, False, k.get("axis"))),
        "amax": N(lambda i, a, k: extremum(i, a[0], 1, False, k.get("axis"))), "amin": N(lambda i, a, k: extremum(i, a[0], -1, False, k.get("axis"))),
        "argmax": N(lambda i, a, k: extremum(i, a[0], 1, True, k.get("axis"))), "argmin": N(lambda i, a, k: extremum(i, a[0], -1, True, k.get("axis"))),
        "where": N(np_where), "logical_not": N(lambda i, a, k: logical_not(i, a[0])),
        "logical_and": N(lambda i, a, k: binop(i, "BitAnd", a[0], a[1])), "logical_or": N(lambda i, a, k: binop(i, "BitOr", a[0], a[1])),
        "maximum": N(np_maximum(1)), "minimum": N(np_maximum(-1)),
        "add": N(binary_np("Add")), "subtract": N(binary_np("Sub")), "multiply": N(binary_np("Mult")), "divide": N(binary_np("Div")),
        "true_divide": N(binary_np("Div")), "power": N(binary_np("Pow")), "mod": N(binary_np("Mod")), "float_power": N(binary_np("Pow")),
        "greater": N(cmp_np("Gt")), "less": N(cmp_np("Lt")), "greater_equal": N(cmp_np("GtE")), "less_equal": N(cmp_np("LtE")), "equal": N(cmp_np("Eq")),
        "not_equal": N(cmp_np("NotEq")),
        "einsum": N(np_einsum), "matmul": N(np_matmul), "dot": N(np_matmul), "trace": N(np_trace), "eye": N(np_eye), "identity": N(np_eye),
        "gradient": N(np_gradient), "transpose": N(lambda i, a, k: transpose(i, a[0], tuple(a[1]) if len(a) > 1 else k.get("axes"))),
        "swapaxes": N(lambda i, a, k: swapaxes(i, *a)), "moveaxis": N(lambda i, a, k: moveaxis(i, *a)),
        "reshape": N(lambda i, a, k: reshape(i, a[0], a[1] if isinstance(a[1], (tuple, list)) else (a[1],))),
        "ravel": N(lambda i, a, k: flatten(i, a[0])), "squeeze": N(lambda i, a, k: squeeze(i, a[0], k.get("axis"))),
        "expand_dims": N(np_expand), "copy": N(lambda i, a, k: np_array(i, a[0]) if hasattr(a[0], "nc_binop") else copy_arr(i, a, k)), "diag": N(np_diag), "diagonal": N(np_diag),
        "array_equal": N(lambda i, a, k: np_array_equal(i, a, k)),
        "isscalar": N(lambda i, a, k: isinstance(a[0], (int, SV, Fraction, str))),
        "ndarray": TypeV("np.ndarray"), "int64": TypeV("np.int64"), "float64": TypeV("np.float64"), "int32": TypeV("np.int32"),
        "integer": TypeV("np.integer"), "floating": TypeV("np.floating"), "number": TypeV("np.number"), "bool_": TypeV("np.bool_"),
        "float_": TypeV("np.float64"), "intp": TypeV("np.int64"),
        "ogrid": OGridV(), "__version__": "1.26.4",
        "errstate": N(lambda i, a, k: Obj(None, name="errstate")), "seterr": N(lambda i, a, k: None),
        "broadcast_to": N(lambda i, a, k: binop(i, "Mult", np_full(1)(i, [a[1]], {}), a[0])),
        "isclose": N(lambda i, a, k: _st("isclose")), "cumsum": N(lambda i, a, k: np_cumsum(i, a, k)),
        "flip": N(lambda i, a, k: arr_getitem(i, a[0], Slice(None, None, -1))),
        "prod": N(lambda i, a, k: _st("prod")), "outer": N(lambda i, a, k: np_einsum(i, ["i,j->ij", a[0], a[1]], {})),
        "diff": N(lambda i, a, k: binop(i, "Sub", arr_getitem(i, a[0], Slice(1, None, None)), arr_getitem(i, a[0], Slice(None, -1, None)))),
        "repeat": N(lambda i, a, k: _st("repeat")), "tile": N(lambda i, a, k: _st("tile")), "isnan": N(lambda i, a, k: elementwise(i, lambda x: FALSE, [a[0]], "bool") if is_arr(a[0]) else False),
        "isinf": N(lambda i, a, k: isinstance(a[0], Inf)), "isfinite": N(lambda i, a, k: not isinstance(a[0], Inf)),
    })
    la = Mod("numpy.linalg", {"inv": N(np_inv), "slogdet": N(np_slogdet), "det": N(np_det)})
    ns["linalg"] = la
    return ns


def np_cumsum(it, a, kw):
    x = a[0]
    g = x.snap()
    return mkarr(x.shape, lambda ix: esum_ctx(ix[0] + 1, lambda j: g((j,))), x.dtype)


def np_array_equal(it, a, kw):
    x, y = a
    if x is None or y is None:
        return False
    x = x if isinstance(x, Arr) else np_array(it, x)
    y = y if isinstance(y, Arr) else np_array(it, y)
    if x.ndim != y.ndim:
        return False
    for s, t in zip(x.shape, y.shape):
        if not it.ctx.branch(cmp_("==", s, t), "array_equal shape"):
            return False
    return quantified(it, equal(it, x, y), "all")


def np_diag(it, a, kw):
    x = a[0]
    g = x.snap()
    if x.ndim == 2:
        return mkarr(x.shape[:1], lambda ix: g((ix[0], ix[0])), x.dtype)
    raise Stuck("np.diag")


def swapaxes(it, x, a, b):
    p = list(range(x.ndim))
    a, b = a % x.ndim, b % x.ndim
    p[a], p[b] = p[b], p[a]
    return transpose(it, x, tuple(p))


def moveaxis(it, x, s, d):
    p = list(range(x.ndim))
    s, d = s % x.ndim, d % x.ndim
    p.remove(s)
    p.insert(d, s)
    return transpose(it, x, tuple(p))


def np_stack(it, a, kw):
    ax = kw.get("axis", a[1] if len(a) > 1 else 0)
    if ax == 0:
        return np_array(it, a[0])
    xs = it.aslist(a[0])
    nd = xs[0].ndim
    if ax < 0:
        ax += nd + 1
    return concat(it, [np_expand(it, [x, ax], {}) for x in xs], ax)


def np_block(it, a, kw):
    rows = a[0]
    if isinstance(rows[0], (list, tuple)):
        rs = []
        for r in rows:
            x = r[0]
            for y in r[1:]:
                x = np_append(it, [x, y], {"axis": -1})
            rs.append(x)
        x = rs[0]
        for y in rs[1:]:
            x = np_append(it, [x, y], {"axis": -2})
        return x
    raise Stuck("np.block")


class OGridV:
    def nc_getitem(self, it, i):
        out = []
        nd = len(i)
        for k, s in enumerate(i):
            lo = num(s.lo) if s.lo is not None else ZERO
            n = num(s.hi) - lo
            sh = [ONE] * nd
            sh[k] = n
            out.append(mkarr(sh, lambda ix, k=k, lo=lo: lo + ix[k], "int"))
        return out


def stub_module(it, name):
    N = lambda f, n="": Native(f, n)
    if name == "numpy":
        return Mod("numpy", numpy_ns(it))
    if name == "math":
        ns = {k: N(math_fn(k), k) for k in ("exp", "log", "sqrt", "sinh", "cosh", "log10", "floor", "ceil", "fabs", "log1p", "expm1")}
        ns["lgamma"] = N(math_fn("gammaln"), "lgamma")
        ns["floor"] = N(lambda i, a, k: sv(efloor(num(a[0])), "int"))
        ns["ceil"] = N(lambda i, a, k: sv(-efloor(-num(a[0])), "int"))
        ns["pi"] = SV(PI, "float")
        ns["inf"] = INF
        ns["isclose"] = N(lambda i, a, k: _st("isclose"))
        ns["isinf"] = N(lambda i, a, k: isinstance(a[0], Inf))
        ns["pow"] = N(b_pow)
        return Mod("math", ns)
    if name == "scipy.special":
        return Mod(name, {"gammaln": N(unary("gammaln"), "gammaln"), "loggamma": N(unary("gammaln"))})
    if name == "scipy.integrate":
        return Mod(name, {"quad": N(quad, "quad")})
    if name == "scipy.interpolate":
        return Mod(name, {"interp1d": N(lambda i, a, k: _st("interp1d"))})
    if name == "scipy.optimize":
        return Mod(name, {"curve_fit": N(lambda i, a, k: _st("curve_fit"))})
    if name == "scipy":
        return Mod(name, {"integrate": it.module("scipy.integrate"), "special": it.module("scipy.special")})
    if name == "numexpr":
        return Mod(name, {"evaluate": N(ne_evaluate, "evaluate")})
    if name == "matplotlib":
        return Mod(name, {"pyplot": Mod("matplotlib.pyplot", {})})
    if name == "matplotlib.pyplot":
        return Mod(name, {})
    if name == "distutils.version":
        return Mod(name, {"StrictVersion": N(lambda i, a, k: _version(a[0]))})
    if name in ("numbers",):
        return Mod(name, {"Integral": TypeV("int"), "Number": TypeV("Number")})
    if name == "functools":
        return Mod(name, {"reduce": N(b_reduce)})
    if name == "itertools":
        return Mod(name, {"product": N(lambda i, a, k: [tuple(t) for t in __import__("itertools").product(*[i.aslist(x) for x in a])])})
    if name == "operator":
        return Mod(name, {"add": N(binary_np("Add")), "mul": N(binary_np("Mult"))})
    if name in ("sys", "os", "time", "warnings", "copy", "configparser"):
        if name == "copy":
            return Mod(name, {"copy": N(lambda i, a, k: shallow(a[0])), "deepcopy": N(lambda i, a, k: shallow(a[0]))})
        return Mod(name, {})
    return None


def shallow(x):
    if isinstance(x, list):
        return list(x)
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, Arr):
        return copy_arr(None, [x], {})
    return x


def b_reduce(it, a, kw):
    f, xs = a[0], it.aslist(a[1])
    if len(a) > 2:
        r = a[2]
    else:
        if not xs:
            raise PyRaise("TypeError", "reduce of empty")
        r, xs = xs[0], xs[1:]
    for x in xs:
        r = it.call(f, [r, x])
    return r


def stub_missing(mod, name):
    return Native(lambda i, a, k: _st("%s.%s" % (mod, name)), name)


def mod_attr(it, m, k):
    if m.name == "numpy" and k in ("float", "int", "bool", "object"):
        raise PyRaise("AttributeError", "numpy has no attribute %s" % k)
    if m.name == "scipy":
        return it.module("scipy." + k)
    return None


def _version(s):
    import re
    if not isinstance(s, str):
        raise Stuck("version")
    v = tuple(int(x) for x in re.findall(r"\d+", s)[:3])
    return sum(x * 10 ** (4 * (2 - i)) for i, x in enumerate(v))       # ordered like the version


def extremal(prover, i):
    """definition of every 1-d argmax/argmin occurring in the facts, at index i: body(i) <= body(argmax) and 0 <= argmax < n"""
    seen = set()
    for f in list(prover.facts):
        for a in all_atoms(f):
            at = ATOMS[a]
            if a in seen or at.kind != "uf" or at.name not in ("argextp0", "argextm0") or len(at.args) != 2:
                continue
            seen.add(a)
            body, n = at.args
            fs = [b for b in all_atoms(body) if ATOMS[b].kind == "var" and str(ATOMS[b].name).startswith("@F")]
            inner = set()
            for b in all_atoms(body):
                if ATOMS[b].kind == "uf" and ATOMS[b].name.startswith("argext"):
                    inner |= set(all_atoms(ATOMS[b].args[0]))
            fs = [b for b in fs if b not in inner]
            if len(fs) != 1:
                continue
            top, here = subst(body, {fs[0]: A2E(at)}), subst(body, {fs[0]: i})
            prover.assume(cmp_("<", A2E(at), n))
            prover.assume(Or(Not(And(cmp_(">=", i, 0), cmp_("<", i, n))), cmp_("<=", here, top) if at.name == "argextp0" else cmp_(">=", here, top)))
