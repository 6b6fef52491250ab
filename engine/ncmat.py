"""Batches of square block matrices over a free non-commutative algebra.

A value is a block matrix whose blocks are polynomials in named matrices, their symbolic powers and
formal inverses, the same polynomial for every batch index (the leading numpy axis is a spectator).
Products are reduced with the defining rule of each inverse, traces are canonical up to rotation.
"""
from core import *
import core
from vals import *
import npstub

TRACE_POS = [None]  # precondition on traces: 1 positive
INVS = {}          # key of polynomial -> inverse atom name
RULES = {}         # inverse atom name -> (lead atom, coef, rest polynomial)


class NCP:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = {w: c for w, c in t.items() if not c.is_zero()}

    def key(self):
        return frozenset((tuple((a, e.key()) for a, e in w), c.key()) for w, c in self.t.items())

    def __add__(self, o):
        r = dict(self.t)
        for w, c in o.t.items():
            r[w] = r.get(w, ZERO) + c
        return NCP(r)

    def scale(self, c):
        return NCP({w: x * c for w, x in self.t.items()})

    def __mul__(self, o):
        out = NCP({})
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                out = out + reduce_word(join(w1, w2)).scale(c1 * c2)
        return out

    def is_zero(self):
        return not self.t


def join(w1, w2):
    w1, w2 = list(w1), list(w2)
    while w1 and w2 and w1[-1][0] == w2[0][0]:
        a, e = w1.pop()
        e2 = w2.pop(0)[1]
        s = e + e2
        if not s.is_zero():
            w1.append((a, s))
            break
    return tuple(w1 + w2)


def reduce_word(w):
    for p in range(len(w) - 1):
        (a, e), (b, f) = w[p], w[p + 1]
        if b in RULES and RULES[b][0] == a:
            x, i, left = a, b, True
        elif a in RULES and RULES[a][0] == b:
            x, i, left = b, a, False
        else:
            continue
        _, c, rest = RULES[i]
        pre, post = w[:p], w[p + 2:]
        ex = e if left else f
        ei = f if left else e
        if ei.const() is None or ex.const() is None or ei.const() < 1 or ex.const() < 1:
            continue
        # x^ex * i^ei  (x*i = (1 - rest*i)/c)
        one = NCP({(): ONE})
        inv1 = NCP({((i, ONE),): ONE})
        xi = (one + (rest * inv1).scale(-ONE) if left else one + (inv1 * rest).scale(-ONE)).scale(einv(c))
        xr = NCP({(((x, ex - 1),) if not (ex - 1).is_zero() else ()): ONE})
        ir = NCP({(((i, ei - 1),) if not (ei - 1).is_zero() else ()): ONE})
        mid = xr * xi * ir if left else ir * xi * xr
        return NCP({pre: ONE}) * mid * NCP({post: ONE})
    return NCP({w: ONE})


def atom(name):
    return NCP({((name, ONE),): ONE})


def ident():
    return NCP({(): ONE})


def inverse(p, ctx=None):
    k = p.key()
    if k in INVS:
        nm = INVS[k]
    else:
        if set(p.t) == {()}:
            return NCP({(): einv(p.t[()])})
        lead = None
        for w in sorted(p.t, key=lambda w: repr(w)):
            if len(w) == 1 and w[0][1].const() == 1 and w[0][0] not in RULES:
                if all(all(a != w[0][0] for a, _ in w2) for w2 in p.t if w2 != w):
                    lead = w
                    break
        if lead is None:
            raise Stuck("inverse of a matrix polynomial without a leading matrix")
        nm = "inv%d" % len(INVS)
        INVS[k] = nm
        RULES[nm] = (lead[0][0], p.t[lead], NCP({w: c for w, c in p.t.items() if w != lead}))
    if ctx is not None:
        ctx.ncinv = getattr(ctx, "ncinv", {})
        ctx.ncinv[k] = p
    return atom(nm)


def trace_word(w, size, k):
    """trace of a word at batch index k"""
    if not w:
        return size
    w = list(w)
    # merge cyclically
    while len(w) > 1 and w[0][0] == w[-1][0]:
        a, e = w.pop()
        w[0] = (a, w[0][1] + e)
    # cyclic reduction with inverse rules
    if len(w) > 1:
        r = reduce_word((w[-1],) + (w[0],))
        if r.key() != NCP({(w[-1], w[0]): ONE}).key():
            q = r * NCP({tuple(w[1:-1]): ONE}) if len(w) > 2 else r
            return ptrace(q, size, k)
    names = [a for a, _ in w]
    rots = [names[i:] + names[:i] for i in range(len(names))]
    best = min(range(len(w)), key=lambda i: (rots[i], repr([w[(i + j) % len(w)][1].key() for j in range(len(w))])))
    w = w[best:] + w[:best]
    return uf("tr:" + ".".join(a for a, _ in w), [e for _, e in w] + [k], pos=TRACE_POS[0])


def ptrace(p, size, k):
    r = ZERO
    for w, c in p.t.items():
        r = r + c * trace_word(w, size, k)
    return r


class MVal:
    """batch (E or None) of block matrices; at: batch index of a single matrix taken out of a batch"""

    def __init__(self, batch, rows, cols, blocks, at=None):
        self.batch, self.rows, self.cols, self.blocks, self.at = batch, list(rows), list(cols), blocks, at

    def nr(self):
        return sum(self.rows, ZERO)

    def ncl(self):
        return sum(self.cols, ZERO)

    def nc_key(self):
        return (self.batch.key() if self.batch is not None else None, tuple(tuple(b.key() for b in r) for r in self.blocks),
                self.at.key() if self.at is not None else None)

    def with_blocks(self, bl):
        return MVal(self.batch, self.rows, self.cols, bl, self.at)

    def map(self, f):
        return self.with_blocks([[f(b) for b in r] for r in self.blocks])

    def nc_subst(self, mp):
        def s(p):
            out = NCP({})
            for w, c in p.t.items():
                w2 = ()
                for a, e in w:
                    e2 = subst(e, mp)
                    w2 = join(w2, ((a, e2),) if not e2.is_zero() else ())
                out = out + NCP({w2: subst(c, mp)})
            return out
        r = self.map(s)
        if r.at is not None:
            r.at = subst(r.at, mp)
        if r.batch is not None:
            r.batch = subst(r.batch, mp)
        return r

    # ---- numpy interface
    def nc_attr(self, it, k):
        sh = (self.nr(), self.ncl())
        if self.batch is not None:
            sh = (self.batch,) + sh
        if k == "shape":
            return tuple(sv(s, "int") for s in sh)
        if k == "ndim":
            return len(sh)
        if k == "copy":
            return Native(lambda i, a, kw: self.map(lambda b: b))
        if k == "astype":
            return Native(lambda i, a, kw: self.map(lambda b: b))
        if k == "trace":
            return Native(lambda i, a, kw: self.nc_trace(i, kw.get("axis1", 0), kw.get("axis2", 1)))
        if k == "dot":
            return Native(lambda i, a, kw: nc_matmul(i, self, a[0]))
        if k == "dtype":
            return TypeV("float")
        raise Stuck("matrix attribute %s" % k)

    def nc_len(self, it):
        return sv(self.batch if self.batch is not None else self.nr(), "int")

    def nc_getitem(self, it, i):
        if not isinstance(i, tuple):
            i = (i,)
        i = list(i)
        if Ellipsis in i:
            p = i.index(Ellipsis)
            nd = 3 if self.batch is not None else 2
            i[p:p + 1] = [Slice(None, None, None)] * (nd - (len([x for x in i if x is not None]) - 1))
        nd = 3 if self.batch is not None else 2
        if self.batch is None and i and i[0] is None:
            if any(not full(x) for x in i[1:]):
                raise Stuck("matrix index")
            return MVal(ONE, self.rows, self.cols, self.blocks)
        while len(i) < nd:
            i.append(Slice(None, None, None))
        if None in i:
            raise Stuck("matrix newaxis")
        res = self
        if self.batch is not None:
            b = i.pop(0)
            if isinstance(b, (int, SV)):
                e = num(b)
                res = MVal(None, self.rows, self.cols, self.blocks, e)
            elif not full(b):
                raise Stuck("slice of the batch axis")
        rr = pick(it, res.rows, i[0])
        cc = pick(it, res.cols, i[1])
        return MVal(res.batch, [res.rows[k] for k in rr], [res.cols[k] for k in cc], [[res.blocks[r][c] for c in cc] for r in rr], res.at)

    def nc_setitem(self, it, i, v):
        raise Stuck("assignment into a matrix")

    def nc_binop(self, it, op, a, b):
        if op == "MatMult":
            return nc_matmul(it, a, b)
        am, bm = isinstance(a, MVal), isinstance(b, MVal)
        if op in ("Add", "Sub"):
            if am and bm:
                same_sizes(it, a.rows, b.rows)
                same_sizes(it, a.cols, b.cols)
                s = ONE if op == "Add" else -ONE
                bt = batch_of(it, a, b)
                at = a.at if a.at is not None else b.at
                return MVal(bt, a.rows, a.cols, [[x + y.scale(s) for x, y in zip(p, q)] for p, q in zip(a.blocks, b.blocks)], at)
            raise Stuck("matrix plus %s" % type(b if am else a).__name__)
        if op == "Mult" and (am != bm):
            s = num(b if am else a)
            return (a if am else b).map(lambda x: x.scale(s))
        if op == "Div" and am and not bm:
            s = einv(num(b))
            return a.map(lambda x: x.scale(s))
        raise Stuck("matrix %s" % op)

    def nc_unary(self, it, name):
        if name == "negative":
            return self.map(lambda x: x.scale(-ONE))
        raise Stuck("elementwise %s of a matrix" % name)

    def nc_trace(self, it, a1=0, a2=1):
        if self.batch is not None and {a1, a2} not in ({1, 2}, {-1, -2}, {-2, 2}, {-1, 1}):
            raise Stuck("trace axes")
        same_sizes(it, self.rows, self.cols)

        def at(k):
            r = ZERO
            for j in range(len(self.rows)):
                r = r + ptrace(self.blocks[j][j], self.rows[j], k)
            return r
        if self.batch is None:
            return SV(at(self.at if self.at is not None else ZERO), "npfloat")
        return mkarr((self.batch,), lambda ix: at(ix[0]))

    def nc_inv(self, it):
        same_sizes(it, self.rows, self.cols)
        B_ = self.blocks
        if len(self.rows) == 1:
            return self.with_blocks([[inverse(B_[0][0], it.ctx)]])
        if len(self.rows) == 2:
            return self.with_blocks(inv2(B_, it.ctx))
        raise Stuck("inverse of a %d-block matrix" % len(self.rows))

    def nc_like(self, it):
        raise Stuck("empty_like of a matrix")

    def nc_placeholder(self, nm):
        return self.with_blocks([[atom("%s_%d_%d" % (nm, r, c)) for c in range(len(self.cols))] for r in range(len(self.rows))])

    def nc_transpose(self, it, perm):
        raise Stuck("transpose of a matrix")


def inv2(B_, ctx=None):
    iA = inverse(B_[0][0], ctx)
    S = B_[1][1] + (B_[1][0] * iA * B_[0][1]).scale(-ONE)
    iS = inverse(S, ctx)
    f1, f2 = B_[1][0] * iA, iA * B_[0][1]
    return [[iA + f2 * iS * f1, (f2 * iS).scale(-ONE)], [(iS * f1).scale(-ONE), iS]]


def full(x):
    return isinstance(x, Slice) and x.lo in (None, 0) and x.hi is None and x.st in (None, 1)


def pick(it, sizes, s):
    """block numbers selected by a slice whose ends are block boundaries"""
    if full(s):
        return list(range(len(sizes)))
    if not isinstance(s, Slice) or s.st not in (None, 1):
        raise Stuck("matrix row index")
    tot = sum(sizes, ZERO)
    bounds = [ZERO]
    for z in sizes:
        bounds.append(bounds[-1] + z)

    def find(e):
        e = num(e)
        for cand in (e, e + tot):
            for k, b in enumerate(bounds):
                if eq_exact(cand, b) or it.ctx.prover.entails(cmp_("==", cand, b)):
                    if cand is e or it.ctx.prover.entails(cmp_("<", e, 0)):
                        return k
        raise Stuck("slice not at a block boundary")
    lo = 0 if s.lo is None else find(s.lo)
    hi = len(sizes) if s.hi is None else find(s.hi)
    return list(range(lo, hi))


def same_sizes(it, a, b):
    if len(a) != len(b):
        raise Stuck("different block structure")
    for x, y in zip(a, b):
        if not npstub.dim_eq(it, x, y):
            it.ctx.oblige("matrix sizes agree", cmp_("==", x, y), kind="shape")


def batch_of(it, a, b):
    if a.batch is None:
        return b.batch
    if b.batch is None:
        return a.batch
    if b.batch.const() == 1:
        return a.batch
    if a.batch.const() == 1:
        return b.batch
    if not npstub.dim_eq(it, a.batch, b.batch):
        it.ctx.oblige("batch sizes agree", cmp_("==", a.batch, b.batch), kind="shape")
    return a.batch


def nc_matmul(it, a, b):
    if not (isinstance(a, MVal) and isinstance(b, MVal)):
        raise Stuck("product of a matrix and %s" % type(b).__name__)
    same_sizes(it, a.cols, b.rows)
    out = []
    for r in range(len(a.rows)):
        row = []
        for c in range(len(b.cols)):
            s = NCP({})
            for k in range(len(a.cols)):
                s = s + a.blocks[r][k] * b.blocks[k][c]
            row.append(s)
        out.append(row)
    return MVal(batch_of(it, a, b), a.rows, b.cols, out, a.at if a.at is not None else b.at)


def nc_einsum(it, spec, ops):
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    names = {}
    for s in "".join(ins) + out:
        names.setdefault(s, chr(ord("a") + len(names)))
    ren = lambda s: "".join(names[x] for x in s)
    key = ",".join(ren(s) for s in ins) + "->" + ren(out)
    if len(ops) == 2:
        a, b = ops
        if key in ("abc,acd->abd", "ab,bc->ac"):
            return nc_matmul(it, a, b)
        if key in ("abc,adb->adc", "ab,ca->cb"):
            return nc_matmul(it, b, a)
        if key == "abc,acb->a":
            return nc_matmul(it, a, b).nc_trace(it, 1, 2)
    if len(ops) == 1 and key == "abb->a":
        return ops[0].nc_trace(it, 1, 2)
    if len(ops) == 3 and key == "abc,acd,ade->abe":
        return nc_matmul(it, nc_matmul(it, ops[0], ops[1]), ops[2])
    raise Stuck("einsum %s of matrices" % spec)


def nc_append(it, a, b, ax):
    if not (isinstance(a, MVal) and isinstance(b, MVal)) or ax is None:
        raise Stuck("append to a matrix")
    nd = 3 if a.batch is not None else 2
    if ax < 0:
        ax += nd
    if ax == nd - 1:
        same_sizes(it, a.rows, b.rows)
        return MVal(a.batch, a.rows, a.cols + b.cols, [x + y for x, y in zip(a.blocks, b.blocks)], a.at)
    if ax == nd - 2:
        same_sizes(it, a.cols, b.cols)
        return MVal(a.batch, a.rows + b.rows, a.cols, a.blocks + b.blocks, a.at)
    raise Stuck("append along the batch axis")


def nc_stack(it, v):
    raise Stuck("stack of matrices")


def nc_stack_sym(it, v, x):
    g = var("nst@g", "I", 0)
    m = v.fn(g)
    if m.batch is None and m.at is not None and m.at.key() == g.key():
        return MVal(v.n, m.rows, m.cols, m.blocks)
    raise Stuck("stack of matrices")


def nc_eye(it, n):
    """identity; takes the block structure registered for its size"""
    for rows in it.ctx.opts.get("nc_structures", ()):
        if eq_exact(sum(rows, ZERO), n) or it.ctx.prover.entails(cmp_("==", sum(rows, ZERO), n)):
            bl = [[ident() if r == c else NCP({}) for c in range(len(rows))] for r in range(len(rows))]
            return MVal(None, rows, rows, bl)
    raise Stuck("identity matrix of unknown block structure")


def nc_solve(S, k, post, v0):
    """matrix recurrence V' = L V R with constant words L, R"""
    if k not in S.ph:
        return ("temp", lambda T: nsub_state(S, post, T - 1))
    nm = S.ph[k][1]
    if len(post.rows) != 1:
        raise Stuck("block matrix carried through a loop")
    p = post.blocks[0][0]
    me = "%s_0_0" % nm
    if len(p.t) != 1:
        raise Stuck("matrix recurrence")
    (w, c), = p.t.items()
    pos = [i for i, (a, e) in enumerate(w) if a == me]
    if not pos:
        tid = S.tid
        return ("closed", lambda T: v0 if T.is_zero() else post.nc_subst({tid: T - 1}))
    if len(pos) != 1 or w[pos[0]][1].const() != 1 or c.const() != 1:
        raise Stuck("matrix recurrence")
    L, R = w[:pos[0]], w[pos[0] + 1:]
    if len(L) > 1 or len(R) > 1 or any(edepends(e, S.tid) for _, e in L + R):
        raise Stuck("matrix recurrence")

    def at(T):
        l = NCP({tuple((a, e * T) for a, e in L): ONE}) if not T.is_zero() else ident()
        r = NCP({tuple((a, e * T) for a, e in R): ONE}) if not T.is_zero() else ident()
        return v0.with_blocks([[l * v0.blocks[0][0] * r]])
    return ("closed", at)


def nsub_state(S, post, T):
    """temporary matrix: resolved placeholders replaced"""
    out = post
    for k, ph in S.ph.items():
        if ph[0] == "nc":
            s = S.sol.get(k)
            me = "%s_0_0" % ph[1]
            if any(any(a == me for a, _ in w) for w in out.blocks[0][0].t):
                if s is None:
                    raise Stuck("matrix temporary")
                val = s[1](S.t).blocks[0][0]
                acc = NCP({})
                for w, c in out.blocks[0][0].t.items():
                    q = NCP({(): c})
                    for a, e in w:
                        q = q * (val if a == me else NCP({((a, e),): ONE}))
                    acc = acc + q
                out = out.with_blocks([[acc]])
    return out.nc_subst({S.tid: T})


def subst_trace(e, nm, val):
    """traces of words with blocks of the matrix called nm -> traces with the value of that matrix"""
    mp = {}
    for a in all_atoms(e):
        at = ATOMS[a]
        if at.kind == "uf" and at.name[:3] == "tr:" and nm in at.name:
            q = ident()
            for w, x in zip(at.name[3:].split("."), at.args):
                if w.startswith(nm + "_"):
                    r, c = (int(z) for z in w[len(nm) + 1:].split("_"))
                    if x.const() is None:
                        raise Stuck("symbolic power of a matrix carried through a loop")
                    for _ in range(int(x.const())):
                        q = q * val.blocks[r][c]
                else:
                    q = q * NCP({((w, x),): ONE})
            mp[a] = ptrace(q, val.rows[0], at.args[-1])
    return mp
