from common import *
import ncmat
from ncmat import MVal, NCP


def arr(name, shape):
    return mkarr(shape, lambda ix: uf(name, list(ix)))


def dot(it, ctx):
    N, n, p_, r_ = (var(x, "I", 1) for x in "Nnpr")
    a, b = arr("A", (N, n, p_)), arr("B", (N, p_, r_))
    fa, fb = a.store.fn, b.store.fn
    r = expect_value(it, "returns", invoke(it, it.func("geometry.dot_3d_matrices"), [a, b]))
    if not isinstance(r, Arr) or len(r.shape) != 3:
        return fail(it, "one product per leading index", "%r" % (r,))
    post(it, "one product per leading index", And(cmp_("==", r.shape[0], N), cmp_("==", r.shape[1], n), cmp_("==", r.shape[2], r_)))
    ix, p = idx(it, (N, n, r_))
    w = esum(p_, lambda j: uf("A", [ix[0], ix[1], j]) * uf("B", [ix[0], j, ix[2]]))
    post(it, "product of the matrices of each leading index", npstub.with_prover(p, lambda: cmp_("==", el(it, r, ix), w)), prover=p)
    frame_arr(it, "first argument unchanged", a, fa)
    frame_arr(it, "second argument unchanged", b, fb)


contract("C13", "dot_3d_matrices", ["geometry.dot_3d_matrices"])(dot)


def inv(it, ctx):
    N, n = var("N", "I", 1), var("n", "I", 1)
    a = arr("A", (N, n, n))
    fa = a.store.fn
    r = expect_value(it, "returns", invoke(it, it.func("geometry.inv_3d_matrix"), [a]))
    if not isinstance(r, Arr) or len(r.shape) != 3:
        return fail(it, "one inverse per leading index", "%r" % (r,))
    post(it, "one inverse per leading index", And(cmp_("==", r.shape[0], N), cmp_("==", r.shape[1], n), cmp_("==", r.shape[2], n)))
    ix, p = idx(it, (N, n, n))
    one = mkarr((n, n), lambda jx: uf("A", [ix[0]] + list(jx)))
    w = npstub.with_prover(p, lambda: npstub.matfun(it, "inv", one, ix[1:]))
    post(it, "inverse of the matrix of each leading index", npstub.with_prover(p, lambda: cmp_("==", el(it, r, ix), w)), prover=p)
    frame_arr(it, "argument unchanged", a, fa)


contract("C13", "inv_3d_matrix", ["geometry.inv_3d_matrix"], trust=["numpy.linalg.inv: the inverse"])(inv)


# ---------------------------------------------------------------- block matrices, as words in a free algebra with inverses
def mval(names, n, N):
    return MVal(N, [n] * len(names), [n] * len(names), [[ncmat.atom(x) for x in row] for row in names])


def s_dot(it, args, kw, f):
    if not all(isinstance(x, MVal) for x in args) or len(args) != 2:
        raise Stuck("batched product of something else than matrices")
    for x in args:
        if x.batch is None:
            raise Stuck("batched product of single matrices")
    return ncmat.nc_matmul(it, args[0], args[1])


def s_inv(it, args, kw, f):
    x = args[0] if args else list(kw.values())[0]
    if not isinstance(x, MVal) or x.batch is None:
        raise Stuck("batched inverse of something else than matrices")
    return x.nc_inv(it)


PARTS = {"geometry.dot_3d_matrices": s_dot, "geometry.inv_3d_matrix": s_inv}
FREE = "matrices as words in a free algebra: product associative and distributive, x x^-1 = x^-1 x = 1"


def is_identity(it, m):
    n = len(m.rows)
    return len(m.cols) == n and all((m.blocks[i][j] + (ncmat.ident().scale(-ONE) if i == j else NCP({}))).is_zero() for i in range(n) for j in range(n))


def blockinv(it, ctx):
    N, n = var("N", "I", 1), var("n", "I", 1)
    M = mval((("A11", "A12"), ("A21", "A22")), n, N)
    before = M.nc_key()
    r = expect_value(it, "returns", invoke(it, it.func("geometry.inv_3d_blockmatrix"), [M]))
    if not isinstance(r, MVal) or r.batch is None:
        raise Stuck("result is %r" % (r,))
    if len(r.rows) != 2 or len(r.cols) != 2:
        raise Stuck("block structure of the result")
    post(it, "one inverse per leading index", And(cmp_("==", r.batch, N), *[cmp_("==", x, n) for x in r.rows + r.cols]))
    for nm, prod in (("left inverse", ncmat.nc_matmul(it, r, M)), ("right inverse", ncmat.nc_matmul(it, M, r))):
        (ok(it, nm) if is_identity(it, prod) else fail(it, nm, "product is not the identity"))
    (ok(it, "argument unchanged") if M.nc_key() == before else fail(it, "argument unchanged", "written"))


contract("C13", "inv_3d_blockmatrix", ["geometry.inv_3d_blockmatrix"], summaries=PARTS, trust=[FREE])(blockinv)


def s_blockinv(it, args, kw, f):
    x = args[0] if args else list(kw.values())[0]
    if not isinstance(x, MVal) or x.batch is None or len(x.rows) != 2:
        raise Stuck("inverse of something else than a block matrix")
    return x.nc_inv(it)


def tracedot(it, ctx):
    N, n = var("N", "I", 1), var("n", "I", 1)
    it.ctx.opts["nc_structures"] = [[n, n]]
    A = mval((("A11", "A12"), ("A21", "A22")), n, N)
    B = mval((("B11", "B12"), ("B21", "B22")), n, N)
    ka, kb = A.nc_key(), B.nc_key()
    r = expect_value(it, "returns", invoke(it, it.func("geometry.trace_dot_3d"), [A, B]))
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return fail(it, "one number per leading index", "%r" % (r,))
    post(it, "one number per leading index", cmp_("==", r.shape[0], N))
    one = ncmat.nc_eye(it, 2 * n)
    diff = one.nc_binop(it, "Sub", MVal(N, one.rows, one.cols, one.blocks), A)
    w = ncmat.nc_matmul(it, diff.nc_inv(it), B).nc_trace(it, 1, 2)
    ix, p = idx(it, (N,))
    post(it, "tr[(1 - M1)^-1 M2]", npstub.with_prover(p, lambda: cmp_("==", el(it, r, ix), el(it, w, ix))), prover=p)
    (ok(it, "arguments unchanged") if (A.nc_key(), B.nc_key()) == (ka, kb) else fail(it, "arguments unchanged", "written"))


contract("C13", "trace_dot_3d", ["geometry.trace_dot_3d"], summaries=dict(PARTS, **{"geometry.inv_3d_blockmatrix": s_blockinv}), opts={"nc": True}, trust=[FREE])(tracedot)


# ---------------------------------------------------------------- rejection
def rejects(fn, make):
    def run(it, ctx):
        r = invoke(it, it.func("geometry." + fn), make())
        if isinstance(r, Raised):
            ok(it, "rejected")
        else:
            fail(it, "rejected", "returned %r" % (r,))
    return run


n_, N_ = var("n", "I", 1), var("N", "I", 1)
BAD = {
    ("dot_3d_matrices", "first argument 2d"): lambda: [arr("A", (n_, n_)), arr("B", (N_, n_, n_))],
    ("dot_3d_matrices", "second argument 2d"): lambda: [arr("A", (N_, n_, n_)), arr("B", (n_, n_))],
    ("inv_3d_matrix", "2d"): lambda: [arr("A", (n_, n_))],
    ("inv_3d_blockmatrix", "2d"): lambda: [arr("A", (2 * n_, 2 * n_))],
    ("inv_3d_blockmatrix", "odd size"): lambda: [arr("A", (N_, 2 * n_ + 1, 2 * n_ + 1))],
    ("inv_3d_blockmatrix", "rectangular"): lambda: [arr("A", (N_, 2 * n_, 2 * n_ + 2 * var("q", "I", 1)))],
}
for (fn, what), mk in BAD.items():
    contract("C13", "%s[%s]" % (fn, what), ["geometry." + fn])(rejects(fn, mk))

from c11 import assemble
contract("C13", "matrix_append", ["geometry.matrix_append"])(assemble("matrix_append"))
