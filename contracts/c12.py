"""C12: balancing is a positive diagonal similarity; the log-determinant routines return ln|det(1 - M)|"""
from common import *
import inv
from geo import GEO

SIM = {"invariant": inv.Similarity()}


def balance_contract(default):
    def run(it, ctx):
        n = var("n", "I", 1)
        M = mkarr((n, n), lambda ix: uf("M", list(ix)))
        args = [M] if default else [M, SV(var("conv", "R"), "float")]
        r = expect_value(it, "returns", invoke(it, it.func("matrix_balancing.balance"), args))
        if not isinstance(r, Arr) or len(r.shape) != 2:
            return fail(it, "a matrix", "%r" % (r,))
        for k in (0, 1):
            post(it, "same shape", cmp_("==", r.shape[k], n))
        g = r.snap()
        inv.similar(it, "each entry (i, j) times d(j)/d(i)", (n, n), lambda ix: uf("M", list(ix)), "M", g, it.ctx.prover)
    return run


contract("C12", "balance(M, conv): diagonal similarity", ["matrix_balancing.balance"], opts=SIM)(balance_contract(False))
contract("C12", "balance(M): diagonal similarity", ["matrix_balancing.balance"], opts=SIM)(balance_contract(True))


# ---------------------------------------------------------------- log-determinants
def s_balance(it, args, kw, f):
    """in place: entry (i, j) times d(j)/d(i), d > 0 a function of the matrix and the tolerance"""
    a = dict(zip(("matrix", "conv"), args))
    a.update(kw)
    X = a["matrix"]
    if not isinstance(X, Arr) or len(X.shape) != 2:
        raise Stuck("balance of %r" % (X,))
    it.ctx.oblige("balance: square matrix", cmp_("==", X.shape[0], X.shape[1]), kind="pre")
    conv = num(a["conv"]) if "conv" in a else C(Fraction(95, 100))
    g = X.snap()
    Y = mkarr(X.shape, g)

    def d(j):
        return npstub.matfun(it, "balD", Y, (conv, j), pos=1)
    st = X.store
    new = lambda ix: npstub.asnum(g(ix)) * d(ix[1]) / d(ix[0])
    if any(ax[0] != "aff" or ax[1].const() != 0 or ax[2] != 1 for ax in X.axes) or len(X.axes) != 2 or [ax[3] for ax in X.axes] != [0, 1]:
        # a view: the caller's array changes as well
        npstub.setitem(it, X, (npstub.Slice(None, None, None), npstub.Slice(None, None, None)), mkarr(X.shape, new))
        return X
    it.mark(st)
    st.set_fn(new)
    return X


SUMB = {"matrix_balancing.balance": s_balance}
TB = ["balance: positive diagonal similarity (the contracts above), a function of the matrix and the tolerance", "det(D^-1 A D) = det A", "numpy.linalg.slogdet: sign and logarithm of |det|"]


def lnabsdet(it, n, fn):
    return npstub.matfun(it, "lnabsdet", mkarr((n, n), fn))


def eye(i, j):
    return ite(cmp_("==", i, j), ONE, ZERO)


def slog(name, conv):
    def run(it, ctx):
        N, n = var("N", "I", 1), var("n", "I", 1)
        kw = {"conv": SV(var("conv", "R"), "float")} if conv else {}
        if name == "balanced_slogdet":
            ins = [mkarr((N, n, n), lambda ix: uf("M", list(ix)))]
            w, M = n, lambda k: (lambda ix: uf("M", [k] + list(ix)))
        else:
            ins = [mkarr((N, n, n), lambda ix, b=b: uf(b, list(ix))) for b in ("A", "B", "C", "D")]

            def M(k):
                def fn(ix):
                    i, j = ix
                    top = ite(cmp_("<", j, n), uf("A", [k, i, j]), uf("B", [k, i, j - n]))
                    bot = ite(cmp_("<", j, n), uf("C", [k, i - n, j]), uf("D", [k, i - n, j - n]))
                    return ite(cmp_("<", i, n), top, bot)
                return fn
            w = 2 * n
        fns = [x.store.fn for x in ins]
        r = expect_value(it, "returns", invoke(it, it.func("geometry." + name), ins, kw))
        if not isinstance(r, Arr) or len(r.shape) != 1:
            return fail(it, "one number per wavenumber", "%r" % (r,))
        post(it, "one number per wavenumber", cmp_("==", r.shape[0], N))
        ix, p = idx(it, (N,))

        def goal():
            m = M(ix[0])
            return cmp_("==", el(it, r, ix), lnabsdet(it, w, lambda jx: eye(*jx) - m(jx)))
        post(it, "ln|det(1 - M)|", npstub.with_prover(p, goal), prover=p)
        for x, f in zip(ins, fns):
            frame_arr(it, "argument unchanged", x, f)
    return run


for _n in ("balanced_slogdet", "sln_det_3d"):
    for _c in (False, True):
        contract("C12", "%s%s" % (_n, " with tolerance" if _c else ""), ["geometry." + _n], summaries=SUMB, trust=TB)(slog(_n, _c))


def blockdiag(conv, one):
    def run(it, ctx):
        n = ONE if one else 1 + var("n1", "I", 1)
        ins = [mkarr((n, n), lambda ix, b=b: uf(b, list(ix))) for b in ("A", "B")]
        fns = [x.store.fn for x in ins]
        kw = {"conv": SV(var("conv", "R"), "float")} if conv else {}
        if one:
            for b, g in zip(("A", "B"), one):
                it.ctx.prover.assume(cmp_(">", g * (1 - uf(b, [ZERO, ZERO])), ZERO))
        r = expect_value(it, "returns", invoke(it, it.func("geometry.sln_det_blockdiagonal"), ins, kw))
        if one:
            if isinstance(r, Arr):
                for s in r.shape:
                    post(it, "a single number", cmp_("==", s, ONE))
                v = el(it, r, (ZERO,) * len(r.shape))
            else:
                v = num(r)
            post(it, "ln|det(1 - A)| + ln|det(1 - B)|", cmp_("==", v, elog(one[0] * (1 - uf("A", [ZERO, ZERO]))) + elog(one[1] * (1 - uf("B", [ZERO, ZERO])))))
        else:
            if isinstance(r, Arr) and len(r.shape):
                return fail(it, "a single number", "%r" % (r,))
            v = num(r) if not isinstance(r, Arr) else el(it, r, ())
            w = [lnabsdet(it, n, lambda jx, b=b: eye(*jx) - uf(b, list(jx))) for b in ("A", "B")]
            post(it, "ln|det(1 - A)| + ln|det(1 - B)|", cmp_("==", v, w[0] + w[1]))
        for x, f in zip(ins, fns):
            frame_arr(it, "argument unchanged", x, f)
    return run


SGN = {(1, 1): "both below 1", (1, -1): "second above 1", (-1, 1): "first above 1", (-1, -1): "both above 1"}
for _c in (False, True):
    for _o in [None] + list(SGN):
        contract("C12", "sln_det_blockdiagonal%s%s" % (", 1x1, " + SGN[_o] if _o else "", " with tolerance" if _c else ""), ["geometry.sln_det_blockdiagonal"],
                 summaries=SUMB, trust=TB)(blockdiag(_c, _o))


def reject(name, pos, axis):
    def run(it, ctx):
        N, n, k = var("N", "I", 1), var("n", "I", 1), var("k", "I", 1)
        three = name == "sln_det_3d"
        names = ("A", "B", "C", "D") if three else ("A", "B")
        it.ctx.prover.assume(Not(cmp_("==", k, N if axis == 0 and three else n)))
        ins = []
        for q, b in enumerate(names):
            sh = [N, n, n] if three else [n, n]
            if q == pos:
                if three and axis == 0:
                    sh[0] = k
                else:
                    sh[-2:] = [k, k]
            ins.append(mkarr(tuple(sh), lambda ix, b=b: uf(b, list(ix))))
        r = invoke(it, it.func("geometry." + name), ins)
        if isinstance(r, Raised):
            ok(it, "rejected")
        else:
            fail(it, "rejected", "returned %r" % (r,))
    return run


for _q in range(4):
    for _a in (0, 1):
        contract("C12", "sln_det_3d: block %d of another shape (axis %d)" % (_q, _a), ["geometry.sln_det_3d"], summaries=SUMB, trust=TB)(reject("sln_det_3d", _q, _a))
for _q in range(2):
    contract("C12", "sln_det_blockdiagonal: block %d of another shape" % _q, ["geometry.sln_det_blockdiagonal"], summaries=SUMB, trust=TB)(reject("sln_det_blockdiagonal", _q, 1))
