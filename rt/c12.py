from gens import *
import signal


def wild(c, n):
    w = c.pick(40, 40, 40, 220)
    s = np.array([2.0 ** c.int(-w, w) if c.p(0.7) else 1.0 for _ in range(n)])
    M = np.array([[c.u(-1, 1) for _ in range(n)] for _ in range(n)])
    M = M * s[:, None] / s[None, :] if c.p(0.6) else M
    if c.p(0.3):
        for _ in range(c.int(1, n * n)):
            M[c.int(0, n - 1), c.int(0, n - 1)] = 0.0
    if c.p(0.1):
        M[c.int(0, n - 1), :] = 0
    if c.p(0.1):
        M = M * 1e-30
    return M


def mpdet(M):
    n = M.shape[0]
    return mp.det(mp.matrix([[mpf(float(M[i, j])) for j in range(n)] for i in range(n)]))


@rt("C12", "balance: exact diagonal similarity", 400, quals=["matrix_balancing.balance"])
def bal(c):
    f = need("matrix_balancing", "balance")
    n = c.int(1, 8)
    M = wild(c, n)
    conv = c.pick(0.95, 0.9, c.u(0.3, 0.99))
    c.note(M=M, conv=conv)
    Bm = np.asarray(call("balance", f, M.copy(), conv))
    check(Bm.shape == M.shape, "shape")
    check(((Bm == 0) == (M == 0)).all(), "zero pattern changed")
    close(np.diag(Bm), np.diag(M), 0, 0, "diagonal")
    # cocycle: log2 |B/M| = d_j - d_i
    R = np.where(M != 0, Bm / np.where(M == 0, 1, M), np.nan)
    check(not (R <= 0).any(), "sign changed")
    lg = np.log2(R)
    check(np.nanmax(np.abs(lg - np.round(lg))) < 1e-9 if np.isfinite(lg).any() else True, "ratio is not a power of two: %s" % R)
    d = [None] * n
    for st in range(n):
        if d[st] is not None:
            continue
        d[st] = 0.0
        todo = [st]
        while todo:
            i = todo.pop()
            for j in range(n):
                for (p, q, sgn) in ((i, j, 1), (j, i, -1)):
                    if M[p, q] != 0:
                        v = d[i] + sgn * lg[p, q]
                        if d[j] is None:
                            d[j] = v
                            todo.append(j)
                        elif abs(d[j] - v) > 1e-6:
                            bad("entry (%d,%d) scaled by %r, not by d_j/d_i" % (p, q, R[p, q]))
    # the default tolerance may be used as well
    B2 = np.asarray(call("balance", f, M.copy()))
    close(np.diag(B2), np.diag(M), 0, 0, "diagonal (default tolerance)")


def lnabsdet(M):
    with mp.workdps(60):
        d = abs(mpdet(M))
        return float(mp.log(d)) if d != 0 else -np.inf


def small(c, n, q):
    sc = c.pick(0.05, 0.3, 0.8, 3.0)
    A = np.array([[[c.u(-sc, sc) for _ in range(n)] for _ in range(n)] for _ in range(q)])
    if c.p(0.6):
        s = np.array([2.0 ** c.int(-20, 20) for _ in range(n)])
        A = A * s[None, :, None] / s[None, None, :]
    return A


def cond_ok(M):
    n = M.shape[0]
    try:
        with mp.workdps(40):
            Mi = mp.matrix([[mpf(float(M[i, j])) for j in range(n)] for i in range(n)]) ** -1
        return all(abs(Mi[i, j] * M[j, i]) < 1e6 for i in range(n) for j in range(n))
    except Exception:
        return False


@rt("C12", "log-determinant routines return ln|det(1-M)|", 200, quals=["geometry.sln_det_3d", "geometry.balanced_slogdet", "geometry.sln_det_blockdiagonal"])
def logdets(c):
    n, q = c.int(1, 4), c.int(1, 3)
    A, D = small(c, n, q), small(c, n, q)
    s = c.pick(1.0, 0.1)
    Bm, Cm = s * small(c, n, q), s * small(c, n, q)
    c.note(A=A, B=Bm, C=Cm, D=D)
    M = np.concatenate([np.concatenate([A, Bm], 2), np.concatenate([Cm, D], 2)], 1)
    E = [np.eye(2 * n) - M[j] for j in range(q)]
    if all(cond_ok(e) for e in E):
        want = np.array([lnabsdet(e) for e in E])
        keep = [x.copy() for x in (A, Bm, Cm, D, M)]
        got = call("sln_det_3d", need("geometry", "sln_det_3d"), A, Bm, Cm, D)
        close(got, want, 1e-8, 1e-8, "sln_det_3d")
        got = call("balanced_slogdet", need("geometry", "balanced_slogdet"), M, c.pick(0.9, 0.5))
        close(got, want, 1e-8, 1e-8, "balanced_slogdet")
        unchanged(keep, [A, Bm, Cm, D, M], "matrix argument")
    e1, e2 = np.eye(n) - A[0], np.eye(n) - D[0]
    if cond_ok(e1) and cond_ok(e2) and (n > 1 or (e1 > 0).all() and (e2 > 0).all()):
        got = call("sln_det_blockdiagonal", need("geometry", "sln_det_blockdiagonal"), A[0], D[0])
        close(np.asarray(got).reshape(()), lnabsdet(e1) + lnabsdet(e2), 1e-8, 1e-8, "sln_det_blockdiagonal")


@rt("C12", "different shapes are rejected", 30, quals=["geometry.sln_det_3d", "geometry.sln_det_blockdiagonal"])
def reject(c):
    n = c.int(1, 3)
    a, b = np.zeros((1, n, n)), np.zeros((1, n + 1, n + 1))
    j = c.int(0, 3)
    args = [a.copy() for _ in range(4)]
    args[j] = b
    c.note(position=j, n=n)
    raises(lambda: need("geometry", "sln_det_3d")(*args), Exception, "sln_det_3d with different shapes")
    raises(lambda: need("geometry", "sln_det_blockdiagonal")(a[0], b[0]), Exception, "sln_det_blockdiagonal with different shapes")
