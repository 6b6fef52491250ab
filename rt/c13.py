from gens import *


def mats(c, q, n, m=None):
    return np.array([[[c.u(-1, 1) for _ in range(m or n)] for _ in range(n)] for _ in range(q)])


@rt("C13", "dot_3d_matrices acts on each leading index", 150, quals=["geometry.dot_3d_matrices"])
def dot(c):
    q, n, p, r = c.int(1, 4), c.int(1, 5), c.int(1, 5), c.int(1, 5)
    a, b = mats(c, q, n, p), mats(c, q, p, r)
    c.note(a=a, b=b)
    k = (a.copy(), b.copy())
    g = call("dot_3d_matrices", need("geometry", "dot_3d_matrices"), a, b)
    close(g, np.array([a[i] @ b[i] for i in range(q)]), 1e-11, 1e-12, "batched product")
    unchanged(k, (a, b), "argument")


@rt("C13", "inv_3d_matrix inverts each matrix", 150, quals=["geometry.inv_3d_matrix"])
def inv(c):
    q, n = c.int(1, 4), c.int(1, 5)
    a = mats(c, q, n) + 3 * np.eye(n) * c.pick(1, -1)
    c.note(a=a)
    k = a.copy()
    g = np.asarray(call("inv_3d_matrix", need("geometry", "inv_3d_matrix"), a))
    check(g.shape == a.shape, "shape")
    for i in range(q):
        close(g[i] @ a[i], np.eye(n), 0, 1e-9, "inverse of matrix %d" % i)
    unchanged(k, a, "argument")


@rt("C13", "inv_3d_blockmatrix inverts the block matrix", 200, quals=["geometry.inv_3d_blockmatrix"])
def invb(c):
    q, n = c.int(1, 3), c.int(1, 5)
    a = mats(c, q, 2 * n)
    a[:, :n, :n] += 3 * np.eye(n) * c.pick(1, -1)
    a[:, n:, n:] += 4 * np.eye(n) * c.pick(1, -1)
    if c.p(0.3):
        a[:, n:, :n] *= c.pick(0, 0.01, 3)
    for i in range(q):          # blocks of single batch elements vanish
        if c.p(0.25):
            a[i, n:, :n] = 0
        if c.p(0.25):
            a[i, :n, n:] = 0
    c.note(a=a)
    for i in range(q):
        S = a[i, n:, n:] - a[i, n:, :n] @ np.linalg.inv(a[i, :n, :n]) @ a[i, :n, n:]
        if np.linalg.cond(a[i]) > 1e5 or np.linalg.cond(S) > 1e5 or np.linalg.cond(a[i, :n, :n]) > 1e5:
            return
    k = a.copy()
    g = np.asarray(call("inv_3d_blockmatrix", need("geometry", "inv_3d_blockmatrix"), a))
    check(g.shape == a.shape, "shape %s" % (g.shape,))
    for i in range(q):
        close(g[i] @ a[i], np.eye(2 * n), 0, 1e-7, "left inverse of matrix %d" % i)
        close(a[i] @ g[i], np.eye(2 * n), 0, 1e-7, "right inverse of matrix %d" % i)
    unchanged(k, a, "argument")


@rt("C13", "trace_dot_3d is tr[(1-M1)^-1 M2]", 150, quals=["geometry.trace_dot_3d"])
def trdot(c):
    q, n = c.int(1, 3), c.int(1, 4)
    a, b = 0.4 * mats(c, q, 2 * n) / n, mats(c, q, 2 * n)
    for i in range(q):
        if c.p(0.25):
            a[i, n:, :n] = 0
        if c.p(0.25):
            a[i, :n, n:] = 0
    c.note(m1=a, m2=b)
    k = (a.copy(), b.copy())
    g = call("trace_dot_3d", need("geometry", "trace_dot_3d"), a, b)
    w = np.array([np.trace(np.linalg.solve(np.eye(2 * n) - a[i], b[i])) for i in range(q)])
    close(g, w, 1e-8, 1e-8, "trace")
    unchanged(k, (a, b), "argument")


@rt("C13", "wrong dimensions are rejected", 30, quals=["geometry.inv_3d_blockmatrix"])
def reject(c):
    n = c.int(1, 4)
    c.note(n=n)
    f = need("geometry", "inv_3d_blockmatrix")
    raises(lambda: f(np.ones((2 * n, 2 * n))), Exception, "inv_3d_blockmatrix of a 2d array")
    raises(lambda: f(np.array([np.eye(2 * n + 1)])), Exception, "inv_3d_blockmatrix of odd size")
    raises(lambda: f(np.ones((1, 2 * n, 2 * n + 2))), Exception, "inv_3d_blockmatrix of a rectangular matrix")
    raises(lambda: need("geometry", "dot_3d_matrices")(np.eye(n), np.array([np.eye(n)])), Exception, "dot_3d_matrices of a 2d array")
    raises(lambda: need("geometry", "dot_3d_matrices")(np.array([np.eye(n)]), np.eye(n)), Exception, "dot_3d_matrices of a 2d array")
    raises(lambda: need("geometry", "inv_3d_matrix")(np.eye(n)), Exception, "inv_3d_matrix of a 2d array")
