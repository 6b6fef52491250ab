"""C21: a job file is turned into exactly the calculation it describes"""
from job import *
from common import *

Q = ["worker.assign_radius", "worker.return_geometry", "worker.do_calculation", "worker"]


def same(it, name, got, want):
    if isinstance(want, SV):
        if not isinstance(got, (SV, int)) or isinstance(got, bool):
            return fail(it, name, "%r instead of %r" % (got, want))
        if want.ty == "int" and tyof(got) != "int":
            return fail(it, name, "%r instead of an integer" % (got,))
        return post(it, name, cmp_("==", num(got), want.e))
    if isinstance(want, Txt):
        if isinstance(got, Txt) and got.key() == want.key():
            return ok(it, name)
        return fail(it, name, "%r instead of %r" % (got, want))
    if isinstance(want, SymList):
        if isinstance(got, SymList) and not (got.name or "").startswith("tuple"):
            post(it, name + ": number of layers", cmp_("==", got.n, want.n))
            ix, p = idx(it, (want.n,))
            return post(it, name, npstub.with_prover(p, lambda: cmp_("==", num(got.fn(ix[0])), num(want.fn(ix[0])))), prover=p)
        return fail(it, name, "%r instead of a list" % (got,))
    if isinstance(want, tuple):
        if type(got) is list and len(got) == len(want) and all(x is y for x, y in zip(got, want)):
            return ok(it, name)
        return fail(it, name, "%r instead of a list of %d materials" % (got, len(want)))
    if isinstance(want, (str, int, bool)):
        if type(got) is type(want) and got == want:
            return ok(it, name)
        return fail(it, name, "%r instead of %r" % (got, want))
    if got is want:
        return ok(it, name)
    return fail(it, name, "%r instead of %r" % (got, want))


def run(free, distance, fixed=None):
    def go(it, ctx):
        J = Job(it, free, distance, fixed)
        if not J.run():
            return
        if len(J.geoms) != 1 or len(J.fins) != 1:
            return fail(it, "one geometry, one calculation", "%d, %d" % (len(J.geoms), len(J.fins)))
        (G, g), (F, f) = J.geoms[0], J.fins[0]
        setting = lambda sec, opt: J.num(sec, opt, J.what(sec, opt)) if J.what(sec, opt) in ("int", "float") else J.what(sec, opt)
        for k, opt in (("r1", "ra"), ("r2", "rb")):
            w = SymList(J.n_list(opt), lambda j, opt=opt: SV(uf("cfg:" + opt, [toE(j)]), "float")) if J.what("geometry", opt) == "list" else setting("geometry", opt)
            same(it, "radius of sphere %s" % k[1], g.get(k), w)
        same(it, "distance", g.get("L"), SV(var("arg:distance"), "float") if J.override else setting("geometry", "d"))
        for k, opt in (("mat1", "mata"), ("mat2", "matb"), ("mat3", "matmd")):
            same(it, "material " + k, g.get(k), J.material(opt))
        for k in ("lmax", "lssmax", "precision"):
            same(it, k, g.get(k), setting("geometry", k))
        same(it, "l_offset", g.get("l_offset"), 0 if J.what("geometry", "l_offset") == "absent" else setting("geometry", "l_offset"))
        same(it, "evaluation", g.get("evaluation"), "lndet" if J.what("geometry", "evaluation") == "absent" else Txt([Piece("setting evaluation")]))
        ff = g.get("forceFlag", 0)
        (ok if ff in (0, False) and ff is not None else lambda i, n: fail(i, n, repr(ff)))(it, "energies, not forces")
        same(it, "temperature step", f.get("deltaT"), setting("thermodynamics", "tmin"))
        same(it, "largest temperature", f.get("Tmax"), setting("thermodynamics", "tmax"))
        same(it, "number of Matsubara terms", f.get("nmax"), setting("thermodynamics", "nmax"))
        gs = [k for k in f if f[k] is G]
        (ok if gs else lambda i, n: fail(i, n, "no argument is the geometry"))(it, "the calculation uses the geometry described")
        lay = "list" in (J.what("geometry", "ra"), J.what("geometry", "rb"))
        an = False if lay else {"absent": True, "yes": True, "no": False}[J.what("geometry", "analytic_n0")]
        same(it, "zero-frequency treatment", f.get("analytic_n0"), an)
        if len(J.evals) < 1 or any(e[0] is not F or e[1] != ("thermodynamics", "quantity") for e in J.evals):
            return fail(it, "the requested quantity is calculated", "%r" % (J.evals,))
        ok(it, "the requested quantity is calculated")
    return go


ALL = [o for _, o in KINDS]
for _a in ("float", "list"):
    for _b in ("float", "list"):
        for _d in (False, True):
            contract("C21", "job file -> calculation[%s%s]" % ({"ff": "two homogeneous spheres", "lf": "layers on sphere 1", "fl": "layers on sphere 2", "ll": "layers on both"}[_a[0] + _b[0]],
                     ", distance on the command line" if _d else ""), Q, trust=TRUST, opts={"invariant": True}, maxpaths=2000)(run(ALL, _d, {"ra": _a, "rb": _b}))


def wrong_args(n):
    def go(it, ctx):
        J = Job(it)
        J.argv = n
        r = J.run()
        if isinstance(r, Raised) and r.kind in ("ValueError", "SystemExit", "IndexError"):
            return ok(it, "rejected")
        fail(it, "rejected", "%r" % (r,))
    return go


for _n in (1, 2, 5, 6):
    contract("C21", "%d command-line arguments are rejected" % (_n - 1), ["worker"], trust=TRUST, opts={"invariant": True})(wrong_args(_n))
