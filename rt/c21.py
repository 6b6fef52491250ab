from gens import *
from c20 import run_worker, scratch, job


BOOL = {"1": True, "yes": True, "true": True, "on": True, "0": False, "no": False, "false": False, "off": False}


@rt("C21", "job file settings reach the calculation unchanged", 250, quals=["worker.return_geometry", "worker.assign_radius", "worker.do_calculation"])
def settings(c):
    import materials
    with scratch() as d:
        shuffled = c.p(0.3)
        s = job(c, d, shuffled=shuffled)
        L = s["d"]
        argv = ["job.config", "res.dat"]
        if c.p(0.3):
            L = L * c.pick(1.0, 1.05, 1.2)
            argv.append(repr(L))
        c.note(argv=argv)
        rec = run_worker(d, argv, fin=None if c.p(0.3) and not shuffled else np.array([1.0, 2.0]))
        check(len(rec["geom"]) == 1 and len(rec["fin"]) == 1, "one geometry and one calculation expected")
        g, f = rec["geom"][0], rec["fin"][0]
        mat = lambda v: [getattr(materials, x.split(".")[1]) for x in v] if isinstance(v, list) else getattr(materials, v.split(".")[1])

        def same(name, got, want):
            if isinstance(want, list) and name.startswith("mat"):
                ok = type(got) == list and len(got) == len(want) and all(x is y for x, y in zip(got, want))
            elif name.startswith("mat"):
                ok = got is want
            else:
                ok = got == want and (type(got) == list) == (type(want) == list)
            check(ok, "%s is %r instead of %r" % (name, got, want))
        same("mat1", g["mat1"], mat(s["mata"]))
        same("mat2", g["mat2"], mat(s["matb"]))
        same("mat3", g["mat3"], mat(s["matmd"]))
        same("r1", g["r1"], s["ra"])
        same("r2", g["r2"], s["rb"])
        same("L", g["L"], L)
        same("lmax", g["lmax"], s["lmax"])
        same("lssmax", g["lssmax"], s["lssmax"])
        same("l_offset", g["l_offset"], 0 if s["l_offset"] is None else s["l_offset"])
        same("precision", g["precision"], s["precision"])
        same("evaluation", g["evaluation"], s["evaluation"] or "lndet")
        check(not g["forceFlag"], "forceFlag is %r" % (g["forceFlag"],))
        same("deltaT", f["deltaT"], s["Tmin"])
        same("Tmax", f["Tmax"], s["Tmax"])
        same("nmax", f["nmax"], s["nmax"])
        check(f["geom"] is rec["G"], "the calculation uses another geometry")
        lay = isinstance(s["mata"], list) or isinstance(s["matb"], list)
        an = False if lay else True if s["analytic_n0"] is None else BOOL[s["analytic_n0"].lower()]
        check(bool(rec["F"].analytic_n0) == an and isinstance(rec["F"].analytic_n0, bool), "analytic_n0 is %r instead of %r" % (rec["F"].analytic_n0, an))
        q = s["quantity"]
        name, a = q[:q.index("(")], eval("(" + q[q.index("(") + 1:-1] + ",)" if q[q.index("(") + 1:-1] else "()")
        check(rec["quantity"] and rec["quantity"][0] == (name, a, {}), "calculated %r instead of %s" % (rec["quantity"][:1], q))


@rt("C21", "the result file contains the requested quantity of the described system", 40, quals=["worker.do_calculation"])
def endtoend(c):
    with scratch() as d:
        s = job(c, d, layered=0)
        import geometry, thermodynamics, materials
        rec = run_worker(d, ["job.config", "res.dat"])
        q = s["quantity"]
        if q.startswith("e0"):
            return
        F = thermodynamics.finiteT
        f = F(s["Tmin"], s["nmax"], s["Tmax"], rec["G"], rec["F"].analytic_n0)
        want = np.atleast_1d(eval("f." + q))
        got = np.loadtxt(os.path.join(d, "res.dat"), delimiter=",", ndmin=1)
        close(got, want, 1e-12, 0, "numbers in the result file")


@rt("C21", "missing arguments are rejected", 8, quals=["worker"])
def argsn(c):
    with scratch() as d:
        job(c, d)
        av = c.pick([], ["job.config"], ["job.config", "a", "3.0", "x"])
        c.note(argv=av)
        try:
            run_worker(d, av)
        except Violation as e:
            check("ValueError" in str(e), str(e))
            return
        bad("worker.py with arguments %s was accepted" % av)
