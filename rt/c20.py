"""worker.py run as a script in a scratch folder, with recording stand-ins for the two classes it
builds; nothing outside the scratch folder is written."""
from gens import *
import runpy, inspect, tempfile, shutil, contextlib, io

NAMES = ["Gold", "Gold_plasma", "Silver", "Vacuum", "PerfectConductor", "Water", "Silicon", "Mercury", "Polystyrene", "MercurySmith"]


def run_worker(d, argv, geo=None, fin=None):
    """-> dict of recorded constructor arguments"""
    import geometry, thermodynamics, materials
    w = os.path.join(SRC, "worker.py")
    if not os.path.exists(w):
        raise Skip("no worker.py")
    rec = {"geom": [], "fin": [], "quantity": []}
    RG, RF = geometry.SphereSphere, thermodynamics.finiteT
    sg, sf = inspect.signature(RG.__init__), inspect.signature(RF.__init__)

    class G(RG):
        def __init__(self, *a, **k):
            b = sg.bind(self, *a, **k)
            b.apply_defaults()
            rec["geom"].append({n: v for n, v in b.arguments.items() if n != "self"})
            RG.__init__(self, *a, **k)
            self.roundTrip_dct = {0: 3, 1: 2}
            self.mSumme = lambda k: -np.exp(-np.asarray(k, float))
            rec["G"] = self

        def mSumme_k0(self):
            return np.float64(-1.0)

    class F(RF):
        def __init__(self, *a, **k):
            b = sf.bind(self, *a, **k)
            b.apply_defaults()
            rec["fin"].append({n: v for n, v in b.arguments.items() if n != "self"})
            RF.__init__(self, *a, **k)
            rec["F"] = self

        def free_energy(self, *a, **k):
            rec["quantity"].append(("free_energy", a, k))
            return fin if fin is not None else RF.free_energy(self, *a, **k)

        def entropy(self, *a, **k):
            rec["quantity"].append(("entropy", a, k))
            return fin if fin is not None else RF.entropy(self, *a, **k)

        def e0(self, *a, **k):
            rec["quantity"].append(("e0", a, k))
            return fin if fin is not None else np.array([[1.0, 2.0]])

        def get_f_matsubaras(self, *a, **k):
            rec["quantity"].append(("get_f_matsubaras", a, k))
            return fin if fin is not None else RF.get_f_matsubaras(self, *a, **k)
    G.__name__, F.__name__ = "SphereSphere", "finiteT"
    geometry.SphereSphere, thermodynamics.finiteT = G, F
    old, cwd = sys.argv, os.getcwd()
    try:
        os.chdir(d)
        sys.argv = [w] + argv
        with contextlib.redirect_stdout(io.StringIO()):
            call("worker.py %s" % " ".join(argv), runpy.run_path, w, run_name="__main__")
    finally:
        geometry.SphereSphere, thermodynamics.finiteT = RG, RF
        sys.argv = old
        os.chdir(cwd)
    return rec


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="job_", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def job(c, d, name="job.config", layered=0.3, shuffled=False):
    """random job file; returns (settings, path)"""
    m = lambda: "materials." + c.pick(*NAMES)
    s = {}
    s["mata"] = [m() for _ in range(c.int(2, 4))] if c.p(layered) else m()
    s["matb"] = [m() for _ in range(c.int(2, 4))] if c.p(layered) else m()
    s["matmd"] = m()
    rad = lambda mm: sorted(c.lu(0.1, 3) for _ in range(len(mm) - 1)) if isinstance(mm, list) else c.lu(0.1, 3)
    s["ra"], s["rb"] = rad(s["mata"]), rad(s["matb"])
    for r, mm in (("ra", "mata"), ("rb", "matb")):
        if isinstance(s[r], list) and len(s[r]) == 1:
            s[mm] = s[mm] + [m()]
            s[r] = sorted([s[r][0], s[r][0] * 1.5])
    if shuffled:
        for r in ("ra", "rb"):
            if isinstance(s[r], list) and len(s[r]) > 1:
                s[r] = s[r][1:] + s[r][:1]
    out = lambda r: r[-1] if isinstance(r, list) else r
    a, b = out(s["ra"]), out(s["rb"])
    s["d"] = (a + b) * c.u(1.01, 3) if c.p(0.7) or abs(a - b) < 0.05 else abs(a - b) * c.u(0.2, 0.8)
    s["lmax"] = c.pick("automatic", c.int(1, 30))
    s["lssmax"] = c.pick("automatic", c.int(30, 60))
    s["l_offset"] = c.pick(None, c.int(0, 9), c.int(-3, 9))
    s["precision"] = c.pick(1e-2, 1e-4, 1e-5, c.lu(1e-8, 0.1))
    s["evaluation"] = c.pick(None, "lndet", "trace", "lndet")
    s["analytic_n0"] = c.pick(None, "True", "False", "yes", "no", "0", "1", "off", "on", "true", "false")
    s["Tmin"] = c.lu(0.01, 2)
    s["Tmax"] = s["Tmin"] * c.int(1, 9)
    s["nmax"] = c.pick("automatic", c.int(1, 99), c.int(1, 99))
    s["quantity"] = c.pick("free_energy()", "free_energy()", "get_f_matsubaras(0)", "get_f_matsubaras(0, 7)", "entropy()", "e0()", "e0(0.5, 2)")
    if s["quantity"] == "entropy()" and s["Tmax"] < 3 * s["Tmin"]:
        s["Tmax"] = 4 * s["Tmin"]
    txt = write(c, s)
    open(os.path.join(d, name), "w").write(txt)
    c.note(job=txt)
    return s


def fmt(v, sep=","):
    return sep.join(map(str, v)) if isinstance(v, list) else str(v)


def write(c, s):
    sep = c.pick(": ", " = ", ":", "=")
    ls = c.pick(",", ", ", " , ")
    sec = {"geometry": ["ra", "rb", "d", "lmax", "l_offset", "lssmax", "evaluation", "analytic_n0", "precision"],
           "materials": ["mata", "matb", "matmd"],
           "thermodynamics": ["Tmin", "Tmax", "nmax", "quantity"]}
    names = list(sec)
    c.r.shuffle(names)
    out = []
    for n in names:
        out.append("[%s]" % n)
        ks = list(sec[n])
        c.r.shuffle(ks)
        for k in ks:
            if s.get(k) is None:
                continue
            v = s[k]
            if k in ("mata", "matb") and isinstance(v, list):
                t = c.pick(ls.join(v), "(" + ls.join(v) + ")", "[" + ls.join(v) + "]", "(" + ",\n    ".join(v) + ")")
            else:
                t = fmt(v, ls)
            out.append(k + sep + t)
            if c.p(0.1):
                out.append("# a comment")
        out.append("")
    return "\n".join(out) + "\n"


def tree(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read() if not os.path.islink(p) else ("link", os.readlink(p))
        for f in ds:
            out[os.path.relpath(os.path.join(b, f), d) + "/"] = None
    return out


def result(c):
    n = c.pick(1, 1, 2, c.int(1, 40))
    v = lambda: c.pick(0.0, 1.0, -1.0, c.u(-1, 1), c.lu(1e-300, 1e300), -c.lu(1e-20, 1e20), 0.1, 1 / 3.0, 123456789.123456789)
    if c.p(0.2):
        return np.array([[v(), v()] for _ in range(n)])
    return np.array([v() for _ in range(n)])


@rt("C20", "new file, exact numbers after a comment header, every existing file untouched", 150, quals=["worker.save_result", "worker.job_infos"])
def save(c):
    with scratch() as d:
        s = job(c, d)
        out = c.pick("res.dat", "res", "sub/res.result", "r1", "out.11")
        if "/" in out:
            os.mkdir(os.path.join(d, "sub"))
        old = []
        base = os.path.join(d, out)
        for j in range(c.pick(0, 0, 1, 2, 3)):
            old.append(base + "1" * j)
        if c.p(0.3):
            old.append(base + "11")
        if c.p(0.2):
            old += [base + x for x in ("0", "2", "_1", ".1", ".bak", "-1")]
        for p in set(old):
            if c.p(0.1):
                os.mkdir(p)
            else:
                open(p, "w").write(c.pick("", "1.0\n2.0\n", "# header\n5\n", "not numbers"))
        res = result(c)
        c.note(out=out, existing=sorted(os.path.basename(p) for p in old), result=res)
        before = tree(d)
        r0 = res.copy()
        run_worker(d, ["job.config", out] + ([repr(s["d"] * 1.01)] if c.p(0.2) else []), fin=res)
        after = tree(d)
        for p, v in before.items():
            check(p in after and after[p] == v, "existing file %s was changed or removed" % p)
        new = [p for p in after if p not in before and not p.startswith("__pycache__")]
        check(len(new) == 1, "files created: %s" % new)
        check(os.path.dirname(new[0]) == os.path.dirname(out) and os.path.basename(new[0]).startswith(os.path.basename(out)), "created %s instead of %s" % (new[0], out))
        if not os.path.lexists(base) and out not in before:
            check(new[0] == out, "created %s although %s was free" % (new[0], out))
        txt = after[new[0]].decode()
        lines = txt.splitlines()
        k = 0
        while k < len(lines) and lines[k].startswith("#"):
            k += 1
        check(k >= 1, "no header")
        head = "\n".join(lines[:k])
        body = [x for x in lines[k:] if x.strip()]
        check(not any(x.lstrip().startswith("#") for x in body), "comment after the numbers")
        try:
            got = np.array([[float(y) for y in x.split(",")] for x in body])
        except ValueError as e:
            bad("line after the header is not numbers: %s" % e)
        w = r0.reshape(len(r0), -1)
        check(got.shape == w.shape, "%s numbers instead of %s" % (got.shape, w.shape))
        check((got == w).all(), "numbers read back differ from the result")
        unchanged(r0, res, "result array")
        for key in ("mata", "matb", "matmd"):
            for mm in (s[key] if isinstance(s[key], list) else [s[key]]):
                check(mm in head, "header does not mention material %s" % mm)
        check("job.config" in head and s["quantity"] in head and str(s["precision"]) in head, "header does not name the job, quantity and precision")


@rt("C20", "numpy can read the file as written", 40, quals=["worker.save_result", "worker.job_infos"])
def readable(c):
    with scratch() as d:
        job(c, d)
        res = result(c)
        c.note(result=res)
        run_worker(d, ["job.config", "res.dat"], fin=res)
        try:
            got = np.loadtxt(os.path.join(d, "res.dat"), delimiter=",", ndmin=res.ndim)
        except Exception as e:
            bad("np.loadtxt: %s" % e)
        check(got.shape == res.shape and (got == res).all(), "np.loadtxt gives %r" % got)


@rt("C20", "repeated runs accumulate, none is lost", 25, quals=["worker.save_result"])
def repeat(c):
    with scratch() as d:
        job(c, d)
        n = c.int(2, 6)
        vals = [np.array([float(i), c.u(-1, 1)]) for i in range(n)]
        c.note(results=vals)
        for v in vals:
            before = tree(d)
            run_worker(d, ["job.config", "res.dat"], fin=v)
            after = tree(d)
            for p in before:
                check(after.get(p) == before[p], "run changed %s" % p)
        files = [p for p in tree(d) if p.startswith("res.dat")]
        check(len(files) == n, "%d result files after %d runs" % (len(files), n))
        got = sorted(tuple(np.loadtxt(os.path.join(d, p)).tolist()) for p in files)
        check(got == sorted(tuple(v.tolist()) for v in vals), "results lost")
