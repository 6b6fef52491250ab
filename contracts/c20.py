"""C20: result files are never overwritten and contain exactly the computed numbers"""
from job import *
from common import *

Q = ["worker.save_result", "worker.job_infos", "worker"]


def run(free, fixed=None):
    def go(it, ctx):
        J = Job(it, free, None, fixed)
        if not J.run():
            return
        files = J.files.finish()
        if len(files) != 1:
            return fail(it, "one result file is written", "%d files" % len(files))
        ok(it, "one result file is written")
        (key, content), = files.items()
        data = [k for k, c in enumerate(content) if c[0] == "data"]
        if len(data) != 1 or data[0] != len(content) - 1:
            return fail(it, "the numbers appear once, after the header", "%r" % (content,))
        ok(it, "the numbers appear once, after the header")
        _, X, kw = content[-1]
        if len(J.evals) == 1 and X is J.evals[0][2] or any(X is e[2] and e[0] is J.fins[0][0] for e in J.evals):
            ok(it, "the numbers are the computed ones")
        else:
            fail(it, "the numbers are the computed ones", "%r" % (X,))
        f = kw.get("fmt", "%.18e")
        if isinstance(f, str) and re.fullmatch(r"%[-+ 0#]*\d*\.(\d+)[eE]", f) and int(re.search(r"\.(\d+)", f).group(1)) >= 16 or f in ("%r", "%.17g", "%.18g"):
            ok(it, "written with all digits")
        else:
            fail(it, "written with all digits", "%r" % (f,))
        d = kw.get("delimiter", " ")
        if d in (",", " ", ", ", "\t", ";") and kw.get("newline", "\n") == "\n" and not kw.get("footer"):
            ok(it, "one row per line")
        else:
            fail(it, "one row per line", "%r" % (kw,))
        t = Txt([x for k, x in content[:-1]])
        ls, last = text.lines(t)
        if ls is None:
            return fail(it, "header lines are comments", "%r may contain a line break" % (last,))
        if last:
            return fail(it, "header lines are comments", "the header does not end with a line break: %r" % (last,))
        for l in ls:
            if not l or not isinstance(l[0], str) or not l[0].lstrip().startswith("#"):
                return fail(it, "header lines are comments", "%r" % (l,))
        ok(it, "header lines are comments")
        src = " ".join(repr(p) for l in ls for p in l)
        for what in ("setting mata", "setting matb", "setting matmd", "setting quantity", "job file name"):
            (ok if what in src else lambda i, n: fail(i, n, "not in the header", soft=True))(it, "the header describes the job: " + what)
        for nm, v in (("radius 1", J.geoms[0][0].attrs["r1"]), ("radius 2", J.geoms[0][0].attrs["r2"]), ("distance", J.geoms[0][0].attrs["L"])):
            k = [p for l in ls for p in l if isinstance(p, Piece) and p.src is v]
            (ok if k else lambda i, n: fail(i, n, "not in the header", soft=True))(it, "the header describes the job: " + nm)
    return go


import re
for _n, _f in (("two homogeneous spheres", {"ra": "float", "rb": "float"}), ("layers on sphere 1", {"ra": "list", "rb": "float"}), ("layers on sphere 2", {"ra": "float", "rb": "list"})):
    contract("C20", "saving the result[%s]" % _n, Q, trust=TRUST + ["os.path.exists: whether the name exists; no other program creates it in between",
             "numpy.savetxt: one line per row in the given format, float(\"%.18e\" % x) == x"], opts={"invariant": True}, maxpaths=2000)(run([o for _, o in KINDS], _f))
