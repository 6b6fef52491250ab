"""Run-time contracts on the real code (bounded stand-in and replay of counterexamples).

Runs in the interpreter the repository is installed for.  Every case is a deterministic function
of (seed, item name, case number); a failing case is written to a replay file and can be re-run.
"""
import os, sys, json, math, random, traceback, hashlib, importlib, copy, contextlib, io

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "CasimirRio")
ITEMS = {}


class Violation(Exception):
    pass


class Skip(Exception):
    """the item cannot be evaluated (function not there, ...): undecided, never a verdict"""


class Item:
    def __init__(self, pid, name, fn, n, big, quals):
        self.pid, self.name, self.fn, self.n, self.big, self.quals = pid, name, fn, n, big, quals


def rt(pid, name, n=100, big=None, quals=()):
    def deco(f):
        ITEMS.setdefault(pid, []).append(Item(pid, name, f, n, big or 12 * n, quals))
        return f
    return deco


class Case:
    def __init__(self, seed, item, i):
        h = hashlib.sha256(("%s|%s|%s|%s" % (seed, item.pid, item.name, i)).encode()).digest()
        self.r = random.Random(int.from_bytes(h[:8], "big"))
        self.i = i
        self.notes = {}

    def note(self, **kw):
        self.notes.update({k: repr(v)[:1500] for k, v in kw.items()})

    # generators
    def u(self, a, b):
        return self.r.uniform(a, b)

    def lu(self, a, b):
        return math.exp(self.r.uniform(math.log(a), math.log(b)))

    def int(self, a, b):
        return self.r.randint(a, b)

    def pick(self, *xs):
        return self.r.choice(xs)

    def p(self, q):
        return self.r.random() < q


def need(modname, *names):
    try:
        m = importlib.import_module(modname)
    except ImportError as e:
        raise Skip("module %s: %s" % (modname, e))
    out = m
    for n in names:
        if not hasattr(out, n):
            raise Skip("%s has no %s" % (modname, n))
        out = getattr(out, n)
    return out


def bad(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg)


def close(got, want, rel, abs_=0.0, what=""):
    import numpy as np
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        bad("%s: shape %s instead of %s" % (what, g.shape, w.shape))
    lim = rel * np.abs(w) + abs_
    d = np.abs(g - w)
    ok = (d <= lim) | (g == w)
    if not ok.all():
        j = np.unravel_index(np.argmin(ok), ok.shape) if ok.shape else ()
        bad("%s: %r instead of %r at index %s" % (what, float(g[j]), float(w[j]), tuple(int(x) for x in j)))


def raises(fn, kinds, what):
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        bad("%s: raised %s instead" % (what, type(e).__name__))
    bad("%s: not rejected" % what)


def call(what, f, *a, **kw):
    """a valid call of the code under test: an exception is a violation"""
    try:
        return f(*a, **kw)
    except (Violation, Skip):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        bad("%s: raised %s: %s (%s:%s)" % (what, type(e).__name__, str(e)[:200], os.path.basename(where.filename), where.lineno))


def unchanged(before, after, what):
    import numpy as np

    def same(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and ((a == b) | ((a != a) & (b != b))).all()
        if isinstance(a, (list, tuple)):
            return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return a is b or a == b
    if not same(before, after):
        bad("%s was modified" % what)


def build_cython(dst, checked=False):
    """compile the two extension modules from the current source into dst"""
    import subprocess, numpy, shutil, re
    os.makedirs(dst, exist_ok=True)
    procs = []
    for m in ("cython_gaunt", "matrix_balancing"):
        src = os.path.join(SRC, m + ".pyx")
        if not os.path.exists(src):
            continue
        d = os.path.join(dst, "_" + m)
        os.makedirs(d, exist_ok=True)
        txt = open(src).read()
        if checked:
            txt = re.sub(r"boundscheck\s*\(\s*False\s*\)", "boundscheck(True)", txt)
            txt = re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", txt)
            txt = re.sub(r"cdivision\s*\(\s*True\s*\)", "cdivision(False)", txt)
            txt = re.sub(r"cdivision\s*=\s*True", "cdivision=False", txt)
        open(os.path.join(d, m + ".pyx"), "w").write(txt)
        for extra in os.listdir(SRC):
            if extra.endswith((".pxd", ".pxi", ".h")):
                shutil.copy(os.path.join(SRC, extra), d)
        env = dict(os.environ, CFLAGS="-I%s -O1 -w" % numpy.get_include())
        code = ("import sys,sysconfig,subprocess,os\n"
                "from Cython.Build import cythonize\n"
                "from Cython.Compiler.Main import compile as cc, CompilationOptions\n"
                "m=%r\n"
                "r=cc(m+'.pyx', CompilationOptions(language_level=None))\n"
                "assert r[m+'.pyx'].num_errors==0 if hasattr(r,'keys') else r.num_errors==0\n"
                "inc=sysconfig.get_paths()['include']; ext=sysconfig.get_config_var('EXT_SUFFIX')\n"
                "import numpy\n"
                "subprocess.check_call(['gcc','-shared','-fPIC','-O1','-w','-fwrapv','-I'+inc,'-I'+numpy.get_include(),m+'.c','-o',os.path.join(%r,m+ext),'-lm'])\n" % (m, dst))
        procs.append((m, subprocess.Popen([sys.executable, "-c", code], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for m, p in procs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            raise RuntimeError("building %s failed: %s" % (m, out[-1500:]))
