"""Symbolic interpreter for the Python subset used by the repository.

Every run parses the current source.  Path conditions are explored exhaustively by
re-execution; loops with symbolic bounds are summarised (loops.py); functions that have a
contract are replaced by it at call sites, every other repository function is inlined.
"""
import ast, os, re, itertools, builtins
from fractions import Fraction
from core import *
import core
from smt import Prover, prove, Result
from vals import *

REPO = os.environ.get("VERIF_REPO", "/repo") + "/CasimirRio"


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """path is infeasible / not to be continued"""


class Ob:
    def __init__(self, name, status, by, detail, kind="post", model=None, path=None):
        self.name, self.status, self.by, self.detail, self.kind, self.model, self.path = name, status, by, detail, kind, model, path


class Ctx:
    """one symbolic execution path"""

    def __init__(self, facts, decisions, summaries, hints, opts):
        self.prover = Prover(facts)
        self.decisions = list(decisions)
        self.pos = 0
        self.alts = []
        self.obs = []
        self.counter = {}
        self.summaries = summaries
        self.hints = hints
        self.opts = opts
        self.quant = {}
        self.wlog = []              # stack of sets of written stores
        self.depth = 0
        self.rewrites = opts.get("rewrites", ())
        self.log = []
        self.generic = 0
        self.branchlog = []
        self.created = []
        core.PROVER[0] = self.prover

    def fresh(self, name, sort="R", pos=None):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        v = var("%s#%d" % (name, k), sort, pos)
        self.created.append(v)
        return v

    def freshname(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return "%s#%d" % (name, k)

    # ---- branching
    def assume(self, b):
        if b.op == "and":
            for x in b.args:
                self.assume(x)
            return
        if b.op == "sym" and b.args[0] in self.quant:
            self.quant[b.args[0]][0](True)
            return
        if b.op == "not" and b.args[0].op == "sym" and b.args[0].args[0] in self.quant:
            self.quant[b.args[0].args[0]][0](False)
            return
        self.prover.assume(b)

    def decide(self, n, desc=""):
        """non-deterministic choice among n alternatives"""
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = 0
            for k in range(1, n):
                self.alts.append(self.decisions[:self.pos] + [k])
            self.decisions.append(0)
        self.pos += 1
        self.log.append("%s=%s" % (desc, v))
        return v

    def branch(self, b, desc=""):
        if b.op == "T":
            return True
        if b.op == "F":
            return False
        if self.prover.entails(b):
            return True
        nb = Not(b)
        if self.prover.entails(nb):
            return False
        v = self.decide(2, "%s?" % desc)
        self.branchlog.append(b if v == 0 else nb)
        if v == 0:
            self.assume(b)
            if b.op == "sym" and self.prover.check_unsat([], 1000) is True:
                raise PathEnd()
            return True
        self.assume(nb)
        if self.prover.check_unsat([], 1000) is True:
            raise PathEnd()
        return False

    # ---- obligations
    def oblige(self, name, goal, kind="def", prover=None, assume=True):
        p = prover or self.prover
        if goal.op == "T":
            self.obs.append(Ob(name, "proved", "normal-form", "", kind, None, None))
            return True
        r = prove(p, goal, rewrites=self.rewrites, timeout=self.opts.get("timeout", 6000))
        self.obs.append(Ob(name, r.status, r.by, r.detail, kind, r.model, list(self.log)))
        if assume and prover is None:
            self.prover.assume(goal)
        return r.status == "proved"


# ------------------------------------------------------------------------------- modules
_SRC = {}


def source(modname):
    p = os.path.join(REPO, modname + ".py")
    if not os.path.exists(p):
        p = os.path.join(REPO, modname + ".pyx")
        if not os.path.exists(p):
            return None, None
        return strip_pyx(open(p, encoding="utf-8", errors="replace").read()), p
    return open(p, encoding="utf-8", errors="replace").read(), p


def strip_pyx(src):
    """drop C declarations: what is lost is the machine width of the declared variables"""
    out = []
    skip_block = None
    for line in src.split("\n"):
        ind = len(line) - len(line.lstrip())
        s = line.strip()
        if skip_block is not None:
            if s and ind <= skip_block:
                skip_block = None
            else:
                m = re.match(r"(?:[\w\*]+\s+)+(\w+)\s*\(", s)
                out.append("from math import %s" % m.group(1) if m and mathh else "")
                continue
        if re.match(r"cdef\s+extern\b", s):
            skip_block = ind
            mathh = "math.h" in s
            out.append("")
            continue
        m = re.match(r"from\s+libc\.math\s+cimport\s+(.*)$", s)
        if m:
            out.append(" " * ind + "from math import " + m.group(1))
            continue
        if s.startswith("cimport ") or re.match(r"from\s+\S+\s+cimport\b", s):
            out.append(" " * ind + "pass" if ind else "")
            continue
        if s.startswith("@cython.") or s.startswith("@cy."):
            out.append("")
            continue
        m = re.match(r"cdef\s+(.*)$", s)
        if m and not re.search(r"\)\s*(nogil|except.*)?\s*:\s*$", s):
            body = m.group(1)
            body = re.sub(r"^np\.ndarray\[[^\]]*\]\s*", "", body)
            body = re.sub(r"^[\w\.]+(\[[^\]]*\])\s*(?=\w)", "", body)
            body = re.sub(r"^(unsigned\s+|long\s+|const\s+)*(int|long|double|float|Py_ssize_t|bint|size_t|object|np\.\w+|short|char)\s+", "", body)
            # several declarators
            parts = _split_commas(body)
            stm = [p.strip() for p in parts if "=" in p]
            out.append(" " * ind + ("; ".join(stm) if stm else "pass"))
            continue
        m = re.match(r"(cp?def)\s+(inline\s+)?(.*)$", s)
        if m:
            sig = m.group(3)
            sig = re.sub(r"^(np\.ndarray(\[[^\]]*\])?|[\w\.]+)\s+(?=\w+\s*\()", "", sig)
            s = "def " + sig
            line = " " * ind + s
        if re.match(r"def\s", s):
            line = " " * ind + _strip_params(s)
        line = re.sub(r"<\s*(int|double|float|long)\s*>", "", line)
        out.append(line)
    return "\n".join(out)


def _split_commas(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur); cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


def _strip_params(s):
    m = re.match(r"def\s+(\w+)\s*\((.*)\)\s*(nogil|except[^:]*|noexcept)?\s*(->[^:]*)?:\s*(.*)$", s)
    if not m:
        return s
    ps = []
    for p in _split_commas(m.group(2)):
        p = p.strip()
        p = re.sub(r"^np\.ndarray(\[[^\]]*\])?\s+", "", p)
        p = re.sub(r"^[\w\.]+(\[[^\]]*\])\s+(?=\w)", "", p)
        p = re.sub(r"^(unsigned\s+|long\s+|const\s+)*(int|long|double|float|Py_ssize_t|bint|size_t|object|np\.\w+|short)\s+(?=\w)", "", p)
        ps.append(p)
    return "def %s(%s): %s" % (m.group(1), ", ".join(ps), m.group(5))


def parse(modname):
    if modname not in _SRC:
        src, path = source(modname)
        if src is None:
            _SRC[modname] = None
        else:
            _SRC[modname] = (ast.parse(src), src, path)
    return _SRC[modname]


class Poison:
    def __init__(self, why):
        self.why = why


def bound_names(st):
    out = []
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
        elif isinstance(n, ast.alias):
            out.append((n.asname or n.name).split(".")[0])
    return out


class Env:
    __slots__ = ("vars", "parent", "glob")

    def __init__(self, vars, parent, glob):
        self.vars, self.parent, self.glob = vars, parent, glob

    def get(self, k):
        e = self
        while e is not None:
            if k in e.vars:
                return e.vars[k]
            e = e.parent
        if k in self.glob:
            return self.glob[k]
        raise KeyError(k)

    def has(self, k):
        try:
            self.get(k)
            return True
        except KeyError:
            return False


class Interp:
    def __init__(self, ctx, stubs):
        self.ctx = ctx
        self.stubs = stubs                # name -> Mod or namespace dict
        self.modules = {}
        self.calls = []
        import npstub
        self.np = npstub
        self.builtins = npstub.make_builtins(self)
        self.used = set()

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stubs:
            self.modules[name] = self.stubs[name]
            return self.stubs[name]
        st = self.np.stub_module(self, name)
        if st is not None:
            self.modules[name] = st
            return st
        pr = parse(name)
        if pr is None:
            raise Stuck("module %s" % name)
        ns = {"__name__": name}
        m = Mod(name, ns)
        self.modules[name] = m
        env = Env(ns, None, ns)
        saved = self.ctx.wlog
        self.ctx.wlog = []
        for st in pr[0].body:
            try:
                self.exec(st, env)
            except Stuck as e:
                # a top-level statement outside the subset: the names it binds are unusable
                for nm in bound_names(st):
                    ns[nm] = Poison("%s (line %s of %s)" % (e, st.lineno, name))
        self.ctx.wlog = saved
        return m

    def func(self, dotted):
        """'module.Class.method' or 'module.func' -> Func or None"""
        parts = dotted.split(".")
        m = self.module(parts[0])
        v = m.ns.get(parts[1])
        if isinstance(v, Obj) and len(parts) > 2:
            v = v.cls
        for p in parts[2:]:
            if not isinstance(v, Cls):
                return None
            r = v.lookup(p)
            v = r[0] if r else None
        return v

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        self.ctx.depth += 1
        if self.ctx.depth > 60:
            self.ctx.depth = 0
            raise Stuck("recursion too deep")
        try:
            return self._call(f, list(args), kwargs)
        finally:
            self.ctx.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, Bound):
            return self._call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Func):
            s = self.ctx.summaries.get(f.qual)
            if s is not None:
                self.used.add(f.qual)
                r = s(self, args, kwargs, f)
                if r is NotImplemented:        # the summary asks for the body (first activation of a recursive function)
                    return self.run_func(f, args, kwargs)
                return r
            return self.run_func(f, args, kwargs)
        if isinstance(f, Cls):
            o = Obj(f)
            r = f.lookup("__init__")
            if r is not None:
                self._call(r[0], [o] + args, kwargs)
            return o
        if isinstance(f, TypeV):
            return self.np.call_type(self, f, args, kwargs)
        if isinstance(f, Obj):
            r = f.cls.lookup("__call__") if isinstance(f.cls, Cls) else None
            if r:
                return self._call(r[0], [f] + args, kwargs)
        if callable(f) and not isinstance(f, (SV, Arr)):
            return f(self, args, kwargs)
        raise Stuck("call of %r" % (f,))

    def bind(self, f, args, kwargs):
        a = f.node.args
        vars = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if i < len(args):
                if n in kwargs:
                    raise PyRaise("TypeError", "multiple values for %s" % n)
                vars[n] = args[i]
            elif n in kwargs:
                vars[n] = kwargs[n]
            elif i >= len(names) - nd:
                vars[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise PyRaise("TypeError", "missing argument %s" % n)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments for %s" % f.name)
            vars[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        extra = {k: v for k, v in kwargs.items() if k not in names}
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in extra:
                vars[x.arg] = extra.pop(x.arg)
            else:
                vars[x.arg] = f.kwdefaults[i]
        if extra:
            if a.kwarg is None:
                raise PyRaise("TypeError", "unexpected keyword %s" % list(extra))
            vars[a.kwarg.arg] = extra
        elif a.kwarg is not None:
            vars[a.kwarg.arg] = {}
        return vars

    def run_func(self, f, args, kwargs):
        vars = self.bind(f, args, kwargs)
        env = Env(vars, f.env, f.module)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        if f.cls is not None:
            vars.setdefault("__class__", f.cls)
        try:
            self.exec_block(f.node.body, env)
        except ReturnEx as r:
            return r.v
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        k = type(st).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Stuck("statement %s line %s" % (k, getattr(st, "lineno", "?")))
        self.line = getattr(st, "lineno", 0)
        return m(st, env)

    def s_Expr(self, st, env):
        if hasattr(st, "verif_hook"):
            return st.verif_hook()
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            m = self.module(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                top = a.name.split(".")[0]
                env.vars[top] = m if top == a.name else self.module(top)

    def s_ImportFrom(self, st, env):
        m = self.module(st.module)
        for a in st.names:
            if a.name == "*":
                env.vars.update({k: v for k, v in m.ns.items() if not k.startswith("_")})
                continue
            v = m.ns.get(a.name)
            if v is None and a.name not in m.ns:
                v = self.np.stub_missing(st.module, a.name)
            env.vars[a.asname or a.name] = v

    def s_FunctionDef(self, st, env):
        for d in st.decorator_list:
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                continue
            raise Stuck("decorator on %s" % st.name)
        f = self.mkfunc(st, env, st.name)
        kind = [d.id for d in st.decorator_list]
        if kind:
            f = (kind[0], f)
        env.vars[st.name] = f

    def mkfunc(self, node, env, name):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = [self.ev(d, env) if d is not None else None for d in a.kw_defaults]
        glob = env.glob
        clsname = env.vars.get("__classname__") if isinstance(env.vars, dict) else None
        qual = glob.get("__name__", "?") + "." + ((clsname + ".") if clsname else "") + name
        encl = env
        if clsname:
            encl = env.parent
        return Func(node, encl if encl is not None and encl.vars is not glob else None, glob, name, qual, defaults, kwd)

    def s_ClassDef(self, st, env):
        bases = [self.ev(b, env) for b in st.bases]
        ns = {"__classname__": st.name}
        cenv = Env(ns, env if env.vars is not env.glob else None, env.glob)
        cls = Cls(st.name, bases, ns, env.glob.get("__name__", "?") + "." + st.name)
        self.exec_block(st.body, cenv)
        ns.pop("__classname__", None)
        for k, v in ns.items():
            if isinstance(v, Func):
                v.cls = cls
        env.vars[st.name] = cls

    def s_Return(self, st, env):
        raise ReturnEx(self.ev(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise BreakEx()

    def s_Continue(self, st, env):
        raise ContinueEx()

    def s_Global(self, st, env):
        for n in st.names:
            pass

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                i = self.ev(t.slice, env)
                if isinstance(o, (list, dict)):
                    self.mark(o)
                    if isinstance(i, Slice):
                        del o[slice(i.lo, i.hi, i.st)]
                    else:
                        del o[i]
                else:
                    raise Stuck("del")
            else:
                raise Stuck("del")

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.ev(st.value, env)
            if isinstance(cur, Arr):
                r = self.np.binop(self, op, cur, v)
                self.np.iassign(self, cur, r)
                return
            if isinstance(cur, list) and op == "Add":
                self.mark(cur)
                cur.extend(self.aslist(v))
                return
            env.vars[t.id] = self.np.binop(self, op, cur, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, env)
            if isinstance(cur, Arr):
                self.np.iassign(self, cur, self.np.binop(self, op, cur, v))
                return
            if isinstance(cur, list) and op == "Add":
                self.mark(cur)
                cur.extend(self.aslist(v))
                return
            self.setattr(o, t.attr, self.np.binop(self, op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            cur = self.getitem(o, i)
            v = self.ev(st.value, env)
            r = self.np.binop(self, op, cur, v)
            self.setitem(o, i, r)
        else:
            raise Stuck("augassign")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.aslist(v, want=len(t.elts))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                vs = vs[:i] + [list(vs[i:len(vs) - k])] + vs[len(vs) - k:]
            if len(vs) != len(t.elts):
                raise PyRaise("ValueError", "unpack")
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Stuck("assignment target")

    def aslist(self, v, want=None):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            c = v.shape[0].const() if v.ndim else None
            if c is None:
                if want is not None and v.ndim:
                    self.ctx.oblige("unpack length", cmp_("==", v.shape[0], want))
                    c = want
                else:
                    raise Stuck("iteration over array of symbolic length")
            return [self.getitem(v, i) for i in range(int(c))]
        if isinstance(v, SymList):
            c = v.n.const()
            if c is not None:
                return [v.fn(C(i)) for i in range(int(c))]
            if want is not None:
                self.ctx.oblige("unpack length", cmp_("==", v.n, want))
                return [v.fn(C(i)) for i in range(want)]
        if isinstance(v, SymRange):
            lo, hi = v.lo.const(), v.hi.const()
            if lo is not None and hi is not None:
                return list(range(int(lo), int(hi), v.step))
        if isinstance(v, range):
            return list(v)
        if isinstance(v, PyIter):
            return v.items
        raise Stuck("iteration over %s" % type(v).__name__)

    def s_If(self, st, env):
        if self.truth(self.ev(st.test, env), "L%d" % st.lineno):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env), "assert L%d" % st.lineno):
            raise PyRaise("AssertionError", "line %d" % st.lineno)

    def s_Raise(self, st, env):
        if st.exc is None:
            raise PyRaise(getattr(self, "cur_exc", "RuntimeError"))
        v = st.exc
        if isinstance(v, ast.Call):
            n = v.func
            try:
                for a in v.args:
                    self.ev(a, env)
            except PyRaise as p:
                raise p
            except Stuck:
                pass
        else:
            n = v
        name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "Exception"
        raise PyRaise(name, "raised")

    def s_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as p:
                for h in st.handlers:
                    if self.exc_match(h.type, p, env):
                        if h.name:
                            env.vars[h.name] = Obj(None, name="exc")
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = p.kind
                        self.exec_block(h.body, env)
                        self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    def exc_match(self, t, p, env):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.exc_match(x, p, env) for x in t.elts)
        name = t.id if isinstance(t, ast.Name) else t.attr
        if name == p.kind:
            return True
        a, b = getattr(builtins, p.kind, None), getattr(builtins, name, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if isinstance(b, type) and b in (Exception, BaseException):
            return True
        return False

    def s_With(self, st, env):
        vs = []
        for it in st.items:
            v = self.ev(it.context_expr, env)
            if isinstance(v, Obj) and "__enter__" in v.attrs:
                v2 = self.call(v.attrs["__enter__"], [])
            elif isinstance(v, Obj):
                v2 = v
            else:
                raise Stuck("with")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v2, env)
            vs.append(v)
        try:
            self.exec_block(st.body, env)
        finally:
            for v in reversed(vs):
                if "__exit__" in v.attrs:
                    self.call(v.attrs["__exit__"], [None, None, None])

    def s_For(self, st, env):
        import loops
        it = self.ev(st.iter, env)
        return loops.run_for(self, st, it, env)

    def s_While(self, st, env):
        import loops
        return loops.run_while(self, st, env)

    # ------------------------------------------------------------ truth
    def truth(self, v, desc=""):
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (int, str, list, tuple, dict, float, Fraction, set)):
            return bool(v)
        if isinstance(v, SB):
            return self.ctx.branch(v.b, desc)
        if isinstance(v, SV):
            return self.ctx.branch(Not(cmp_("==", v.e, 0)), desc)
        if isinstance(v, Arr):
            if v.ndim == 0:
                e = v.get(())
                return self.ctx.branch(e if isinstance(e, B) else Not(cmp_("==", e, 0)), desc)
            n = ONE
            for s in v.shape:
                n = n * s
            if n.const() == 1 or self.ctx.prover.entails(cmp_("==", n, 1)):
                e = v.get((ZERO,) * v.ndim)
                return self.ctx.branch(e if isinstance(e, B) else Not(cmp_("==", e, 0)), desc)
            self.ctx.oblige("truth value of an array needs exactly one element", cmp_("==", n, 1))
            e = v.get((ZERO,) * v.ndim)
            return self.ctx.branch(e if isinstance(e, B) else Not(cmp_("==", e, 0)), desc)
        if isinstance(v, (Obj, Func, Native, Bound, Cls, Mod, TypeV, Inf)):
            return True
        if isinstance(v, SymList):
            return self.ctx.branch(cmp_(">", v.n, 0), desc)
        if hasattr(v, "nonempty"):
            return v.nonempty(self, desc or "nonempty selection")
        raise Stuck("truth of %s" % type(v).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Stuck("expression %s line %s" % (type(n).__name__, getattr(n, "lineno", "?")))
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            f = Fraction(repr(v))
            if abs(v - 3.141592653589793) < 1e-14:
                return SV(PI, "float")
            return SV(C(f), "float")
        if isinstance(v, (int, bool, str, bytes)) or v is None or v is Ellipsis:
            return v
        raise Stuck("constant %r" % (v,))

    def is_pyx(self, env):
        try:
            src = parse(env.glob.get("__name__", ""))
        except Exception:
            return False
        return bool(src and src[2].endswith(".pyx"))

    def lookup(self, k, env):
        try:
            v = env.get(k)
            if isinstance(v, Poison):
                raise Stuck("use of %s: %s" % (k, v.why))
            return v
        except KeyError:
            if k in self.builtins:
                return self.builtins[k]
            if self.is_pyx(env):
                raise Stuck("name %s of a Cython module" % k)
            raise PyRaise("NameError", k)

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Tuple(self, n, env):
        return tuple(self._elts(n.elts, env))

    def e_List(self, n, env):
        return self._elts(n.elts, env)

    def e_Set(self, n, env):
        return set(self._elts(n.elts, env))

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.aslist(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        self.line = n.lineno
        return self.np.binop(self, type(n.op).__name__, a, b)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        op = type(n.op).__name__
        if op == "Not":
            if isinstance(v, SB):
                return SB(Not(v.b))
            if isinstance(v, (bool, int, str, list, tuple, dict)) or v is None:
                return not v
            if isinstance(v, SV):
                return SB(cmp_("==", v.e, 0))
            return not self.truth(v, "not")
        if op == "USub":
            if isinstance(v, Inf):
                return Inf(-v.sign)
            if isinstance(v, int):
                return -v
            return self.np.binop(self, "Mult", -1, v)
        if op == "UAdd":
            return v
        if op == "Invert":
            return self.np.logical_not(self, v)
        raise Stuck("unary " + op)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v, "L%d" % n.lineno)
            if isand and not t:
                return False if isinstance(v, SB) else v
            if not isand and t:
                return True if isinstance(v, SB) else v
        return v

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = None
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, env)
            v = self.np.compare(self, type(op).__name__, left, right)
            if i == len(n.ops) - 1:
                return v if res is None or res is True else v
            if not self.truth(v, "cmp L%d" % n.lineno):
                return False
            left = right
            res = True
        return v

    def e_IfExp(self, n, env):
        if self.truth(self.ev(n.test, env), "L%d" % n.lineno):
            return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env, "<lambda>")

    def e_Call(self, n, env):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super" and not n.args:
            cls = self.lookup("__class__", env)
            slf = env.vars.get("self")
            return ("super", cls, slf)
        fv = self.ev(f, env)
        args = self._elts(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        self.line = n.lineno
        if isinstance(fv, Native) and fv.name in ("eval", "locals", "evaluate", "globals", "vars"):
            kw["__env__"] = env
        return self.call(fv, args, kw)

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def getattr(self, o, k):
        if isinstance(o, Obj):
            if k in o.attrs:
                return o.attrs[k]
            if isinstance(o.cls, Cls):
                r = o.cls.lookup(k)
                if r is not None:
                    v = r[0]
                    if isinstance(v, Func):
                        return Bound(o, v)
                    if isinstance(v, tuple) and len(v) == 2 and v[0] in ("staticmethod", "property", "classmethod"):
                        if v[0] == "staticmethod":
                            return v[1]
                        if v[0] == "classmethod":
                            return Bound(o.cls, v[1])
                        return self.call(v[1], [o])
                    return v
            if k == "__class__":
                return o.cls
            raise PyRaise("AttributeError", k)
        if isinstance(o, Mod):
            if k in o.ns:
                if isinstance(o.ns[k], Poison):
                    raise Stuck("use of %s.%s: %s" % (o.name, k, o.ns[k].why))
                return o.ns[k]
            sub = self.np.mod_attr(self, o, k)
            if sub is not None:
                return sub
            if parse(o.name) is not None and o.name not in self.stubs:
                raise PyRaise("AttributeError", "module %s has no %s" % (o.name, k))
            raise Stuck("%s.%s" % (o.name, k))
        if isinstance(o, Cls):
            r = o.lookup(k)
            if r is None:
                if k == "__name__":
                    return o.name
                raise PyRaise("AttributeError", k)
            v = r[0]
            if isinstance(v, tuple) and len(v) == 2 and v[0] in ("staticmethod", "classmethod"):
                return v[1] if v[0] == "staticmethod" else Bound(o, v[1])
            return v
        if isinstance(o, tuple) and len(o) == 3 and o and o[0] == "super":
            for b in o[1].bases:
                if isinstance(b, Cls):
                    r = b.lookup(k)
                    if r:
                        return Bound(o[2], r[0])
            if k == "__init__":
                return Native(lambda i, a, kw: None)
            raise PyRaise("AttributeError", k)
        return self.np.attr(self, o, k)

    def setattr(self, o, k, v):
        if isinstance(o, (Obj,)):
            self.mark(o)
            o.attrs[k] = v
            return
        if isinstance(o, Cls):
            o.ns[k] = v
            return
        if isinstance(o, Arr) and k == "shape":
            raise Stuck("shape assignment")
        raise Stuck("setattr on %s" % type(o).__name__)

    def mark(self, o):
        for w in self.ctx.wlog:
            w.mark(o)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        i = self.ev(n.slice, env)
        self.line = n.lineno
        return self.getitem(o, i)

    def e_Slice(self, n, env):
        return Slice(self.ev(n.lower, env) if n.lower else None, self.ev(n.upper, env) if n.upper else None,
                     self.ev(n.step, env) if n.step else None)

    def getitem(self, o, i):
        return self.np.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.np.setitem(self, o, i, v)

    def e_JoinedStr(self, n, env):
        if self.ctx.opts.get("text"):
            import text
            out = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    out.append(v.value)
                else:
                    x = self.ev(v.value, env)
                    if v.conversion not in (-1, 115) or v.format_spec is not None and not isinstance(x, (SV, int)):
                        raise Stuck("f-string")
                    out.append(text.piece(self, x, "%s" if v.format_spec is None else "f" + ast.dump(v.format_spec) + "s"))
            return text.lit(text.Txt(out))
        return "<fstring>"

    def e_Starred(self, n, env):
        raise Stuck("starred")

    def comp_iter(self, gens, env, k):
        """run comprehension generators; concrete iteration unrolls, one symbolic generator maps"""
        if not gens:
            return [k(env)]
        g = gens[0]
        it = self.ev(g.iter, env)
        items = None
        try:
            items = self.aslist(it)
        except Stuck:
            items = None
        if items is not None:
            out = []
            for x in items:
                e2 = Env({}, env, env.glob)
                self.assign(g.target, x, e2)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.ev(c, e2), "comp-if"):
                        ok = False
                        break
                if ok:
                    r = self.comp_iter(gens[1:], e2, k)
                    if isinstance(r, SymList):
                        if len(items) == 1:
                            return r
                        raise Stuck("nested symbolic comprehension")
                    out.extend(r)
            return out
        import loops
        return loops.map_symbolic(self, g, it, env, gens[1:], k)

    def e_ListComp(self, n, env):
        r = self.comp_iter(n.generators, Env({}, env, env.glob), lambda e: self.ev(n.elt, e))
        return r

    def e_GeneratorExp(self, n, env):
        r = self.e_ListComp(n, env)
        return r if isinstance(r, SymList) else PyIter(r)

    def e_DictComp(self, n, env):
        r = self.comp_iter(n.generators, Env({}, env, env.glob), lambda e: (self.ev(n.key, e), self.ev(n.value, e)))
        return dict(r)


class PyIter:
    def __init__(self, items):
        self.items = items


class WLog:
    """write log of a region: first-touch snapshots (for undo) and array write events"""

    def __init__(self):
        self.objs = {}
        self.events = []
        self.n0 = Store.count

    def mark(self, o):
        if isinstance(o, Store) and o.id > self.n0:
            return                                  # created inside the region: nothing to undo
        if id(o) not in self.objs:
            self.objs[id(o)] = (o, obj_state(o))

    def undo(self):
        for o, s in self.objs.values():
            obj_restore(o, s)


def obj_state(o):
    if isinstance(o, Store):
        return (o.fn, o.memo)
    if isinstance(o, Obj):
        return dict(o.attrs)
    if isinstance(o, (list, dict, set)):
        return o.copy()
    if isinstance(o, SymList):
        return (o.n, o.fn)
    if hasattr(o, "nc_state"):
        return o.nc_state()
    raise Stuck("write to %s" % type(o).__name__)


def obj_restore(o, s):
    if isinstance(o, Store):
        o.fn, o.memo = s
    elif isinstance(o, Obj):
        o.attrs = dict(s)
    elif isinstance(o, list):
        o[:] = s
    elif isinstance(o, (dict, set)):
        o.clear()
        o.update(s)
    elif isinstance(o, SymList):
        o.n, o.fn = s
    else:
        o.nc_restore(s)


# --------------------------------------------------------------------------- exploration
def explore(run, facts, summaries=None, hints=None, opts=None, stubs=None, maxpaths=400):
    """run(interp, ctx) executes one path and adds obligations; all feasible paths are explored"""
    work = [[]]
    paths = []
    n = 0
    while work:
        dec = work.pop()
        n += 1
        if n > maxpaths:
            raise Stuck("more than %d paths" % maxpaths)
        ctx = Ctx(facts, dec, summaries or {}, hints or {}, opts or {})
        it = Interp(ctx, dict(stubs or {}))
        try:
            run(it, ctx)
            paths.append(ctx)
        except PathEnd:
            pass
        work.extend(ctx.alts)
    return paths
