"""the job driver run on an unknown job file: settings are unknown values of the stated kind, the file system is unknown"""
from common import *
import text, interp
from text import Txt, Piece, Words

# setting -> kinds a well-formed job file allows (the first one is used unless the setting is free)
KINDS = {("geometry", "ra"): ["float", "list"], ("geometry", "rb"): ["float", "list"], ("geometry", "d"): ["float"],
         ("geometry", "precision"): ["float"], ("geometry", "lmax"): ["int", "automatic"], ("geometry", "lssmax"): ["int", "automatic"],
         ("geometry", "l_offset"): ["int", "absent"], ("geometry", "evaluation"): ["text", "absent"],
         ("geometry", "analytic_n0"): ["absent", "yes", "no"],
         ("materials", "mata"): ["material"], ("materials", "matb"): ["material"], ("materials", "matmd"): ["material"],
         ("thermodynamics", "tmin"): ["float"], ("thermodynamics", "tmax"): ["float"], ("thermodynamics", "nmax"): ["int", "automatic"],
         ("thermodynamics", "quantity"): ["text"]}


class Job:
    def __init__(self, it, free=(), distance=None, fixed=None):
        self.it, self.free, self.kind = it, set(free), {("geometry", k): v for k, v in (fixed or {}).items()}
        self.geoms, self.fins, self.evals = [], [], []
        self.files = text.Files(it)
        self.mats = {}
        self.distance = distance

    def what(self, sec, opt):
        opt = opt.lower()
        if (sec, opt) not in KINDS:
            return "absent"
        k = (sec, opt)
        if k not in self.kind:
            ks = KINDS[k]
            self.kind[k] = ks[0] if opt not in self.free or len(ks) == 1 else ks[self.it.ctx.decide(len(ks), "kind of %s" % opt)]
        return self.kind[k]

    def num(self, sec, opt, kind):
        return SV(var("cfg:" + opt, "I" if kind == "int" else "R"), "int" if kind == "int" else "float")

    def n_list(self, opt):
        return 2 + var("layers:" + opt, "I", 0)

    def parts(self, opt):
        return SymList(self.n_list(opt), lambda j: Txt([Piece("part %s of %s" % (j, opt), nl=False, conv={"float": lambda it: SV(uf("cfg:" + opt, [toE(j)]), "float")})]))

    # ---- configparser
    def parser(self):
        def val(args, kw):
            sec, opt = args[0], args[1]
            if not isinstance(sec, str) or not isinstance(opt, str):
                raise Stuck("unknown setting read")
            if sec not in ("geometry", "materials", "thermodynamics"):
                raise PyRaise("NoSectionError", sec)
            k = self.what(sec, opt)
            if k == "absent":
                if "fallback" in kw:
                    return k, opt.lower(), sec, True
                raise PyRaise("NoOptionError", opt)
            return k, opt.lower(), sec, False

        def get(it, a, kw):
            k, opt, sec, fb = val(a, kw)
            if fb:
                return kw["fallback"]
            if k == "automatic":
                return "automatic"
            none = lambda it: None
            cv = {"float": none, "int": none}
            if k in ("float", "int"):
                cv["float"] = lambda it: SV(self.num(sec, opt, k).e, "float")
                if k == "int":
                    cv["int"] = lambda it: self.num(sec, opt, k)
                cv["parts"] = lambda it: [Txt([Piece("setting %s" % opt, conv=cv)])]
            if k == "list":
                cv["parts"] = lambda it: self.parts(opt)
            return Txt([Piece("setting %s" % opt, nl=True, src=("cfg", sec, opt), conv=cv)])

        def getfloat(it, a, kw):
            k, opt, sec, fb = val(a, kw)
            if fb:
                return kw["fallback"]
            if k not in ("float", "int"):
                raise PyRaise("ValueError", opt)
            return SV(self.num(sec, opt, k).e, "float")

        def getint(it, a, kw):
            k, opt, sec, fb = val(a, kw)
            if fb:
                return kw["fallback"]
            if k != "int":
                raise PyRaise("ValueError", opt)
            return self.num(sec, opt, k)

        def getboolean(it, a, kw):
            k, opt, sec, fb = val(a, kw)
            if fb:
                return kw["fallback"]
            if k not in ("yes", "no"):
                raise PyRaise("ValueError", opt)
            return k == "yes"
        N = lambda f, n: Native(f, n)
        o = Obj(None, name="config")

        def read(it, a, kw):
            x = a[0]
            if isinstance(x, Txt) and x.key() == FIN.key():
                self.read = True
                return [x]
            raise Stuck("another file is read")

        def guard(f):
            def g(it, a, kw):
                if not getattr(self, "read", False):
                    raise Stuck("settings used before the job file is read")
                return f(it, a, kw)
            return g
        o.attrs.update({"read": N(read, "read"), "get": N(guard(get), "get"), "getfloat": N(guard(getfloat), "getfloat"), "getint": N(guard(getint), "getint"),
                        "getboolean": N(guard(getboolean), "getboolean"),
                        "has_option": N(guard(lambda it, a, kw: self.what(a[0], a[1]) != "absent"), "has_option")})
        return o

    # ---- eval of settings
    def material(self, opt):
        if opt not in self.mats:
            rad = {"mata": "ra", "matb": "rb"}.get(opt)
            one = rad is None or self.what("geometry", rad) != "list"
            mk = lambda k: Obj(None, name="material %s%s" % (opt, k))
            self.mats[opt] = mk("") if one else tuple(mk("[%d]" % k) for k in range(3))
        return self.mats[opt]

    def eval_(self, it, t, env):
        ps = t.pieces
        cfg = lambda p: isinstance(p, Piece) and isinstance(p.src, tuple) and p.src[0] == "cfg"
        if len(ps) == 1 and cfg(ps[0]) and ps[0].src[1] == "materials":
            return self.material(ps[0].src[2])
        if len(ps) == 2 and isinstance(ps[0], str) and ps[0].endswith(".") and ps[0][:-1].isidentifier() and cfg(ps[1]):
            r = Obj(None, name="value of " + ps[1].src[2])
            self.evals.append((it.lookup(ps[0][:-1], env), ps[1].src[1:], r))
            return r
        raise Stuck("eval of %r" % (t,))

    # ---- the two objects
    def s_geom(self, it, args, kw, f):
        a = it.bind(f, args, kw)
        g = a.pop("self")
        self.geoms.append((g, dict(a)))
        it.mark(g)
        for k in ("r1", "r2", "L", "precision"):
            g.attrs[k] = a.get(k)
        for k in ("lmax", "l_offset", "lssmax"):
            g.attrs[k] = SV(var("geom:" + k, "I", 0), "int")
        ev = a.get("evaluation")
        g.attrs["evaluation"] = Txt([Piece("evaluation in force", nl=False)]) if isinstance(ev, Txt) else ev
        g.attrs["roundTrip_dct"] = Obj(None, {"__text__": Txt([Piece("recorded round trips", nl=False)])}, name="roundTrip_dct")
        return None

    def s_fin(self, it, args, kw, f):
        a = it.bind(f, args, kw)
        s = a.pop("self")
        self.fins.append((s, dict(a)))
        it.mark(s)
        s.attrs.update({"nmax": SV(var("fin:nmax", "I", 0), "int"), "deltaT": a.get("deltaT"), "Tmax": a.get("Tmax")})
        return None

    def run(self):
        it = self.it
        exc = {n: TypeV(n) for n in ("NoOptionError", "NoSectionError", "Error")}
        parser = Native(lambda i, a, kw: self.parser(), "RawConfigParser")
        it.stubs["configparser"] = Mod("configparser", dict(exc, RawConfigParser=parser))
        argv = [Txt([Piece("program")]), FIN, FOUT]
        self.override = self.distance if self.distance is not None else it.ctx.decide(2, "distance on the command line") == 1
        if self.override:
            argv.append(Txt([Piece("distance argument", conv={"float": lambda it: SV(var("arg:distance"), "float")})]))
        n = getattr(self, "argv", None)
        if n is not None:
            argv = [Txt([Piece("argument %d" % k)]) for k in range(n)]
        it.stubs["sys"] = Mod("sys", {"argv": argv})
        N = lambda f, n: Native(f, n)
        F = self.files
        it.stubs["os.path"] = Mod("os.path", {"exists": N(F.exists, "exists"), "isfile": N(F.exists, "isfile"), "lexists": N(F.exists, "lexists")})
        it.stubs["os"] = Mod("os", {"path": it.stubs["os.path"]})
        it.builtins["open"] = N(F.open, "open")
        it.module("numpy").ns["savetxt"] = N(F.savetxt, "savetxt")
        it.ctx.opts = dict(it.ctx.opts, text=True, eval=self.eval_)
        S = it.ctx.summaries
        it.ctx.summaries = dict(S, **{"geometry.SphereSphere.__init__": self.s_geom, "thermodynamics.finiteT.__init__": self.s_fin})
        pr = interp.parse("worker")
        ns = {"__name__": "__main__"}
        env = interp.Env(ns, None, ns)
        it.modules["worker"] = Mod("worker", ns)
        try:
            for st in pr[0].body:
                it.exec(st, env)
        except PyRaise as e:
            if n is not None:
                return Raised(e.kind, e.msg)
            fail(it, "a well-formed job runs", "raises %s (%s)" % (e.kind, e.msg))
            return False
        return True


FIN, FOUT = Txt([Piece("job file name", nl=False)]), Txt([Piece("result file name", nl=False)])
TRUST = ["configparser: get, getfloat, getint, getboolean return the setting of the file that was read, read as text, float, int, boolean; ValueError / NoOptionError otherwise",
         "eval of a material setting: one material, or a tuple for layers (as many as radii); eval('f.<quantity>'): that quantity of f"]
