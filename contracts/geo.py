from common import *

GEO = "geometry.SphereSphere."


def geom(it, **kw):
    cls = it.module("geometry").ns["SphereSphere"]
    a = dict(mat1=abs_material(it, "1"), mat2=abs_material(it, "2"), mat3=abs_material(it, "3"), r1=SV(var("r1", pos=1), "float"),
             r2=SV(var("r2", pos=1), "float"), L=SV(var("L", pos=1), "float"), lmax=SV(var("lmax", "I", 1), "int"), lssmax=SV(var("lssmax", "I", 1), "int"),
             precision=SV(var("prec", pos=1), "float"), conv=SV(var("conv", pos=1), "float"), forceFlag=0, ext_flag=SV(ONE, "float"), evaluation="lndet")
    a.update(kw)
    return Obj(cls, a, name="geom")


def kval(ix):
    return uf("k", [ix[0]], pos=1)


def block(m):
    return var("lmax", "I", 1) - ite(cmp_(">=", m, 1), m, ONE) + 1


# ---------------------------------------------------------------- reflections and translations: named functions of their arguments
SC, ST, TR = "scattering.scattering.", "stratified_sphere_scattering.StratifiedMieScattering.", "translation.translation."


def label(x):
    """name of what a reflection or translation was asked for: materials, lists of them, numbers"""
    if isinstance(x, Obj):
        return x.name
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(label(y) for y in x) + "]"
    return show(num(x))


def pick(i, xs):
    e = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        e = ite(cmp_("==", i, j), xs[j], e)
    return e


def mie_args(names):
    def get(args, kw):
        a = dict(zip(names, args))
        a.update(kw)
        return a
    return get


def refl(tag, names):
    def s(it, args, kw, f):
        a = mie_args(names)(args, kw)
        me = a.pop("self")
        k = a["k"]
        if not isinstance(k, Arr) or len(k.shape) != 1:
            raise Stuck("wavenumbers must be an array")
        lo, hi = num(a["lmin"]), num(a["lmax"])
        g = k.snap()
        what = "/".join([tag] + [label(x) for x in me.attrs["@what"]] + [label(a[n]) for n in names[4:]])
        return mkarr((C(3), k.shape[0], hi - lo + 1), lambda ix: pick(ix[0], [uf(what + ":%d" % c, [g((ix[1],)), lo + ix[2]]) for c in range(3)]))
    return s


def keep(*names):
    def s(it, args, kw, f):
        a = mie_args(("self",) + names)(args, kw)
        a["self"].attrs["@what"] = [list(a[n]) if isinstance(a[n], list) else a[n] for n in names]
        return None
    return s


def keep_tr(it, args, kw, f):
    names = ("lmax", "lssmax", "m", "material", "L", "k", "ext_flag", "forceFlag")
    a = mie_args(("self",) + names)(args, kw)
    a["self"].attrs["@what"] = {n: a.get(n, 0) for n in names}
    k = a["k"]
    a["self"].attrs["@k"] = k.snap()
    return None


def trans(it, args, kw, f):
    w = args[0].attrs["@what"]
    g = args[0].attrs["@k"]
    m, lmax, lss, k = num(w["m"]), num(w["lmax"]), num(w["lssmax"]), w["k"]
    lo = ite(cmp_(">", m, 1), m, ONE)
    what = "V/%s/%s/%s" % (label(w["material"]), label(w["L"]), label(w["ext_flag"]))
    if num(w["forceFlag"]).const() != 0:
        raise Stuck("derivative of the translation")
    sh = (lmax - lo + 1, lss - lo + 1)
    if k.shape[0].const() == 1 and g((ZERO,)).is_zero():
        return [mkarr(sh, lambda ix, c=c: uf(what + "/0:%d" % c, [m, lo + ix[0], lo + ix[1]])) for c in range(2)]
    return [mkarr((k.shape[0],) + sh, lambda ix, c=c: uf(what + ":%d" % c, [g((ix[0],)), m, lo + ix[1], lo + ix[2]])) for c in range(5)]


CO = "scattering.coated_miescattering."
SUM = {SC + "__init__": keep("mat1", "mat2"), SC + "mie": refl("mie", ("self", "k", "lmin", "lmax", "r")),
       SC + "mie_internal": refl("int", ("self", "k", "lmin", "lmax", "r")),
       ST + "__init__": keep("mat_list", "r_list"), ST + "mie_stratified": refl("strat", ("self", "k", "lmin", "lmax")),
       CO + "__init__": keep("mat1", "mat2", "mat3"), CO + "mie_coated": refl("coat", ("self", "k", "lmin", "lmax", "ri", "ra")),
       TR + "__init__": keep_tr, TR + "trans_ab": trans}
