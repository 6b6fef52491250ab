"""shared by all contract files"""
from fractions import Fraction
from core import *
import core
import smt
from smt import Prover, prove, FACT_PROVIDERS
from vals import *
import npstub, loops
from interp import explore, Obj, Cls, Func, PathEnd, WLog
from verify import *
from verify import PathEnd2


def idx(it, shape, tag="q"):
    """universally quantified index tuple inside shape, and a prover knowing its range"""
    p = it.ctx.prover.copy()
    ix = []
    for s in shape:
        if s.const() == 1:
            ix.append(ZERO)
            continue
        v = it.ctx.fresh(tag, "I", 0)
        p.assume(cmp_("<", v, s))
        ix.append(v)
    return tuple(ix), p


def snapshot(o):
    """attributes of an object (identity and, for arrays, content)"""
    return {k: (v, v.store.fn if isinstance(v, Arr) else list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else None)
            for k, v in o.attrs.items()}


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, SV) and isinstance(b, SV):
        return cmp_("==", a.e, b.e).op == "T"
    if isinstance(a, (int, float, str, bool, tuple, type(None))) and type(a) is type(b):
        return a == b
    return False


def frame_obj(it, name, o, snap, allow=()):
    """no attribute of o present in the snapshot was rebound or changed in place (allow: names that may change)"""
    for k, (v, c) in snap.items():
        if k in allow:
            continue
        if k not in o.attrs:
            return fail(it, name, "attribute %s was removed" % k, soft=True)
        w = o.attrs[k]
        if not same_value(v, w):
            return fail(it, name, "attribute %s was rebound" % k, soft=True)
        if isinstance(v, Arr) and v.store.fn is not c:
            return fail(it, name, "array %s was written" % k, soft=True)
        if isinstance(v, list) and (len(v) != len(c) or any(x is not y for x, y in zip(v, c))):
            return fail(it, name, "list %s was changed" % k, soft=True)
    new = [k for k in o.attrs if k not in snap and k not in allow]
    if new:
        return fail(it, name, "new attributes %s" % ", ".join(new), soft=True)
    return ok(it, name)


def overwrite(a, uname):
    """the caller overwrites its own array in place with fresh values"""
    a.store.set_fn(lambda ix: uf(uname, list(ix), pos=1))


def frame_arr(it, name, a, fn):
    """array a was not written since its element function was fn"""
    if a.store.fn is fn:
        return ok(it, name)
    ix, p = idx(it, a.store.shape)
    return post(it, name, cmp_("==", a.store.get(ix), fn(ix)), prover=p)


def response(name):
    """elementwise positive function of k, as the contract of materials.*.epsilon / mu (C01) promises"""
    def call(it, args, kw):
        k = args[0] if args else list(kw.values())[0]
        if isinstance(k, Arr):
            g = k.snap()
            return mkarr(k.shape, lambda ix: uf(name, [g(ix)], pos=1))
        return SV(uf(name, [num(k)], pos=1), "float")
    return Native(call, name)


def abs_material(it, tag, pec=False, sigma=True, diel=True, magnetic=False, **extra):
    """any material: epsilon and mu are arbitrary positive functions of k"""
    cls = it.module("materials").ns["Material"]
    a = dict(epsilon=response("eps" + tag), mu=response("mu" + tag), is_perfect_conductor=pec, is_sigma_finite=sigma,
             is_dielectric=diel, is_magnetic=magnetic, name="mat" + tag)
    a.update(extra)
    if pec:
        a.pop("epsilon")
    return Obj(cls, a, name="mat" + tag)


def eps(tag, k):
    return uf("eps" + tag, [k], pos=1)


def mu(tag, k):
    return uf("mu" + tag, [k], pos=1)
