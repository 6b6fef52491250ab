"""Values of the symbolic interpreter: typed scalars, arrays (index functions with views), lists."""
from core import *
import core
from fractions import Fraction


class PyRaise(Exception):
    """a Python exception raised by interpreted code"""
    def __init__(self, kind, msg=""):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class SV:
    """scalar of the interpreted program; ty: int float npint npfloat"""
    __slots__ = ("e", "ty")

    def __init__(self, e, ty="float"):
        self.e = toE(e)
        self.ty = ty

    def __repr__(self):
        return "SV(%s:%s)" % (self.e, self.ty)


class SB:
    __slots__ = ("b", "ty")

    def __init__(self, b, ty="bool"):
        self.b = b
        self.ty = ty

    def __repr__(self):
        return "SB(%r)" % (self.b,)


class Inf:
    def __init__(self, sign=1):
        self.sign = sign

    def __repr__(self):
        return "inf"


INF = Inf()


def isnum(v):
    return isinstance(v, (int, float, Fraction, SV)) and not isinstance(v, bool) or isinstance(v, bool)


def num(v):
    """E of a scalar value"""
    if isinstance(v, SV):
        return v.e
    if isinstance(v, SB):
        return ite(v.b, ONE, ZERO)
    if isinstance(v, (bool, int, Fraction, float)):
        return toE(v)
    if isinstance(v, Arr) and v.ndim == 0:
        return v.get(())
    if isinstance(v, Inf):
        raise Stuck("arithmetic with infinity")
    raise Stuck("number expected, got %s" % type(v).__name__)


def sv(e, ty):
    """wrap; concrete python ints stay python ints"""
    if ty == "int":
        c = e.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return SV(e, ty)


def tyof(v):
    if isinstance(v, bool):
        return "int"
    if isinstance(v, int):
        return "int"
    if isinstance(v, SV):
        return v.ty
    if isinstance(v, SB):
        return "int"
    if isinstance(v, (float, Fraction)):
        return "float"
    if isinstance(v, Arr):
        return {"int": "npint", "bool": "npint"}.get(v.dtype, "npfloat")
    raise Stuck("type of %s" % type(v).__name__)


def is_intty(t):
    return t in ("int", "npint")


def join_ty(a, b, div=False):
    np_ = a.startswith("np") or b.startswith("np")
    if is_intty(a) and is_intty(b) and not div:
        return "npint" if np_ else "int"
    return "npfloat" if np_ else "float"


# --------------------------------------------------------------------- arrays
class Store:
    __slots__ = ("fn", "shape", "dtype", "id", "memo", "label")
    count = 0

    def __init__(self, shape, fn, dtype="float"):
        self.shape = tuple(toE(s) for s in shape)
        self.fn = fn
        self.dtype = dtype
        Store.count += 1
        self.id = Store.count
        self.memo = {}
        self.label = None

    def get(self, idx):
        p = core.PROVER[0]
        k = (p.stamp if p is not None else 0,) + tuple(i.key() for i in idx)
        r = self.memo.get(k)
        if r is None:
            r = self.fn(idx)
            self.memo[k] = r
        return r

    def set_fn(self, fn):
        self.fn = fn
        self.memo = {}


class Arr:
    """view on a Store. axes[k] for store axis k: ('fix', e) or ('aff', start, step, vaxis)"""
    __slots__ = ("store", "axes", "shape", "mask")

    def __init__(self, store, axes=None, shape=None):
        self.store = store
        if axes is None:
            axes = [("aff", ZERO, 1, k) for k in range(len(store.shape))]
            shape = store.shape
        self.axes = axes
        self.shape = tuple(shape)
        self.mask = None

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.store.dtype

    def base_idx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                _, st, sp, v = a
                out.append(st + idx[v] * sp if sp != 1 else st + idx[v])
        return tuple(out)

    def get(self, idx):
        return self.store.get(self.base_idx(tuple(toE(i) for i in idx)))

    def snap(self):
        """frozen element function (later writes do not show)"""
        st = self.store
        fn, memo = st.fn, st.memo
        full = self.axes

        def g(idx):
            b = self.base_idx(idx)
            if st.fn is fn:
                return st.get(b)
            return fn(b)
        return g

    def is_owner(self):
        return all(a[0] == "aff" and a[1].is_zero() and a[2] == 1 and a[3] == k for k, a in enumerate(self.axes)) \
            and len(self.axes) == len(self.shape)

    def __repr__(self):
        return "Arr%s" % (tuple(show(s) for s in self.shape),)


def mkarr(shape, fn, dtype="float"):
    shape = tuple(toE(s) for s in shape)
    return Arr(Store(shape, _memo(fn), dtype))


def _memo(fn):
    return fn


class MaskSel:
    """x[mask] with an elementwise mask: values live on the full index space"""
    __slots__ = ("shape_full", "maskfn", "fn", "dtype", "mkey")

    def __init__(self, shape_full, maskfn, fn, dtype, mkey):
        self.shape_full, self.maskfn, self.fn, self.dtype, self.mkey = shape_full, maskfn, fn, dtype, mkey


class SymList:
    """python list of symbolic length"""
    __slots__ = ("n", "fn", "name")

    def __init__(self, n, fn, name=None):
        self.n, self.fn, self.name = toE(n), fn, name


class SymRange:
    __slots__ = ("lo", "hi", "step", "n")

    def __init__(self, lo, hi, step, n=None):
        self.lo, self.hi, self.step, self.n = lo, hi, step, n

    def length(self):
        if self.step == 1:
            return self.hi - self.lo
        if self.step == -1:
            return self.lo - self.hi
        if self.n is not None:
            return self.n
        raise Stuck("range with step %s and symbolic bounds" % self.step)


class Obj:
    __slots__ = ("cls", "attrs", "name")

    def __init__(self, cls, attrs=None, name=None):
        self.cls, self.attrs, self.name = cls, dict(attrs or {}), name

    def __repr__(self):
        return "<obj %s>" % (self.name or getattr(self.cls, "name", "?"))


class Cls:
    def __init__(self, name, bases, ns, qual):
        self.name, self.bases, self.ns, self.qual = name, bases, ns, qual

    def lookup(self, k):
        if k in self.ns:
            return self.ns[k], self
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(k)
                if r is not None:
                    return r
        return None

    def isub(self, other):
        return self is other or any(isinstance(b, Cls) and b.isub(other) for b in self.bases)


class Func:
    def __init__(self, node, env, module, name, qual, defaults, kwdefaults, cls=None):
        self.node, self.env, self.module, self.name, self.qual = node, env, module, name, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Native:
    """python-implemented callable: fn(interp, args, kwargs)"""
    def __init__(self, fn, name="native"):
        self.fn, self.name = fn, name

    def __repr__(self):
        return "<native %s>" % self.name


class Mod:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class TypeV:
    """type objects the code compares with"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name


class Slice:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


NEWAXIS = None          # np.newaxis is None
