"""Stand-ins for the libraries the code imports: numpy (object-typed creation, symbolic pi), math, cmath, scipy,
numdifftools, matplotlib.  Everything not overridden is the real library."""
import builtins
import math
import cmath
import types
import numpy as np
from . import terms as tm
from . import sym
from .sym import R, SB, SA, lift, issym, full, mkbool

PI = R(tm.PI)


class Shim(types.ModuleType):
    def __init__(self, name, real, **over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)
        self.__dict__["__path__"] = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        real = self.__dict__["_real"]
        if real is None:
            raise tm.Unsupported(f"{self.__name__}.{k}")
        return getattr(real, k)


# ---------------------------------------------------------------- numpy
def obj(a):
    """Float-valued real arrays become object arrays; integer and boolean ones stay."""
    if isinstance(a, SA):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype == object or a.dtype.kind in "fc":
            return SA(a)
    return a


def _isint(dtype):
    try:
        return dtype is not None and dtype is not float and np.dtype(dtype).kind in "iub"
    except TypeError:
        return False


def _shape(s):
    return s


def zeros(shape, dtype=None, *a, **k):
    return np.zeros(shape, dtype) if _isint(dtype) else full(shape, 0.0)


def ones(shape, dtype=None, *a, **k):
    return np.ones(shape, dtype) if _isint(dtype) else full(shape, 1.0)


def empty(shape, dtype=None, *a, **k):
    return np.empty(shape, dtype) if _isint(dtype) else full(shape, 0.0)


def npfull(shape, v, dtype=None, *a, **k):
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool) and (dtype is None or _isint(dtype)):
        return np.full(shape, v)
    return full(shape, v)


def _like(f, *rest):
    def g(a, *r, **k):
        shape = a.shape if hasattr(a, "shape") else np.shape(a)
        if isinstance(a, np.ndarray) and a.dtype.kind in "iub" and not r:
            return getattr(np, f)(a)
        k.pop("dtype", None)
        return {"zeros_like": lambda: full(shape, 0.0), "ones_like": lambda: full(shape, 1.0),
                "empty_like": lambda: full(shape, 0.0), "full_like": lambda: full(shape, *r)}[f]()

    return g


def array(x, dtype=None, **k):
    if isinstance(x, SA):
        return x.copy()
    if isinstance(x, R):
        return full((), x)
    if isinstance(x, np.ndarray):
        return obj(x.copy()) if not (dtype is float) else SA(x)
    if isinstance(x, (list, tuple)):
        x = [y.tolist() if isinstance(y, np.ndarray) else y for y in x]
        x = _tolist(x)
        if _anysym(x):
            return SA(np.array(x, dtype=object))
    if _isint(dtype):
        return np.array(x, dtype=dtype)
    return obj(np.array(x) if dtype is None else np.array(x, dtype=dtype))


def _tolist(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_tolist(y) for y in x]
    if isinstance(x, range):
        return list(x)
    return x


def _anysym(x):
    if isinstance(x, (list, tuple)):
        return any(_anysym(y) for y in x)
    return isinstance(x, (R, SB)) or (isinstance(x, np.ndarray) and x.dtype == object)


def asarray(x, dtype=None, **k):
    if isinstance(x, SA):
        return x
    if isinstance(x, np.ndarray):
        return obj(x)
    return array(x, dtype)


def arange(*a, **k):
    if any(isinstance(x, R) for x in a):
        a = [int(x) if x.t.op == "num" and x.t.args[0].denominator == 1 else x for x in
             [y if isinstance(y, R) else R(lift(y)) for y in a]]
        if any(isinstance(x, R) for x in a):
            raise tm.Unsupported("arange of symbolic values")
    return obj(np.arange(*a, **k))


def linspace(a, b, num=50, endpoint=True, **k):
    n = int(num)
    step = (R(lift(b)) - a) / ((n - 1) if endpoint else n)
    return SA(np.array([R(lift(a)) + step * i for i in range(n)] + [None], dtype=object)[:-1])


def repeat(a, reps, axis=None):
    r = np.repeat(sym.plain(asarray(a)) if not isinstance(a, R) else sym._box(a), reps, axis=axis)
    return obj(r)


def _wrapfn(f):
    def g(*a, **k):
        if not any(_contains_sym(x) for x in a) and not any(_contains_sym(x) for x in k.values()):
            return obj_any(f(*a, **k))
        return sym.arrayfn(f, a, k)

    g.__name__ = getattr(f, "__name__", "f")
    return g


def _contains_sym(x):
    if isinstance(x, (R, SB, SA)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_contains_sym(y) for y in x)
    return False


def obj_any(r):
    if isinstance(r, np.ndarray):
        return obj(r)
    if isinstance(r, tuple):
        return tuple(obj_any(x) for x in r)
    if isinstance(r, list):
        return [obj_any(x) for x in r]
    return r


def _exp1(x):
    if issym(x):
        return np.exp(x)
    return obj_any(np.exp(x))


class _Ufunc:
    """A ufunc: constants become exact symbolic constants, so sqrt(2) or exp(0.5) stay exact."""

    def __init__(self, u, exact):
        self.u, self.exact = u, exact
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        a = [np.array(x, dtype=object).view(SA) if isinstance(x, (list, tuple)) and _anysym(x) else x for x in a]
        if self.exact and len(a) == 1 and isinstance(a[0], (int, float, np.integer, np.floating)) and not k:
            return sym.UF[self.u](a[0])
        if self.exact and len(a) == 1 and isinstance(a[0], np.ndarray) and a[0].dtype != object and not k:
            return sym._ew(sym.UF[self.u], SA(a[0]))
        return obj_any(self.u(*a, **k))

    def __getattr__(self, n):
        f = getattr(self.u, n)
        if n in ("reduce", "accumulate", "outer", "at", "reduceat"):
            return lambda *a, **k: obj_any(f(*[SA(x) if _contains_sym(x) and not isinstance(x, (R, SA)) else x for x in a], **k))
        return f


EXACT = {np.exp, np.log, np.sqrt, np.log1p, np.expm1}


class _NpRandom(Shim):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _hook("np.random." + k)


def _isinf(sign):
    f = np.isposinf if sign > 0 else np.isneginf

    def one(x):
        return False if isinstance(x, R) else bool(f(x))

    def g(x, *a):
        if isinstance(x, np.ndarray) and x.ndim:
            return np.array([one(v) for v in x.ravel()], dtype=bool).reshape(x.shape)
        return one(x.item() if isinstance(x, np.ndarray) else x)

    return g


class NumpyShim(Shim):
    def __init__(self):
        super().__init__("numpy", np)
        d = self.__dict__
        d.update(
            zeros=zeros, ones=ones, empty=empty, full=npfull, array=array, asarray=asarray, asanyarray=asarray,
            ascontiguousarray=asarray, arange=arange, linspace=linspace, repeat=repeat, where=sym.where,
            zeros_like=_like("zeros_like"), ones_like=_like("ones_like"), empty_like=_like("empty_like"),
            full_like=_like("full_like"), pi=PI, atleast_1d=lambda x: asarray(x) if np.ndim(x) else array([x]),
            isscalar=lambda x: isinstance(x, R) or np.isscalar(x),
            iscomplexobj=lambda x: False if isinstance(x, (R, SA)) else np.iscomplexobj(x),
            e=R(tm.exp(tm.ONE)), ndim=lambda x: x.ndim if hasattr(x, "ndim") else np.ndim(x),
            shape=lambda x: x.shape if hasattr(x, "shape") else np.shape(x),
            size=lambda x: x.size if hasattr(x, "size") else np.size(x),
            float64=FloatShim, float32=FloatShim, float_=FloatShim, floating=FloatShim,
            abs=_Ufunc(np.absolute, False), absolute=_Ufunc(np.absolute, False),
            vectorize=vectorize, copy=lambda a, **k: a.copy() if hasattr(a, "copy") else array(a),
            isposinf=_isinf(1), isneginf=_isinf(-1), isreal=lambda x: True if isinstance(x, R) else np.isreal(x),
            polyval=polyval, random=_NpRandom("numpy.random", np.random),
        )
        for n in ("sum", "mean", "std", "var", "max", "min", "amax", "amin", "prod", "cumsum", "any", "all", "real",
                  "imag", "round", "around", "clip", "append", "concatenate", "reshape", "ravel", "flip", "hstack",
                  "vstack", "stack", "column_stack", "transpose", "dot", "inner", "outer", "diff", "tile", "roll", "squeeze",
                  "expand_dims", "insert", "delete", "isclose", "allclose", "array2string", "broadcast_to", "fliplr",
                  "flipud", "rot90", "moveaxis", "swapaxes", "take", "triu", "tril", "diag", "pad", "meshgrid",
                  "split", "array_split", "average", "cumprod", "einsum", "trace", "broadcast_arrays", "nansum",
                  "nanmean", "nanmax", "nanmin", "argmax", "argmin", "sort", "argsort", "searchsorted", "unique",
                  "count_nonzero", "convolve", "kron", "array_equal", "put", "copyto", "choose", "select",
                  "piecewise", "interp", "nditer", "ndenumerate", "atleast_2d", "identity", "eye", "logspace",
                  "geomspace", "fromiter", "dstack", "block", "median", "quantile", "percentile"):
            if hasattr(np, n):
                d[n] = _wrapfn(getattr(np, n))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = getattr(np, k)
        if isinstance(v, np.ufunc):
            w = _Ufunc(v, v in EXACT)
            self.__dict__[k] = w
            return w
        return v


def polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


class vectorize:
    def __init__(self, f, **k):
        self.f = f

    def __call__(self, *a):
        return sym._ew(self.f, *[np.array(x, dtype=object) if isinstance(x, (list, tuple)) else x for x in a])


# ---------------------------------------------------------------- numbers
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, R))

    def __subclasscheck__(cls, x):
        return x is R or (x is not FloatShim and isinstance(x, type) and issubclass(x, builtins.float)) or x is cls

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SB):
            return x._num()
        if isinstance(x, R):
            return x
        if isinstance(x, SA):
            if x.size == 1:
                v = x.ravel()[0]
                return v if isinstance(v, R) else builtins.float(v)
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return builtins.float(x)

    fromhex = builtins.float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, x):
        return isinstance(x, type) and x is not IntShim and issubclass(x, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, R):
            if x.t.op == "num":
                return builtins.int(x.t.args[0])
            raise tm.Unsupported("int() of a symbolic value")
        if isinstance(x, SA):
            return cls(x.ravel()[0])
        return builtins.int(x, *a)


def fmax(*a, **k):
    if "key" not in k:
        v = list(a[0]) if len(a) == 1 else list(a)
        if v and any(isinstance(x, R) for x in v) and all(sym.isnumlike(x) for x in v):
            r = v[0]
            for x in v[1:]:
                r = sym._max(r, x)
            return r
        if len(a) == 1:
            return builtins.max(v, **k)
    return builtins.max(*a, **k)


def fmin(*a, **k):
    if "key" not in k:
        v = list(a[0]) if len(a) == 1 else list(a)
        if v and any(isinstance(x, R) for x in v) and all(sym.isnumlike(x) for x in v):
            r = v[0]
            for x in v[1:]:
                r = sym._min(r, x)
            return r
        if len(a) == 1:
            return builtins.min(v, **k)
    return builtins.min(*a, **k)


def fpow(a, b, mod=None):
    return a**b if mod is None else builtins.pow(a, b, mod)


def _m1(f):
    u = {"exp": np.exp, "log": np.log, "sqrt": np.sqrt, "fabs": np.absolute, "expm1": np.expm1, "log1p": np.log1p}[f]

    def g(x, *rest):
        if isinstance(x, SA):
            x = x.ravel()[0]
        if f in ("sqrt", "log") and not isinstance(x, R) and isinstance(x, (int, float)) and x < 0:
            raise ValueError("math domain error")
        r = sym.UF[u](x)
        if f == "log" and rest:
            r = r / sym.UF[np.log](rest[0])
        return r

    return g


def m_atan(x):
    if isinstance(x, (int, float)) and x == 1:
        return R(tm.div(tm.PI, tm.num(4)))
    if isinstance(x, (int, float)):
        return math.atan(x)
    raise tm.Unsupported("atan")


def m_erf(x):
    # erf(x) = 2 Phi(x sqrt 2) - 1
    return R(tm.sub(tm.mul(tm.num(2), tm.phi(tm.mul(lift(x), tm.sqrt(tm.num(2))))), tm.ONE))


def m_erfc(x):
    return R(tm.sub(tm.ONE, lift(m_erf(x))))


def m_isfin(v):
    return lambda x: v if isinstance(x, R) else None


MATH = Shim("math", math, pi=PI, tau=PI * 2, e=R(tm.exp(tm.ONE)), exp=_m1("exp"), log=_m1("log"), sqrt=_m1("sqrt"),
            fabs=_m1("fabs"), expm1=_m1("expm1"), log1p=_m1("log1p"), atan=m_atan, erf=m_erf, erfc=m_erfc,
            pow=lambda a, b: R(tm.powr(lift(a), lift(b))),
            fsum=lambda xs: builtins.sum(xs),
            isnan=lambda x: False if isinstance(x, R) else math.isnan(x),
            isinf=lambda x: False if isinstance(x, R) else math.isinf(x),
            isfinite=lambda x: True if isinstance(x, R) else math.isfinite(x),
            copysign=lambda a, b: R(tm.mul(tm.abst(lift(a)), tm.sign(lift(b)))))
CMATH = Shim("cmath", cmath, exp=lambda x: R(tm.exp(lift(x))), log=lambda x: R(tm.log(lift(x))),
             sqrt=lambda x: R(tm.sqrt(lift(x))), pi=PI)


# ---------------------------------------------------------------- numdifftools
class NdDerivative:
    """Derivative(f, n)(x): the exact n-th derivative of f at x, kept symbolic."""

    def __init__(self, fun, step=None, method="central", order=2, n=1, **k):
        self.fun, self.n = fun, n
        self.step = step

    def __call__(self, x, *args, **kw):
        sym.ENGINE.note("nd", (self.n, x, self.step))
        if isinstance(x, np.ndarray) and x.ndim:  # numdifftools differentiates element by element
            ts = [lift(y) for y in x.ravel().tolist()]
            bs = [bound_var(t) for t in ts]
            for b, t in zip(bs, ts):
                sym.ENGINE.fact(tm.eq(b, t), "bound")
            v = self.fun(SA(np.array([R(b) for b in bs] + [None], dtype=object)[:-1].reshape(x.shape)), *args, **kw)
            vs = np.broadcast_to(sym.plain(v) if isinstance(v, np.ndarray) else sym._box(v), x.shape).ravel().tolist()
            out = []
            for i, (y, b, t) in enumerate(zip(vs, bs, ts)):
                y = lift(y)
                for j, (b2, t2) in enumerate(zip(bs, ts)):
                    if j != i:
                        y = tm.subst([y], {b2: t2})[0]
                out.append(R(tm.deriv(self.n, y, b, t)))
            return SA(np.array(out + [None], dtype=object)[:-1].reshape(x.shape))
        t = lift(x)
        bound = bound_var(t)
        sym.ENGINE.fact(tm.eq(bound, t), "bound")
        v = self.fun(R(bound), *args, **kw)
        if isinstance(v, np.ndarray) and v.size > 1:
            return sym._ew(lambda y: R(tm.deriv(self.n, lift(y), bound, t)), v)
        if isinstance(v, np.ndarray):
            v = v.ravel()[0]
        return R(tm.deriv(self.n, lift(v), bound, t))


def bound_var(t):
    pos = t.op == "var" and t.args[1]
    name = "$" + (t.args[0] if t.op == "var" else f"d{t.id}")
    return tm.var(name, pos=bool(pos))


ND = Shim("numdifftools", None, Derivative=NdDerivative)


# ---------------------------------------------------------------- scipy
class _Norm:
    @staticmethod
    def cdf(x, loc=0, scale=1):
        return sym._ew(lambda y: R(tm.phi(tm.div(tm.sub(lift(y), lift(loc)), lift(scale)))), x)

    @staticmethod
    def sf(x, loc=0, scale=1):
        return sym._ew(lambda y: R(tm.phi(tm.neg(tm.div(tm.sub(lift(y), lift(loc)), lift(scale))))), x)

    @staticmethod
    def pdf(x, loc=0, scale=1):
        return sym._ew(lambda y: R(tm.div(tm.ndf(tm.div(tm.sub(lift(y), lift(loc)), lift(scale))), lift(scale))), x)

    @staticmethod
    def logpdf(x, loc=0, scale=1):
        return sym._ew(lambda y: R(tm.log(lift(_Norm.pdf(y, loc, scale)))), x)

    @staticmethod
    def ppf(q):
        def f(y):
            if not isinstance(y, R) and y in (0, 1):
                return float("inf") if y else float("-inf")
            return R(tm.fn("ppf", lift(y)))

        return sym._ew(f, q)


HOOKS = {}


def _hook(name):
    def f(*a, **k):
        h = HOOKS.get(name)
        if h is None:
            raise tm.Unsupported(name)
        return h(*a, **k)

    f.__name__ = name.split(".")[-1]
    return f


def quad(func, a, b, args=(), **kw):
    """scipy.integrate.quad: the exact integral, kept symbolic."""
    v = tm.var("$q", pos=(a == 0 or (isinstance(a, (int, float)) and a >= 0)))
    if not isinstance(args, tuple):
        args = (args,)
    r = func(R(v), *args)
    if isinstance(r, np.ndarray):
        r = r.ravel()[0]
    lo = lift(a)
    hi = "inf" if b == np.inf else lift(b)
    sym.ENGINE.note("quad", dict(lo=a, hi=b, kw=kw))
    return (R(tm.integral(lift(r), v, lo, hi)), 0.0)


STATS = Shim("scipy.stats", None, norm=_Norm, qmc=Shim("scipy.stats.qmc", None, Sobol=_hook("qmc.Sobol")))
OPT = Shim("scipy.optimize", None, root_scalar=_hook("root_scalar"), root=_hook("root"), minimize=_hook("minimize"),
           brentq=_hook("brentq"), newton=_hook("newton"), bisect=_hook("bisect"))
INTEG = Shim("scipy.integrate", None, quad=quad)
SPECIAL = Shim("scipy.special", None, ndtr=_Norm.cdf, erf=m_erf, erfc=m_erfc)
SCIPY = Shim("scipy", None, stats=STATS, optimize=OPT, integrate=INTEG, special=SPECIAL)


# ---------------------------------------------------------------- matplotlib
class Recorder(Shim):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def f(*a, **kw):
            sym.ENGINE.note("plt." + k, (a, kw))
            return "figure" if k == "figure" else None

        return f


PLT = Recorder("matplotlib.pyplot", None)
MPL = Shim("matplotlib", None, pyplot=PLT)
NUMPY = NumpyShim()

MODULES = {
    "numpy": NUMPY, "math": MATH, "cmath": CMATH, "numdifftools": ND, "scipy": SCIPY, "scipy.stats": STATS,
    "scipy.optimize": OPT, "scipy.integrate": INTEG, "scipy.special": SPECIAL, "matplotlib": MPL,
    "matplotlib.pyplot": PLT, "pandas": Shim("pandas", None), "scipy.stats.qmc": STATS.qmc,
}


def fabs(x):
    return abs(x)


def fround(x, n=None):
    return round(x, n) if n is not None else round(x)


def fsum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def ftype(*a):
    if len(a) == 1 and isinstance(a[0], R):
        return FloatShim
    return type(*a)


BUILTINS = dict(max=fmax, min=fmin, float=FloatShim, int=IntShim, sum=fsum, pow=fpow)
