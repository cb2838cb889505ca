"""Symbolic Python values: numbers (R), booleans that fork (SB), object arrays (SA), strings (SymStr)."""
from fractions import Fraction
import numbers
import numpy as np
from . import terms as tm
from .terms import T, C

ENGINE = None  # current explorer path


class PathStop(BaseException):
    """Abandon the current path (infeasible assumption)."""


class Bound(BaseException):
    """A loop / path bound was hit: the path is outside the claim."""


def lift(x):
    """Python number -> term."""
    if isinstance(x, R):
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, SB):
        return tm.ite(x.c, tm.ONE, tm.ZERO)
    if isinstance(x, (bool, np.bool_)):
        return tm.num(int(x))
    if isinstance(x, (int, np.integer)):
        return tm.num(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            raise tm.Unsupported(f"non-finite {x}")
        return tm.num(x)
    if isinstance(x, Fraction):
        return tm.num(x)
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return tm.add(tm.num(x.real), tm.mul(tm.num(x.imag), tm.I))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise TypeError(f"not a number: {type(x).__name__}")


def isnumlike(x):
    return isinstance(x, (R, SB, bool, int, float, complex, Fraction, np.number, np.bool_))


def wrap(t):
    """Term -> R (constants become plain Python numbers only where exact ints)."""
    return R(t)


class SB:
    """Symbolic truth value. bool() asks the explorer."""

    __slots__ = ("c",)
    __array_ufunc__ = None

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        if self.c is tm.TRUE:
            return True
        if self.c is tm.FALSE:
            return False
        return ENGINE.decide(self.c)

    def _o(self, o):
        if isinstance(o, SB):
            return o.c
        if isinstance(o, (bool, np.bool_, int)):
            return tm.boolc(bool(o))
        return None

    def __and__(self, o):
        c = self._o(o)
        return NotImplemented if c is None else SB(tm.andc(self.c, c))

    __rand__ = __and__

    def __or__(self, o):
        c = self._o(o)
        return NotImplemented if c is None else SB(tm.orc(self.c, c))

    __ror__ = __or__

    def __invert__(self):
        return SB(tm.notc(self.c))

    def __eq__(self, o):
        c = self._o(o)
        if c is None:
            return NotImplemented
        return SB(tm.orc(tm.andc(self.c, c), tm.andc(tm.notc(self.c), tm.notc(c))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    __hash__ = None

    def logical_not(self):
        return ~self

    def _num(self):
        return R(tm.ite(self.c, tm.ONE, tm.ZERO))

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"SB({self.c})"


def mkbool(c):
    if c is tm.TRUE:
        return True
    if c is tm.FALSE:
        return False
    return SB(c)


TOKENS = {}


def token(t, spec=""):
    k = f"\u27e6{t.id}{'|' + spec if spec else ''}\u27e7"
    TOKENS[k] = (t, spec)
    return k


class R:
    """A real (or formal complex) symbolic number."""

    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return 0x51F1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("symbolic value cannot be pickled")

    # arithmetic -------------------------------------------------------
    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray) and not (o.ndim == 0):
            return NotImplemented
        if not isnumlike(o) and not isinstance(o, np.ndarray):
            return NotImplemented
        t = lift(o)
        return R(f(t, self.t) if swap else f(self.t, t))

    def __add__(self, o):
        return self._bin(o, tm.add)

    def __radd__(self, o):
        return self._bin(o, tm.add, True)

    def __sub__(self, o):
        return self._bin(o, tm.sub)

    def __rsub__(self, o):
        return self._bin(o, tm.sub, True)

    def __mul__(self, o):
        return self._bin(o, tm.mul)

    def __rmul__(self, o):
        return self._bin(o, tm.mul, True)

    def __truediv__(self, o):
        return self._bin(o, tm.div)

    def __rtruediv__(self, o):
        return self._bin(o, tm.div, True)

    def __pow__(self, o, mod=None):
        return self._bin(o, tm.powr)

    def __rpow__(self, o):
        return self._bin(o, tm.powr, True)

    def __neg__(self):
        return R(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return R(tm.abst(self.t))

    # comparison -------------------------------------------------------
    def _cmp(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if not isnumlike(o) and not isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and (o != o or o in (np.inf, -np.inf)):
            # symbolic values stand for finite reals
            if f in ("eq",):
                return False
            if f == "ne":
                return True
            if o != o:
                return False
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0}[f]
        a, b = self.t, lift(o)
        if f == "lt":
            return mkbool(tm.lt(a, b))
        if f == "le":
            return mkbool(tm.le(a, b))
        if f == "gt":
            return mkbool(tm.lt(b, a))
        if f == "ge":
            return mkbool(tm.le(b, a))
        if f == "eq":
            return mkbool(tm.eq(a, b))
        return mkbool(tm.notc(tm.eq(a, b)))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __bool__(self):
        return bool(mkbool(tm.notc(tm.eq(self.t, tm.ZERO))))

    # numpy object-dtype method protocol ---------------------------------
    def exp(self):
        return R(tm.exp(self.t))

    def log(self):
        return R(tm.log(self.t))

    def sqrt(self):
        return R(tm.sqrt(self.t))

    def conjugate(self):
        return self

    @property
    def real(self):
        return R(tm.re(self.t))

    @property
    def imag(self):
        return R(tm.re(tm.mul(tm.neg(tm.I), self.t))) if tm.has_i(self.t) else R(tm.ZERO)

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def item(self):
        return self

    def copy(self):
        return self

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise TypeError("'float' object is not subscriptable")

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def astype(self, *a, **k):
        return self

    def is_integer(self):
        return False

    # conversions --------------------------------------------------------
    def __float__(self):
        if self.t.op == "num":
            return float(self.t.args[0])
        raise tm.Unsupported("float() of a symbolic value inside compiled code")

    def __int__(self):
        if self.t.op == "num":
            return int(self.t.args[0])
        raise tm.Unsupported("int() of a symbolic value")

    __index__ = None
    del __index__

    def __round__(self, n=None):
        if self.t.op == "num":
            return R(tm.num(round(self.t.args[0], n))) if n is not None else round(self.t.args[0])
        return R(tm.fn("round", self.t, n))

    round = __round__

    def __str__(self):
        return token(self.t)

    def __repr__(self):
        return token(self.t)

    def __format__(self, spec):
        return token(self.t, spec)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_handler(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return arrayfn(func, args, kwargs)


numbers.Real.register(R)


class IA(np.ndarray):
    """Integer array convertible to int when it has one element (as in the numpy of the code under check)."""

    def __int__(self):
        return int(self.item())


class SA(np.ndarray):
    """Object array of symbolic numbers."""

    __array_priority__ = 500

    def __new__(cls, x, shape=None):
        if isinstance(x, np.ndarray):
            a = x.astype(object) if x.dtype != object else x
        else:
            a = np.array(x, dtype=object)
        return a.view(cls)

    def __str__(self):
        return token_array(self, {})

    def __repr__(self):
        return "array(" + token_array(self, {}) + ")"

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_handler(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return arrayfn(func, args, kwargs)

    def astype(self, dtype=None, *a, **k):
        if dtype is object:
            return np.ndarray.astype(self, object)
        return self.copy()

    def __getitem__(self, i):
        if isinstance(i, SA):
            i = np.array([bool(x) for x in plain(i).ravel()], dtype=bool).reshape(i.shape)
        return np.ndarray.__getitem__(self, i)

    def __setitem__(self, i, v):
        if isinstance(i, SA):
            if isinstance(v, np.ndarray) and v.ndim:
                i = np.array([bool(x) for x in plain(i).ravel()], dtype=bool).reshape(i.shape)
            else:
                np.ndarray.__setitem__(self, Ellipsis, plain(where(i, v, self)))
                return
        np.ndarray.__setitem__(self, i, v)

    def max(self, axis=None, **k):
        return _reduce(lambda a, b: _max(a, b), self, axis)

    def min(self, axis=None, **k):
        return _reduce(lambda a, b: _min(a, b), self, axis)

    def sum(self, axis=None, **k):
        return _reduce(lambda a, b: a + b, self, axis, 0)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def std(self, axis=None, ddof=0, **k):
        return _sqrt(self.var(axis, ddof))

    def var(self, axis=None, ddof=0, **k):
        n = self.size if axis is None else self.shape[axis]
        m = self.mean(axis)
        if axis is not None:
            m = np.expand_dims(np.asarray(m, dtype=object), axis)
        d = plain(self) - m
        return SA(d * d).sum(axis) / (n - ddof)

    def prod(self, axis=None, **k):
        return _reduce(lambda a, b: a * b, self, axis, 1)

    def cumsum(self, axis=None, **k):
        return SA(np.cumsum(plain(self), axis=axis))

    def round(self, decimals=0, out=None):
        return _ew(lambda x: round(_asR(x), decimals), self)

    def any(self, axis=None, **k):
        if axis is not None:
            raise tm.Unsupported("any(axis)")
        return mkbool(tm.orc(*[_cond(x) for x in self.ravel().tolist()])) if self.size else False

    def all(self, axis=None, **k):
        if axis is not None:
            raise tm.Unsupported("all(axis)")
        return mkbool(tm.andc(*[_cond(x) for x in self.ravel().tolist()])) if self.size else True

    @property
    def real(self):
        return _ew(lambda x: _asR(x).real, self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel()[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(self.ravel()[0])
        raise tm.Unsupported("float(array)")

    def __int__(self):
        if self.size == 1:
            return int(self.ravel()[0])
        raise tm.Unsupported("int(array)")

    def __deepcopy__(self, memo):
        return self.copy()

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        return SA(arr)


class SymStr(str):
    """A string about which only comparisons are asked (an arbitrary, unknown style name)."""

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(tm.sboolc(f"{str.__str__(self)}=={o}"))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (~r if isinstance(r, SB) else not r)

    def __hash__(self):
        return str.__hash__(self)

    def __deepcopy__(self, memo):
        return self


def _cond(x):
    if isinstance(x, SB):
        return x.c
    if isinstance(x, R):
        return tm.notc(tm.eq(x.t, tm.ZERO))
    return tm.boolc(bool(x))


def plain(a):
    return a.view(np.ndarray) if isinstance(a, SA) else a


def _asR(x):
    return x if isinstance(x, R) else R(lift(x))


def _max(a, b):
    return R(tm.maxt(lift(a), lift(b)))


def _min(a, b):
    return R(tm.mint(lift(a), lift(b)))


def _sqrt(x):
    return _ew(lambda y: R(tm.sqrt(lift(y))), x)


def issym(x):
    if isinstance(x, (R, SB, SA)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(issym(y) for y in x)
    return False


def _ew(f, *args):
    """Element-wise with broadcasting, object result."""
    if not any(isinstance(a, np.ndarray) and a.ndim for a in args):
        return f(*[a.item() if isinstance(a, (np.ndarray, np.generic)) else a for a in args])
    arrs = [plain(a) if isinstance(a, np.ndarray) else _box(a) for a in args]
    b = np.broadcast(*arrs)
    out = np.empty(b.shape, dtype=object)
    out_flat = [f(*v) for v in b]
    flat = out.reshape(-1)
    for i, v in enumerate(out_flat):
        flat[i] = v
    return SA(flat.reshape(b.shape))


def _box(x):
    if isinstance(x, (list, tuple)):
        return np.array(x, dtype=object)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _reduce(f, a, axis, init=None):
    a = plain(a)
    if axis is None:
        vals = a.ravel().tolist()
        if not vals:
            return init
        r = vals[0]
        for v in vals[1:]:
            r = f(r, v)
        return r
    a = np.moveaxis(a, axis, 0)
    r = a[0]
    for i in range(1, a.shape[0]):
        r = _ew(f, r, a[i])
    return SA(r) if isinstance(r, np.ndarray) else r


def _power(a, b):
    if isinstance(a, (int, np.integer)) and not isinstance(a, bool) and isinstance(b, (int, np.integer)):
        return int(a) ** int(b) if b >= 0 else R(tm.powi(tm.num(int(a)), int(b)))
    return R(tm.powr(lift(a), lift(b)))


def _arith(op):
    def f(a, b):
        if not isinstance(a, (R, SB)) and not isinstance(b, (R, SB)):
            return op(a, b)
        return op(a, b)

    return f


import operator as _op  # noqa: E402


def _cmpf(name):
    def f(a, b):
        return getattr(_asR(a), f"_cmp")(b, name)

    return f


def _isfinite(x):
    if isinstance(x, (R, SB)):
        return True
    return bool(np.isfinite(x))


UF = {
    np.add: _op.add,
    np.subtract: _op.sub,
    np.multiply: _op.mul,
    np.true_divide: lambda a, b: _asR(a) / b,
    np.power: _power,
    np.float_power: _power,
    np.negative: _op.neg,
    np.positive: lambda a: a,
    np.exp: lambda a: R(tm.exp(lift(a))),
    np.expm1: lambda a: R(tm.sub(tm.exp(lift(a)), tm.ONE)),
    np.log: lambda a: R(tm.log(lift(a))),
    np.log1p: lambda a: R(tm.log(tm.add(tm.ONE, lift(a)))),
    np.log2: lambda a: R(tm.div(tm.log(lift(a)), tm.log(tm.num(2)))),
    np.log10: lambda a: R(tm.div(tm.log(lift(a)), tm.log(tm.num(10)))),
    np.sqrt: lambda a: R(tm.sqrt(lift(a))),
    np.square: lambda a: R(tm.powi(lift(a), 2)),
    np.reciprocal: lambda a: R(tm.div(tm.ONE, lift(a))),
    np.absolute: lambda a: R(tm.abst(lift(a))),
    np.fabs: lambda a: R(tm.abst(lift(a))),
    np.sign: lambda a: R(tm.sign(lift(a))),
    np.maximum: _max,
    np.minimum: _min,
    np.fmax: _max,
    np.fmin: _min,
    np.less: _cmpf("lt"),
    np.less_equal: _cmpf("le"),
    np.greater: _cmpf("gt"),
    np.greater_equal: _cmpf("ge"),
    np.equal: _cmpf("eq"),
    np.not_equal: _cmpf("ne"),
    np.logical_not: lambda a: mkbool(tm.notc(_cond(a))),
    np.logical_and: lambda a, b: mkbool(tm.andc(_cond(a), _cond(b))),
    np.logical_or: lambda a, b: mkbool(tm.orc(_cond(a), _cond(b))),
    np.bitwise_and: lambda a, b: mkbool(tm.andc(_cond(a), _cond(b))),
    np.bitwise_or: lambda a, b: mkbool(tm.orc(_cond(a), _cond(b))),
    np.invert: lambda a: mkbool(tm.notc(_cond(a))),
    np.isinf: lambda a: False if isinstance(a, (R, SB)) else bool(np.isinf(a)),
    np.isnan: lambda a: False if isinstance(a, (R, SB)) else bool(np.isnan(a)),
    np.isfinite: _isfinite,
    np.conjugate: lambda a: a,
    np.matmul: None,
}


def ufunc_handler(ufunc, method, inputs, kwargs):
    out = kwargs.get("out")
    if ufunc is np.matmul and method == "__call__":
        a, b = [plain(x) for x in inputs]
        r = np.dot(a, b)
        return SA(r) if isinstance(r, np.ndarray) else r
    f = UF.get(ufunc)
    if f is None:
        raise tm.Unsupported(f"numpy.{ufunc.__name__}")
    if method == "__call__":
        if kwargs.get("where", True) is not True:
            raise tm.Unsupported("ufunc where=")
        args = [np.array(x, dtype=object) if isinstance(x, (list, tuple)) else x for x in inputs]
        r = _ew(f, *args)
    elif method == "reduce":
        r = _reduce(f, SA(inputs[0]) if not isinstance(inputs[0], SA) else inputs[0], kwargs.get("axis", 0),
                    {np.add: 0, np.multiply: 1}.get(ufunc))
    elif method == "accumulate":
        a = plain(SA(inputs[0]))
        ax = kwargs.get("axis", 0)
        a = np.moveaxis(a, ax, 0)
        rows = [a[0]]
        for i in range(1, a.shape[0]):
            rows.append(plain(_ew(f, rows[-1], a[i])) if isinstance(a[i], np.ndarray) else f(rows[-1], a[i]))
        o = np.empty(a.shape, dtype=object)
        for i, v in enumerate(rows):
            o[i] = v
        r = SA(np.moveaxis(o, 0, ax))
    elif method == "outer":
        a, b = [plain(SA(x)) for x in inputs]
        r = _ew(f, a.reshape(a.shape + (1,) * b.ndim), b)
    else:
        raise tm.Unsupported(f"numpy.{ufunc.__name__}.{method}")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        plain(o)[...] = plain(r) if isinstance(r, np.ndarray) else r
        return o
    return r


def where(c, *ab):
    if not ab:
        if isinstance(c, SA):
            c = np.array([bool(x) for x in c.ravel()]).reshape(c.shape)
        return tuple(x.view(IA) for x in np.where(c))
    a, b = ab
    if not issym(c) and not issym(a) and not issym(b):
        return np.where(c, a, b)

    def f(x, y, z):
        k = _cond(x)
        if k is tm.TRUE or k is tm.FALSE:
            v = y if k is tm.TRUE else z
            return np.asarray(v)[()] if type(v) in (int, float) else v
        return R(tm.ite(k, lift(y), lift(z)))

    r = _ew(f, *[np.array(x, dtype=object) if isinstance(x, (list, tuple)) else x for x in (c, a, b)])
    return r


def arrayfn(func, args, kwargs):
    """numpy API functions reached with symbolic arguments."""
    n = func.__name__
    if n in ("sum", "mean", "std", "var", "max", "min", "amax", "amin", "prod", "cumsum", "any", "all", "nansum",
             "nanmean", "nanmax", "nanmin"):
        n = n.replace("amax", "max").replace("amin", "min").replace("nan", "")
        a = args[0] if args else kwargs.pop("a")
        a = a if isinstance(a, SA) else SA(a)
        kw = {k: v for k, v in kwargs.items() if k in ("axis", "ddof")}
        if len(args) > 1:
            kw["axis"] = args[1]
        r = getattr(a, n)(**kw)
        if kwargs.get("keepdims"):
            if kw.get("axis") is None:
                raise tm.Unsupported("keepdims")
            r = SA(np.expand_dims(plain(r), kw["axis"]))
        return r
    if n == "where":
        return where(*args)
    if n in ("real",):
        a = args[0]
        return a.real
    if n == "imag":
        return _ew(lambda x: _asR(x).imag, args[0])
    if n in ("round", "around", "round_"):
        d = args[1] if len(args) > 1 else kwargs.get("decimals", 0)
        return _ew(lambda x: round(_asR(x), d), args[0])
    if n == "clip":
        a, lo, hi = (list(args) + [kwargs.get("a_min"), kwargs.get("a_max")])[:3]
        r = a
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r
    if n == "isclose" or n == "allclose":
        raise tm.Unsupported(n)
    if n in ("array2string", "array_str", "array_repr"):
        return token_array(args[0], kwargs)
    if n == "diff":
        a = plain(args[0])
        return SA(a[1:] - a[:-1])
    if n in ("zeros_like", "ones_like", "empty_like", "full_like"):
        return {"zeros_like": lambda: full(args[0].shape, 0.0), "ones_like": lambda: full(args[0].shape, 1.0),
                "empty_like": lambda: full(args[0].shape, 0.0), "full_like": lambda: full(args[0].shape, args[1])}[n]()
    if n in ("isreal", "iscomplexobj", "array_equal"):
        raise tm.Unsupported(n)

    def un(x):
        if isinstance(x, SA):
            return plain(x)
        if isinstance(x, R):
            return _box(x)
        if isinstance(x, tuple):
            return tuple(un(y) for y in x)
        if isinstance(x, list):
            return [un(y) for y in x]
        return x

    r = func(*[un(a) for a in args], **{k: un(v) for k, v in kwargs.items()})
    return rewrap(r)


def rewrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return SA(r)
    if isinstance(r, tuple):
        return tuple(rewrap(x) for x in r)
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    return r


def token_array(a, kw):
    """As numpy prints a one-dimensional array: long ones are abbreviated."""
    vals = [str(x) for x in SA(a).ravel().tolist()]
    edge = kw.get("edgeitems") or 3
    if len(vals) > (1000 if kw.get("threshold") is None else kw["threshold"]) and len(vals) > 2 * edge:
        vals = vals[:edge] + ["..."] + vals[-edge:]
    return f"[{(kw.get('separator') or ' ').join(vals)}]"


def full(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(v) if not isinstance(v, np.ndarray) else a.__setitem__(Ellipsis, v)
    return SA(a)
