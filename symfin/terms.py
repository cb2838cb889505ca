"""Hash-consed real-valued terms and conditions: the symbolic values the code under check computes with."""
from fractions import Fraction
import math
import numpy as np

_tab = {}


class T:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError("terms are process-local")


def _mk(op, args):
    key = (op,) + tuple(a.id if isinstance(a, (T, C)) else a for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, len(_tab)
        _tab[key] = t
    return t


class C:
    """Condition (boolean term)."""

    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show_c(self)


def _mkc(op, args):
    key = ("c" + op,) + tuple(a.id if isinstance(a, (T, C)) else a for a in args)
    t = _tab.get(key)
    if t is None:
        t = C()
        t.op, t.args, t.id = op, args, len(_tab)
        _tab[key] = t
    return t


class Unsupported(Exception):
    """The symbolic layer cannot represent an operation."""


def rationalize(x):
    """A float literal or concrete intermediate as the rational it stands for: a short fraction when one lies
    within rounding distance (1/36, 0.1, 0.25), else the decimal that repr() shows."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported(f"non-finite constant {x}")
    if x == int(x) and abs(x) < 1e18:
        return Fraction(int(x))
    f = Fraction(x).limit_denominator(4096)
    if abs(f - Fraction(x)) <= abs(Fraction(x)) * Fraction(1, 2**52):
        return f
    return Fraction(repr(x))


def num(x):
    return _mk("num", (rationalize(x),))


ZERO = num(0)
ONE = num(1)
MONE = num(-1)
PI = _mk("pi", ())
I = _mk("i", ())

# the sign declared for an input is part of its term: workers go on from case to case and cases may reuse a name
VARS = {}


def var(name, pos=False):
    if name[:1] not in "!$":
        pos = VARS.setdefault(name, pos)
    return _mk("var", (name, bool(pos)))


def isnum(t):
    return t.op == "num"


def add(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if b.op == "num" and a.op == "add" and a.args[0].op == "num":
        return add(num(a.args[0].args[0] + b.args[0]), a.args[1])
    if a.op == "num" and b.op == "add" and b.args[0].op == "num":
        return add(num(b.args[0].args[0] + a.args[0]), b.args[1])
    if neg(a) is b:
        return ZERO
    if b.op == "num" or (a.op != "num" and a.id > b.id):
        a, b = b, a
    return _mk("add", (a, b))


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] * b.args[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if b.op == "num":
        a, b = b, a
    if a.op == "num" and b.op == "mul" and b.args[0].op == "num":
        return mul(num(a.args[0] * b.args[0].args[0]), b.args[1])
    if a.op != "num" and a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b))


def powi(a, k):
    k = int(k)
    if k == 0:
        return ONE
    if k == 1:
        return a
    if a.op == "num":
        if a.args[0] == 0 and k < 0:
            raise ZeroDivisionError("division by zero")
        return num(a.args[0] ** k)
    if a.op == "pow":
        return powi(a.args[0], a.args[1] * k)
    return _mk("pow", (a, k))


def div(a, b):
    if b is ZERO:
        raise ZeroDivisionError("division by zero")
    return mul(a, powi(b, -1))


def powr(a, e):
    """a ** e for a term exponent: integers exactly, otherwise exp(e log a) (a > 0 is a definedness condition)."""
    if e.op == "num":
        q = e.args[0]
        if q.denominator == 1:
            return powi(a, q.numerator)
        if q.denominator == 2:
            return powi(sqrt(a), q.numerator)
    return exp(mul(e, log(a)))


def exp(a):
    if a is ZERO:
        return ONE
    if a.op == "log":
        return a.args[0]
    return _mk("exp", (a,))


def log(a):
    if a is ONE:
        return ZERO
    if a.op == "exp" and not has_i(a):
        return a.args[0]
    return _mk("log", (a,))


def sqrt(a):
    if a.op == "num":
        q = a.args[0]
        if q >= 0:
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return num(Fraction(n, d))
    return _mk("sqrt", (a,))


def phi(a):
    return _mk("phi", (a,))


def fn(name, *args):
    return _mk("fn", (name,) + args)


def maxt(a, b):
    if a is b:
        return a
    if a.op == "num" and b.op == "num":
        return a if a.args[0] >= b.args[0] else b
    if a.id > b.id:
        a, b = b, a
    return _mk("max", (a, b))


def mint(a, b):
    return neg(maxt(neg(a), neg(b)))


def abst(a):
    if a.op == "num":
        return num(abs(a.args[0]))
    return maxt(a, neg(a))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _mk("ite", (c, a, b))


def sign(a):
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), MONE, ZERO))


def re(a):
    if not has_i(a):
        return a
    return _mk("re", (a,))


def deriv(n, body, bound, point):
    """n-th derivative of `body` with respect to variable `bound`, at `point` (left symbolic)."""
    return _mk("deriv", (int(n), body, bound, point))


def integral(body, bound, lo, hi):
    return _mk("int", (body, bound, lo, hi))


# ---------------------------------------------------------------- conditions
TRUE = _mkc("true", ())
FALSE = _mkc("false", ())


def boolc(b):
    return TRUE if b else FALSE


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "num" and b.op == "num":
        return boolc(a.args[0] < b.args[0])
    return _mkc("lt", (a, b))


def le(a, b):
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return boolc(a.args[0] <= b.args[0])
    return _mkc("le", (a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return boolc(a.args[0] == b.args[0])
    if a.id > b.id:
        a, b = b, a
    return _mkc("eq", (a, b))


def notc(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "lt":
        return le(c.args[1], c.args[0])
    if c.op == "le":
        return lt(c.args[1], c.args[0])
    return _mkc("not", (c,))


def andc(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is not TRUE and c not in out:
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else _mkc("and", tuple(out))


def orc(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is not FALSE and c not in out:
            out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else _mkc("or", tuple(out))


def sboolc(name):
    """An uninterpreted boolean (e.g. `style == "x"` for a symbolic string)."""
    return _mkc("sbool", (name,))


# ---------------------------------------------------------------- traversal
_has_i = {}


def has_i(t):
    r = _has_i.get(t.id)
    if r is None:
        if t.op == "i":
            r = True
        elif t.op in ("re",):
            r = False
        else:
            r = any(isinstance(a, T) and has_i(a) for a in t.args)
        _has_i[t.id] = r
    return r


def topo(roots):
    """All T/C nodes below roots, children first (iterative)."""
    seen, out, stack = set(), [], [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, (T, C)) and a.id not in seen:
                stack.append((a, False))
    return out


def free_vars(roots):
    return sorted({n.args[0] for n in topo(roots) if isinstance(n, T) and n.op == "var"})


_REB = {
    "add": add, "mul": mul, "exp": exp, "log": log, "sqrt": sqrt, "phi": phi, "max": maxt, "ite": ite, "re": re,
    "lt": lt, "le": le, "eq": eq, "not": notc,
}


def rebuild(n, args):
    if n.op in _REB:
        return _REB[n.op](*args)
    if n.op == "and":
        return andc(*args)
    if n.op == "or":
        return orc(*args)
    if n.op == "pow":
        return powi(*args)
    if isinstance(n, C):
        return _mkc(n.op, tuple(args))
    return _mk(n.op, tuple(args))


def subst(roots, mapping):
    """Replace nodes (by id) in all roots. mapping: {T: T}."""
    m = {k.id: v for k, v in mapping.items()}
    for n in topo(roots):
        if n.id in m:
            continue
        if not any(isinstance(a, (T, C)) for a in n.args):
            m[n.id] = n
            continue
        args = [m[a.id] if isinstance(a, (T, C)) else a for a in n.args]
        if all(x is y for x, y in zip(args, n.args)):
            m[n.id] = n
        else:
            m[n.id] = rebuild(n, args)
    return [m[r.id] for r in roots]


SQRT2PI = sqrt(mul(num(2), PI))


def ndf(x):
    return div(exp(div(neg(mul(x, x)), num(2))), SQRT2PI)


def D(root, v, memo=None):
    """Exact derivative of a term with respect to variable v."""
    memo = {} if memo is None else memo
    for n in topo([root]):
        if not isinstance(n, T) or n.id in memo:
            continue
        o, a = n.op, n.args
        if n is v:
            d = ONE
        elif o in ("num", "var", "pi", "i"):
            d = ZERO
        elif o == "add":
            d = add(memo[a[0].id], memo[a[1].id])
        elif o == "mul":
            d = add(mul(memo[a[0].id], a[1]), mul(a[0], memo[a[1].id]))
        elif o == "pow":
            d = mul(mul(num(a[1]), powi(a[0], a[1] - 1)), memo[a[0].id])
        elif o == "exp":
            d = mul(n, memo[a[0].id])
        elif o == "log":
            d = div(memo[a[0].id], a[0])
        elif o == "sqrt":
            d = div(memo[a[0].id], mul(num(2), n))
        elif o == "phi":
            d = mul(ndf(a[0]), memo[a[0].id])
        elif o == "max":
            d = ite(lt(a[1], a[0]), memo[a[0].id], memo[a[1].id])
        elif o == "ite":
            d = ite(a[0], memo[a[1].id], memo[a[2].id])
        elif o == "re":
            d = re(memo[a[0].id])
        elif o == "int":
            if a[2].op == "num" and (isinstance(a[3], str) or a[3].op == "num"):
                db = memo[a[0].id]
                d = ZERO if db is ZERO else integral(db, a[1], a[2], a[3])
            else:
                raise Unsupported("derivative of integral with symbolic limits")
        else:
            if all(memo.get(x.id, ZERO) is ZERO for x in a if isinstance(x, T)):
                d = ZERO
            else:
                raise Unsupported("derivative of " + o)
        memo[n.id] = d
    return memo[root.id]


# ---------------------------------------------------------------- numeric evaluation
class NotEvaluable(Exception):
    pass


def _hastings(x):
    k = 1 / (1 + 0.2316419 * abs(x))
    r = math.exp(-x * x / 2) / math.sqrt(8 * math.atan(1)) * (
        0.319381530 * k - 0.356563782 * k**2 + 1.781477937 * k**3 - 1.821255978 * k**4 + 1.330274429 * k**5
    ) - 0.5
    return 0.5 - r * ((x > 0) - (x < 0))


def _cbnd(a, b, rho, n=40):
    """Bivariate normal distribution function (Plackett's identity, Gauss-Legendre)."""
    x, w = _GL.setdefault(n, np.polynomial.legendre.leggauss(n))
    s = rho * (x + 1) / 2
    f = np.exp(-(a * a - 2 * a * b * s + b * b) / (2 * (1 - s * s))) / np.sqrt(1 - s * s)
    return _ncdf(a) * _ncdf(b) + float(np.dot(w, f)) * rho / 2 / (2 * math.pi)


def _ncdf(x):
    return math.erfc(-x / math.sqrt(2)) / 2


def _eurocall(S, K, t, r, b, s):
    d = (math.log(S / K) + (b + s * s / 2) * t) / (s * math.sqrt(t))
    return S * math.exp((b - r) * t) * _ncdf(d) - K * math.exp(-r * t) * _ncdf(d - s * math.sqrt(t))


_GL = {}
FN_EVAL = dict(cbnd=_cbnd, eurocall=_eurocall)
EVAL_DERIV = True


def evalf(roots, env):
    """Float evaluation of T and C roots. Undefined operations give nan."""
    m = evalf_map(roots, env)
    out = []
    for r in roots:
        v = m[r.id]
        if v is NOTEV:
            raise NotEvaluable(show(r) if isinstance(r, T) else show_c(r))
        out.append(v)
    return out


def evalf_map(roots, env):
    import cmath

    m = {}
    nan = float("nan")
    for n in topo(roots):
        a = n.args
        o = n.op
        try:
            if isinstance(n, C):
                if o == "true":
                    v = True
                elif o == "false":
                    v = False
                elif o == "lt":
                    v = m[a[0].id] < m[a[1].id]
                elif o == "le":
                    v = m[a[0].id] <= m[a[1].id]
                elif o == "eq":
                    v = m[a[0].id] == m[a[1].id]
                elif o == "not":
                    v = not m[a[0].id]
                elif o == "and":
                    v = all(m[x.id] for x in a)
                elif o == "or":
                    v = any(m[x.id] for x in a)
                elif o == "sbool":
                    v = bool(env.get(a[0], False))
                else:
                    raise NotEvaluable(o)
            elif o == "num":
                v = float(a[0])
            elif o == "var":
                if a[0] not in env:
                    raise NotEvaluable("var " + a[0])
                v = env[a[0]]
            elif o == "pi":
                v = math.pi
            elif o == "i":
                v = 1j
            elif o == "add":
                v = m[a[0].id] + m[a[1].id]
            elif o == "mul":
                v = m[a[0].id] * m[a[1].id]
            elif o == "pow":
                v = m[a[0].id] ** a[1]
            elif o == "exp":
                x = m[a[0].id]
                v = cmath.exp(x) if isinstance(x, complex) else math.exp(x)
            elif o == "log":
                x = m[a[0].id]
                v = cmath.log(x) if isinstance(x, complex) else math.log(x)
            elif o == "sqrt":
                v = math.sqrt(m[a[0].id])
            elif o == "phi":
                v = _hastings(m[a[0].id])
            elif o == "max":
                x, y = m[a[0].id], m[a[1].id]
                v = nan if (x != x or y != y) else max(x, y)
            elif o == "ite":
                v = m[a[1].id] if m[a[0].id] else m[a[2].id]
            elif o == "re":
                x = m[a[0].id]
                if x is NOTEV:
                    raise NotEvaluable(o)
                v = x.real
            elif o == "deriv":
                if not EVAL_DERIV:
                    raise NotEvaluable(o)
                body = a[1]
                for _ in range(a[0]):
                    body = D(body, a[2])
                v = evalf([body], dict(env, **{a[2].args[0]: m[a[3].id]}))[0]
            elif o == "int":
                v = _quad(a, env, m)
            elif o == "fn" and a[0] in FN_EVAL:
                v = FN_EVAL[a[0]](*[m[x.id] if isinstance(x, T) else x for x in a[1:]])
            else:
                raise NotEvaluable(o)
        except NotEvaluable:
            v = NOTEV
        except (ValueError, ZeroDivisionError, OverflowError):
            v = nan
        except (TypeError, Unsupported):
            v = NOTEV
        m[n.id] = v
    return m


def _quad(a, env, m):
    from scipy.integrate import quad
    import warnings

    name = a[1].args[0]

    def f(x):
        return evalf([a[0]], dict(env, **{name: x}))[0]

    lo = m[a[2].id]
    hi = math.inf if a[3] == "inf" else m[a[3].id]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return quad(f, lo, hi, epsabs=1e-8, epsrel=1e-8, limit=60)[0]


class _NotEv:
    def _r(self, *a):
        raise TypeError

    __add__ = __radd__ = __mul__ = __rmul__ = __pow__ = __lt__ = __le__ = __bool__ = __eq__ = __gt__ = __ge__ = _r
    __hash__ = None


NOTEV = _NotEv()


def show(t, depth=6):
    if t.op == "num":
        return str(t.args[0])
    if t.op == "var":
        return t.args[0]
    if depth == 0:
        return "…"
    return t.op + "(" + ", ".join(
        show(a, depth - 1) if isinstance(a, T) else show_c(a, depth - 1) if isinstance(a, C) else str(a) for a in t.args
    ) + ")"


def show_c(c, depth=6):
    if depth == 0:
        return "…"
    return c.op + "(" + ", ".join(
        show(a, depth - 1) if isinstance(a, T) else show_c(a, depth - 1) if isinstance(a, C) else str(a) for a in c.args
    ) + ")"
