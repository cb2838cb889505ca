"""The symbolic world: harness code run over symbolic inputs, claims recorded as obligations."""
import contextlib
import io
import math
import re
import warnings
import numpy as np
from . import terms as tm
from . import sym, shims, loader, frac, conc
from .explore import Obl
from .terms import T
from .sym import R, SB, SA, lift, mkbool


class SymWorld:
    symbolic = True

    def __init__(self, path, decls, patch_cnd=True, patch_cbnd=False):
        self.p = path
        self.decls = decls
        self.fo = loader.load()
        self.np = shims.NUMPY
        self.pi = shims.PI
        self.reached = []
        self._cnd(patch_cnd, patch_cbnd)
        self.hooks = shims.HOOKS
        self.hooks.clear()
        undo_stubs()

    # ---- the normal distribution function as an uninterpreted Phi (its real code is decided by its own property)
    def _cnd(self, patch, patch2):
        base = self.fo.base._Base
        if not hasattr(base, "_real_CND"):
            base._real_CND = base.__dict__.get("_CND")
            base._real_CBND = base.__dict__.get("_CBND")
        self.opaque_phi = patch and base._real_CND is not None
        if base._real_CND is not None:
            base._CND = (lambda s, x: SymWorld.Phi(self, x)) if patch else base._real_CND
        if base._real_CBND is not None:
            base._CBND = (lambda s, a, b, rho: R(tm.fn("cbnd", lift(a), lift(b), lift(rho)))) if patch2 else base._real_CBND

    # ---- inputs
    def _decl(self, name, lo, hi, **k):
        self.decls.setdefault(name, dict(lo=lo, hi=hi, **k))

    def pos(self, name, lo=0.2, hi=3.0):
        self._decl(name, lo, hi)
        return R(tm.var(name, pos=True))

    def real(self, name, lo=-1.0, hi=1.0):
        self._decl(name, lo, hi)
        return R(tm.var(name))

    def rng(self, name, lo, hi, strict=True):
        pos = lo >= 0 if strict else lo > 0
        self._decl(name, lo, hi)
        v = R(tm.var(name, pos=pos))
        f = tm.lt if strict else tm.le
        self.p.fact(f(tm.num(lo), v.t))
        self.p.fact(f(v.t, tm.num(hi)))
        return v

    def string(self, name, choices=("zzz",)):
        self._decl(name, 0, 0, choices=list(choices))
        return sym.SymStr(name)

    def assume(self, c):
        if isinstance(c, SB):
            q = self.p.quick(c.c)
            if q is True:
                return
            if q is False:
                raise sym.PathStop()
            self.p.fact(c.c)
        elif not c:
            raise sym.PathStop()

    def positive(self, x):
        """Precondition x > 0, also used to simplify."""
        self.assume(x > 0)
        if isinstance(x, R):
            frac.declare(x.t)

    # ---- mathematics
    def exp(self, x):
        return R(tm.exp(lift(x)))

    def log(self, x):
        return R(tm.log(lift(x)))

    def sqrt(self, x):
        return R(tm.sqrt(lift(x)))

    def Phi(self, x):
        if self.opaque_phi:
            return sym._ew(lambda y: R(tm.phi(lift(y))), x)
        return self.real_cnd(x)

    def real_cnd(self, x):
        """The normal distribution function the prices use: the delta of an option with d1 = x and b = r."""
        base = self.fo.base._Base
        if base._real_CND is not None:
            return base._real_CND(self.fo.GBSOption(1, 1, 1, 0, 0, 1), x)
        return sym._ew(lambda y: self.fo.GBSOption(R(tm.exp(lift(y))), 1, 1, -0.5, -0.5, 1).delta(), x)

    def ndf(self, x):
        return R(tm.ndf(lift(x)))

    def cbnd(self, a, b, rho):
        return R(tm.fn("cbnd", lift(a), lift(b), lift(rho)))

    def max(self, a, *bs):
        for b in bs:
            a = sym._max(a, b)
        return a

    def min(self, a, *bs):
        for b in bs:
            a = sym._min(a, b)
        return a

    def abs(self, x):
        return abs(R(lift(x)))

    def ite(self, c, a, b):
        if isinstance(c, SB):
            return R(tm.ite(c.c, lift(a), lift(b)))
        return a if c else b

    def And(self, *cs):
        return mkbool(tm.andc(*[sym._cond(c) for c in cs]))

    def Or(self, *cs):
        return mkbool(tm.orc(*[sym._cond(c) for c in cs]))

    def Not(self, c):
        return mkbool(tm.notc(sym._cond(c)))

    def arr(self, xs):
        return SA(np.array(_objlist(xs), dtype=object)) if not isinstance(xs, np.ndarray) else xs

    def lin(self, a, b, n):
        return [a + (b - a) * i / (n - 1) for i in range(n)]

    def deriv(self, f, x, n=1, **k):
        """n-th derivative of f at x (as the numdifftools stand-in gives it)."""
        return shims.NdDerivative(f, n=n)(x)

    def dexact(self, f, x, n=1):
        """n-th derivative of f at x, differentiated term by term."""
        t = lift(x)
        b = shims.bound_var(t)
        self.p.fact(tm.eq(b, t), "bound")
        v = lift(f(R(b)))
        for _ in range(n):
            v = tm.D(v, b)
        return R(tm.subst([v], {b: t})[0])

    def dterm(self, v, x, n=1):
        """n-th derivative of the value v with respect to the input x."""
        t = lift(v)
        for _ in range(n):
            t = tm.D(t, lift(x))
        return R(t)

    def integral(self, f, lo, hi):
        v = tm.var("$q", pos=lo >= 0)
        return R(tm.integral(lift(_one(f(R(v)))), v, lift(lo), "inf" if hi == float("inf") else lift(hi)))

    def re(self, x):
        return R(tm.re(lift(x)))

    # ---- claims
    def _facts(self, o=None):
        at = (o or {}).pop("at", None)
        return len(self.p.facts) if at is None else at

    def mark(self):
        """The present point of the path; a claim with at=mark may use only the conditions known there (in particular
        not the definedness of anything computed later)."""
        return len(self.p.facts)

    def _nonfinite(self, kind, label, a, b):
        """A computed nan or infinity never equals (is ordered against) a real number; two floats are compared as such."""
        f = [x for x in (a, b) if isinstance(x, (float, np.floating)) and not math.isfinite(x)]
        if not f:
            return False
        if isinstance(a, (R, T)) or isinstance(b, (R, T)):
            ok = kind != "eq" and (a == -math.inf if isinstance(a, (float, np.floating)) else b == math.inf)
        else:
            ok = (a == b or (a != a and b != b)) if kind == "eq" else (a <= b if kind == "le" else a < b)
        self.check(label, bool(ok))
        return True

    def eq(self, label, a, b, tol=None, cut=False, **o):
        if self._nonfinite("eq", label, a, b):
            return
        self.p.obls.append(Obl(label, "eq", lift(_one(a)), lift(_one(b)), nfacts=self._facts(o), cut=cut, opts=dict(o, tol=tol)))

    def le(self, label, a, b, tol=None, cut=False, **o):
        if self._nonfinite("le", label, a, b):
            return
        self.p.obls.append(Obl(label, "le", lift(_one(a)), lift(_one(b)), nfacts=self._facts(o), cut=cut, opts=dict(o, tol=tol)))

    def lt(self, label, a, b, tol=None, cut=False, **o):
        if self._nonfinite("lt", label, a, b):
            return
        self.p.obls.append(Obl(label, "lt", lift(_one(a)), lift(_one(b)), nfacts=self._facts(o), cut=cut, opts=dict(o, tol=tol)))

    def check(self, label, c, **o):
        c = sym._cond(c) if isinstance(c, (SB, R)) else tm.boolc(bool(c))
        self.p.obls.append(Obl(label, "cond", cond=c, nfacts=self._facts(o), opts=o))

    def cutpoint(self, *terms, **o):
        """Values that later claims may treat as opaque (they were proved equal before)."""

    def finite(self, label, x):
        """Every operation x was computed with is defined."""
        t = lift(_one(x))
        for i, c in enumerate(defined(t)):
            self.p.obls.append(Obl(f"{label}:defined", "cond", cond=c, nfacts=self._facts()))

    def same(self, label, a, b, tol=None):
        """Structural equality of Python values; numbers inside become claims."""
        ok = self._same(label, a, b, tol)
        if ok is not True:
            self.check(f"{label}: {ok}", False)
        else:
            self.check(label, True)

    def _same(self, label, a, b, tol):
        na = isinstance(a, (R, int, float, np.number)) and not isinstance(a, (bool, np.bool_))
        nb = isinstance(b, (R, int, float, np.number)) and not isinstance(b, (bool, np.bool_))
        if na and nb and not isinstance(a, R) and not isinstance(b, R) and a != a and b != b:
            return True
        if na and nb:
            self.eq(label, a, b, tol=tol)
            return True
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            if a.shape != b.shape:
                return f"shape {a.shape} vs {b.shape}"
            for x, y in zip(sym.plain(a).ravel().tolist(), sym.plain(b).ravel().tolist()):
                r = self._same(label, x, y, tol)
                if r is not True:
                    return r
            return True
        if isinstance(a, dict) and isinstance(b, dict):
            if list(a) != list(b):
                return f"keys {list(a)} vs {list(b)}"
            for k in a:
                r = self._same(f"{label}[{k}]", a[k], b[k], tol)
                if r is not True:
                    return f"[{k}] " + r
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return "length"
            for x, y in zip(a, b):
                r = self._same(label, x, y, tol)
                if r is not True:
                    return r
            return True
        if isinstance(a, str) and isinstance(b, str):
            return self._text(label, a, b)
        if type(a) is type(b) and a == b:
            return True
        return f"{a!r} vs {b!r}"

    def _text(self, label, a, b):
        pat = re.compile("\u27e6[^\u27e7]*\u27e7|" + conc.NUM.pattern)
        if pat.sub("#", a) != pat.sub("#", b):
            return f"text differs: {a!r} vs {b!r}"
        for x, y in zip(pat.findall(a), pat.findall(b)):
            (t, s), (u, v) = (sym.TOKENS.get(z) or (lift(float(z)), "") for z in (x, y))
            if s != v and x in sym.TOKENS and y in sym.TOKENS:
                return f"format {s!r} vs {v!r}"
            self.eq(label, R(t), R(u))
        return True

    def raises(self, label, exc, thunk):
        """thunk must raise exc (a type or tuple)."""
        try:
            with quiet():
                thunk()
        except exc:
            self.check(label, True)
            return
        except tm.Unsupported:
            raise
        except Exception as e:  # noqa: BLE001
            self.check(f"{label}: raised {type(e).__name__} instead: {str(e)[:80]}", False)
            return
        self.check(f"{label}: did not raise", False)

    def attempt(self, thunk):
        """(value, exception)"""
        try:
            return thunk(), None
        except tm.Unsupported:
            raise
        except Exception as e:  # noqa: BLE001
            return None, e

    def stdout(self, thunk):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = thunk()
        return r, buf.getvalue()

    def truth(self, c):
        """Case split."""
        return bool(c)

    def record_plots(self):
        pass

    def record_nd(self):
        pass

    def subst(self, v, x, val):
        return R(tm.subst([lift(v)], {lift(x): lift(val)})[0])

    # ---- environment stand-ins
    def stub(self, cls, name, f, both=False):
        """Symbolic runs only: replace a method by a stand-in (the real method runs in replays)."""
        STUBS.append((cls, name, cls.__dict__.get(name, STUBS)))
        setattr(cls, name, f)

    def stub_price(self, C, wrap=lambda v: v):
        """The iterative price stands for an arbitrary function of everything numeric the object holds."""
        def mk(m):
            def price(o):
                st = sorted((k, v) for k, v in vars(o).items() if isinstance(v, (R, int, float)) and not isinstance(v, bool))
                return wrap(R(tm.fn("price." + m + "(" + ",".join(k for k, _ in st) + ")", *[lift(v) for _, v in st])))

            return price

        for m in ("call", "put"):
            if hasattr(C, m):
                self.stub(C, m, mk(m))

    def hook(self, name, f):
        self.hooks[name] = f

    def notes(self, k):
        return [v for n, v in self.p.notes if n == k]

    def fresh(self, name, pos=False):
        """An unconstrained value returned by the environment (root finder, random source)."""
        return R(tm.var(name, pos=pos))

    def isnum(self, x):
        return isinstance(x, (R, int, float, np.number))

    def opaque(self, name, *args):
        return R(tm.fn(name, *[lift(a) for a in args]))


STUBS = []


def undo_stubs():
    while STUBS:
        cls, name, old = STUBS.pop()
        if old is STUBS:
            delattr(cls, name)
        else:
            setattr(cls, name, old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def _one(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        return x.ravel()[0]
    return x


def _objlist(xs):
    return [list(x) if isinstance(x, (list, tuple)) else x for x in xs]


def defined(t):
    out = []
    for n in tm.topo([t]):
        if not isinstance(n, tm.T):
            continue
        if n.op == "log":
            out.append(tm.lt(tm.ZERO, n.args[0]))
        elif n.op == "sqrt":
            out.append(tm.le(tm.ZERO, n.args[0]))
        elif n.op == "pow" and n.args[1] < 0:
            out.append(tm.notc(tm.eq(n.args[0], tm.ZERO)))
    return out
