"""The concrete world: the same harness run on the real installed code with concrete numbers (replay of
counterexamples, validation of the encoding). Runs under the interpreter the repository is built for.

usage: python conc.py REQUESTS.json OUT.json
request: {"id":..., "prop": "c01", "harness": name, "params": {...}, "env": {...}}"""
import contextlib
import importlib
import io
import json
import math
import os
import re
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FINOPT_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")

NUM = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?|\bnan\b|\binf\b")


class Skip(Exception):
    """Precondition not met by these inputs."""


class ConcWorld:
    symbolic = False

    def __init__(self, env, patch_cnd=True, patch_cbnd=False):
        import numpy as np
        import finoptions as fo
        import finoptions.base

        self.env, self.np, self.fo = env, np, fo
        self.pi = math.pi
        self.records = []
        self.hooks = {}
        self._notes = []
        self._base = finoptions.base._Base
        self._undo = []

    # inputs
    def pos(self, name, lo=0.2, hi=3.0):
        v = float(self.env[name])
        if not v > 0:
            raise Skip(name)
        return v

    def real(self, name, lo=-1.0, hi=1.0):
        return float(self.env[name])

    def rng(self, name, lo, hi, strict=True):
        v = float(self.env[name])
        if not (lo < v < hi if strict else lo <= v <= hi):
            raise Skip(name)
        return v

    def string(self, name, choices=("zzz",)):
        v = self.env.get(name)
        if isinstance(v, str):
            return v
        for k, x in self.env.items():
            if k.startswith(name + "==") and x:
                return k.split("==", 1)[1]
        return choices[0]

    def assume(self, c):
        if not c:
            raise Skip("assume")

    # mathematics
    def positive(self, x):
        self.assume(x > 0)

    def exp(self, x):
        return self.np.exp(x)

    def log(self, x):
        return self.np.log(x)

    def sqrt(self, x):
        return self.np.sqrt(x)

    class _B:
        pass

    def Phi(self, x):
        f = getattr(self._base, "_CND", None)
        if f is None:
            return self.fo.GBSOption(math.exp(x), 1, 1, -0.5, -0.5, 1).delta()
        return f(self._any(), x)

    real_cnd = Phi

    def stub(self, cls, name, f, both=False):
        if both:  # the stand-in also runs in replays (its value comes from the counterexample)
            self._set(cls, name, f)

    def stub_price(self, *a):
        pass

    def cbnd(self, a, b, rho):
        return self._base._CBND(self._any(), a, b, rho)

    def _any(self):
        return self.fo.GBSOption(10.0, 8.0, 1.0, 0.02, 0.01, 0.1)

    def ndf(self, x):
        return math.exp(-x * x / 2) / math.sqrt(2 * math.pi)

    def max(self, a, *bs):
        return max(a, *bs) if bs else a

    def min(self, a, *bs):
        return min(a, *bs) if bs else a

    def abs(self, x):
        return abs(x)

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def arr(self, xs):
        return self.np.array(xs)

    def lin(self, a, b, n):
        return [a + (b - a) * i / (n - 1) for i in range(n)]

    def deriv(self, f, x, n=1, **k):
        import numdifftools as nd

        return nd.Derivative(f, n=n, **k)(x) * 1

    def dexact(self, f, x, n=1):
        # Richardson-extrapolated central differences
        import numdifftools as nd

        return nd.Derivative(f, n=n)(x) * 1

    def dterm(self, v, x, n=1):
        return None

    def integral(self, f, lo, hi):
        from scipy.integrate import quad

        return quad(lambda q: float(self._one(f(q))), lo, 100 if hi == float("inf") else hi, epsabs=1e-10, epsrel=1e-10)[0]

    def re(self, x):
        return self.np.real(x)

    # claims
    def _rec(self, label, ok, a=None, b=None, **k):
        def f(x):
            try:
                x = complex(x)
                return x.real if x.imag == 0 else [x.real, x.imag]
            except Exception:
                return repr(x)[:200]

        self.records.append(dict(label=label, ok=bool(ok), a=f(a), b=f(b), **k))

    def _one(self, x):
        if isinstance(x, self.np.ndarray) and x.size == 1:
            return x.ravel()[0]
        return x

    def eq(self, label, a, b, tol=None, cut=False, **o):
        a, b = self._one(a), self._one(b)
        if a is None or b is None:
            return
        tol = 1e-9 if tol is None else tol
        same = a == b or (a != a and b != b)  # both undefined or infinite alike
        self._rec(label, same or abs(a - b) <= tol * (o.get("scale", 1) + abs(a) + abs(b)), a, b, kind="eq")

    def le(self, label, a, b, tol=None, cut=False, **o):
        a, b = self._one(a), self._one(b)
        tol = 1e-9 if tol is None else tol
        self._rec(label, a <= b + tol * (1 + abs(a) + abs(b)), a, b, kind="le")

    def lt(self, label, a, b, tol=None, cut=False, **o):
        a, b = self._one(a), self._one(b)
        tol = 1e-9 if tol is None else tol
        self._rec(label, a < b + tol * (1 + abs(a) + abs(b)), a, b, kind="lt")

    def check(self, label, c, **o):
        self._rec(label, bool(c), kind="cond")

    def mark(self):
        return 0

    def finite(self, label, x):
        x = self._one(x)
        self._rec(label + ":defined", math.isfinite(abs(x)), x, kind="cond")

    def cutpoint(self, *a, **k):
        pass

    def same(self, label, a, b, tol=None):
        r = self._same(label, a, b, 1e-9 if tol is None else tol)
        self._rec(label if r is True else f"{label}: {r}", r is True, kind="cond")


    def _same(self, label, a, b, tol):
        np = self.np
        num = (int, float, np.number)
        if isinstance(a, num) and isinstance(b, num) and not isinstance(a, (bool, np.bool_)):
            if a != a and b != b:
                return True
            self._rec(label, a == b or abs(a - b) <= tol * (1 + abs(a) + abs(b)), a, b, kind="eq")
            return True
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            if a.shape != b.shape:
                return f"shape {a.shape} vs {b.shape}"
            for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
                r = self._same(label, x, y, tol)
                if r is not True:
                    return r
            return True
        if isinstance(a, dict) and isinstance(b, dict):
            if list(a) != list(b):
                return f"keys {list(a)} vs {list(b)}"
            for k in a:
                r = self._same(f"{label}[{k}]", a[k], b[k], tol)
                if r is not True:
                    return f"[{k}] " + r
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return "length"
            for x, y in zip(a, b):
                r = self._same(label, x, y, tol)
                if r is not True:
                    return r
            return True
        if isinstance(a, str) and isinstance(b, str):
            if NUM.sub("#", a) != NUM.sub("#", b):
                return f"text differs: {a!r} vs {b!r}"
            for x, y in zip(NUM.findall(a), NUM.findall(b)):
                x, y = float(x), float(y)
                self._rec(label, abs(x - y) <= 2e-6 * (1 + abs(x)) or (x != x and y != y) or x == y, x, y, kind="text")
            return True
        if type(a) is type(b) and a == b:
            return True
        return f"{a!r} vs {b!r}"

    def raises(self, label, exc, thunk):
        try:
            with quiet():
                thunk()
        except exc:
            self.check(label, True)
            return
        except Exception as e:  # noqa: BLE001
            self.check(f"{label}: raised {type(e).__name__} instead: {str(e)[:80]}", False)
            return
        self.check(f"{label}: did not raise", False)

    def attempt(self, thunk):
        try:
            return thunk(), None
        except Skip:
            raise
        except Exception as e:  # noqa: BLE001
            return None, e

    def stdout(self, thunk):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = thunk()
        return r, buf.getvalue()

    def truth(self, c):
        return bool(c)

    # environment: route the library entry points the real modules imported to the harness's stand-ins
    NAMES = {
        "root_scalar": ("_root_scalar", "root_scalar"), "root": ("_root",), "minimize": ("_minimize",),
        "qmc.Sobol": ("_qmc",), "plt": ("_plt",),
    }

    def hook(self, name, f):
        self.hooks[name] = f
        if name.startswith("np.random."):
            return self._set(__import__("numpy").random, name.split(".")[-1], f)
        if name == "qmc.Sobol":
            for m in self._mods():
                if hasattr(m, "_qmc"):
                    self._set(m, "_qmc", type("Q", (), {"Sobol": staticmethod(f)}))
            return
        for m in self._mods():
            for n in self.NAMES.get(name, ()):
                if hasattr(m, n):
                    self._set(m, n, f)

    def _mods(self):
        return [m for k, m in list(sys.modules.items()) if k.startswith("finoptions")]

    def _set(self, m, n, v):
        self._undo.append((m, n, getattr(m, n)))
        setattr(m, n, v)

    def close(self):
        for m, n, v in reversed(self._undo):
            setattr(m, n, v)

    def record_nd(self):
        import numdifftools as nd

        rec = self._notes
        old = nd.Derivative.__init__

        def init(s, fun, step=None, *a, **k):
            rec.append(("nd", (k.get("n", 1), None, step)))
            return old(s, fun, step, *a, **k)

        self._set(nd.Derivative, "__init__", init)

    def record_plots(self):
        rec = self._notes

        class P:
            def __getattr__(s, k):
                def f(*a, **kw):
                    rec.append(("plt." + k, (a, kw)))
                    return "figure" if k == "figure" else None

                return f

        for m in self._mods():
            if hasattr(m, "_plt"):
                self._set(m, "_plt", P())

    def notes(self, k):
        return [v for n, v in self._notes if n == k]

    def note(self, k, v):
        self._notes.append((k, v))

    def fresh(self, name, pos=False):
        return self.env[name]

    def isnum(self, x):
        return isinstance(x, (int, float, self.np.number))

    def opaque(self, name, *args):
        return getattr(self, name)(*args)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def run_one(req):
    mod = importlib.import_module("props." + req["prop"])
    h = getattr(mod, req["harness"])
    W = ConcWorld(req["env"])
    out = dict(id=req.get("id"), skip=False, exception=None)
    try:
        with quiet():
            h(W, **req.get("params", {}))
    except Skip as e:
        out["skip"] = str(e) or "skip"
    except KeyError as e:
        if e.args and isinstance(e.args[0], str) and e.args[0] not in req["env"] and "env" in traceback.format_exc(limit=-1):
            out["skip"] = "env:" + e.args[0]
        else:
            out["exception"] = f"KeyError: {e}"
            out["trace"] = traceback.format_exc(limit=-6)
    except Exception as e:  # noqa: BLE001
        out["exception"] = f"{type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc(limit=-6)
    finally:
        W.close()
    out["records"] = W.records
    return out


def main():
    with open(sys.argv[1]) as f:
        reqs = json.load(f)
    outs = []
    import signal

    def alarm(*a):
        raise TimeoutError("replay took too long")

    signal.signal(signal.SIGALRM, alarm)
    for r in reqs:
        signal.alarm(int(r.get("timeout", 60)))
        try:
            outs.append(run_one(r))
        except TimeoutError as e:
            outs.append(dict(id=r.get("id"), skip=False, exception=f"TimeoutError: {e}", records=[]))
        finally:
            signal.alarm(0)
    with open(sys.argv[2], "w") as f:
        json.dump(outs, f)


if __name__ == "__main__":
    main()
