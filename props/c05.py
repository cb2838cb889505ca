"""C05: pricing is pure — no call changes the option, its inputs or another option."""
import inspect
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="every class; every public method called twice (second pass in reverse order) between pricings; all real inputs; "
                    "lattices n = 2 (two-asset n = 1); the price of an iterative approximation stands for any function of all numbers "
                    "the object holds, and is run for real up to the path bound in the repeat cases",
              thorough="as quick with lattices n = 3 (two-asset n = 2) and deeper iteration bounds")
OUTSIDE = "histories longer than two passes over the public methods"
ASSUMPTIONS = ["numdifftools, scipy root finders and matplotlib do not modify their arguments"]
ITER = ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption")


def variants(W, o, price):
    """Every public call: (label, thunk)."""
    out = []
    for n in sorted(x for x in dir(type(o)) if not x.startswith("_") and x != "set_param"):
        f = getattr(o, n)
        if not callable(f):
            continue
        try:
            ps = inspect.signature(f).parameters
        except (TypeError, ValueError):
            ps = {}
        kws = [{}]
        if "price" in ps:
            kws = [dict(k, price=price) for k in kws]
        if "call" in ps:
            kws = [dict(k, call=c) for k in kws for c in (True, False)]
        if "method" in ps:
            kws = [dict(k, method=m) for k in kws for m in ("analytic", "fdm")]
        if "tree" in ps:
            kws = [dict(k, tree=t) for k in kws for t in (False, True)]
        if "printer" in ps:
            kws = [dict(k, printer=t) for k in kws for t in (False, True)]
        for kw in kws:
            out.append((f"{n}({', '.join(f'{a}={b}' for a, b in kw.items() if a != 'price')})", n, kw))
    out += [("str()", "__str__", {}), ("repr()", "__repr__", {})]
    return out


def run(W, o, n, kw):
    (v, e), txt = W.stdout(lambda: W.attempt(lambda: getattr(o, n)(**kw)))
    if n == "copy":
        v = v.get_params()
    if n == "plot":
        v = None
    return v, type(e).__name__, txt


def prices(o):
    return [o.call(), o.put()] if hasattr(o, "put") else [o.call()]


def solver(W):
    """The root finder evaluates the objective at a few volatilities and returns one of them."""
    def root_scalar(f, args=(), bracket=None, **k):
        v = W.pos("vol_found", 0.1, 0.9)
        f(v, *(args if isinstance(args, tuple) else (args,)))
        return type("Sol", (), dict(root=v))

    if W.symbolic:
        W.hook("root_scalar", root_scalar)


def h_history(W, path, fixed, i, m):
    C = cls(W, path)
    name = path.split(".")[-1]
    if name in ITER:
        W.stub_price(C, (lambda v: dict(OptionPrice=v, TriggerPrice=v)) if name.startswith("BSA") else (lambda v: v))
    solver(W)
    W.record_plots()
    table, fx = CLASSES[path]
    kw = dict(fx, **fixed)
    p = constrain(W, path, inputs(W, table))
    q = constrain(W, path, inputs(W, table, "_other"))
    o, other = C(**p, **kw), C(**q, **kw)
    g = W.fo.GBSOption(*inputs(W, GBS, "_third").values())
    p0, q0, g0 = prices(o), prices(other), prices(g)
    pp, qp = o.get_params(), other.get_params()
    W.check("parameters as given", all(k in pp for k in p))
    for k in p:
        W.same(f"parameter {k}", pp[k], p[k])
    first = []
    vs = variants(W, o, p0[0])[i::m]
    for label, n, k in vs:
        first.append(run(W, o, n, k))
        W.same(f"parameters after {label}", o.get_params(), pp)
        W.same(f"prices after {label}", prices(o), p0)
    for (label, n, k), r in list(zip(vs, first))[::-1]:
        again = run(W, o, n, k)
        W.same(f"{label} repeated", again, r)
    W.same("parameters at the end", o.get_params(), pp)
    W.same("prices at the end", prices(o), p0)
    W.same("other option's parameters", other.get_params(), qp)
    W.same("other option's prices", prices(other), q0)
    W.same("third option's prices", prices(g), g0)
    fresh = C(**p, **kw)
    W.same("a new option with the same parameters", prices(fresh), p0)


def h_repeat(W, path):
    """The iterative approximations executed for real: same result every time, whatever was computed in between."""
    C = cls(W, path)
    table, fx = CLASSES[path]
    p = constrain(W, path, inputs(W, table))
    o = C(**p)
    calls = ["call"] + (["put"] if hasattr(o, "put") else [])
    first = [run(W, o, m, {}) for m in calls]
    pp = dict(o.get_params())
    for m, r in list(zip(calls, first))[::-1]:
        W.same(f"{m} repeated", run(W, o, m, {}), r)
    W.same("parameters", o.get_params(), pp)
    W.same("fresh object", run(W, C(**p), "call", {}), first[0])


def h_arrays(W, name, par):
    """Array arguments are not modified."""
    C = cls(W, SHORT[name])
    table, fx = CLASSES[SHORT[name]]
    p = constrain(W, SHORT[name], inputs(W, table))
    xs = [val(W, par, table[par], f"_{k}") for k in range(2)]
    if par in ("t", "T"):
        constrain(W, SHORT[name], dict(p, **{par: xs[0]}))
        constrain(W, SHORT[name], dict(p, **{par: xs[1]}))
    if par == "rho" and "S1" in p:
        for x in xs:
            constrain(W, SHORT[name], dict(p, rho=x))
    a = W.arr(xs)
    o = C(**dict(p, **{par: a}))
    p0 = prices(o)
    for label, n, k in variants(W, o, None):
        if n == "volatility" or (n in ("theta", "rho") and name == "x"):
            continue
        run(W, o, n, k)
        W.same(f"array after {label}", a, W.arr(xs))
        W.same(f"prices after {label}", prices(o), p0)


def h_hn(W, t):
    lamb, beta, alpha, omega, gamma = W.real("lamb", -1, 1), W.pos("beta", 0.1, 0.5), W.pos("alpha", 1e-6, 1e-5), W.pos("omega", 1e-5, 1e-4), W.real("gamma", -2, 2)
    S, K, r = W.pos("S", 80, 120), W.pos("K", 80, 120), W.real("r", 0, 0.001)
    o = W.fo.heston_nandi_options.HestonNandiOption(S, K, t, r, lamb, omega, alpha, beta, gamma)
    other = W.fo.heston_nandi_options.HestonNandiOption(W.pos("S2", 80, 120), K, t, r, lamb, omega, alpha, beta, gamma)
    q0 = other.call()
    f = [("call", {}), ("put", {}), ("delta", dict(call=True)), ("delta", dict(call=False))]
    r0 = [getattr(o, n)(**k) for n, k in f]
    for (n, k), v in list(zip(f, r0))[::-1]:
        W.eq(f"{n} repeated", getattr(o, n)(**k), v)
    W.eq("other option", other.call(), q0)
    W.eq("fresh option", W.fo.heston_nandi_options.HestonNandiOption(S, K, t, r, lamb, omega, alpha, beta, gamma).call(), r0[0])


def h_mc(W, payoff, anti, std):
    fo = W.fo
    eps = [[W.real(f"e{i}{j}", -1.5, 1.5) for j in range(2)] for i in range(2)]
    a = W.arr(eps)
    p = {k: val(W, k, GBS[k]) for k in GBS}
    mc = fo.monte_carlo_options
    if std:
        W.assume(W.abs(eps[0][0] - eps[1][1]) > 0.01)

    class Fixed(mc.Innovations):
        def sample_innovation(self, init=False):
            return self._eps

    mk = lambda e: mc.MonteCarloOption(2, 2, 2, *[p[k] for k in ("S", "K", "t", "r", "b", "sigma")], Innovation=Fixed,  # noqa: E731
                                       Path=mc.WienerPath, Payoff=getattr(mc, payoff), eps=e, antithetic=anti, standardization=std)
    o = mk(a)
    c = o.call()
    W.same("innovations after call", a, W.arr(eps))
    q = o.put()
    W.same("innovations after put", a, W.arr(eps))
    W.same("call repeated", o.call(), c)
    W.same("put repeated", o.put(), q)
    W.same("fresh object", mk(W.arr(eps)).call(), c)
    for i in range(2):
        W.eq(f"every loop sees the same innovations {i}", c[i], c[0])


def CASES(tier):
    thorough = tier != "quick"
    out = []
    for path, (table, fx) in CLASSES.items():
        name = path.split(".")[-1]
        fixed = dict(n=fx["n"] + 1) if thorough and "n" in fx else {}
        m = 4 if "Spread" in name or "Max" in name or "Min" in name else 2
        for i in range(m):
            out.append(dict(name=f"{name}-history-{i}", harness="h_history", params=dict(path=path, fixed=fixed, i=i, m=m), samples=2, val_tol=1e-3, weight=2))
        if "type" in fx or "otype" in fx:
            k = "type" if "type" in fx else "otype"
            st = "american" if fx[k] == "european" else "european"
            for i in range(m):
                out.append(dict(name=f"{name}-history-{st}-{i}", harness="h_history", params=dict(path=path, fixed={k: st}, i=i, m=m), samples=2, val_tol=1e-3, weight=2))
        if name in ITER:
            out.append(dict(name=f"{name}-repeat", harness="h_repeat", params=dict(path=path), bounded_paths=True,
                            maxpaths=8 if not thorough else 16, maxdec=4 if not thorough else 7, patch_cbnd=True, weight=3, samples=3, nofeas=True))
    for name in ("GBSOption", "Black76Option", "MiltersenSchwartzOption", "SpreadApproxOption"):
        for par in CLASSES[SHORT[name]][0]:
            out.append(dict(name=f"{name}-array-{par}", harness="h_arrays", params=dict(name=name, par=par), samples=2, val_tol=1e-3))
    for t in (1, 2):
        out.append(dict(name=f"HestonNandi-{t}", harness="h_hn", params=dict(t=t), samples=2))
    for payoff in ("PlainVanillaPayoff", "ArithmeticAsianPayoff"):
        for anti in (False, True):
            for std in (False, True):
                out.append(dict(name=f"MC-{payoff}-{anti}-{std}", harness="h_mc", params=dict(payoff=payoff, anti=anti, std=std), samples=2))
    return out
