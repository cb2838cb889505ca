"""C17: Implied volatility reprices the option exactly on the requested side."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="all real inputs, volatilities and prices; arrays of 2 elements in every position", thorough="arrays of up to 3 elements")
OUTSIDE = "convergence of the root finders (scipy), tolerance of the array solver, rounding"
ASSUMPTIONS = ["scipy.optimize.root_scalar/root return a point at which the function they are given vanishes"]
NAMES = ("GBSOption", "BlackScholesOption", "Black76Option", "RollGeskeWhaleyOption")
EPS = 2.220446049250313e-16


def prepare(W, name):
    C = cls(W, SHORT[name])
    if name == "RollGeskeWhaleyOption":
        W.stub_price(C)
    return C


def side(o, call):
    return o.call() if call else o.put()


def bind(names, a, k):
    """Arguments of a scipy call by name."""
    return dict(zip(names, a), **k)


def ask(W, o, price, call, how, **k):
    if how == "default" and call:
        return o.volatility(price, **k)
    if isinstance(o, W.fo.basic_american_options.RollGeskeWhaleyOption):
        return o.volatility(price, **k)
    return o.volatility(price, call, **k) if how == "positional" else o.volatility(price, call=call, **k)


def unchanged(W, o, p, before, call):
    W.same("parameters unchanged", {k: o.get_params()[k] for k in p}, p)
    if before is not None:
        W.eq("price unchanged", side(o, call), before)


def h_scalar(W, name, call, how, verbose, sigma, given):
    C = prepare(W, name)
    p = inputs(W, CLASSES[SHORT[name]][0])
    constrain(W, SHORT[name], p)
    x = p.pop("sigma")
    ref = side(C(**p, sigma=x), call)
    if given == "gap":
        gap = W.real("gap", 0.05, 0.2)
        W.assume(W.Not(gap == 0))
    price = ref if given == "root" else ref + gap
    if sigma:
        p["sigma"] = W.pos("own", 0.2, 0.6)
    o = C(**p)
    p = dict(p, sigma=p.get("sigma"))
    before = side(o, call) if sigma else None
    tol, itmax = W.pos("tol", 1e-12, 1e-9), 77
    seen, sols = [], []

    class Sol:
        root = x

    def hook(f, *a, **k):
        k = bind(("args", "method", "bracket", "fprime", "fprime2", "x0", "x1", "xtol", "rtol", "maxiter", "options"), a, k)
        g = k.get("args", ())
        g = g if isinstance(g, tuple) else (g,)
        seen.append((k, lambda s: f(s, *g)))
        if W.symbolic or given == "gap":
            sols.append(x)
            return Sol
        import scipy.optimize
        z = scipy.optimize.root_scalar(f, **{n: v for n, v in k.items() if v is not None})
        sols.append(z.root)
        return z

    W.hook("root_scalar", hook)
    opts = dict(verbose=True) if verbose else {}
    if how != "default":
        opts.update(tol=tol, maxiter=itmax)
    v = ask(W, o, price, call, how, **opts)
    W.same("one search", len(seen), 1)
    k, f = seen[0]
    if given == "root":
        W.eq("objective vanishes at the volatility", f(x), 0, scale=abs(ref) + 1, tol=1e-9)
    else:
        W.check("objective vanishes nowhere else", W.Not(f(x) == 0))
    if verbose:
        W.check("full result", hasattr(v, "root"))
        v = v.root
    W.eq("result is the root", v - sols[0] + x, x)  # compared at x: a flat price does not determine x sharply
    if not W.symbolic and given == "root":
        W.le("repriced", abs(side(C(**dict(p, sigma=v)), call) - ref), 1e-6 * (1 + abs(ref)))
    W.check("bracket given", k.get("bracket") is not None)
    lo, hi = k["bracket"]
    W.le("bracket reaches 1%", lo, 0.01)
    W.le("bracket reaches 500%", 5, hi)
    for n, e in (("lower", lo), ("upper", hi)):
        W.finite(f"objective at {n} end", f(e))
    W.eq("tolerance", k["xtol"], tol if how != "default" else EPS, tol=1e-12, scale=1e-9)
    W.eq("iteration limit", k["maxiter"], itmax if how != "default" else 10000)
    unchanged(W, o, p, before, call)


def h_array(W, name, call, how, verbose, where, given, n):
    """Some parameters and/or the price as arrays."""
    C = prepare(W, name)
    tab = CLASSES[SHORT[name]][0]
    elems = [inputs(W, tab, suffix="") for _ in range(n)]
    for i in range(n):
        for q in where:
            if q in tab:
                elems[i][q] = val(W, q, tab[q], str(i))
        elems[i]["sigma"] = val(W, "sigma", tab["sigma"], f"x{i}")
    xs = [e["sigma"] for e in elems]
    refs = [side(C(**e), call) for e in elems]
    gaps = [W.real(f"gap{i}", 0.05, 0.2) if given == "gap" else 0 for i in range(n)]
    for g in gaps if given == "gap" else ():
        W.assume(W.Not(g == 0))
    p = {q: (W.arr([e[q] for e in elems]) if q in where else elems[0][q]) for q in tab if q != "sigma"}
    # a scalar price with array parameters: only the first element is known to be repriced
    price = W.arr([r + g for r, g in zip(refs, gaps)]) if "price" in where else refs[0] + gaps[0]
    o = C(**p)
    seen, sols = [], []

    class Sol:
        pass

    Sol.x = W.arr(xs)

    def hook(f, *a, **k):
        k = bind(("x0", "args", "method", "jac", "tol", "callback", "options"), a, k)
        g = k.get("args", ())
        g = g if isinstance(g, tuple) else (g,)
        seen.append((k, lambda s: f(s, *g)))
        if W.symbolic or given == "gap" or "price" not in where:
            sols.append(Sol.x)
            return Sol
        import scipy.optimize
        z = scipy.optimize.root(f, **{m: v for m, v in k.items() if v is not None})
        sols.append(z.x)
        return z

    W.hook("root", hook)
    v = ask(W, o, price, call, how, **(dict(verbose=True) if verbose else {}))
    W.same("one search", len(seen), 1)
    k, f = seen[0]
    fx = f(W.arr(xs))
    W.same("shape", tuple(W.np.shape(fx)), (n,))
    for i in range(n if "price" in where else 1):
        if given == "root":
            W.eq(f"objective vanishes at the volatility {i}", fx[i], 0, scale=abs(refs[i]) + 1, tol=1e-9)
        else:
            W.check(f"objective vanishes nowhere else {i}", W.Not(fx[i] == 0))
    x0 = k["x0"]
    W.same("start has one value per element", tuple(W.np.shape(x0)), (n,))
    for i in range(n):
        W.lt("start positive", 0, x0[i])
    if verbose:
        W.check("full result", hasattr(v, "x"))
        v = v.x
    W.same("result shape", tuple(W.np.shape(v)), (n,))
    for i in range(n):
        W.eq(f"result {i} is the root", v[i] - sols[0][i] + xs[i], xs[i])
    if not W.symbolic and given == "root" and "price" in where:
        for i in range(n):
            W.le(f"repriced {i}", abs(side(C(**dict(elems[i], sigma=v[i])), call) - refs[i]), 1e-5 * (1 + abs(refs[i])))
    unchanged(W, o, dict(p, sigma=None), None, call)


def CASES(tier):
    out = []
    for name in NAMES:
        for call in (True, False) if name != "RollGeskeWhaleyOption" else (True,):
            s = f"{name}-{'call' if call else 'put'}"
            for how in ("keyword", "positional", "default"):
                if how == "default" and not call:
                    continue
                for verbose in (False, True):
                    for sigma in (False, True):
                        for given in ("root", "gap"):
                            out.append(dict(name=f"{s}-{how}{'-verbose' * verbose}{'-own' * sigma}-{given}", harness="h_scalar", val_tol=1e-6,
                                            params=dict(name=name, call=call, how=how, verbose=verbose, sigma=sigma, given=given), samples=1))
            if name == "RollGeskeWhaleyOption":
                continue
            main = "FT" if name == "Black76Option" else "S"
            wheres = [("price", "K"), ("price", main), ("price", "t"), ("price",), ("K",), ("price", "K", "r")]
            if name != "Black76Option":
                wheres.append(("price", main, "b"))
            for where in wheres:
                for verbose in (False, True):
                    for given in ("root", "gap"):
                        for n in (2,) if tier == "quick" else (2, 3):
                            out.append(dict(name=f"{s}-array-{'+'.join(where)}{'-verbose' * verbose}-{given}-{n}", harness="h_array", val_tol=1e-6, samples=1,
                                            params=dict(name=name, call=call, how="keyword", verbose=verbose, where=where, given=given, n=n)))
    return out
