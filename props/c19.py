"""C19: GARCH filtering inverts simulation, and symmetric fits ignore gamma."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="series of 1 to 3 returns, burn-in of 0 to 2", thorough="series of up to 7 returns, burn-in of up to 3")
OUTSIDE = "longer series; convergence and accuracy of the optimiser (scipy); innovations of a length other than the one requested; integer series"
ASSUMPTIONS = ["scipy.optimize.minimize returns some parameter vector", "numpy.random.normal returns some numbers"]
PAR = dict(lamb=("r", -1, 3), omega=("p", 0.05, 0.3), alpha=("p", 0.05, 0.2), beta=("p", 0.2, 0.5), gamma=("r", -1, 1), rf=("r", -0.05, 0.05))


def mod(W):
    return W.fo.heston_nandi_options


def params(W, symmetric=False, suffix=""):
    p = inputs(W, PAR, suffix)
    for n in ("omega", "alpha", "beta"):
        W.positive(1 - p[n])
    g = 0 if symmetric else p["gamma"]
    W.positive(1 - p["beta"] - p["alpha"] * g * g)
    return p


def model(p, symmetric=False):
    return dict(p, gamma=0 if symmetric else p["gamma"])


def variances(W, p, Z):
    h = [(p["omega"] + p["alpha"]) / (1 - p["alpha"] * p["gamma"] ** 2 - p["beta"])]
    for z in Z[:-1]:
        h.append(p["omega"] + p["alpha"] * (z - p["gamma"] * W.sqrt(h[-1])) ** 2 + p["beta"] * h[-1])
        W.positive(h[-1])  # a sum of positive terms
    return h


def returns(W, p, Z):
    return [p["rf"] + p["lamb"] * h + W.sqrt(h) * z for h, z in zip(variances(W, p, Z), Z)]


def nll(W, p, Z):
    s = 0
    for h, z in zip(variances(W, p, Z), Z):
        s = s + W.log(W.sqrt(2 * W.pi)) + z * z / 2 + W.log(h) / 2
    return s


def logit(W, x):
    return W.log(x) - W.log(1 - x)


def vec(W, p):
    return [p["lamb"], logit(W, p["omega"]), logit(W, p["alpha"]), logit(W, p["beta"]), p["gamma"]]


def draws(W, n, name="Z"):
    return [W.real(f"{name}{i}", -1.5, 1.5) for i in range(n)]


def series(W, label, a, ref):
    W.same(label + " length", len(a), len(ref))
    for i, (x, y) in enumerate(zip(a, ref)):
        W.eq(f"{label} {i}", x, y, tol=1e-8)


def h_sim(W, n, burn, given):
    """Simulated returns follow the recursion, the burn-in is dropped, the innovations are left alone."""
    p = params(W)
    Z = draws(W, burn + n)
    inno, start = W.arr(Z[burn:]), W.arr(Z[:burn])
    asked = []

    def normal(loc=0.0, scale=1.0, size=None):
        asked.append((loc, scale, size))
        pool = ([inno] if given in ("start", "none") else []) + ([start] if given in ("inno", "none") else [])
        return [a for a in pool if len(a) == size][0].copy()

    W.hook("np.random.normal", normal)
    kw = dict(n=n, n_start=burn)
    if given in ("both", "inno"):
        kw["inno"] = inno
    if burn and given in ("both", "start"):
        kw["inno_start"] = start
    x = mod(W).hngarch_sim(**p, **kw)
    ref = returns(W, p, Z)
    series(W, "returns", x, ref[burn:])
    if given in ("both", "inno"):
        series(W, "innovations kept", inno, Z[burn:])
    if burn:
        series(W, "burn-in kept", start, Z[:burn])
    for a in asked:
        W.eq("mean of the draws", a[0], 0)
        W.eq("deviation of the draws", a[1], 1)
    W.same("number of draws", len(asked), dict(both=0, inno=1 if burn else 0, start=1, none=2 if burn else 1)[given])


def h_filter(W, n, symmetric, ret, trace):
    """Filtering the returns generated by Z gives back Z, the variances and the Gaussian negative log-likelihood."""
    p = params(W, symmetric)
    q = model(p, symmetric)
    Z = draws(W, n)
    x = W.arr(returns(W, q, Z))
    keep = list(x)
    v = vec(W, p)
    start = list(v)
    out = mod(W)._llhHNGarch(v, trace, symmetric, p["rf"], x, ret) if ret else mod(W)._llhHNGarch(x0=v, trace=trace, symmetric=symmetric, rfr=p["rf"], x=x)
    if ret:
        series(W, "innovations", out.z, Z)
        series(W, "variances", out.h, variances(W, q, Z))
        out = out.llhHNGarch
    W.eq("likelihood", out, nll(W, q, Z), tol=1e-8)
    series(W, "returns kept", x, keep)
    series(W, "parameters kept", v, start)


def h_roundtrip(W, n, symmetric):
    """Simulation by the code, filtering by the code."""
    p = params(W, symmetric)
    q = model(p, symmetric)
    Z = draws(W, n)
    x = mod(W).hngarch_sim(**q, n=n, inno=W.arr(Z))
    out = mod(W)._llhHNGarch(vec(W, p), False, symmetric, p["rf"], x, True)
    series(W, "innovations", out.z, Z)
    W.eq("likelihood", out.llhHNGarch, nll(W, q, Z), tol=1e-8)


def h_fit(W, n, symmetric, how):
    """The optimiser is given the likelihood and returns any vector; everything reported follows from that vector."""
    p = params(W, symmetric)  # the fitted parameters
    q = model(p, symmetric)
    Z = draws(W, n)
    x = W.arr(returns(W, q, Z))
    keep = list(x)
    s = {k: W.pos("s_" + k, 0.1, 0.4) for k in ("omega", "alpha", "beta")}
    s.update(lamb=W.real("s_lamb"), gamma=W.real("s_gamma"))
    for k in ("omega", "alpha", "beta"):
        W.positive(1 - s[k])
    g = 0 if symmetric else s["gamma"]
    if how == "default":
        s.update(beta=0.1, gamma=0, lamb=-0.5)
        g = 0
    W.positive(1 - s["beta"] - s["alpha"] * g * g)
    seen = []
    fun = W.real("fun")

    class Res:
        x = W.arr(vec(W, p))
        success = True
    Res.fun = fun

    def minimize(f, x0, args=(), **k):
        args = args if isinstance(args, tuple) else (args,)
        seen.append((f, list(x0), args, k))
        return Res

    W.hook("minimize", minimize)
    a = dict(s) if how != "default" else dict(omega=s["omega"], alpha=s["alpha"])
    box = []
    W.stdout(lambda: box.append(mod(W).hngarch_fit(x, **a, rf=p["rf"], **({} if symmetric and how == "default" else dict(symmetric=symmetric)),
                                                 **({} if how == "trace" else dict(trace=False)), options=dict(maxiter=33))))
    o = box[0]
    W.same("one optimisation", len(seen), 1)
    f, x0, args, k = seen[0]
    W.same("optimiser options passed", k.get("options"), dict(maxiter=33))
    series(W, "start", x0, vec(W, s))
    W.stdout(lambda: box.append(f(W.arr(vec(W, p)), *args)))
    W.eq("objective is the negative log-likelihood", box[1], nll(W, q, Z), tol=1e-8)
    W.eq("minimum", o["minimum"], -fun + n * W.sqrt(2 * W.pi), tol=1e-8)
    series(W, "innovations", o["z"], Z)
    series(W, "variances", o["h"], variances(W, q, Z))
    series(W, "estimate", o["estimate"], [q[k] for k in ("lamb", "omega", "alpha", "beta", "gamma")])
    for k in q:
        W.eq(f"model {k}", o["model"][k], q[k], tol=1e-9)
    W.eq("persistence", o["persistence"], q["beta"] + q["alpha"] * q["gamma"] ** 2, tol=1e-9)
    W.eq("variance", o["sigma2"], (q["omega"] + q["alpha"]) / (1 - q["beta"] - q["alpha"] * q["gamma"] ** 2), tol=1e-8)
    series(W, "returns kept", x, keep)


def h_gamma(W, n):
    """Asymmetric likelihoods use gamma, symmetric ones do not."""
    p = params(W)
    p2 = dict(p, gamma=W.real("gamma2", 1.5, 2.5))
    Z = draws(W, n)
    x = W.arr(returns(W, model(p, True), Z))
    f = lambda q, sym: mod(W)._llhHNGarch(vec(W, q), False, sym, p["rf"], x.copy())
    W.eq("symmetric ignores gamma", f(p, True), f(p2, True))
    if n == 1:
        a = mod(W)._llhHNGarch(vec(W, p), False, False, p["rf"], x.copy(), True)
        W.eq("asymmetric variance", a.h[0], (p["omega"] + p["alpha"]) / (1 - p["alpha"] * p["gamma"] ** 2 - p["beta"]))


def CASES(tier):
    big = tier == "thorough"
    out = []
    add = lambda nm, h, **k: out.append(dict(name=nm, harness=h, params=k, val_tol=1e-6))
    for n in (1, 2, 3) + ((4, 5, 6, 7) if big else ()):
        for burn in (0, 1, 2) + ((3,) if big else ()):
            if n + burn > (8 if big else 4):
                continue
            for given in ("both", "inno", "start", "none"):
                if given == "none" and n == burn:  # which draw becomes the burn-in is the code's choice
                    continue
                if not burn and given in ("inno", "start"):
                    continue
                add(f"sim-{n}-{burn}-{given}", "h_sim", n=n, burn=burn, given=given)
        for sym in (True, False):
            for ret in (True, False):
                add(f"filter-{n}-{'sym' if sym else 'asym'}-{ret}", "h_filter", n=n, symmetric=sym, ret=ret, trace=n == 2)
            add(f"roundtrip-{n}-{'sym' if sym else 'asym'}", "h_roundtrip", n=n, symmetric=sym)
            if n < 4:
                for how in ("keyword", "default", "trace"):
                    add(f"fit-{n}-{'sym' if sym else 'asym'}-{how}", "h_fit", n=n, symmetric=sym, how=how)
        add(f"gamma-{n}", "h_gamma", n=n)
    return out
