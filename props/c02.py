"""C02: analytic greeks are the exact partial derivatives of the price the same object reports."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="all real S, K, t, sigma > 0 and all real r, b (b = 0 and b != 0 separately for rho); call and put; scalars")
OUTSIDE = "floating point rounding; the approximation error of the normal distribution polynomial (C07)"
ASSUMPTIONS = ["derivative of Phi is the normal density (true of the exact Phi; the code's polynomial is within 7.5e-8, C07)"]


def obj(W, name, b=None):
    if name == "Black76Option":
        p = inputs(W, B76)
        S, K, t, r, s = p.values()
        mk = lambda S=S, K=K, t=t, r=r, b=0, s=s: W.fo.Black76Option(S, K, t, r, s)  # noqa: E731
        return S, K, t, r, 0, s, mk
    p = inputs(W, GBS, **({} if b is None else dict(b=b)))
    S, K, t, r, b, s = p.values()
    C = cls(W, name)
    mk = lambda S=S, K=K, t=t, r=r, b=b, s=s: C(S, K, t, r, b, s)  # noqa: E731
    return S, K, t, r, b, s, mk


def price(o, call):
    return o.call() if call else o.put()


def h_greeks(W, name, call, via):
    S, K, t, r, b, s, mk = obj(W, name)
    o = mk()
    d1, d2 = d12(W, S, K, t, b, s)
    e, E = W.exp((b - r) * t), W.exp(-r * t)
    n = W.ndf(d1)
    st = W.sqrt(t)
    z = 1 if call else -1
    N1, N2 = W.Phi(z * d1), W.Phi(z * d2)
    ref = dict(delta=z * e * N1, gamma=e * n / (S * s * st), vega=S * e * n * st, CofC=z * t * S * e * N1,
               theta=-S * e * n * s / (2 * st) - z * (b - r) * S * e * N1 - z * r * K * E * N2)
    if via == "dict":
        g = o.greeks(call=call)
        W.check("greek names", sorted(g) == sorted(["delta", "theta", "vega", "rho", "lambda", "gamma", "CofC"]))
    elif via == "method":
        g = dict(delta=o.delta(call=call), theta=o.theta(call=call), vega=o.vega(), gamma=o.gamma(), CofC=o.c_of_c(call=call))
        g["lambda"] = o.lamb(call=call)
    else:
        g = dict(delta=o.delta(call, "analytic"), theta=o.theta(call, "analytic"), vega=o.vega("analytic"),
                 gamma=o.gamma("analytic"), CofC=o.c_of_c(call))
        g["lambda"] = o.lamb(call, "analytic")
    for k, v in ref.items():
        W.eq(f"{k} closed form", g[k], v)
    W.eq("lambda is delta * S / price", g["lambda"] * price(o, call), g["delta"] * S)
    T = 2e-4
    W.eq("delta = dV/dS", g["delta"], W.dexact(lambda x: price(mk(S=x), call), S), tol=T)
    W.eq("gamma = d2V/dS2", g["gamma"], W.dexact(lambda x: price(mk(S=x), call), S, 2), tol=1e-2, scale=0.1)
    W.eq("vega = dV/dsigma", g["vega"], W.dexact(lambda x: price(mk(s=x), call), s), tol=T)
    W.eq("theta = -dV/dt", g["theta"], -W.dexact(lambda x: price(mk(t=x), call), t), tol=T)
    if name != "Black76Option":
        W.eq("CofC = dV/db", g["CofC"], W.dexact(lambda x: price(mk(b=x), call), b), tol=T)


def h_rho(W, name, call, case, via):
    """rho: dV/dr where the cost of carry moves with r (b = r - q), and for b = 0 (futures) where it does not."""
    S, K, t, r, b, s, mk = obj(W, name, b=0 if case == "zero" else None)
    if case == "nonzero" and name != "Black76Option":
        W.assume(W.Or(b < 0, 0 < b))
    o = mk()
    z = 1 if call else -1
    rho = o.greeks(call=call)["rho"] if via == "dict" else (o.rho(call=call) if via == "method" else o.rho(call, "analytic"))
    if case == "zero":
        W.eq("rho (b = 0)", rho, -t * price(o, call))
        W.eq("rho = dV/dr at b = 0", rho, W.dexact(lambda x: price(mk(r=x), call), r), tol=2e-4)
    else:
        d1, d2 = d12(W, S, K, t, b, s)
        W.eq("rho (b != 0)", rho, z * t * K * W.exp(-r * t) * W.Phi(z * d2))
        q = r - b
        W.eq("rho = dV/dr with the yield r - b fixed", rho, W.dexact(lambda x: price(mk(r=x, b=x - q), call), r), tol=2e-4)


def h_parity(W, name):
    """Put greeks follow from call greeks by put-call parity."""
    S, K, t, r, b, s, mk = obj(W, name)
    o = mk()
    W.eq("delta parity", o.delta(True) - o.delta(False), W.exp((b - r) * t))
    W.eq("theta parity", o.theta(True) - o.theta(False), -(b - r) * S * W.exp((b - r) * t) - r * K * W.exp(-r * t))
    W.eq("CofC parity", o.c_of_c(True) - o.c_of_c(False), t * S * W.exp((b - r) * t))
    W.le("call delta in [0, e^(b-r)t]", 0, o.delta(True))
    W.le("call delta below carry factor", o.delta(True), W.exp((b - r) * t))
    W.le("put delta not positive", o.delta(False), 0)
    W.le("gamma not negative", 0, o.gamma())
    W.le("vega not negative", 0, o.vega())


def CASES(tier):
    out = []
    for n in ("GBSOption", "BlackScholesOption", "Black76Option"):
        for c in (True, False):
            for via in ("dict", "method", "named"):
                out.append(dict(name=f"{n}-{'call' if c else 'put'}-{via}", harness="h_greeks", params=dict(name=n, call=c, via=via), val_tol=1e-3))
                for case in (("zero",) if n == "Black76Option" else ("zero", "nonzero")):
                    out.append(dict(name=f"rho-{n}-{'call' if c else 'put'}-{case}-{via}", harness="h_rho",
                                    params=dict(name=n, call=c, case=case, via=via), val_tol=1e-3))
        out.append(dict(name=f"parity-{n}", harness="h_parity", params=dict(name=n)))
    return out
