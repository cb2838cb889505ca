"""C18: Heston-Nandi prices and greeks come from one characteristic function."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="1 to 3 days to maturity, all real parameters; purity up to 3 days", thorough="as quick; purity up to 6 days")
OUTSIDE = "more days than the bound; accuracy of the numerical quadrature; branch of the complex logarithm"
ASSUMPTIONS = ["scipy.integrate.quad returns the integral of the function it is given",
               "differentiation under the integral sign", "the recursion's complex logarithms are on the principal branch on both sides"]
PAR = dict(S=("p", 80, 120), K=("p", 80, 120), r=("r", 0.0, 0.02), lamb=("r", -0.5, 2), omega=("p", 0.01, 0.03), alpha=("p", 0.005, 0.02),
           beta=("p", 0.3, 0.6), gamma=("r", -2, 2))
INF = float("inf")


def cls_hn(W):
    return W.fo.heston_nandi_options.HestonNandiOption


def make(W, p, t, how):
    C = cls_hn(W)
    a = dict(S=p["S"], K=p["K"], t=t, r=p["r"], lamb=p["lamb"], omega=p["omega"], alpha=p["alpha"], beta=p["beta"], gamma=p["gamma"])
    return C(*a.values()) if how == "positional" else C(**a)


def inp(W):
    p = inputs(W, PAR)
    g = p["gamma"] + p["lamb"] + 0.5
    W.assume(p["beta"] + p["alpha"] * g * g < 1)
    return p


def charfn(W, z, p, t):
    """Generating function E[S_T^z] / S^z of the risk-neutral GARCH(1,1), first variance stationary (z complex)."""
    lam, gam = -0.5, p["gamma"] + p["lamb"] + 0.5
    om, al, be, r = p["omega"], p["alpha"], p["beta"], p["r"]
    A = B = 0
    for _ in range(t):
        u = 1 - 2 * al * B
        A = A + z * r + B * om - (W.log(u) / 2 if _ else 0)
        B = z * (lam + gam) - gam * gam / 2 + be * B + (z - gam) ** 2 / 2 / u
    h = (om + al) / (1 - be - al * gam * gam)
    return A + B * h


def integrand(W, q, c, p, t):
    i = 1j * q
    z = i + c
    e = W.exp(-i * W.log(p["K"]) + z * W.log(p["S"]) + charfn(W, z, p, t))
    return W.re(e / i) / W.pi


def price(W, p, t, call):
    D = W.exp(-p["r"] * t)
    I1 = W.integral(lambda q: integrand(W, q, 1, p, t), 0, INF)
    I0 = W.integral(lambda q: integrand(W, q, 0, p, t), 0, INF)
    c = p["S"] / 2 + D * I1 - p["K"] * D * (0.5 + I0)
    return c if call else c + p["K"] * D - p["S"]


def h_price(W, t, how):
    p = inp(W)
    o = make(W, p, t, how)
    W.eq("call", o.call(), price(W, p, t, True), tol=1e-5)


def h_put(W, t, how):
    p = inp(W)
    o = make(W, p, t, how)
    W.eq("parity", o.call() - o.put(), p["S"] - p["K"] * W.exp(-p["r"] * t), tol=1e-9)


def h_delta(W, t, how, call):
    p = inp(W)
    o = make(W, p, t, how)
    d = o.delta() if how == "default" else (o.delta(call) if how == "positional" else o.delta(call=call))
    f = lambda s: make(W, dict(p, S=s), t, how).call() if call else make(W, dict(p, S=s), t, how).put()
    W.eq("delta", d, W.dexact(f, p["S"]), tol=1e-3, scale=10)
    if not call:
        W.eq("put delta", d, o.delta(call=True) - 1, tol=1e-9)


def h_gamma(W, t, how):
    p = inp(W)
    o = make(W, p, t, how)
    g = o.gamma()
    if W.symbolic:
        W.eq("gamma", g, W.dexact(lambda s: make(W, dict(p, S=s), t, how).call(), p["S"], n=2))
    else:  # the delta is already known to be the derivative of the price
        W.eq("gamma", g, W.dexact(lambda s: make(W, dict(p, S=s), t, how).delta(), p["S"]), tol=1e-3, scale=1)


def h_state(W, t):
    """Pricing does not disturb the object or later prices."""
    p = inp(W)
    o = make(W, p, t, "keyword")
    a = o.call()
    o.put(), o.delta(), o.gamma(), o.delta(call=False)
    W.eq("price unchanged", o.call(), a)


def CASES(tier):
    days = (1, 2, 3)
    out = []
    for t in days:
        for how in ("keyword", "positional"):
            out.append(dict(name=f"price-{how}-{t}", harness="h_price", params=dict(t=t, how=how), val_tol=1e-3, samples=2))
            out.append(dict(name=f"put-{how}-{t}", harness="h_put", params=dict(t=t, how=how), val_tol=1e-3, samples=2))
            out.append(dict(name=f"gamma-{how}-{t}", harness="h_gamma", params=dict(t=t, how=how), val_tol=1e-2, samples=1))
            for call in (True, False):
                out.append(dict(name=f"delta-{how}-{'call' if call else 'put'}-{t}", harness="h_delta", params=dict(t=t, how=how, call=call), val_tol=1e-2, samples=1))
        out.append(dict(name=f"delta-default-{t}", harness="h_delta", params=dict(t=t, how="default", call=True), val_tol=1e-2, samples=1))
        out.append(dict(name=f"state-{t}", harness="h_state", params=dict(t=t), val_tol=1e-3, samples=1))
    if tier == "thorough":
        out += [dict(name=f"state-{t}", harness="h_state", params=dict(t=t), val_tol=1e-3, samples=1) for t in (4, 5, 6)]
    return out
