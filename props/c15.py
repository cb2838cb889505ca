"""C15: The Bjerksund-Stensland price and trigger follow the 1993 formulas."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="all real inputs; every branch", thorough="as quick, plus repeated parameter changes")
OUTSIDE = "rounding; inputs at which the published flat boundary is undefined (beta = 1, B_infinity = B_0)"
ASSUMPTIONS = ["r > 0 for calls; for puts r - b > 0 or r <= 0 (the transformed rate must allow a real exponent)"]
CLS = SHORT["BSAmericanApproxOption"]


def phi(W, S, T, gamma, H, I, r, b, s):
    lam = (-r + gamma * b + gamma * (gamma - 1) * s * s / 2) * T
    v = s * W.sqrt(T)
    d = -(W.log(S / H) + (b + (gamma - 0.5) * s * s) * T) / v
    kappa = 2 * b / (s * s) + (2 * gamma - 1)
    return W.exp(lam + gamma * W.log(S)) * (W.Phi(d) - W.exp(kappa * W.log(I / S)) * W.Phi(d - 2 * W.log(I / S) / v))


def trigger(W, X, T, r, b, s):
    beta = (0.5 - b / (s * s)) + W.sqrt((b / (s * s) - 0.5) ** 2 + 2 * r / (s * s))
    Binf = beta / (beta - 1) * X
    B0 = W.max(X, r / (r - b) * X)
    h = -(b * T + 2 * s * W.sqrt(T)) * B0 / (Binf - B0)
    return B0 + (Binf - B0) * (1 - W.exp(h)), beta


def held(W, S, X, T, r, b, s, I, beta):
    """Published price below the trigger."""
    alpha = (I - X) * W.exp(-beta * W.log(I))
    f = lambda g, H: phi(W, S, T, g, H, I, r, b, s)
    return (alpha * W.exp(beta * W.log(S)) - alpha * f(beta, I) + f(1, I) - f(1, X) - X * f(0, I) + X * f(0, X))


def h_price(W, call, how, branch):
    C = cls(W, CLS)
    p = inputs(W, AM, b=W.real("b", -0.1, 0.15))
    # gaps keep the exponents simple
    g = W.pos("gap", 0.005, 0.1)
    if call:
        r = W.pos("r", 0.02, 0.15)
        b = r + g if branch == "european" else r - g
        if branch == "equal":
            b = r
    else:
        # put: transformed rate r - b, transformed carry -b; early exercise possible iff -b < r - b iff r > 0
        r = W.pos("r", 0.02, 0.15)
        b = {"american": r - g, "carry-above": r + g, "carry-equal": r}.get(branch)
        b = W.real("b", -0.1, 0.15) if b is None else b
        if branch == "european":
            r = -g
        if branch == "equal":
            r = 0
    p.update(r=r, b=b)
    if how == "changed":
        q = dict(p, b=W.real("bx", -0.1, 0.15), sigma=W.pos("sx", 0.15, 0.6), S=W.pos("Sx", 80, 125))
        o = C(**q)
        for k in ("S", "b", "sigma"):
            o.set_param(k, p[k])
    else:
        o = C(*p.values()) if how == "positional" else C(**p)
    if call:
        S, X, r, b = p["S"], p["K"], p["r"], p["b"]
    else:
        S, X, r, b = p["K"], p["S"], p["r"] - p["b"], -p["b"]
    T, s = p["t"], p["sigma"]
    v = o.call() if call else o.put()
    W.same("keys", sorted(v), ["OptionPrice", "TriggerPrice"])
    if branch in ("european", "equal"):
        W.eq("European price", v["OptionPrice"], gbs(W, S, X, T, r, b, s), tol=1e-9)
        W.check("no trigger", W.Not(v["TriggerPrice"] == v["TriggerPrice"]))
        return
    I, beta = trigger(W, X, T, r, b, s)
    W.eq("trigger", v["TriggerPrice"], I, tol=1e-9, cut=True)
    if W.truth(S >= I):
        W.eq("intrinsic value", v["OptionPrice"], S - X, tol=1e-9)
    else:
        W.eq("published formula", v["OptionPrice"], held(W, S, X, T, r, b, s, I, beta), tol=1e-7)


def CASES(tier):
    out = []
    for call in (True, False):
        s = "call" if call else "put"
        for br in ("american", "european", "equal") + (() if call else ("carry-above", "carry-equal")):
            for how in ("keyword", "positional", "changed"):
                out.append(dict(name=f"{s}-{br}-{how}", harness="h_price", params=dict(call=call, how=how, branch=br), val_tol=1e-6))
    return out
