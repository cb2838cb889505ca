"""C13: The Miltersen-Schwartz price uses the integrated variances of its factors."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="unbounded: all real inputs at once (all volatilities, correlations and reversion speeds; Pt, FT, K > 0, 0 < t <= T)", thorough="as quick")
OUTSIDE = "rounding; the accuracy of N (its own property)"
ASSUMPTIONS = ["the integrated variance is positive (correlations form a covariance matrix)"]
CLS = SHORT["MiltersenSchwartzOption"]


class Exps:
    """Sums of c * exp((i*kE + j*kF) u) in the integration variable u: {(i, j): c}."""

    def __init__(self, d):
        self.d = d

    def __mul__(self, o):
        r = {}
        for (a, b), x in self.d.items():
            for (c, e), y in o.d.items():
                r[a + c, b + e] = r.get((a + c, b + e), 0) + x * y
        return Exps(r)

    def integral(self, W, t, kE, kF):
        out = 0
        for (i, j), c in self.d.items():
            lam = i * kE + j * kF
            out = out + (c * t if (i, j) == (0, 0) else c * (W.exp(lam * t) - 1) / lam)
        return out


def moments(W, p):
    t, T, kE, kF = p["t"], p["T"], p["KappaE"], p["KappaF"]
    S = Exps({(0, 0): p["sigmaS"]})
    E = Exps({(0, 0): -p["sigmaE"] / kE, (1, 0): p["sigmaE"] / kE * W.exp(-kE * T)})
    F = Exps({(0, 0): p["sigmaF"] / kF, (0, 1): -p["sigmaF"] / kF * W.exp(-kF * T)})
    P = Exps({(0, 0): p["sigmaF"] / kF, (0, 1): -p["sigmaF"] / kF * W.exp(-kF * t)})  # bond maturing with the option
    I = lambda x: x.integral(W, t, kE, kF)
    var = I(S * S) + I(E * E) + I(F * F) + 2 * (p["rhoSE"] * I(S * E) + p["rhoSF"] * I(S * F) + p["rhoEF"] * I(E * F))
    cov = p["rhoSF"] * I(S * P) + p["rhoEF"] * I(E * P) + I(F * P)
    return var, cov


def h_price(W, how, same=False):
    p = inputs(W, MS)
    if same:
        p["T"] = p["t"]
    else:
        W.assume(p["t"] <= p["T"])
    C = cls(W, CLS)
    if how == "keyword":
        o = C(**p)
    elif how == "positional":
        o = C(*p.values())
    else:
        q = dict(p, KappaE=W.pos("kEx", 0.5, 1.5), sigmaF=W.pos("sFx", 0.005, 0.05), rhoEF=W.real("rEFx", -0.5, 0.5))
        o = C(**q)
        for k in ("KappaE", "sigmaF", "rhoEF"):
            o.set_param(k, p[k])
    var, cov = moments(W, p)
    W.assume(0 < var)
    v = W.sqrt(var)
    d1 = (W.log(p["FT"] / p["K"]) - cov + var / 2) / v
    G = p["FT"] * W.exp(-cov)
    c, q = o.call(), o.put()
    W.eq("call", c, p["Pt"] * (G * W.Phi(d1) - p["K"] * W.Phi(d1 - v)), tol=1e-8)
    W.eq("put", q, p["Pt"] * (p["K"] * W.Phi(v - d1) - G * W.Phi(-d1)), tol=1e-8)
    W.eq("parity", c - q, p["Pt"] * (G - p["K"]), tol=1e-8)


def CASES(tier):
    return [dict(name=f"{h}{'-T=t' if s else ''}", harness="h_price", params=dict(how=h, same=s), z3_timeout=3000) for h in ("keyword", "positional", "changed") for s in (False, True)]
