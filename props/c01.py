"""C01: closed-form prices of the Black-Scholes family."""
from .common import *  # noqa: F401,F403

BOUNDS = dict(quick="all real S, K, t, sigma > 0 and all real r, b; scalar arguments (arrays: C06)",
              thorough="as quick")
OUTSIDE = "rounding of floating point (checked in exact real arithmetic); the numerical value of Phi (decided by C07)"
ASSUMPTIONS = ["the normal distribution function is an uninterpreted function Phi with 0 < Phi < 1 and Phi(-x) = 1 - Phi(x)"]


def h_gbs(W, name="GBSOption", kw=False):
    p = inputs(W, GBS)
    C = cls(W, name)
    o = C(**p) if kw else C(*p.values())
    S, K, t, r, b, s = p.values()
    W.eq("call", o.call(), gbs(W, S, K, t, r, b, s, True))
    W.eq("put", o.put(), gbs(W, S, K, t, r, b, s, False))
    W.eq("parity", o.call() - o.put(), S * W.exp((b - r) * t) - K * W.exp(-r * t))


def h_black76(W, kw=False):
    p = inputs(W, B76)
    FT, K, t, r, s = p.values()
    o = W.fo.Black76Option(**p) if kw else W.fo.Black76Option(*p.values())
    g = W.fo.GBSOption(FT, K, t, r, 0, s)
    W.eq("call", o.call(), gbs(W, FT, K, t, r, 0, s, True))
    W.eq("put", o.put(), gbs(W, FT, K, t, r, 0, s, False))
    W.eq("call is the zero-carry GBS call", o.call(), g.call())
    W.eq("put is the zero-carry GBS put", o.put(), g.put())
    W.eq("parity", o.call() - o.put(), W.exp(-r * t) * (FT - K))


def h_relations(W):
    """Symmetries that do not go through the reference formula."""
    p = inputs(W, GBS)
    S, K, t, r, b, s = p.values()
    G = W.fo.GBSOption
    o = G(S, K, t, r, b, s)
    W.eq("put-call symmetry", o.put(), G(K, S, t, r - b, -b, s).call())
    W.eq("BlackScholesOption is GBSOption", W.fo.BlackScholesOption(S, K, t, r, b, s).call(), o.call())
    W.eq("BlackScholesOption is GBSOption (put)", W.fo.BlackScholesOption(S, K, t, r, b, s).put(), o.put())
    F = S * W.exp(b * t)
    W.eq("price of the forward", o.call(), W.fo.Black76Option(F, K, t, r, s).call())
    W.eq("total variance only", o.call() * W.exp(r * t), G(S, K, 4 * t, r / 4, b / 4, s / 2).call() * W.exp(r * t))
    W.le("call below the forward value", o.call(), S * W.exp((b - r) * t))
    W.le("put below the discounted strike", o.put(), K * W.exp(-r * t))


def CASES(tier):
    out = [dict(name=f"{n}{'-kw' if k else ''}", harness="h_gbs", params=dict(name=n, kw=k))
           for n in ("GBSOption", "BlackScholesOption") for k in (False, True)]
    out += [dict(name=f"black76{'-kw' if k else ''}", harness="h_black76", params=dict(kw=k)) for k in (False, True)]
    out.append(dict(name="relations", harness="h_relations"))
    return out
